mod checks_graph;
mod checks_match;
mod checks_trav;
mod gen;
mod lib_api;
mod model;
mod runner;

use runner::{Check, Tier};

const IDS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
    "C14", "C15", "C16", "C17", "C18",
];

fn check(id: &str, t: Tier) -> Option<Check> {
    Some(match id {
        "C01" => checks_graph::c01(t),
        "C02" => checks_graph::c02(t),
        "C03" => checks_graph::c03(t),
        "C04" => checks_graph::c04(t),
        "C05" => checks_trav::c05(t),
        "C06" => checks_trav::c06(t),
        "C07" => checks_trav::c07(t),
        "C08" => checks_trav::c08(t),
        "C09" => checks_trav::c09(t),
        "C10" => checks_trav::c10(t),
        "C11" => checks_match::c11(t),
        "C12" => checks_trav::c12(t),
        "C13" => checks_match::c13(t),
        "C14" => checks_match::c14(t),
        "C15" => checks_trav::c15(t),
        "C16" => checks_trav::c16(t),
        "C17" => checks_graph::c17(t),
        "C18" => checks_graph::c18(t),
        _ => return None,
    })
}

fn tier(s: &str) -> Tier {
    match s {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => usage(),
    }
}

fn usage() -> ! {
    eprintln!("usage: mc run ID quick|thorough | mc one ID TIER STAGE INDEX | mc list");
    std::process::exit(2)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    let code = match s[1..] {
        ["run", id, t] => {
            let t = tier(t);
            if !IDS.contains(&id) {
                usage()
            }
            // stage names are only needed if the exploring process dies
            runner::parent(id, t, &|| {
                check(id, t).map(|c| c.stages.iter().map(|s| s.name).collect()).unwrap_or_default()
            })
        }
        ["child", id, t, slots, skip] => {
            let t = tier(t);
            let cap = std::env::var("MC_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(t.pick(600, 5400));
            runner::child(check(id, t).unwrap_or_else(|| usage()), t, slots, cap, skip == "skip")
        }
        ["one", id, t, st, ix, ref rest @ ..] => {
            let ix: u64 = ix.parse().unwrap_or_else(|_| usage());
            runner::one(check(id, tier(t)).unwrap_or_else(|| usage()), tier(t), st, ix, rest.first().copied())
        }
        ["list"] => {
            println!("{}", IDS.join("\n"));
            0
        }
        _ => usage(),
    };
    std::process::exit(code);
}
