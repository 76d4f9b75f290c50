//! C11, C13, C14: pairings and maximum matching.

use crate::checks_trav::spread;
use crate::gen::*;
use crate::lib_api::*;
use crate::model::*;
use crate::runner::*;
use gamma::graph::Graph;
use gamma::matching::{greedy, maximum_matching, Pairing};
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------ C11

#[derive(Clone, Debug)]
enum Pop {
    Pair(usize, usize),
    Augment(Vec<usize>),
}

/// Reference matching: a map kept symmetric by construction.
#[derive(Clone, Default, PartialEq, Debug)]
struct PM(BTreeMap<usize, usize>);

impl PM {
    fn pair(&mut self, a: usize, b: usize) {
        for x in [a, b] {
            if let Some(y) = self.0.remove(&x) {
                self.0.remove(&y);
            }
        }
        self.0.insert(a, b);
        self.0.insert(b, a);
    }
    fn run(&mut self, o: &Pop) {
        match o {
            Pop::Pair(a, b) => self.pair(*a, *b),
            Pop::Augment(p) => {
                if p.len() % 2 == 0 {
                    for c in p.chunks(2) {
                        self.pair(c[0], c[1]);
                    }
                }
            }
        }
    }
    fn edges(&self) -> Vec<Edge> {
        self.0.iter().filter(|x| x.0 < x.1).map(|(&a, &b)| (a, b)).collect()
    }
}

fn pview(p: &Pairing, m: &PM, ids: &[usize], missing: bool) -> Result<u64, String> {
    let mut e: Vec<Edge> = p.edges().collect();
    e.sort();
    if e != m.edges() {
        return Err(format!("edges() = {:?}, expected {:?}", e, m.edges()));
    }
    if p.order() != m.0.len() {
        return Err(format!("order() = {}, expected {}", p.order(), m.0.len()));
    }
    for &x in ids {
        let want = m.0.get(&x);
        if p.has_node(x) != want.is_some() {
            return Err(format!("has_node({}) = {}, expected {}", x, p.has_node(x), want.is_some()));
        }
        if let Some(&y) = want {
            if p.mate(x) != y {
                return Err(format!("mate({}) = {}, expected {}", x, p.mate(x), y));
            }
        } else if missing && guarded(|| p.mate(x)).is_ok() {
            return Err(format!("mate({}) returned {} for an unmatched node", x, p.mate(x)));
        }
    }
    Ok(3 + 2 * ids.len() as u64)
}

fn prun(p: &mut Pairing, o: &Pop) -> Result<(), String> {
    match o {
        Pop::Pair(a, b) => p.pair(*a, *b),
        Pop::Augment(v) => {
            if v.len() % 2 == 1 {
                if guarded(|| p.augment(v.clone())).is_ok() {
                    return Err(format!("augment({:?}) with an odd number of nodes was not refused", v));
                }
            } else {
                p.augment(v.clone())
            }
        }
    }
    Ok(())
}

fn phistory(ops: &[Pop], obs: u64, ids: &[usize], st: &mut Stats) -> Result<(), String> {
    let mut p = Pairing::new();
    let mut m = PM::default();
    if obs == u64::MAX {
        pview(&p, &m, ids, false)?;
    }
    for (i, o) in ops.iter().enumerate() {
        prun(&mut p, o).map_err(|e| format!("step {}: {}", i + 1, e))?;
        m.run(o);
        st.transitions += 1;
        if obs >> i & 1 == 1 {
            st.transitions += pview(&p, &m, ids, false).map_err(|e| format!("after step {} ({:?}): {}", i + 1, o, e))?;
        }
    }
    // equality: against a pairing with the same pairs made afresh, reversed
    let mut q = Pairing::new();
    for &(a, b) in m.edges().iter().rev() {
        q.pair(b, a);
    }
    if p != q || q != p {
        return Err(format!("not == a fresh pairing with the same pairs {:?}", m.edges()));
    }
    if let Some(&(a, _)) = m.edges().first() {
        let mut q = Pairing::new();
        for &(c, d) in m.edges().iter().skip(1) {
            q.pair(c, d);
        }
        if p == q || q == p {
            return Err(format!("== a pairing that leaves {} unmatched", a));
        }
    }
    st.transitions += 2;
    st.traces += 1;
    st.states += 1;
    st.outcome(&m.edges());
    Ok(())
}

fn rs_phist(ops: &[Pop]) -> String {
    let mut s = String::from("let mut p = Pairing::new(); ");
    for o in ops {
        match o {
            Pop::Pair(a, b) => s += &format!("p.pair({}, {}); ", a, b),
            Pop::Augment(v) => s += &format!("p.augment(vec!{:?}); ", v),
        }
    }
    s
}

fn pair_ops(ids: &[usize]) -> Vec<Pop> {
    let mut v = vec![];
    for &a in ids {
        for &b in ids {
            if a != b {
                v.push(Pop::Pair(a, b));
            }
        }
    }
    v
}

fn paths(ids: &[usize], len: usize) -> Vec<Vec<usize>> {
    if len == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in paths(ids, len - 1) {
        for &x in ids {
            if !p.contains(&x) {
                let mut q = p.clone();
                q.push(x);
                out.push(q);
            }
        }
    }
    out
}

fn pseq(al: &[Pop], len: usize, cur: &mut Vec<Pop>, f: &mut dyn FnMut(&[Pop]) -> R) -> R {
    if cur.len() == len {
        return f(cur);
    }
    for o in al {
        cur.push(o.clone());
        pseq(al, len, cur, f)?;
        cur.pop();
    }
    Ok(())
}

pub fn c11(t: Tier) -> Check {
    let mut s = vec![];
    for (name, ids, depth) in [
        ("pairs_4_ids", vec![0usize, 1, 2, 3], t.pick(6usize, 7usize)),
        ("pairs_5_ids", vec![4, 0, 2, 1, 3], t.pick(5, 6)),
        ("pairs_6_ids", vec![0, 1, 2, 3, 4, 5], t.pick(4, 5)),
        ("pairs_4_sparse_ids", vec![usize::MAX, 0, 1 << 32, 1], t.pick(5, 6)),
    ] {
        let al = pair_ops(&ids);
        let k = al.len() as u64;
        let mut probe = ids.clone();
        probe.extend([77, 1, (1 << 32) + 1]);
        s.push(stage(
            name,
            format!("all sequences of {} pair(a, b) calls over ids {:?} (a != b), observed after every call; of each length up to {}, observed at the end only", depth, ids, depth),
            k * k,
            move |i, cx| {
                let pre = vec![al[(i / k) as usize].clone(), al[(i % k) as usize].clone()];
                for len in 2..=depth {
                    pseq(&al, len, &mut pre.clone(), &mut |ops| {
                        cx.case(|| rs_phist(ops), |st| phistory(ops, 1 << (len - 1), &probe, st))?;
                        if len == depth {
                            cx.case(|| rs_phist(ops) + "// observed after each call", |st| phistory(ops, u64::MAX, &probe, st))?;
                        }
                        Ok(())
                    })?;
                }
                Ok(())
            },
        ));
    }
    // pairs and augmentations mixed
    {
        let mut al = pair_ops(&[0, 1, 2, 3]);
        al.push(Pop::Augment(vec![]));
        al.push(Pop::Augment(vec![2, 0, 1]));
        al.extend(paths(&[0, 1, 2, 3], 4).into_iter().map(Pop::Augment));
        let k = al.len() as u64;
        let depth = t.pick(4usize, 5);
        s.push(stage(
            "mixed_4_ids",
            format!("all sequences of up to {} calls over 4 ids: pair, augment along every path of 4 nodes, along the empty one, along an odd one (refused)", depth),
            k * k,
            move |i, cx| {
                let pre = vec![al[(i / k) as usize].clone(), al[(i % k) as usize].clone()];
                for len in 2..=depth {
                    pseq(&al, len, &mut pre.clone(), &mut |ops| cx.case(|| rs_phist(ops), |st| phistory(ops, 1 << (len - 1), &[0, 1, 2, 3, 77], st)))?;
                }
                Ok(())
            },
        ));
    }
    // augmentation along every simple path from every matching
    for (name, n, maxlen) in [("augment_4", 4usize, 4usize), ("augment_5", 5, 5), ("augment_6", 6, 6)] {
        let ids: Vec<usize> = (0..n).collect();
        let full = RG::from_edges(&ids, &pairs(n, false));
        let mut starts: Vec<Vec<Edge>> = vec![];
        let _ = each_matching::<()>(&full, &mut |m| {
            starts.push(m.to_vec());
            Ok(())
        });
        let mut al: Vec<Vec<usize>> = vec![];
        for l in 0..=maxlen {
            al.extend(paths(&ids, l));
        }
        let twice = n < 6 && (n == 4 || t.thorough());
        s.push(stage(
            name,
            format!("all {} matchings on {} ids x all {} simple paths of <= {} nodes (odd ones must be refused and change nothing){}", starts.len(), n, al.len(), maxlen, if twice { " x a second such path" } else { "" }),
            (starts.len() * al.len()) as u64,
            move |i, cx| {
                let m = &starts[i as usize % starts.len()];
                let p = &al[i as usize / starts.len()];
                let mut ops: Vec<Pop> = m.iter().map(|&(a, b)| Pop::Pair(a, b)).collect();
                ops.push(Pop::Augment(p.clone()));
                let probe: Vec<usize> = (0..n + 1).collect();
                cx.case(|| rs_phist(&ops), |st| phistory(&ops, u64::MAX, &probe, st))?;
                if twice {
                    for q in &al {
                        let mut o2 = ops.clone();
                        o2.push(Pop::Augment(q.clone()));
                        cx.case(|| rs_phist(&o2), |st| phistory(&o2, u64::MAX, &probe, st))?;
                    }
                }
                // a call after the refused or performed augmentation
                for o in pair_ops(&(0..n.min(4)).collect::<Vec<_>>()) {
                    let mut o2 = ops.clone();
                    o2.push(o);
                    cx.case(|| rs_phist(&o2), |st| phistory(&o2, u64::MAX, &probe, st))?;
                }
                Ok(())
            },
        ));
    }
    // longer paths; which nodes they are does not matter, so they are 0..l
    for (name, l) in [("augment_path_6", 6usize), ("augment_path_8", 8), ("augment_path_10", 10)] {
        if l == 10 && !t.thorough() {
            continue;
        }
        let n = l + 2;
        let full = RG::from_edges(&(0..n).collect::<Vec<_>>(), &pairs(n, false));
        let mut starts: Vec<Vec<Edge>> = vec![];
        let _ = each_matching::<()>(&full, &mut |m| {
            starts.push(m.to_vec());
            Ok(())
        });
        s.push(stage(
            name,
            format!("all {} matchings on {} ids x the path 0..{} in both directions, under 3 id maps; then along it a second time, along its first two and last two nodes, and pair calls", starts.len(), n, l),
            starts.len() as u64,
            move |i, cx| {
                let m = &starts[i as usize];
                let maps: [fn(usize) -> usize; 3] = [|x| x, |x| usize::MAX - x, |x| (x * 7 % 12) << 32];
                for f in maps {
                    for rev in [false, true] {
                        let mut path: Vec<usize> = (0..l).map(f).collect();
                        if rev {
                            path.reverse();
                        }
                        let mut ops: Vec<Pop> = m.iter().map(|&(a, b)| Pop::Pair(f(a), f(b))).collect();
                        ops.push(Pop::Augment(path.clone()));
                        let probe: Vec<usize> = (0..n + 1).map(f).collect();
                        for last in [
                            vec![],
                            vec![Pop::Augment(path.clone())],
                            vec![Pop::Augment(path[..2].to_vec()), Pop::Augment(path[l - 2..].to_vec())],
                            vec![Pop::Augment(path[1..l - 1].to_vec())],
                            vec![Pop::Pair(path[1], path[2]), Pop::Pair(path[l - 2], path[0])],
                        ] {
                            let mut o2 = ops.clone();
                            o2.extend(last);
                            cx.case(|| rs_phist(&o2), |st| phistory(&o2, u64::MAX, &probe, st))?;
                        }
                    }
                }
                Ok(())
            },
        ));
    }
    // unmatched nodes have no mate
    s.push(stage(
        "mate_of_unmatched",
        "all matchings on 5 ids, mate() asked of every id: unmatched ones must be refused",
        1,
        |_, cx| {
            let full = RG::from_edges(&[0, 1, 2, 3, 4], &pairs(5, false));
            each_matching(&full, &mut |m| {
                cx.case(|| format!("pairing {:?}, mate of every id", m), |st| {
                    let p = pairing_of(m);
                    let mut r = PM::default();
                    for &(a, b) in m {
                        r.pair(a, b);
                    }
                    st.states += 1;
                    st.traces += 1;
                    st.transitions += pview(&p, &r, &[0, 1, 2, 3, 4, 5, usize::MAX], true)?;
                    Ok(())
                })
            })
        },
    ));
    // equality between all matchings
    s.push(stage(
        "equality",
        "all ordered pairs of matchings on 6 ids, built by pairing directly and after other pairs were made and undone",
        76,
        |i, cx| {
            let full = RG::from_edges(&[0, 1, 2, 3, 4, 5], &pairs(6, false));
            let mut all: Vec<Vec<Edge>> = vec![];
            let _ = each_matching::<()>(&full, &mut |m| {
                all.push(m.to_vec());
                Ok(())
            });
            let a = match all.get(i as usize) {
                Some(a) => a.clone(),
                None => return Ok(()),
            };
            for b in &all {
                cx.case(|| format!("pairings {:?} and {:?} compared", a, b), |st| {
                    let want = a.iter().collect::<BTreeSet<_>>() == b.iter().collect::<BTreeSet<_>>();
                    let p = pairing_of(&a);
                    let q = pairing_of(b);
                    // detour: rotate partners first
                    let mut r = Pairing::new();
                    for k in 0..6 {
                        r.pair(k, (k + 1) % 6);
                    }
                    for &(x, y) in b {
                        r.pair(y, x);
                    }
                    let mut m = PM::default();
                    for k in 0..6 {
                        m.pair(k, (k + 1) % 6);
                    }
                    for &(x, y) in b {
                        m.pair(y, x);
                    }
                    st.states += 1;
                    st.traces += 1;
                    st.transitions += 4;
                    if (p == q) != want || (q == p) != want {
                        return Err(format!("p == q is {}, expected {}", p == q, want));
                    }
                    let want2 = m.edges() == { let mut v: Vec<Edge> = a.clone(); v.sort(); v };
                    if (p == r) != want2 || (r == p) != want2 {
                        return Err(format!("comparison after a detour is {}, expected {}", p == r, want2));
                    }
                    Ok(())
                })?;
            }
            Ok(())
        },
    ));
    // long histories: many pairs, chains of re-pairing, long paths
    let sizes: Vec<usize> = t.pick((2..=40).chain([63, 64, 65, 66, 100, 127, 128, 129, 130, 256, 257, 260]).collect(), (2..=130).chain([260, 520, 1030]).collect());
    const IDS: &[(&str, fn(usize) -> usize)] = &[
        ("x", |x| x),
        ("x + 1000", |x| x + 1000),
        ("MAX - (x << 16)", |x| usize::MAX - (x << 16)),
        ("2654435761 x mod 2^32", |x| x.wrapping_mul(2_654_435_761) & 0xffff_ffff),
        ("(x / 2) + (x % 2 << 32)", |x| (x / 2) + ((x % 2) << 32)),
        ("(x / 3) + (x % 3 << 8)", |x| ((x / 3) & 0xff) + ((x % 3) << 8) + ((x / 768) << 16)),
        ("x << 32, 63 - x up to 63", |x| if x < 64 { 63 - x } else { x << 32 }),
    ];
    let esizes: Vec<usize> = t.pick(vec![1, 2, 3, 4, 5, 8, 9, 12, 16, 17, 24, 31, 32, 33, 48, 64, 65, 100, 130], (1..=140).chain([255, 256, 257, 520]).collect());
    s.push(stage(
        "equality_long",
        format!("matchings of n pairs, n in {:?}, x {} id maps, against themselves built in other orders and against every matching with one pair left out, added or on other nodes, and with two neighbouring pairs exchanging mates", esizes, IDS.len()),
        (esizes.len() * IDS.len()) as u64,
        move |i, cx| {
            let n = esizes[i as usize / IDS.len()];
            let (map, f) = IDS[i as usize % IDS.len()];
            let base: Vec<Edge> = (0..n).map(|k| (f(2 * k), f(2 * k + 1))).collect();
            let mut others: Vec<(String, Vec<Edge>)> = vec![];
            others.push(("backwards".into(), base.iter().rev().map(|&(a, b)| (b, a)).collect()));
            others.push(("from the middle".into(), base[n / 2..].iter().chain(&base[..n / 2]).cloned().collect()));
            for k in 0..n {
                let mut v = base.clone();
                v.remove(k);
                others.push((format!("without pair {}", k), v));
                let mut v = base.clone();
                v[k] = (v[k].0, f(2 * n + 1));
                others.push((format!("one node of pair {} replaced", k), v));
                let mut v = base.clone();
                v[k] = (f(2 * n), f(2 * n + 1));
                others.push((format!("pair {} replaced", k), v));
                if k > 0 {
                    for j in [k - 1, k / 2] {
                        let mut v = base.clone();
                        (v[k], v[j]) = ((base[k].0, base[j].1), (base[j].0, base[k].1));
                        others.push((format!("pairs {} and {} exchange mates", j, k), v));
                        let mut v = base.clone();
                        (v[k], v[j]) = ((base[k].0, base[j].0), (base[j].1, base[k].1));
                        others.push((format!("pairs {} and {} exchange the first nodes", j, k), v));
                    }
                }
            }
            let mut v = base.clone();
            v.push((f(2 * n), f(2 * n + 1)));
            others.push(("one pair more".into(), v));
            for (what, o) in &others {
                cx.case(|| format!("{} pairs, ids {}; the same {}", n, map, what), |st| {
                    let norm = |v: &[Edge]| v.iter().map(|&(a, b)| (a.min(b), a.max(b))).collect::<BTreeSet<_>>();
                    let want = norm(&base) == norm(o);
                    let (p, q) = (pairing_of(&base), pairing_of(o));
                    for (got, text) in [(p == q, "p == q"), (q == p, "q == p"), (!(p != q), "!(p != q)")] {
                        if got != want {
                            return Err(format!("{} is {}, expected {}", text, got, want));
                        }
                    }
                    st.states += 1;
                    st.traces += 1;
                    st.transitions += 3;
                    Ok(())
                })?;
            }
            Ok(())
        },
    ));
    const LONG: usize = 10;
    s.push(stage(
        "long",
        format!("sizes {:?} x {} patterns (disjoint pairs, chains and stars of re-pairings, exchanges of mates, augmenting the long path once, repeatedly, in windows, pair by pair, ladders of overlapping paths) x {} id maps; has_node also for ids which agree with paired ones in their low or high bits", sizes, LONG, IDS.len()),
        (sizes.len() * LONG * IDS.len()) as u64,
        move |i, cx| {
            let i = i as usize;
            let n = sizes[i / LONG / IDS.len()];
            let (map, f) = IDS[i / LONG % IDS.len()];
            let mut ops = vec![];
            let odd = |ops: &mut Vec<Pop>| (0..n).for_each(|k| ops.push(Pop::Pair(2 * k + 1, 2 * k + 2)));
            match i % LONG {
                0 => (0..n).for_each(|k| ops.push(Pop::Pair(2 * k, 2 * k + 1))),
                1 => (0..n).for_each(|k| ops.push(Pop::Pair(k, k + 1))),
                2 => (0..n).for_each(|k| ops.push(Pop::Pair(k + 1, 0))),
                3 => {
                    odd(&mut ops);
                    ops.push(Pop::Augment((0..2 * n + 2).collect()));
                }
                4 => {
                    odd(&mut ops);
                    ops.push(Pop::Augment((0..2 * n + 2).rev().collect()));
                    ops.push(Pop::Augment((1..2 * n + 1).collect()));
                    ops.push(Pop::Augment((0..2 * n + 1).collect()));
                }
                5 => {
                    // exchange mates between neighbouring pairs, both ways
                    (0..n).for_each(|k| ops.push(Pop::Pair(2 * k + 1, 2 * k)));
                    for k in 0..n - 1 {
                        ops.push(Pop::Pair(2 * k, 2 * k + 3));
                        ops.push(Pop::Pair(2 * k + 2, 2 * k + 1));
                    }
                }
                6 => {
                    odd(&mut ops);
                    // windows of growing length along the path
                    let (mut at, mut len) = (0, 2);
                    while at + len <= 2 * n + 2 {
                        ops.push(Pop::Augment((at..at + len).collect()));
                        at += len / 2;
                        len += 2;
                    }
                }
                7 => {
                    // many pairs, then one node takes everybody's mate in turn
                    odd(&mut ops);
                    (0..n).rev().for_each(|k| ops.push(Pop::Pair(0, 2 * k + 1)));
                    ops.push(Pop::Augment(vec![]));
                }
                8 => {
                    // outside in: each new pair frees two others
                    odd(&mut ops);
                    (0..n / 2).for_each(|k| ops.push(Pop::Pair(2 * k + 1, 2 * (n - 1 - k) + 2)));
                    (0..n / 2).for_each(|k| ops.push(Pop::Augment(vec![2 * (n - 1 - k) + 1, 2 * (n - 1 - k) + 2, 2 * k + 1, 2 * k + 2])));
                }
                _ => {
                    // long paths which run through all pairs from far ends
                    odd(&mut ops);
                    let far: Vec<usize> = (0..n).flat_map(|k| [2 * (k * 7 % n) + 1, 2 * (k * 7 % n) + 2]).collect();
                    let mut seen = BTreeSet::new();
                    let mut far: Vec<usize> = far.into_iter().filter(|&x| seen.insert(x)).collect();
                    far.insert(0, 0);
                    far.push(2 * n + 1);
                    ops.push(Pop::Augment(far.clone()));
                    far.reverse();
                    ops.push(Pop::Augment(far[1..far.len() - 1].to_vec()));
                }
            }
            for o in ops.iter_mut() {
                match o {
                    Pop::Pair(a, b) => (*a, *b) = (f(*a), f(*b)),
                    Pop::Augment(v) => v.iter_mut().for_each(|x| *x = f(*x)),
                }
            }
            cx.case(|| format!("pattern {} size {} ids {}", i % LONG, n, map), |st| {
                let mut p = Pairing::new();
                let mut m = PM::default();
                let step = (ops.len() / 10).max(1);
                for (j, o) in ops.iter().enumerate() {
                    prun(&mut p, o)?;
                    m.run(o);
                    st.transitions += 1;
                    if j % step == 0 || j + 1 == ops.len() || matches!(o, Pop::Augment(_)) {
                        let mut ids: Vec<usize> = m.0.keys().cloned().chain((0..2 * n + 2).map(f)).collect();
                        let alike: Vec<usize> = ids.iter().step_by(ids.len() / 20 + 1).flat_map(|&x| [x & 0xff, x & 0xffff, x & 0xffff_ffff, x ^ (1 << 8), x ^ (1 << 16), x ^ (1 << 32), x ^ (1 << 63), x.wrapping_add(1), x.wrapping_sub(1)]).collect();
                        ids.extend(alike);
                        pview(&p, &m, &ids, false).map_err(|e| format!("after call {}: {}", j + 1, e))?;
                    }
                }
                st.states += 1;
                st.traces += 1;
                Ok(())
            })
        },
    ));
    let sizes: Vec<usize> = t.pick(vec![6, 8, 10, 12, 16, 18, 26, 32, 34, 64, 66, 130], (3..=70).map(|k| 2 * k).chain([256, 258, 260, 512, 1026]).collect());
    s.push(stage(
        "long_paths",
        format!("augmenting paths of {:?} nodes, their nodes unmatched, matched outside the path, with the next node or with a later one by all 256 periodic words of length 4, x {} id maps, in both directions; then again along the path and along its first half", sizes, IDS.len()),
        (sizes.len() * 256) as u64,
        move |i, cx| {
            let len = sizes[i as usize / 256];
            let word: Vec<usize> = (0..4).map(|d| i as usize >> (2 * d) & 3).collect();
            let mut start: Vec<Edge> = vec![];
            let mut taken = BTreeSet::new();
            for k in 0..len {
                if taken.contains(&k) {
                    continue;
                }
                let mate = match word[k % 4] {
                    0 => continue,
                    1 => len + k,
                    2 => k + 1,
                    _ => k + 5,
                };
                if taken.contains(&mate) || (mate < k + 6 && mate >= len) {
                    continue;
                }
                taken.insert(k);
                taken.insert(mate);
                start.push((k, mate));
            }
            for (map, f) in IDS {
                for rev in [false, true] {
                    let mut path: Vec<usize> = (0..len).map(f).collect();
                    if rev {
                        path.reverse();
                    }
                    let mut ops: Vec<Pop> = start.iter().map(|&(a, b)| Pop::Pair(f(a), f(b))).collect();
                    let before = ops.len();
                    ops.push(Pop::Augment(path.clone()));
                    ops.push(Pop::Augment(path[1..len - 1].to_vec()));
                    ops.push(Pop::Augment(path.clone()));
                    ops.push(Pop::Augment(path[..len / 4 * 2].to_vec()));
                    let ids: Vec<usize> = (0..2 * len).map(f).collect();
                    cx.case(|| format!("pairs {:?}, ids {}, then augment along 0..{}{}", start, map, len, if rev { " reversed" } else { "" }), |st| {
                        let mut p = Pairing::new();
                        let mut m = PM::default();
                        for (j, o) in ops.iter().enumerate() {
                            prun(&mut p, o)?;
                            m.run(o);
                            st.transitions += 1;
                            if j >= before {
                                pview(&p, &m, &ids, false).map_err(|e| format!("after call {}: {}", j + 1, e))?;
                            }
                        }
                        st.states += 1;
                        st.traces += 1;
                        Ok(())
                    })?;
                }
            }
            Ok(())
        },
    ));
    Check {
        id: "C11",
        stages: s,
        assumptions: vec!["pair(a, a) and augmentation along a sequence that repeats a node are outside the property: neither denotes a matching operation".into()],
    }
}

// ------------------------------------------------------------------ C13, C14

#[derive(Clone, Copy, PartialEq)]
pub enum Goal {
    /// C13: valid and of maximum size
    Maximum,
    /// C14: keeps matched nodes matched, leaves a maximum matching alone
    Extends,
}

fn judge_start<G: Graph>(goal: Goal, g: &G, m: &RG, max: usize, start: &[Edge], st: &mut Stats) -> Result<(), String> {
    judge_pairing(goal, g, m, max, pairing_of(start), start, st)
}

fn judge_pairing<G: Graph>(goal: Goal, g: &G, m: &RG, max: usize, mut p: Pairing, start: &[Edge], st: &mut Stats) -> Result<(), String> {
    st.states += 1;
    st.transitions += 1;
    st.traces += 1;
    maximum_matching(g, &mut p);
    match goal {
        Goal::Maximum => {
            let es = valid_matching(m, &p)?;
            st.outcome(&es);
            if es.len() != max {
                return Err(format!("{} pairs {}, but a matching with {} pairs exists", es.len(), short(&es), max));
            }
        }
        Goal::Extends => {
            for &(a, b) in start {
                for x in [a, b] {
                    if !p.has_node(x) {
                        let mut es: Vec<Edge> = p.edges().collect();
                        es.sort();
                        return Err(format!("node {} was matched at the start and is not any more; pairs={}", x, short(&es)));
                    }
                }
            }
            if start.len() == max {
                let before = pairing_of(start);
                if p != before {
                    return Err(format!("the start was already maximum but became {}", short(&p.edges().collect::<Vec<_>>())));
                }
            }
            let es: BTreeSet<Edge> = pair_set(&p);
            st.outcome(&es);
            // a second call finds nothing to improve
            maximum_matching(g, &mut p);
            st.transitions += 1;
            if pair_set(&p) != es {
                return Err(format!("a second call changes the result from {:?} to {:?}", es, pair_set(&p)));
            }
        }
    }
    Ok(())
}

fn rs_start(start: &[Edge]) -> String {
    let mut s = String::from("let mut p = Pairing::new(); ");
    for (a, b) in start.iter().take(60) {
        s += &format!("p.pair({}, {}); ", a, b);
    }
    s + "maximum_matching(&g, &mut p)"
}

/// All matchings of the graph as start.
fn all_starts<G: Graph>(goal: Goal, g: &G, m: &RG, desc: &dyn Fn() -> String, cx: &mut Ctx) -> R {
    let max = nu(m);
    each_matching(m, &mut |s| {
        cx.case(|| desc() + &rs_start(s), |st| judge_start(goal, g, m, max, s, st))
    })
}

fn built<F: FnMut(&gamma::graph::DefaultGraph, &mut Ctx) -> R>(
    b: impl Fn() -> Result<gamma::graph::DefaultGraph, String>,
    desc: &dyn Fn() -> String,
    cx: &mut Ctx,
    mut f: F,
) -> R {
    match guarded(&b) {
        Ok(Ok(g)) => f(&g, cx),
        Ok(Err(e)) => cx.case(desc, |_| Err(e)),
        Err(p) => cx.case(desc, |_| Err(format!("panicked while building: {}", p))),
    }
}

/// The distinct maximal matchings found by scanning the edges from every
/// offset, in both directions, plus the empty matching and the greedy one.
fn scanned_starts(m: &RG, limit: usize) -> Vec<Vec<Edge>> {
    let es: Vec<Edge> = m.edges.iter().cloned().filter(|e| e.0 != e.1).collect();
    let mut out: BTreeSet<Vec<Edge>> = BTreeSet::new();
    out.insert(vec![]);
    let step = (es.len() / limit.max(1)).max(1);
    for off in (0..es.len()).step_by(step) {
        for rev in [false, true] {
            let mut cur: Vec<Edge> = vec![];
            let mut used: std::collections::HashSet<usize> = Default::default();
            for k in 0..es.len() {
                let i = (if rev { es.len() - 1 - k } else { k } + off) % es.len();
                let (a, b) = es[i];
                if !used.contains(&a) && !used.contains(&b) {
                    used.insert(a);
                    used.insert(b);
                    cur.push((a, b));
                }
            }
            cur.sort();
            // also with one and two pairs left out
            let mut less = cur.clone();
            out.insert(cur);
            if !less.is_empty() {
                less.remove(less.len() / 2);
                out.insert(less);
            }
        }
    }
    // edges between nodes of low degree first, and of high degree first
    let deg: std::collections::HashMap<usize, usize> = m.nodes.iter().zip(&m.adj).map(|(&n, l)| (n, l.len())).collect();
    let mut by = es.clone();
    by.sort_by_key(|e| deg[&e.0] + deg[&e.1]);
    for rev in [false, true] {
        let mut cur: Vec<Edge> = vec![];
        let mut used: std::collections::HashSet<usize> = Default::default();
        for k in 0..by.len() {
            let (a, b) = by[if rev { by.len() - 1 - k } else { k }];
            if !used.contains(&a) && !used.contains(&b) {
                used.insert(a);
                used.insert(b);
                cur.push((a, b));
            }
        }
        cur.sort();
        out.insert(cur);
    }
    out.into_iter().collect()
}

/// From a node to an unvisited neighbour of least degree, until there is none.
fn chain(m: &RG, from: usize) -> Vec<usize> {
    let at: std::collections::HashMap<usize, usize> = m.nodes.iter().enumerate().map(|(i, &x)| (x, i)).collect();
    let mut seen: std::collections::HashSet<usize> = Default::default();
    let mut out = vec![m.nodes[from]];
    seen.insert(m.nodes[from]);
    loop {
        let here = at[&out[out.len() - 1]];
        let next = m.adj[here].iter().filter(|x| !seen.contains(x)).min_by_key(|x| m.adj[at[x]].len());
        match next {
            Some(&x) => {
                seen.insert(x);
                out.push(x);
            }
            None => return out,
        }
    }
}

/// Starts which are far from maximal, and starts which are maximum or nearly so:
/// single pairs, every second and the last half of the pairs of a scan; a
/// maximum matching of the model, also with one pair or two left out; matchings
/// along a chain whose two ends stay unmatched.
fn thin_starts(m: &RG, few: bool) -> Vec<Vec<Edge>> {
    let mut used: std::collections::HashSet<usize> = Default::default();
    let mut scan: Vec<Edge> = vec![];
    for &(a, b) in &m.edges {
        if a != b && !used.contains(&a) && !used.contains(&b) {
            used.insert(a);
            used.insert(b);
            scan.push((a, b));
        }
    }
    if scan.is_empty() {
        return vec![];
    }
    let k = scan.len();
    let best = best_matching(m);
    let without = |drop: &[usize]| best.iter().enumerate().filter(|(i, _)| !drop.contains(i)).map(|(_, &e)| e).collect::<Vec<_>>();
    let b = best.len();
    let mut out: BTreeSet<Vec<Edge>> = BTreeSet::new();
    out.insert(vec![scan[k / 2]]);
    out.insert(scan[k / 2..].to_vec());
    if !few {
        out.insert(vec![scan[0]]);
        out.insert(vec![scan[k - 1]]);
        out.insert(scan.iter().step_by(2).cloned().collect());
        out.insert(without(&[b / 2]));
        out.insert(without(&[b - 1]));
    }
    for drop in [vec![], vec![0], vec![0, b / 2]] {
        out.insert(without(&drop));
    }
    // along a chain walked depth-first, its two ends left unmatched
    for from in [0, m.nodes.len() - 1] {
        let chain = chain(m, from);
        for skip in 0..2 {
            let c = &chain[skip..];
            let c = &c[..c.len() / 2 * 2];
            if c.len() < 4 {
                continue;
            }
            let mut cur: Vec<Edge> = c[1..c.len() - 1].chunks(2).map(|w| (w[0], w[1])).collect();
            let mut used: std::collections::HashSet<usize> = c.iter().cloned().collect();
            for &(x, y) in &m.edges {
                if x != y && !used.contains(&x) && !used.contains(&y) {
                    used.insert(x);
                    used.insert(y);
                    cur.push((x, y));
                }
            }
            out.insert(cur);
        }
    }
    out.into_iter().collect()
}

/// Cores for the `crowds` stage: name, node count, edges in scan order (so
/// that scanning from the front gives a matching that must be augmented).
const CORES: &[(&str, usize, &[Edge])] = &[
    ("edge", 2, &[(0, 1)]),
    ("path4", 4, &[(1, 2), (0, 1), (2, 3)]),
    ("path6", 6, &[(1, 2), (3, 4), (0, 1), (2, 3), (4, 5)]),
    ("stemmed_c5", 8, &[(0, 1), (2, 3), (4, 5), (3, 4), (0, 4), (1, 2), (5, 6), (2, 7)]),
    ("stemmed_c3s", 8, &[(1, 2), (4, 5), (0, 1), (0, 2), (3, 4), (3, 5), (0, 3), (1, 6), (4, 7)]),
    ("nested", 8, &[(1, 2), (3, 4), (5, 6), (0, 1), (0, 2), (2, 3), (4, 0), (4, 5), (6, 3), (1, 7)]),
];

const CROWDS: &[&str] = &["isolated", "looped", "edge", "path3", "triangle", "star3", "hub_leaves"];

/// Core `c` among `k` copies of crowd `w`; `v` places the core last, first,
/// in the middle, or interleaves everything. Returns the core's nodes too.
fn crowd(c: usize, w: usize, k: usize, v: usize) -> (RG, BTreeSet<usize>) {
    let (_, cn, ces) = CORES[c];
    let mut n = 0;
    let mut e: Vec<Edge> = vec![];
    let mut core = BTreeSet::new();
    let mut put_core = |n: &mut usize, e: &mut Vec<Edge>| {
        core.extend(*n..*n + cn);
        e.extend(ces.iter().map(|&(a, b)| (a + *n, b + *n)));
        *n += cn;
    };
    let at = match v {
        0 => k,
        1 => 0,
        _ => k / 2,
    };
    let hub = w == 6;
    if hub {
        n = 1;
    }
    for j in 0..=k {
        if j == at {
            put_core(&mut n, &mut e);
        }
        if j == k {
            break;
        }
        let b = n;
        let (cnt, es): (usize, Vec<Edge>) = match w {
            0 => (1, vec![]),
            1 => (1, vec![(b, b)]),
            2 => (2, vec![(b, b + 1)]),
            3 => (3, vec![(b, b + 1), (b + 1, b + 2)]),
            4 => (3, vec![(b, b + 1), (b + 1, b + 2), (b + 2, b)]),
            5 => (4, vec![(b, b + 1), (b, b + 2), (b, b + 3)]),
            _ => (1, vec![(0, b)]),
        };
        n += cnt;
        e.extend(es);
    }
    let g = RG::from_edges(&(0..n).collect::<Vec<_>>(), &e);
    (reordered(&g, if v == 3 { 2 } else { 0 }), core)
}

fn classes_stage(name: &'static str, n: usize, maxdeg: usize, rot: usize, goal: Goal) -> Stage {
    let cell: std::sync::OnceLock<Vec<Vec<u32>>> = std::sync::OnceLock::new();
    stage(
        name,
        format!("all isomorphism classes of connected graphs on {} nodes with maximum degree {} x {} labelings (the first plain, the others in turn with 4 insertion orders and 4 id maps) x all starting matchings", n, maxdeg, rot.max(2)),
        1024,
        move |i, cx| {
            let cls = cx.prepare(|| cell.get_or_init(|| connected_classes(n, maxdeg)));
            let rots = rotations(n);
            for c in (i as usize..cls.len()).step_by(1024) {
                for (l, p) in spread(&rots, rot.max(2)).into_iter().enumerate() {
                    let m = variant(&permuted(&cls[c], p), if l == 0 { 0 } else { (c + l) % VARIANTS });
                    built(|| by_ops(&m), &|| rs_ops(&m), cx, |g, cx| all_starts(goal, g, &m, &|| rs_ops(&m), cx))?;
                }
            }
            Ok(())
        },
    )
}

/// Graphs of a near-perfect odd-ear structure: a base node, then `ears`
/// odd ears between every choice of attachment points, then a pendant path at
/// every node. Every factor-critical graph within the size is of this form,
/// so blossoms nest in every possible way.
fn eared(maxn: usize, lens: &[usize]) -> Vec<RG> {
    let mut seen: std::collections::HashSet<u128> = Default::default();
    let mut out = vec![];
    let mut level: Vec<(usize, Vec<Edge>)> = vec![(1, vec![])];
    while let Some((n, es)) = level.pop() {
        for &l in lens {
            // an ear with l edges adds l-1 nodes
            if n + l - 1 > maxn {
                continue;
            }
            for a in 0..n {
                for b in a..n {
                    if l == 1 && (a == b || es.contains(&(a, b))) {
                        continue;
                    }
                    if l < 3 && a == b {
                        continue;
                    }
                    let mut e = es.clone();
                    let mut last = a;
                    let mut k = n;
                    for _ in 0..l - 1 {
                        e.push(und(last, k));
                        last = k;
                        k += 1;
                    }
                    e.push(und(last, b));
                    let g = RG::from_edges(&(0..k).collect::<Vec<_>>(), &e);
                    if seen.insert(canon(&masks(&g)) | (k as u128) << 100) {
                        out.push(g);
                        level.push((k, e));
                    }
                }
            }
        }
    }
    out
}

/// Odd cycles nested `levels` deep: a cycle of 3 or 5, then ears of 3, 5 or 7
/// edges, each between two of a few places (ends and middle of the ear before,
/// node 0, the middle node so far), then stems. `code` picks one of all.
fn tower(levels: usize, mut code: usize, stems: usize) -> RG {
    let mut pick = |k: usize| {
        let x = code % k;
        code /= k;
        x
    };
    let c = [3, 5][pick(2)];
    let mut e: Vec<Edge> = (0..c).map(|i| (i, (i + 1) % c)).collect();
    let mut last: Vec<usize> = (0..c).collect();
    let mut n = c;
    for _ in 0..levels {
        let l = [3, 5, 7][pick(3)];
        let a = [last[0], last[last.len() - 1]][pick(2)];
        let b = [last[last.len() / 2], 0, a, n / 2][pick(4)];
        let new: Vec<usize> = (n..n + l - 1).collect();
        e.push((a, new[0]));
        e.extend(new.windows(2).map(|w| (w[0], w[1])));
        e.push((new[new.len() - 1], b));
        n += l - 1;
        last = new;
    }
    let at = [last[last.len() / 2], 0, last[0]];
    for (i, &len) in [[0, 1, 0], [2, 2, 0], [1, 0, 2]][stems].iter().enumerate() {
        let mut v = at[i];
        for _ in 0..len {
            e.push((v, n));
            v = n;
            n += 1;
        }
    }
    RG::from_edges(&(0..n).collect::<Vec<_>>(), &e)
}

fn matching_check(id: &'static str, goal: Goal, t: Tier) -> Check {
    let mut s = vec![];
    s.push(stage(
        "self_test",
        "the two reference matching algorithms agree on all graphs with <= 6 nodes and on all connected graphs on 7 nodes",
        1,
        |_, _| {
            for n in 0..=6 {
                for mask in 0..graph_count(n, false) {
                    let m = labeled(n, false, mask);
                    assert_eq!(nu_brute(&masks(&m)), nu_edmonds(&m.adj), "reference matchings disagree");
                }
            }
            for c in connected_classes(7, 6) {
                let m = from_masks(&c);
                assert_eq!(nu_brute(&masks(&m)), nu_edmonds(&m.adj), "reference matchings disagree");
            }
            Ok(())
        },
    ));
    for n in 0..=4usize {
        let loops = n < 4 || t.thorough();
        let name = ["orders_0", "orders_1_loops", "orders_2_loops", "orders_3_loops", if loops { "orders_4_loops" } else { "orders_4" }][n];
        s.push(stage(
            name,
            format!("all graphs {} loops on {} nodes x all neighbour orders x all starting matchings", if loops { "with" } else { "without" }, n),
            graph_count(n, loops),
            move |i, cx| {
                each_neighbour_order(&labeled(n, loops, i), &mut |m| {
                    built(|| by_adjacency(&m.adj), &|| rs_adj(&m.adj), cx, |g, cx| all_starts(goal, g, m, &|| rs_adj(&m.adj), cx))
                })
            },
        ));
    }
    s.push(stage(
        "labeled_5_loops",
        "all graphs with loops on 5 nodes x all starting matchings",
        graph_count(5, true),
        move |i, cx| {
            let m = labeled(5, true, i);
            built(|| by_ops(&m), &|| rs_ops(&m), cx, |g, cx| all_starts(goal, g, &m, &|| rs_ops(&m), cx))
        },
    ));
    s.push(stage(
        "orders_5_from_0",
        format!("all simple graphs on 5 nodes in which node 0 has neighbours 1..d in ascending order x all neighbour orders of the other nodes x {}", t.pick("the empty start", "all starting matchings")),
        front_count(5),
        move |i, cx| {
            each_neighbour_order_but_first(&front(5, i), &mut |m| {
                built(|| by_adjacency(&m.adj), &|| rs_adj(&m.adj), cx, |g, cx| {
                    if t.thorough() {
                        return all_starts(goal, g, m, &|| rs_adj(&m.adj), cx);
                    }
                    let max = nu(m);
                    cx.case(|| rs_adj(&m.adj) + &rs_start(&[]), |st| judge_start(goal, g, m, max, &[], st))
                })
            })
        },
    ));
    if t.thorough() {
        s.push(stage(
            "orders_5",
            "all simple graphs on 5 nodes x all neighbour orders x all starting matchings",
            graph_count(5, false),
            move |i, cx| {
                each_neighbour_order(&labeled(5, false, i), &mut |m| {
                    built(|| by_adjacency(&m.adj), &|| rs_adj(&m.adj), cx, |g, cx| all_starts(goal, g, m, &|| rs_adj(&m.adj), cx))
                })
            },
        ));
    }
    s.push(stage(
        "labeled_6",
        "all simple graphs on 6 nodes x 4 insertion orders and 3 with other ids x all starting matchings",
        graph_count(6, false),
        move |i, cx| {
            for v in 0..VARIANTS {
                let m = variant(&labeled(6, false, i), v);
                built(|| by_ops(&m), &|| rs_ops(&m), cx, |g, cx| all_starts(goal, g, &m, &|| rs_ops(&m), cx))?;
            }
            Ok(())
        },
    ));
    s.push(stage(
        "labeled_7",
        if t.thorough() { "all simple graphs on 7 nodes x all starting matchings" } else { "all simple graphs on 7 nodes, empty start" },
        graph_count(7, false) / 64,
        move |i, cx| {
            for k in 0..64 {
                let m = labeled(7, false, i * 64 + k);
                built(|| by_ops(&m), &|| rs_ops(&m), cx, |g, cx| {
                    if t.thorough() {
                        all_starts(goal, g, &m, &|| rs_ops(&m), cx)
                    } else {
                        let max = nu(&m);
                        cx.case(|| rs_ops(&m) + &rs_start(&[]), |st| judge_start(goal, g, &m, max, &[], st))
                    }
                })?;
            }
            Ok(())
        },
    ));
    s.push(stage(
        "sparse_ids_5",
        "all simple graphs on 5 nodes x 9 awkward id alphabets x 5 windows x all starting matchings, as DefaultGraph and as a user-written Graph",
        graph_count(5, false) * NS,
        move |i, cx| {
            let ids = SPARSE[(i % NS) as usize];
            for w in 0..5 {
                let m = labeled(5, false, i / NS).relabel(&|x| ids[x + w]);
                built(|| by_ops(&m), &|| rs_ops(&m), cx, |g, cx| all_starts(goal, g, &m, &|| rs_ops(&m), cx))?;
                all_starts(goal, &m, &m, &|| rs_custom(&m), cx)?;
            }
            Ok(())
        },
    ));
    s.push(stage(
        "factor_ids",
        format!("all simple graphs on 5 nodes x ids {{0, 1, 2, f + 2, f + 1, 3, 2f + 2, f, f - 1}} for {} factors f x 9 windows x the empty start, and every single edge as start", FACTORS.len()),
        FACTORS.len() as u64 * 128,
        move |i, cx| {
            let ids = factor_ids(FACTORS[i as usize / 128]);
            for k in 0..8 {
                let b = labeled(5, false, i % 128 * 8 + k);
                let max = nu(&b);
                for w in 0..9 {
                    let m = b.relabel(&|x| ids[(x + w) % 9]);
                    built(|| by_ops(&m), &|| rs_ops(&m), cx, |g, cx| {
                        cx.case(|| rs_ops(&m) + &rs_start(&[]), |st| judge_start(goal, g, &m, max, &[], st))?;
                        for e in &m.edges {
                            let s0 = [*e];
                            cx.case(|| rs_ops(&m) + &rs_start(&s0), |st| judge_start(goal, g, &m, max, &s0, st))?;
                        }
                        Ok(())
                    })?;
                }
            }
            Ok(())
        },
    ));
    {
        let ls = listings(t.pick(5, 6));
        s.push(stage(
            "listings",
            format!("all listings of <= {} ids of 0..8 in every order and nearly sorted ones of up to 33 ids x {} x all starting matchings (above 8 nodes the starts of the stage families)", t.pick(5, 6), PATTERN_TEXT),
            ls.len() as u64,
            move |i, cx| {
                for p in 0..PATTERNS {
                    let m = listed(&ls[i as usize], p);
                    built(|| by_ops(&m), &|| rs_ops(&m), cx, |g, cx| {
                        if m.nodes.len() <= 8 {
                            return all_starts(goal, g, &m, &|| rs_ops(&m), cx);
                        }
                        let max = nu(&m);
                        for s0 in scanned_starts(&m, 4).into_iter().chain(thin_starts(&m, false)) {
                            cx.case(|| rs_ops(&m) + &rs_start(&s0), |st| judge_start(goal, g, &m, max, &s0, st))?;
                        }
                        Ok(())
                    })?;
                }
                Ok(())
            },
        ));
    }
    s.push(classes_stage("connected_7", 7, 6, t.pick(6, 14), goal));
    s.push(classes_stage("connected_8", 8, 7, t.pick(1, 16), goal));
    s.push(classes_stage("subcubic_9", 9, 3, t.pick(3, 18), goal));
    s.push(classes_stage("subcubic_10", 10, 3, t.pick(1, 20), goal));
    if t.thorough() {
        s.push(classes_stage("subcubic_11", 11, 3, 4, goal));
        s.push(classes_stage("subcubic_12", 12, 3, 1, goal));
        s.push(classes_stage("degree4_9", 9, 4, 2, goal));
    }
    // nested blossoms: all odd-ear graphs with pendant paths
    {
        let maxn = t.pick(7usize, 9usize);
        let cell: std::sync::OnceLock<Vec<RG>> = std::sync::OnceLock::new();
        s.push(stage(
            "odd_ears_with_stems",
            format!("all graphs on <= {} nodes built by odd ears (lengths 1, 3, 5, 7), with pendant paths of 1 and 2 edges at every pair of nodes, x {} variants (the first plain, the others in turn with other insertion orders and ids) x all starting matchings that are maximal, plus the empty one", maxn, t.pick(2, 4)),
            1024,
            move |i, cx| {
                let base = cx.prepare(|| cell.get_or_init(|| eared(maxn, &[1, 3, 5, 7])));
                for b in (i as usize..base.len()).step_by(1024) {
                    let g0 = &base[b];
                    let n = g0.nodes.len();
                    for x in 0..n {
                        for y in x..n {
                            for (lx, ly) in [(1, 0), (1, 1), (2, 1), (1, 2), (2, 2)] {
                                if ly == 0 && y != x {
                                    continue;
                                }
                                let mut e = g0.edges.clone();
                                let mut k = n;
                                for (v, l) in [(x, lx), (y, ly)] {
                                    let mut last = v;
                                    for _ in 0..l {
                                        e.push((last, k));
                                        last = k;
                                        k += 1;
                                    }
                                }
                                for v in 0..t.pick(2, 3) {
                                    let m = variant(&RG::from_edges(&(0..k).collect::<Vec<_>>(), &e), if v == 0 { 0 } else { 1 + (b + x + y + v) % (VARIANTS - 1) });
                                    let max = nu(&m);
                                    built(|| by_ops(&m), &|| rs_ops(&m), cx, |g, cx| {
                                        each_matching(&m, &mut |st0| {
                                            let maximal = m.edges.iter().all(|&(a, b)| st0.iter().any(|&(c, d)| a == c || a == d || b == c || b == d));
                                            if !maximal && !st0.is_empty() {
                                                return Ok(());
                                            }
                                            cx.case(|| rs_ops(&m) + &rs_start(st0), |st| judge_start(goal, g, &m, max, st0, st))
                                        })
                                    })?;
                                }
                            }
                        }
                    }
                }
                Ok(())
            },
        ));
    }
    {
        let levels = t.pick(3usize, 4usize);
        let all = 2 * 24usize.pow(levels as u32);
        s.push(stage(
            "towers",
            format!("all {} ways to put {} ears (3, 5 or 7 edges; 2 x 4 places) one on another on a cycle of 3 or 5, x 3 ways to add stems, insertion orders and ids in turn x starts: empty, edge-scan matchings from 5 offsets in both directions and in order of degrees, each also with one pair left out", all, levels),
            (all / 48) as u64,
            move |i, cx| {
                for code in i as usize * 48..(i as usize + 1) * 48 {
                    for stems in 0..3 {
                        let m = variant(&tower(levels, code, stems), (code / 48 + code + stems) % VARIANTS);
                        let max = nu(&m);
                        built(|| by_ops(&m), &|| rs_ops(&m), cx, |g, cx| {
                            for s0 in scanned_starts(&m, 5) {
                                cx.case(|| rs_ops(&m) + &rs_start(&s0), |st| judge_start(goal, g, &m, max, &s0, st))?;
                            }
                            Ok(())
                        })?;
                    }
                }
                Ok(())
            },
        ));
    }
    let sizes: Vec<usize> = t.pick((2..=24).chain([27, 31, 32, 33, 34, 41]).collect(), (2..=44).chain([50, 61, 70]).collect());
    let nf = FAMILIES.len();
    let lim = t.pick(6, 30);
    s.push(stage(
        "families",
        format!("all {} families x sizes {:?} x 4 insertion orders, 3 with other ids and 3 with loops, isolated nodes, leaves and components added x starts: empty, edge-scan matchings from up to {} offsets in both directions and in order of degrees, each also with one pair left out, single pairs, every second pair and the last half of a scan, the model's maximum matching whole and with one or two pairs left out, matchings along a walked chain whose ends stay unmatched, the library's greedy matching", nf, sizes, lim),
        (sizes.len() * nf * FVARIANTS) as u64,
        move |i, cx| {
            let i = i as usize;
            let (f, k, v) = (FAMILIES[i % nf], sizes[i / nf / FVARIANTS], i / nf % FVARIANTS);
            let m = cast(f, k, v);
            let max = nu(&m);
            let dense = m.edges.len() > 250;
            let desc = || format!("family {} size {} order {}: {}", f, k, v, rs_ops(&m));
            built(|| by_ops(&m), &desc, cx, |g, cx| {
                for s0 in scanned_starts(&m, if dense { 2 } else { lim }).into_iter().chain(thin_starts(&m, dense)) {
                    cx.case(|| desc() + &rs_start(&s0), |st| judge_start(goal, g, &m, max, &s0, st))?;
                }
                cx.case(|| desc() + "let mut p = greedy(&g); maximum_matching(&g, &mut p)", |st| {
                    let p = greedy(g);
                    let s0: Vec<Edge> = p.edges().collect();
                    // judged only when the start is a matching of the graph (C12 covers that)
                    if valid_matching(&m, &p).is_err() {
                        return Ok(());
                    }
                    judge_pairing(goal, g, &m, max, p, &s0, st)
                })
            })
        },
    ));
    // a core that must be solved among many other components
    {
        let sizes: Vec<usize> = t.pick(
            vec![1, 2, 4, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 257],
            (1..=140).chain([200, 255, 256, 257, 258, 400, 512, 513, 600]).collect(),
        );
        let (nc, nw) = (CORES.len(), CROWDS.len());
        let most = t.pick([257, 257, 257, 129, 33, 65, 257], [600, 258, 600, 140, 70, 100, 600]);
        s.push(stage(
            "crowds",
            format!("{} cores (edge, paths, odd cycles with stems, nested odd cycles) among {:?} copies of each of {} components (isolated node, looped node, edge, path of 3, triangle, star, all leaves of one hub), placed before, after, between and interleaved x starts: empty, edge scans in both directions, the core left out of the scan; largest number of copies per component {:?}", nc, sizes, nw, most),
            (sizes.len() * nc * nw * 4) as u64,
            move |i, cx| {
                let i = i as usize;
                let (c, w, v, k) = (i % nc, i / nc % nw, i / nc / nw % 4, sizes[i / nc / nw / 4]);
                if k > most[w] {
                    return Ok(());
                }
                let (m, core) = crowd(c, w, k, v);
                let max = nu(&m);
                let desc = || format!("core {} among {} x {} placed {}: {}", CORES[c].0, k, CROWDS[w], v, rs_ops(&m));
                built(|| by_ops(&m), &desc, cx, |g, cx| {
                    let mut starts: BTreeSet<Vec<Edge>> = BTreeSet::new();
                    starts.insert(vec![]);
                    for rev in [false, true] {
                        for skip_core in [false, true] {
                            let mut used = BTreeSet::new();
                            let mut st0 = vec![];
                            let es: Vec<Edge> = if rev { m.edges.iter().rev().cloned().collect() } else { m.edges.clone() };
                            for (a, b) in es {
                                if a == b || used.contains(&a) || used.contains(&b) || (skip_core && core.contains(&a)) {
                                    continue;
                                }
                                used.insert(a);
                                used.insert(b);
                                st0.push((a, b));
                            }
                            starts.insert(st0);
                        }
                    }
                    for s0 in &starts {
                        cx.case(|| desc() + &rs_start(s0), |st| judge_start(goal, g, &m, max, s0, st))?;
                    }
                    Ok(())
                })
            },
        ));
    }
    // long paths, big blossoms, big sparse graphs
    {
        let sizes: Vec<usize> = t.pick(
            vec![64, 65, 66, 96, 128, 129, 130, 200, 257, 260, 300, 520],
            (48..=140).chain([160, 200, 250, 255, 256, 257, 258, 260, 300, 400, 520, 540, 700]).collect(),
        );
        let nf = FAMILIES.len();
        let lim = t.pick(3, 6);
        s.push(stage(
            "large",
            format!("all {} families x sizes {:?} with at most 600 edges x 4 insertion orders, 3 with other ids and 3 with loops, isolated nodes, leaves and components added x starts: empty, edge-scan matchings from up to {} offsets in both directions and in order of degrees, each also with one pair left out, a single pair and the last half of a scan, the model's maximum matching whole and with one or two pairs left out, matchings along a walked chain whose ends stay unmatched", nf, sizes, lim),
            (sizes.len() * nf * FVARIANTS) as u64,
            move |i, cx| {
                let i = i as usize;
                let (f, k, v) = (FAMILIES[i % nf], sizes[i / nf / FVARIANTS], i / nf % FVARIANTS);
                let m = cast(f, k, v);
                if m.edges.len() > 600 {
                    return Ok(());
                }
                let max = cx.prepare(|| nu(&m));
                let desc = || format!("family {} size {} order {}: {}", f, k, v, rs_ops(&m));
                built(|| by_ops(&m), &desc, cx, |g, cx| {
                    for s0 in scanned_starts(&m, lim).into_iter().chain(thin_starts(&m, t == Tier::Quick)) {
                        cx.case(|| desc() + &rs_start(&s0), |st| judge_start(goal, g, &m, max, &s0, st))?;
                    }
                    Ok(())
                })
            },
        ));
    }
    // an odd cycle between two long stems, every way to join them
    {
        let cycles: Vec<usize> = t.pick(vec![3, 5], vec![3, 5, 7]);
        let stems: Vec<(usize, usize)> = t.pick(
            vec![(133, 132), (132, 133), (131, 132), (132, 131), (35, 34), (34, 35), (33, 34), (34, 33), (259, 258), (257, 258), (258, 257), (3, 132), (132, 3), (67, 67)],
            (4..=34).map(|h| 4 * h).chain([258, 514]).flat_map(|q| [(q + 1, q), (q, q + 1), (q - 1, q), (q, q - 1)]).chain([(3, 132), (132, 3), (67, 67), (3, 66), (66, 3), (132, 258), (258, 131)]).collect(),
        );
        let joins: Vec<(usize, usize, usize, usize)> = cycles
            .iter()
            .flat_map(|&c| (0..c).flat_map(move |x| (0..c).flat_map(move |y| (0..c).map(move |z| (c, x, y, z)))))
            .collect();
        s.push(stage(
            "long_stems",
            format!("a cycle of {:?} nodes between stems of {:?} nodes, each stem ending at any one or two nodes of the cycle, x 2 insertion orders x stems matched from the far end or from the second node on, their last nodes with either contact, the rest of the cycle matched around", cycles, stems),
            (joins.len() * stems.len()) as u64,
            move |i, cx| {
                let (c, x, y, z) = joins[i as usize % joins.len()];
                let (p, q) = stems[i as usize / joins.len()];
                // 0..p left stem, p..p+c cycle, then the right stem
                let r = p + c;
                let n = r + q;
                let mut e: Vec<Edge> = (1..p).map(|k| (k - 1, k)).collect();
                e.extend((0..c).map(|k| (p + k, p + (k + 1) % c)));
                e.extend((r + 1..n).map(|k| (k - 1, k)));
                // contacts: left stem with 0 and x, right stem with y and z
                let left: BTreeSet<usize> = [p, p + x].into_iter().collect();
                let right: BTreeSet<usize> = [p + y, p + z].into_iter().collect();
                e.extend(left.iter().map(|&k| (p - 1, k)));
                e.extend(right.iter().map(|&k| (k, r)));
                let m0 = RG::from_edges(&(0..n).collect::<Vec<_>>(), &e);
                let mut starts: BTreeSet<Vec<Edge>> = BTreeSet::new();
                for way in 0..16 {
                    let mut used = BTreeSet::new();
                    let mut st: Vec<Edge> = vec![];
                    let mut put = |a: usize, b: usize, st: &mut Vec<Edge>| {
                        if !used.contains(&a) && !used.contains(&b) {
                            used.insert(a);
                            used.insert(b);
                            st.push((a, b));
                        }
                    };
                    for k in (way & 1..p - 1).step_by(2) {
                        put(k, k + 1, &mut st);
                    }
                    for k in (way >> 1 & 1..q - 1).step_by(2) {
                        put(n - 1 - k, n - 2 - k, &mut st);
                    }
                    let pick = |s: &BTreeSet<usize>, last: bool| if last { *s.iter().next_back().unwrap() } else { *s.iter().next().unwrap() };
                    put(p - 1, pick(&left, way & 4 > 0), &mut st);
                    put(r, pick(&right, way & 8 > 0), &mut st);
                    let base = st.iter().map(|&(a, b)| if (p..r).contains(&a) { a } else { b }).filter(|b| (p..r).contains(b)).next_back().unwrap_or(p) - p;
                    for k in 1..c {
                        put(p + (base + k) % c, p + (base + k + 1) % c, &mut st);
                    }
                    starts.insert(st);
                }
                let max = nu(&m0);
                // which tree grows first decides on which side the cycle is met
                for v in [0, 1] {
                    let m = reordered(&m0, v);
                    built(|| by_ops(&m), &|| rs_ops(&m), cx, |g, cx| {
                        for s0 in &starts {
                            cx.case(|| rs_ops(&m) + &rs_start(s0), |st| judge_start(goal, g, &m, max, s0, st))?;
                        }
                        Ok(())
                    })?;
                }
                Ok(())
            },
        ));
    }
    // starts reached through histories of re-pairing rather than direct pairs
    s.push(stage(
        "repaired_starts_5",
        "all simple graphs on 5 nodes x all sequences of 3 pair() calls along its edges as start",
        graph_count(5, false),
        move |i, cx| {
            let m = labeled(5, false, i);
            let max = nu(&m);
            built(|| by_ops(&m), &|| rs_ops(&m), cx, |g, cx| {
                let es = &m.edges;
                for a in 0..es.len() {
                    for b in 0..es.len() {
                        for c in 0..es.len() {
                            if a == b || b == c {
                                continue;
                            }
                            let calls = [es[a], (es[b].1, es[b].0), es[c]];
                            let mut r = PM::default();
                            for &(x, y) in &calls {
                                r.pair(x, y);
                            }
                            cx.case(|| rs_ops(&m) + &rs_start(&calls), |st| {
                                judge_pairing(goal, g, &m, max, pairing_of(&calls), &r.edges(), st)
                            })?;
                        }
                    }
                }
                Ok(())
            })
        },
    ));
    // many augmentations must not cost stack
    if goal == Goal::Maximum {
        let cases: Vec<(usize, usize)> = t.pick(
            vec![(1500, 2), (800, 4), (600, 0)],
            vec![(1500, 2), (800, 4), (4000, 2), (1500, 4), (600, 0), (1500, 0)],
        );
        s.push(stage(
            "small_stack",
            format!("(k, n) in {:?}: k disjoint paths of n nodes, paths of 4 with the middle edge paired (n = 0: k nested odd cycles and a stem, all but the ends paired), in a thread with 64 KiB of stack", cases),
            cases.len() as u64,
            move |i, cx| {
                let (k, len) = cases[i as usize];
                let (m, max, s0) = if len == 0 {
                    let mut m = family("nested_flower", 2 * k + 1);
                    m.add_node(2 * k + 1);
                    m.add_edge(2 * k - 1, 2 * k + 1);
                    (m, k + 1, (0..k).map(|j| (2 * j + 1, 2 * j + 2)).collect())
                } else {
                    let n = k * len;
                    let e: Vec<Edge> = (0..n).filter(|a| a % len != len - 1).map(|a| (a, a + 1)).collect();
                    let s0: Vec<Edge> = if len == 4 { (0..k).map(|j| (4 * j + 1, 4 * j + 2)).collect() } else { vec![] };
                    (RG::from_edges(&(0..n).collect::<Vec<_>>(), &e), k * (len / 2), s0)
                };
                let desc = || format!("case {:?} of small_stack, 64 KiB of stack: {}", (k, len), rs_ops(&m));
                built(|| by_ops(&m), &desc, cx, |g, cx| {
                    cx.case(|| desc() + &rs_start(&s0), |st| {
                        std::thread::scope(|sc| {
                            std::thread::Builder::new()
                                .stack_size(64 << 10)
                                .spawn_scoped(sc, || judge_start(goal, g, &m, max, &s0, st))
                                .expect("spawn")
                                .join()
                                .unwrap_or_else(|_| Err(String::from("panicked")))
                        })
                    })
                })
            },
        ));
    }
    Check {
        id,
        stages: s,
        assumptions: vec!["the starting pairing is a matching of the graph".into()],
    }
}

pub fn c13(t: Tier) -> Check {
    matching_check("C13", Goal::Maximum, t)
}
pub fn c14(t: Tier) -> Check {
    matching_check("C14", Goal::Extends, t)
}
