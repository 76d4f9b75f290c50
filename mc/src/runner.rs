//! The exhaustive explorer: every check is a list of stages, every stage a
//! finite index space `0..n`, every index one or more concrete cases run
//! against the real library. A parent process supervises the exploring child,
//! so that non-termination, stack overflow, aborts and memory exhaustion in
//! the code under test become violations with a concrete case as well.

use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::fs;
use std::hash::{Hash, Hasher};
use std::os::unix::io::AsRawFd;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, Command, ExitStatus};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicU8, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Stop;
pub type R = Result<(), Stop>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

pub struct Stage {
    pub name: &'static str,
    pub bound: String,
    pub n: u64,
    pub run: Box<dyn Fn(u64, &mut Ctx) -> R + Send + Sync>,
}

pub fn stage(
    name: &'static str,
    bound: impl Into<String>,
    n: u64,
    run: impl Fn(u64, &mut Ctx) -> R + Send + Sync + 'static,
) -> Stage {
    Stage { name, bound: bound.into(), n, run: Box::new(run) }
}

pub struct Check {
    pub id: &'static str,
    pub stages: Vec<Stage>,
    pub assumptions: Vec<String>,
}

/// Counters measured while exploring.
#[derive(Default)]
pub struct Stats {
    /// model states (or distinct input instances) visited
    pub states: u64,
    /// calls into the implementation compared with the model
    pub transitions: u64,
    /// complete executions of the implementation compared with the model
    pub traces: u64,
    pub cases: u64,
    /// the longest case in microseconds, and the index it belongs to
    slowest: (u64, u64),
    outcomes: HashSet<u64>,
}

const OUTCOME_CAP: usize = 100_000;

impl Stats {
    pub fn outcome<T: Hash>(&mut self, t: &T) {
        if self.outcomes.len() < OUTCOME_CAP {
            let mut h = DefaultHasher::new();
            t.hash(&mut h);
            self.outcomes.insert(h.finish());
        }
    }
}

#[derive(Clone)]
pub struct Failure {
    stage: usize,
    index: u64,
    sub: u64,
    case: String,
    msg: String,
}

pub struct Ctx<'a> {
    pub st: Stats,
    stage: usize,
    index: u64,
    sub: u64,
    total: u64,
    samples: Vec<String>,
    slot: Option<&'a Slot>,
    verbose: bool,
    known: &'a [(String, String)],
    known_hits: Vec<String>,
    failure: Option<Failure>,
}

thread_local! {
    static PANIC: RefCell<Option<(String, bool)>> = RefCell::new(None);
}

/// Runs library code that may legitimately panic; returns the panic message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (msg, mine) =
                PANIC.with(|p| p.borrow_mut().take()).unwrap_or((String::from("?"), false));
            if mine {
                // a panic of the harness itself is never a verdict
                eprintln!("ENGINE ERROR: {}", msg);
                std::process::exit(2);
            }
            Err(msg)
        }
    }
}

impl<'a> Ctx<'a> {
    /// Preparation by the harness itself, which the supervisor must not take
    /// for a call that hangs.
    pub fn prepare<T>(&self, f: impl FnOnce() -> T) -> T {
        if let Some(s) = self.slot {
            s.active.store(0, Release);
        }
        let r = f();
        if let Some(s) = self.slot {
            s.active.store(1, Release);
        }
        r
    }

    /// One concrete case: `desc` names it, `body` runs and judges it.
    pub fn case(
        &mut self,
        desc: impl Fn() -> String,
        body: impl FnOnce(&mut Stats) -> Result<(), String>,
    ) -> R {
        self.sub += 1;
        self.st.cases += 1;
        if let Some(s) = self.slot {
            s.sub.store(self.sub, Relaxed);
            if self.verbose {
                s.put_text(&desc());
            }
        }
        if self.sub == 1 && (self.index == 0 || self.index == self.total / 2) {
            let mut d = desc();
            if d.len() > 600 {
                let mut e = 600;
                while !d.is_char_boundary(e) {
                    e -= 1;
                }
                d.truncate(e);
                d += "...";
            }
            self.samples.push(d);
        }
        let st = &mut self.st;
        let t0 = Instant::now();
        let r = guarded(|| body(st));
        st.slowest = st.slowest.max((t0.elapsed().as_micros() as u64, self.index));
        let r = match r {
            Ok(r) => r,
            Err(m) => Err(format!("panicked: {}", m)),
        };
        match r {
            Ok(()) => Ok(()),
            Err(msg) => {
                let case = desc();
                if self.known.iter().any(|k| k.0 == case) {
                    self.known_hits.push(format!("{} -- {}", case, msg));
                    return Ok(());
                }
                self.failure = Some(Failure {
                    stage: self.stage,
                    index: self.index,
                    sub: self.sub,
                    case,
                    msg,
                });
                Err(Stop)
            }
        }
    }
}

// ---------------------------------------------------------------- slots

const TEXT: usize = 8192;

#[repr(C)]
pub struct Slot {
    active: AtomicU64,
    stage: AtomicU64,
    index: AtomicU64,
    sub: AtomicU64,
    text_len: AtomicU64,
    text: [AtomicU8; TEXT],
}

impl Slot {
    fn put_text(&self, s: &str) {
        let b = s.as_bytes();
        let n = b.len().min(TEXT);
        self.text_len.store(0, Relaxed);
        for i in 0..n {
            self.text[i].store(b[i], Relaxed);
        }
        self.text_len.store(n as u64, Relaxed);
    }
    fn get_text(&self) -> String {
        let n = (self.text_len.load(Relaxed) as usize).min(TEXT);
        let b: Vec<u8> = (0..n).map(|i| self.text[i].load(Relaxed)).collect();
        String::from_utf8_lossy(&b).to_string()
    }
}

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
}

const MAX_THREADS: usize = 64;

fn map_slots(path: &str, create: bool) -> &'static [Slot] {
    let len = std::mem::size_of::<Slot>() * MAX_THREADS;
    let f = fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(create)
        .open(path)
        .expect("slot file");
    if create {
        f.set_len(len as u64).expect("slot file size");
    }
    unsafe {
        let p = mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0);
        assert!(p as isize != -1, "mmap of the slot file failed");
        std::slice::from_raw_parts(p as *const Slot, MAX_THREADS)
    }
}

fn limit_memory(bytes: u64) {
    unsafe {
        setrlimit(9, &[bytes, bytes]); // RLIMIT_AS
        setrlimit(4, &[0, 0]); // RLIMIT_CORE
    }
}

// ---------------------------------------------------------------- files

pub fn root_dir() -> String {
    std::env::var("MC_ROOT").unwrap_or_else(|_| String::from("/verif"))
}

fn load_known(id: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    if let Ok(t) = fs::read_to_string(format!("{}/known_findings.txt", root_dir())) {
        let head = format!("finding: property={} case=", id);
        for l in t.lines() {
            if let Some(rest) = l.strip_prefix(&head) {
                out.push((rest.to_string(), l.to_string()));
            }
        }
    }
    out
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn write_replay(id: &str, tier: Tier, stage: &str, f: &Failure) -> String {
    let dir = format!("{}/replays", root_dir());
    let _ = fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}-{}-{}.txt", dir, id, stage, f.index, f.sub);
    let text = format!(
        "property={}\ntier={}\nstage={}\nindex={}\nsub={}\n# re-run with: {}/check.sh replay {}\n\ncase:\n{}\n\nobserved:\n{}\n",
        id, tier.name(), stage, f.index, f.sub, root_dir(), path, f.case, f.msg
    );
    fs::write(&path, text).expect("write replay");
    path
}

struct Summary {
    states: u64,
    transitions: u64,
    traces: u64,
    cases: u64,
    outcomes: u64,
    capped: bool,
    samples: Vec<String>,
    stages: Vec<String>,
}

fn write_evidence(
    id: &str,
    tier: Tier,
    s: &Summary,
    assumptions: &[String],
    wall: f64,
    violations: u64,
    note: &str,
) {
    let dir = format!("{}/evidence", root_dir());
    let _ = fs::create_dir_all(&dir);
    let samples: Vec<String> = s.samples.iter().map(|x| js(x)).collect();
    let assume: Vec<String> = assumptions.iter().map(|x| js(x)).collect();
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"cases\": {},\n  \"distinct_outcomes_counted\": {},\n  \"outcome_cap_per_worker\": {},\n  \"exhaustive\": {},\n  \"note\": {},\n  \"stages\": [\n   {}\n  ],\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        js(id), js(tier.name()), seed(), s.states, s.transitions, s.traces, s.cases, s.outcomes,
        OUTCOME_CAP, !s.capped && violations == 0, js(note),
        s.stages.join(",\n   "), samples.join(",\n   "), assume.join(", "), wall, violations
    );
    fs::write(format!("{}/{}.json", dir, id), text).expect("write evidence");
}

// ---------------------------------------------------------------- child

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let (loc, mine) = match info.location() {
            Some(l) => (format!("{}:{}", l.file(), l.line()), l.file().starts_with("src/")),
            None => (String::from("?"), false),
        };
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("?")
        };
        if mine && std::thread::current().name() == Some("main") {
            eprintln!("ENGINE ERROR: {} ({})", msg, loc);
        }
        PANIC.with(|p| *p.borrow_mut() = Some((format!("{} ({})", msg, loc), mine)));
    }));
}

/// A stage whose cases are big enough to take long on a slow machine or a slow
/// (but correct) implementation: running out of time there is no verdict, the
/// stage is left out and the evidence says so.
pub const SOFT: &str = "huge";

pub fn child(check: Check, tier: Tier, slot_path: &str, cap_s: u64, skip_soft: bool) -> i32 {
    install_hook();
    limit_memory(12 << 30);
    let slots = map_slots(slot_path, false);
    let known = load_known(check.id);
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs(cap_s);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let mut sum = Summary {
        states: 0, transitions: 0, traces: 0, cases: 0, outcomes: 0,
        capped: false, samples: vec![], stages: vec![],
    };
    let mut outcomes: HashSet<u64> = HashSet::new();
    let mut failure: Option<Failure> = None;
    let mut known_hits: Vec<String> = vec![];
    for (si, stage) in check.stages.iter().enumerate() {
        if skip_soft && stage.name == SOFT {
            sum.capped = true;
            sum.stages.push(format!(
                "{{\"name\": {}, \"bound\": {}, \"indices\": {}, \"explored\": 0, \"complete\": false}}",
                js(stage.name), js(&stage.bound), stage.n
            ));
            println!("  {} {:<28} left out: too slow here", check.id, stage.name);
            continue;
        }
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let done = AtomicU64::new(0);
        let chunk = (stage.n / (threads as u64 * 64)).clamp(1, 4096);
        let acc: Mutex<Vec<(Stats, Vec<String>, Option<Failure>, Vec<String>)>> =
            Mutex::new(vec![]);
        let ts = Instant::now();
        std::thread::scope(|sc| {
            for t in 0..threads {
                let (next, stop, done, acc, known) = (&next, &stop, &done, &acc, &known);
                let slot = &slots[t];
                std::thread::Builder::new()
                    .stack_size(4 << 20)
                    .name(format!("w{}", t))
                    .spawn_scoped(sc, move || {
                        let mut cx = Ctx {
                            st: Stats::default(), stage: si, index: 0, sub: 0, total: stage.n,
                            samples: vec![], slot: Some(slot), verbose: false, known,
                            known_hits: vec![], failure: None,
                        };
                        'work: loop {
                            if stop.load(Relaxed) || Instant::now() > deadline {
                                break;
                            }
                            let a = next.fetch_add(chunk, SeqCst);
                            if a >= stage.n {
                                break;
                            }
                            for i in a..(a + chunk).min(stage.n) {
                                if stop.load(Relaxed) {
                                    break 'work;
                                }
                                cx.index = i;
                                cx.sub = 0;
                                slot.stage.store(si as u64, Relaxed);
                                slot.index.store(i, Relaxed);
                                slot.sub.store(0, Relaxed);
                                slot.active.store(1, Release);
                                let r = guarded(|| (stage.run)(i, &mut cx));
                                slot.active.store(0, Release);
                                match r {
                                    Ok(Ok(())) => {
                                        done.fetch_add(1, Relaxed);
                                    }
                                    Ok(Err(Stop)) => {
                                        stop.store(true, Relaxed);
                                        break 'work;
                                    }
                                    Err(m) => {
                                        // library panic outside a judged case
                                        cx.failure = Some(Failure {
                                            stage: si, index: i, sub: cx.sub,
                                            case: format!("stage {} index {}", stage.name, i),
                                            msg: format!("panicked: {}", m),
                                        });
                                        stop.store(true, Relaxed);
                                        break 'work;
                                    }
                                }
                            }
                        }
                        acc.lock().unwrap().push((cx.st, cx.samples, cx.failure, cx.known_hits));
                    })
                    .expect("spawn worker");
            }
        });
        let mut cases = 0;
        let mut slowest = (0, 0);
        let (mut st_states, mut st_trans) = (0, 0);
        for (st, sm, f, kh) in acc.into_inner().unwrap() {
            sum.states += st.states;
            sum.transitions += st.transitions;
            sum.traces += st.traces;
            st_states += st.states;
            st_trans += st.transitions;
            cases += st.cases;
            slowest = slowest.max(st.slowest);
            outcomes.extend(st.outcomes);
            sum.samples.extend(sm.into_iter().map(|s| format!("[{}] {}", stage.name, s)));
            known_hits.extend(kh);
            if let Some(f) = f {
                let better = match &failure {
                    None => true,
                    Some(g) => (f.stage, f.index) < (g.stage, g.index),
                };
                if better {
                    failure = Some(f);
                }
            }
        }
        sum.cases += cases;
        let d = done.load(Relaxed);
        let complete = d == stage.n;
        if !complete {
            sum.capped = true;
        }
        let secs = ts.elapsed().as_secs_f64();
        sum.stages.push(format!(
            "{{\"name\": {}, \"bound\": {}, \"indices\": {}, \"explored\": {}, \"complete\": {}, \"cases\": {}, \"states\": {}, \"transitions\": {}, \"wall_s\": {:.2}, \"slowest_case_s\": {:.3}}}",
            js(stage.name), js(&stage.bound), stage.n, d, complete, cases, st_states, st_trans, secs,
            slowest.0 as f64 / 1e6
        ));
        println!(
            "  {} {:<28} indices {}/{} cases {} transitions {} {:.2}s, slowest case {:.3}s (index {})",
            check.id, stage.name, d, stage.n, cases, st_trans, secs, slowest.0 as f64 / 1e6, slowest.1
        );
        if failure.is_some() {
            break;
        }
    }
    sum.outcomes = outcomes.len() as u64;
    let wall = t0.elapsed().as_secs_f64();
    known_hits.sort();
    known_hits.dedup();
    for k in &known_hits {
        println!("KNOWN-FINDING: property={} {}", check.id, k);
    }
    let note = if sum.capped && failure.is_none() {
        "a time limit was reached: stages marked complete=false were explored only up to 'explored' indices"
    } else if failure.is_some() {
        "exploration stopped at the first violation"
    } else {
        "every stage was explored completely within its stated bound"
    };
    write_evidence(
        check.id, tier, &sum, &check.assumptions, wall, failure.is_some() as u64, note,
    );
    println!(
        "{} {}: states={} transitions={} traces={} outcomes={} wall={:.1}s",
        check.id, tier.name(), sum.states, sum.transitions, sum.traces, sum.outcomes, wall
    );
    match failure {
        None => 0,
        Some(f) => {
            report(check.id, tier, check.stages[f.stage].name, &f);
            1
        }
    }
}

fn report(id: &str, tier: Tier, stage: &str, f: &Failure) {
    let path = write_replay(id, tier, stage, f);
    println!("case: {}", clip(&f.case));
    println!("observed: {}", clip(&f.msg));
    println!("VIOLATION property={} replay={}", id, path);
}

fn clip(s: &str) -> String {
    if s.len() < 4000 {
        return s.to_string();
    }
    let mut e = 4000;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}...", &s[..e])
}

/// Runs exactly one index of one stage, describing every case before it runs.
pub fn one(check: Check, tier: Tier, stage: &str, index: u64, slot_path: Option<&str>) -> i32 {
    install_hook();
    limit_memory(6 << 30);
    let si = match check.stages.iter().position(|s| s.name == stage) {
        Some(i) => i,
        None => {
            eprintln!("no stage {} in {}", stage, check.id);
            return 2;
        }
    };
    let known = load_known(check.id);
    let slots = slot_path.map(|p| map_slots(p, false));
    let st = &check.stages[si];
    let h = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(4 << 20)
            .name(String::from("w0"))
            .spawn_scoped(sc, || {
                let mut cx = Ctx {
                    st: Stats::default(), stage: si, index, sub: 0, total: u64::MAX,
                    samples: vec![], slot: slots.map(|s| &s[0]), verbose: true, known: &known,
                    known_hits: vec![], failure: None,
                };
                if let Some(s) = slots {
                    s[0].active.store(1, Release);
                }
                let r = guarded(|| (st.run)(index, &mut cx));
                if let Err(m) = r {
                    cx.failure = Some(Failure {
                        stage: si, index, sub: cx.sub,
                        case: format!("stage {} index {}", st.name, index),
                        msg: format!("panicked: {}", m),
                    });
                }
                cx.failure
            })
            .expect("spawn")
            .join()
    });
    match h {
        Ok(None) => {
            println!("{} {} index {}: held", check.id, stage, index);
            0
        }
        Ok(Some(f)) => {
            report(check.id, tier, stage, &f);
            1
        }
        Err(_) => 2,
    }
}

// ---------------------------------------------------------------- parent

struct Scratch(String);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_file(&self.0);
    }
}

enum End {
    Exited(ExitStatus),
    Stuck(Vec<usize>),
}

fn supervise(mut c: Child, slots: &[Slot], limit: &dyn Fn(u64) -> Duration) -> End {
    let mut last: Vec<(u64, u64, u64, Instant)> =
        (0..MAX_THREADS).map(|_| (0, 0, 0, Instant::now())).collect();
    loop {
        if let Some(s) = c.try_wait().expect("wait for the exploring process") {
            return End::Exited(s);
        }
        let now = Instant::now();
        let mut stuck = vec![];
        for (i, s) in slots.iter().enumerate() {
            let k = (s.stage.load(Relaxed), s.index.load(Relaxed), s.sub.load(Relaxed));
            let l = &mut last[i];
            if s.active.load(Acquire) == 0 || (l.0, l.1, l.2) != k {
                *l = (k.0, k.1, k.2, now);
            } else if now - l.3 > limit(k.0) {
                stuck.push(i);
            }
        }
        if !stuck.is_empty() {
            let _ = c.kill();
            let _ = c.wait();
            return End::Stuck(stuck);
        }
        std::thread::sleep(Duration::from_millis(30));
    }
}

pub fn parent(id: &str, tier: Tier, stages: &dyn Fn() -> Vec<&'static str>) -> i32 {
    let exe = std::env::current_exe().expect("own path");
    let t0 = Instant::now();
    let names = stages();
    let soft = |si: u64| names.get(si as usize).map_or(false, |n| *n == SOFT);
    let mut skip_soft = false;
    for attempt in 0..3 {
        let slot_path = format!("{}/mc-{}-{}.slots", std::env::temp_dir().display(), std::process::id(), attempt);
        let _scratch = Scratch(slot_path.clone());
        let _ = fs::remove_file(&slot_path);
        let slots = map_slots(&slot_path, true);
        let c = Command::new(&exe)
            .args(["child", id, tier.name(), &slot_path, if skip_soft { "skip" } else { "all" }])
            .spawn()
            .expect("spawn the exploring process");
        let hard = if attempt == 0 { 20 } else { 100 };
        let end = supervise(c, slots, &|si| Duration::from_secs(if soft(si) { 90 } else { hard }));
        let (suspects, what): (Vec<usize>, String) = match end {
            End::Exited(s) => match s.code() {
                Some(k) => return k,
                None => (
                    (0..MAX_THREADS).filter(|&i| slots[i].active.load(Relaxed) != 0).collect(),
                    format!("ended by signal {}", s.signal().unwrap_or(0)),
                ),
            },
            End::Stuck(v) => (v, String::from("made no progress for too long")),
        };
        println!("{}: the exploring process {}; confirming on single cases", id, what);
        let mut susp: Vec<(u64, u64)> = suspects
            .iter()
            .map(|&i| (slots[i].stage.load(Relaxed), slots[i].index.load(Relaxed)))
            .collect();
        susp.sort();
        susp.dedup();
        if susp.iter().any(|x| soft(x.0)) {
            // run everything else; what was on the way is judged again there
            println!("{}: in the stage '{}', which is left out", id, SOFT);
            skip_soft = true;
            continue;
        }
        for (si, index) in susp {
            let name = names[si as usize];
            let p2 = format!("{}.one", slot_path);
            let _s2 = Scratch(p2.clone());
            let _ = fs::remove_file(&p2);
            let sl = map_slots(&p2, true);
            let c = Command::new(&exe)
                .args(["one", id, tier.name(), name, &index.to_string(), &p2])
                .spawn()
                .expect("spawn the confirming process");
            let msg = match supervise(c, sl, &|_| Duration::from_secs(60)) {
                End::Exited(s) => match s.code() {
                    Some(1) => {
                        crash_evidence(id, tier, t0, "violation confirmed on a single case");
                        return 1;
                    }
                    Some(_) => continue,
                    None => format!(
                        "the call aborts the process (signal {}: stack overflow, abort or memory exhaustion)",
                        s.signal().unwrap_or(0)
                    ),
                },
                End::Stuck(_) => String::from("the call does not terminate (no result after 60 s)"),
            };
            let f = Failure {
                stage: si as usize,
                index,
                sub: sl[0].sub.load(Relaxed),
                case: sl[0].get_text(),
                msg,
            };
            crash_evidence(id, tier, t0, &f.msg);
            report(id, tier, name, &f);
            return 1;
        }
        println!("{}: not reproduced on the suspected cases; exploring again", id);
    }
    eprintln!("{}: the exploring process failed repeatedly without a reproducible case", id);
    2
}

fn crash_evidence(id: &str, tier: Tier, t0: Instant, note: &str) {
    let s = Summary {
        states: 1, transitions: 1, traces: 0, cases: 1, outcomes: 0, capped: true,
        samples: vec![String::from("see the replay file")], stages: vec![],
    };
    write_evidence(id, tier, &s, &[], t0.elapsed().as_secs_f64(), 1, note);
}
