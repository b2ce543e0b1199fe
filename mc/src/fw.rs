//! Exhaustive bounded exploration: enumerates every case of every space, in parallel.
use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one case records while it runs.
pub struct Ctx {
    pub verbose: bool,
    pub log: String,
    pub states: u64,
    /// of these, reached by a case of its own (not hashed)
    pub plain: u64,
    pub transitions: u64,
    pub traces: u64,
    /// states counted by the explorer itself
    pub direct: u64,
    pub distinct: HashSet<u64>,
    pub tally: std::collections::BTreeMap<String, u64>,
    sink: Option<Arc<Mutex<String>>>,
}

impl Ctx {
    fn new() -> Self {
        Ctx {
            verbose: false,
            log: String::new(),
            states: 0,
            plain: 0,
            transitions: 0,
            traces: 0,
            direct: 0,
            distinct: HashSet::new(),
            tally: Default::default(),
            sink: None,
        }
    }
    /// One state of the model was compared with the implementation.
    pub fn state(&mut self) {
        self.states += 1;
        self.plain += 1;
    }
    /// Distinct (hashed) model state seen.
    pub fn state_hash(&mut self, h: u64) {
        self.states += 1;
        if self.distinct.len() < 2_000_000 {
            self.distinct.insert(h);
        }
    }
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    pub fn count(&mut self, what: &str) {
        if let Some(v) = self.tally.get_mut(what) {
            *v += 1
        } else {
            self.tally.insert(what.to_string(), 1);
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            if let Some(k) = &self.sink {
                let mut k = k.lock().unwrap();
                let _ = writeln!(k, "{}", s);
            }
            let _ = writeln!(self.log, "{}", s);
        }
    }
}

/// Mixed-radix decoder of a case number.
pub struct Dec(pub u64);
impl Dec {
    pub fn take(&mut self, n: usize) -> usize {
        let n = n as u64;
        let r = self.0 % n;
        self.0 /= n;
        r as usize
    }
    pub fn pick<'a, X>(&mut self, xs: &'a [X]) -> &'a X {
        &xs[self.take(xs.len())]
    }
}

pub type Run = Box<dyn Fn(u64, &mut Ctx) -> Result<(), String> + Send + Sync>;

pub struct Space {
    pub name: String,
    pub len: u64,
    pub what: String,
    pub run: Run,
}

pub fn space(
    name: &str,
    len: u64,
    what: &str,
    run: impl Fn(u64, &mut Ctx) -> Result<(), String> + Send + Sync + 'static,
) -> Space {
    Space {
        name: name.into(),
        len,
        what: what.into(),
        run: Box::new(run),
    }
}

pub struct Check {
    pub id: &'static str,
    pub spaces: Vec<Space>,
    pub assumptions: Vec<&'static str>,
}

thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
    static LOUD: std::cell::Cell<bool> = std::cell::Cell::new(true);
}

fn one(space: &Space, idx: u64, ctx: &mut Ctx) -> Result<(), String> {
    LOUD.with(|l| l.set(idx.wrapping_mul(0x9e3779b97f4a7c15) >> 61 == 0));
    match catch_unwind(AssertUnwindSafe(|| (space.run)(idx, ctx))) {
        Ok(r) => r,
        Err(_) => Err(format!(
            "panic: {}",
            PANIC.with(|p| p.borrow().clone())
        )),
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Slot {
    space: AtomicUsize,
    idx: AtomicU64,
    started: AtomicU64, // ms since t0, 0 = idle
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn known(id: &str) -> HashSet<String> {
    let mut set = HashSet::new();
    if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())) {
        for l in s.lines() {
            // finding: property=<id> case=<space>/<idx> <text>
            if let Some(rest) = l.strip_prefix(&format!("finding: property={} case=", id)) {
                if let Some(c) = rest.split_whitespace().next() {
                    set.insert(c.to_string());
                }
            }
        }
    }
    set
}

fn report(id: &str, space: &str, idx: u64, msg: &str, log: &str) -> ! {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}.txt", dir, id);
    let _ = std::fs::write(
        &path,
        format!(
            "property={}\ncase={}/{}\nviolation: {}\n--- case ---\n{}\n# run it again: ./check {} --replay {}\n",
            id, space, idx, msg, log, id, path
        ),
    );
    println!("case {}/{}: {}", space, idx, msg);
    let mut shown = String::new();
    for l in log.lines().take(60) {
        shown.push_str("  ");
        shown.push_str(l);
        shown.push('\n');
    }
    print!("{}", shown);
    println!("VIOLATION property={} replay={}", id, path);
    std::process::exit(1)
}

/// Runs the check; the return value is the exit code.
pub fn run_check(check: Check, tier: Tier, replay: Option<String>) -> i32 {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string();
        PANIC.with(|p| *p.borrow_mut() = msg);
    }));
    let id = check.id;
    if let Some(path) = replay {
        let s = match std::fs::read_to_string(&path) {
            Ok(s) => s,
            Err(e) => {
                eprintln!("cannot read {}: {}", path, e);
                return 2;
            }
        };
        let case = s
            .lines()
            .find_map(|l| l.strip_prefix("case="))
            .unwrap_or("")
            .to_string();
        let (sp, ix) = case.rsplit_once('/').unwrap_or(("", "0"));
        let ix: u64 = ix.parse().unwrap_or(0);
        let space = match check.spaces.iter().find(|x| x.name == sp) {
            Some(x) if ix < x.len => x,
            _ => {
                eprintln!("no such case: {}", case);
                return 2;
            }
        };
        let mut ctx = Ctx::new();
        ctx.verbose = true;
        watchdog_single(id, sp.to_string(), ix);
        match one(space, ix, &mut ctx) {
            Ok(()) => {
                println!("{}", ctx.log);
                println!("case {} holds", case);
                return 0;
            }
            Err(m) => {
                println!("{}", ctx.log);
                println!("case {}: {}", case, m);
                println!("VIOLATION property={} replay={}", id, path);
                return 1;
            }
        }
    }
    let t0 = Instant::now();
    let cap_s: u64 = std::env::var("KMC_CAP_S")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or(match tier {
            Tier::Quick => 600,
            Tier::Thorough => 6 * 3600,
        });
    let case_limit_ms: u64 = 60_000;
    let nthreads = std::env::var("KMC_THREADS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or_else(|| {
            std::thread::available_parallelism()
                .map(|x| x.get())
                .unwrap_or(8)
        });
    let known = Arc::new(known(id));
    let spaces = Arc::new(check.spaces);
    let cursor = Arc::new((AtomicUsize::new(0), Mutex::new((0usize, 0u64))));
    let capped = Arc::new(AtomicBool::new(false));
    let slots: Arc<Vec<Slot>> = Arc::new(
        (0..nthreads)
            .map(|_| Slot {
                space: AtomicUsize::new(0),
                idx: AtomicU64::new(0),
                started: AtomicU64::new(0),
            })
            .collect(),
    );
    // the violation with the lowest case number wins, so that reports do not depend on timing
    let found: Arc<Mutex<Option<(usize, u64, String)>>> = Arc::new(Mutex::new(None));
    let stop = Arc::new(AtomicBool::new(false));
    let known_hit: Arc<Mutex<Vec<(String, String)>>> = Arc::new(Mutex::new(vec![]));
    let mut handles = vec![];
    for t in 0..nthreads {
        let (spaces, cursor, slots, found, stop, known, known_hit, capped) = (
            spaces.clone(),
            cursor.clone(),
            slots.clone(),
            found.clone(),
            stop.clone(),
            known.clone(),
            known_hit.clone(),
            capped.clone(),
        );
        handles.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut ctx = Ctx::new();
                    let mut done: Vec<u64> = vec![0; spaces.len()];
                    'outer: loop {
                        // next chunk
                        let (s, from, to) = {
                            let mut c = cursor.1.lock().unwrap();
                            while c.0 < spaces.len() && c.1 >= spaces[c.0].len {
                                *c = (c.0 + 1, 0);
                            }
                            if c.0 >= spaces.len() {
                                break;
                            }
                            let len = spaces[c.0].len;
                            let chunk = (len / (nthreads as u64 * 16)).clamp(1, 256);
                            let from = c.1;
                            let to = (from + chunk).min(len);
                            c.1 = to;
                            (c.0, from, to)
                        };
                        for i in from..to {
                            if stop.load(Ordering::Relaxed) {
                                break 'outer;
                            }
                            if t0.elapsed().as_secs() > cap_s {
                                capped.store(true, Ordering::Relaxed);
                                break 'outer;
                            }
                            slots[t].space.store(s, Ordering::Relaxed);
                            slots[t].idx.store(i, Ordering::Relaxed);
                            slots[t]
                                .started
                                .store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                            let r = one(&spaces[s], i, &mut ctx);
                            slots[t].started.store(0, Ordering::SeqCst);
                            done[s] += 1;
                            if let Err(m) = r {
                                let key = format!("{}/{}", spaces[s].name, i);
                                if known.contains(&key) {
                                    known_hit.lock().unwrap().push((key, m));
                                    continue;
                                }
                                let mut f = found.lock().unwrap();
                                if f.as_ref().map_or(true, |x| (s, i) < (x.0, x.1)) {
                                    *f = Some((s, i, m));
                                }
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    (ctx, done)
                })
                .unwrap(),
        );
    }
    // watchdog
    loop {
        if handles.iter().all(|h| h.is_finished()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
        let now = t0.elapsed().as_millis() as u64;
        for sl in slots.iter() {
            let st = sl.started.load(Ordering::SeqCst);
            if st != 0 && now > st + case_limit_ms {
                let f = found.lock().unwrap().clone();
                let (s, i, m) = f.unwrap_or((
                    sl.space.load(Ordering::Relaxed),
                    sl.idx.load(Ordering::Relaxed),
                    format!("does not return within {} s", case_limit_ms / 1000),
                ));
                let log = describe(&spaces, s, i);
                report(id, &spaces[s].name, i, &m, &log);
            }
        }
        if resident_gb() > 20. {
            // memory runs out: the case that runs longest
            let first = slots.iter().filter(|x| x.started.load(Ordering::SeqCst) != 0).min_by_key(|x| x.started.load(Ordering::SeqCst));
            if let Some(sl) = first {
                if now > sl.started.load(Ordering::SeqCst) + 1_000 {
                    let (s, i) = (sl.space.load(Ordering::Relaxed), sl.idx.load(Ordering::Relaxed));
                    report(id, &spaces[s].name, i, "does not return: its memory grows without end", "");
                }
            }
        }
        if let Some((s, i, m)) = found.lock().unwrap().clone() {
            // give the other workers a moment to finish their case, then report
            let t1 = Instant::now();
            while t1.elapsed() < Duration::from_millis(500)
                && !handles.iter().all(|h| h.is_finished())
            {
                std::thread::sleep(Duration::from_millis(10));
            }
            let log = describe(&spaces, s, i);
            report(id, &spaces[s].name, i, &m, &log);
        }
    }
    if let Some((s, i, m)) = found.lock().unwrap().clone() {
        let log = describe(&spaces, s, i);
        report(id, &spaces[s].name, i, &m, &log);
    }
    let mut total = Ctx::new();
    let mut done = vec![0u64; spaces.len()];
    for h in handles {
        match h.join() {
            Ok((c, d)) => {
                total.states += c.states;
                total.plain += c.plain;
                total.transitions += c.transitions;
                total.traces += c.traces;
                total.direct += c.direct;
                total.distinct.extend(c.distinct);
                for (k, v) in c.tally {
                    *total.tally.entry(k).or_insert(0) += v;
                }
                for (i, x) in d.iter().enumerate() {
                    done[i] += x;
                }
            }
            Err(_) => {
                eprintln!("worker failed");
                return 2;
            }
        }
    }
    for (k, m) in known_hit.lock().unwrap().iter() {
        println!("KNOWN-FINDING: property={} case={} {}", id, k, m);
    }
    let capped = capped.load(Ordering::Relaxed);
    let wall = t0.elapsed().as_secs_f64();
    let seed: i64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or(1);
    // samples: the first and the middle case of some spaces, written out
    let mut samples = vec![];
    for s in spaces.iter() {
        if s.len == 0 {
            continue;
        }
        for i in [s.len / 2] {
            let mut c = Ctx::new();
            c.verbose = true;
            let _ = one(s, i, &mut c);
            let mut log = c.log;
            if log.len() > 600 {
                let mut e = 600;
                while !log.is_char_boundary(e) {
                    e -= 1;
                }
                log.truncate(e);
            }
            samples.push(jstr(&format!("{}/{}: {}", s.name, i, log.trim())));
        }
        if samples.len() >= 6 {
            break;
        }
    }
    let cases: u64 = done.iter().sum();
    let mut ev = String::new();
    let _ = write!(
        ev,
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"state_comparisons\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"spaces\": [\n",
        id,
        if tier == Tier::Quick { "quick" } else { "thorough" },
        seed,
        // states with a model key are counted once however often they were reached
        if total.direct > 0 { total.direct } else { total.plain + total.distinct.len() as u64 },
        total.states,
        total.transitions,
        if total.traces > 0 { total.traces } else { cases },
        !capped,
    );
    for (i, s) in spaces.iter().enumerate() {
        let _ = writeln!(
            ev,
            "   {{\"name\": {}, \"what\": {}, \"size\": {}, \"explored\": {}}}{}",
            jstr(&s.name),
            jstr(&s.what),
            s.len,
            done[i],
            if i + 1 < spaces.len() { "," } else { "" }
        );
    }
    ev.push_str("  ],\n  \"outcomes\": {");
    let mut first = true;
    for (k, v) in &total.tally {
        let _ = write!(ev, "{}{}: {}", if first { "" } else { ", " }, jstr(k), v);
        first = false;
    }
    let _ = write!(
        ev,
        "}},\n  \"how_traces_were_validated\": \"every enumerated case is executed on the real code built from /repo, and every state it reaches is compared with the reference model\",\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": 0\n}}\n",
        samples.join(", "),
        check
            .assumptions
            .iter()
            .map(|x| jstr(x))
            .collect::<Vec<_>>()
            .join(", "),
        wall
    );
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(format!("{}/{}.json", dir, id), ev).is_err() {
        eprintln!("cannot write evidence");
        return 2;
    }
    println!(
        "{} {}: {} cases, {} states, {} transitions, {} distinct, {:.1} s{} {:?}",
        id,
        if tier == Tier::Quick { "quick" } else { "thorough" },
        cases,
        total.states,
        total.transitions,
        total.distinct.len(),
        wall,
        if capped { " (capped)" } else { "" },
        total.tally
    );
    0
}

fn resident_gb() -> f64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    let pages: f64 = s.split_whitespace().nth(1).and_then(|x| x.parse().ok()).unwrap_or(0.);
    pages * 4096. / 1e9
}
fn watchdog_single(id: &'static str, space: String, idx: u64) {
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(60));
        println!("case {}/{}: does not return", space, idx);
        println!("VIOLATION property={} replay=-", id);
        std::process::exit(1);
    });
}

/// Runs the case again, verbosely, to describe it (in its own thread, as it may not return).
fn describe(spaces: &Arc<Vec<Space>>, s: usize, i: u64) -> String {
    let shared = Arc::new(Mutex::new(String::new()));
    let (sp, sh) = (spaces.clone(), shared.clone());
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut c = Ctx::new();
            c.verbose = true;
            c.sink = Some(sh);
            let _ = one(&sp[s], i, &mut c);
        })
        .unwrap();
    let t = Instant::now();
    while !h.is_finished() && t.elapsed() < Duration::from_secs(3) {
        std::thread::sleep(Duration::from_millis(5));
    }
    let r = shared.lock().unwrap().clone();
    r
}

#[cfg(feature = "noise")]
mod noise {
    //! In every eighth case, all that is logged is written out, and thrown away: what a user with a logger sees must not change anything
    use super::LOUD;
    struct Nowhere;
    impl std::fmt::Write for Nowhere {
        fn write_str(&mut self, _: &str) -> std::fmt::Result {
            Ok(())
        }
    }
    impl log::Log for Nowhere {
        fn enabled(&self, _: &log::Metadata) -> bool {
            true
        }
        fn log(&self, r: &log::Record) {
            if LOUD.with(|l| l.get()) {
                let _ = std::fmt::write(&mut Nowhere, *r.args());
            }
        }
        fn flush(&self) {}
    }
    pub fn install() {
        let _ = log::set_logger(&Nowhere);
        log::set_max_level(log::LevelFilter::Trace);
    }
}

/// `prog <id> [--replay FILE]`, tier from VERIF_TIER
pub fn main_with(get: impl Fn(&str, Tier) -> Option<Check>) {
    #[cfg(feature = "noise")]
    noise::install();
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        eprintln!("usage: {} <property> [--replay FILE]", args[0]);
        std::process::exit(2);
    }
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let replay = args
        .iter()
        .position(|x| x == "--replay")
        .and_then(|i| args.get(i + 1).cloned());
    match get(&args[1], tier) {
        Some(c) => std::process::exit(run_check(c, tier, replay)),
        None => {
            eprintln!("unknown property {}", args[1]);
            std::process::exit(2)
        }
    }
}

/// number of tuples: radix product
pub fn prod(xs: &[usize]) -> u64 {
    xs.iter().map(|x| *x as u64).product()
}

pub fn hash_of(xs: &[u64]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in xs {
        for b in x.to_le_bytes() {
            h ^= b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
    }
    h
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
