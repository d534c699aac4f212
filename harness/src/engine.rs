//! Runs a property over generated cases, shrinks the first failure, writes evidence.

use crate::src::{hash_str, mix, Src};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Fail {
    pub msg: String,
    /// The concrete failing input(s), human readable.
    pub input: String,
}

impl Fail {
    pub fn new(msg: impl Into<String>, input: impl Into<String>) -> Fail {
        Fail { msg: msg.into(), input: input.into() }
    }
}

pub type CaseResult = Result<(), Fail>;

/// What a case reports about itself.
#[derive(Default)]
pub struct Info {
    pub classes: Vec<&'static str>,
    pub nontrivial: bool,
    pub key: String,
    pub evaluations: u64,
}

impl Info {
    pub fn class(&mut self, name: &'static str) {
        self.classes.push(name);
    }
    pub fn class_if(&mut self, cond: bool, name: &'static str) {
        if cond {
            self.classes.push(name);
        }
    }
    pub fn set(&mut self, key: &str, nontrivial: bool) {
        self.key = key.to_owned();
        self.nontrivial = nontrivial;
    }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Src, &mut Info, u64) -> CaseResult,
    /// Finite enumerations and replayed regressions which run before the generated cases.
    pub fixed: Option<fn(&mut Fixed) -> CaseResult>,
    pub assumptions: &'static [&'static str],
    /// Cases are external processes, or otherwise too slow to shrink for long.
    pub slow: bool,
}

#[derive(Default)]
pub struct Fixed {
    pub evaluations: u64,
    pub distinct: u64,
    pub notes: Vec<String>,
    pub samples: Vec<String>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static IN_GUARD: RefCell<u32> = const { RefCell::new(0) };
}

/// Where to write each input before it is tried.
static TRACE: std::sync::OnceLock<Option<String>> = std::sync::OnceLock::new();

/// Calls code of fajt: a panic is the code's, everything outside of this is the harness'.
pub fn guard<T>(input: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    if let Some(path) = TRACE.get_or_init(|| std::env::var("VERIF_TRACE").ok()) {
        let _ = std::fs::write(path, input);
    }
    IN_GUARD.with(|g| *g.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_GUARD.with(|g| *g.borrow_mut() -= 1);
    r.map_err(|_| {
        let msg = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
        Fail::new(format!("panicked: {msg}"), input)
    })
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let guarded = IN_GUARD.with(|g| *g.borrow() > 0);
        let text = format!("{info}");
        if guarded {
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(text.replace('\n', " ")));
        } else {
            eprintln!("HARNESS PANIC: {text}");
            std::process::exit(3);
        }
    }));
}

struct Thread {
    case: AtomicU64,
    tid: AtomicU64,
}

struct Totals {
    evaluations: u64,
    cases: u64,
    nontrivial: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    samples: Vec<(u64, String)>,
}

const IDLE: u64 = u64::MAX;
const HANG_CPU_TICKS: u64 = 40 * 100;

fn thread_cpu_ticks(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

fn own_tid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().map(|n| n.to_string_lossy().into_owned()))
        .and_then(|s| s.parse().ok())
        .unwrap_or(0)
}

fn case_src(seed: u64, prop: &Property, idx: u64) -> Src {
    Src::random(mix(mix(seed, hash_str(prop.id)), idx))
}

fn run_choices(prop: &Property, choices: &[u32], idx: u64) -> (CaseResult, Vec<u32>) {
    let mut src = Src::replay(choices);
    let mut info = Info::default();
    let r = (prop.run)(&mut src, &mut info, idx);
    (r, src.record)
}

/// Deletes, zeroes and lowers choices as long as the case still fails.
fn shrink(prop: &Property, idx: u64, start: Vec<u32>, fail: Fail) -> (Vec<u32>, Fail) {
    let (budget, wall) = if prop.slow { (150, 40) } else { (6000, 60) };
    let begun = Instant::now();
    let mut tries = 0usize;
    let mut best = start;
    let mut best_fail = fail;
    let class = |m: &str| m.chars().take_while(|c| *c != ':').collect::<String>();
    let mut attempt = |cand: &[u32], best: &mut Vec<u32>, best_fail: &mut Fail| -> bool {
        if tries >= budget || begun.elapsed() > Duration::from_secs(wall) {
            return false;
        }
        tries += 1;
        let (r, mut rec) = run_choices(prop, cand, idx);
        if let Err(f) = r {
            while rec.last() == Some(&0) {
                rec.pop();
            }
            let smaller = (rec.len(), rec.iter().map(|v| *v as u64).sum::<u64>())
                < (best.len(), best.iter().map(|v| *v as u64).sum::<u64>());
            if smaller && class(&f.msg) == class(&best_fail.msg) {
                *best = rec;
                *best_fail = f;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let mut cand = best.clone();
                let end = (i + size).min(cand.len());
                cand.drain(i..end);
                if !attempt(&cand, &mut best, &mut best_fail) {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let mut cand = best.clone();
                cand[i] = 0;
                if !attempt(&cand, &mut best, &mut best_fail) && i < best.len() && best[i] > 1 {
                    let mut cand = best.clone();
                    cand[i] /= 2;
                    if !attempt(&cand, &mut best, &mut best_fail) && i < best.len() {
                        let mut cand = best.clone();
                        cand[i] -= 1;
                        attempt(&cand, &mut best, &mut best_fail);
                    }
                }
            }
            i += 1;
        }
        if best == before {
            return (best, best_fail);
        }
    }
}

fn write_replay(prop: &str, name: &str, v: Value) -> String {
    let dir = format!("{}/replays", crate::verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{name}.json");
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("write replay");
    path
}

pub fn violation(prop: &str, replay: &str, msg: &str, input: &str) {
    println!("failing input:\n{input}");
    println!("what failed: {msg}");
    println!("VIOLATION property={prop} replay={replay}");
}

pub struct Options {
    pub seed: u64,
    pub thorough: bool,
    pub cases: Option<u64>,
    pub offset: u64,
    pub stats: bool,
}

/// The worker process. Exit 0 held, 1 violation, 10 hang (violation printed), others are errors.
pub fn worker(prop: &'static Property, opt: &Options, state_file: &str) -> i32 {
    let begun = Instant::now();
    let known = crate::known::report(prop.id);

    let mut fixed = Fixed::default();
    let mut violations = 0;
    if let Some(f) = prop.fixed {
        watch_over(prop.id);
        let result = f(&mut fixed);
        watch_ends();
        if let Err(fail) = result {
            let path = write_replay(
                prop.id,
                "fixed",
                json!({"property": prop.id, "fixed": true, "input": fail.input, "message": fail.msg}),
            );
            violation(prop.id, &path, &fail.msg, &fail.input);
            violations = 1;
        }
    }

    let total = opt.cases.unwrap_or(if opt.thorough { prop.thorough } else { prop.quick });
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 8);
    let threads: &'static Vec<Thread> = Box::leak(Box::new(
        (0..nthreads)
            .map(|_| Thread { case: AtomicU64::new(IDLE), tid: AtomicU64::new(0) })
            .collect(),
    ));
    let next = AtomicU64::new(0);
    let min_fail = AtomicU64::new(u64::MAX);
    let fails: Mutex<Vec<(u64, Vec<u32>, Fail)>> = Mutex::new(vec![]);
    let totals = Mutex::new(Totals {
        evaluations: 0,
        cases: 0,
        nontrivial: HashSet::new(),
        classes: BTreeMap::new(),
        samples: vec![],
    });
    let running = AtomicUsize::new(nthreads);
    let done = AtomicBool::new(violations > 0);
    let sample_every = (total / 12).max(1);

    std::thread::scope(|scope| {
        for t in 0..nthreads {
            let (next, min_fail, fails, totals, running, done) =
                (&next, &min_fail, &fails, &totals, &running, &done);
            let me = &threads[t];
            let state_path = format!("{state_file}.{t}");
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(scope, move || {
                    use std::os::unix::fs::FileExt;
                    let state = std::fs::File::create(&state_path).expect("state file");
                    me.tid.store(own_tid(), Ordering::SeqCst);
                    let mut local: BTreeMap<&'static str, u64> = BTreeMap::new();
                    let mut seen: HashSet<u64> = HashSet::new();
                    let mut samples = vec![];
                    let (mut evals, mut cases) = (0u64, 0u64);
                    while !done.load(Ordering::Relaxed) {
                        let idx = next.fetch_add(1, Ordering::Relaxed);
                        if idx >= total || idx > min_fail.load(Ordering::SeqCst) {
                            break;
                        }
                        let case = idx + opt.offset;
                        let _ = state.write_all_at(&case.to_le_bytes(), 0);
                        me.case.store(case, Ordering::SeqCst);
                        let mut src = case_src(opt.seed, prop, case);
                        let mut info = Info::default();
                        let r = (prop.run)(&mut src, &mut info, case);
                        me.case.store(IDLE, Ordering::SeqCst);
                        cases += 1;
                        evals += info.evaluations.max(1);
                        for c in &info.classes {
                            *local.entry(c).or_default() += 1;
                        }
                        if info.nontrivial && seen.len() < 2_000_000 {
                            seen.insert(hash_str(&info.key));
                        }
                        if idx % sample_every == 0 && info.nontrivial {
                            samples.push((idx, info.key.chars().take(600).collect::<String>()));
                        }
                        if let Err(f) = r {
                            min_fail.fetch_min(idx, Ordering::SeqCst);
                            fails.lock().unwrap().push((case, src.record, f));
                        }
                    }
                    let _ = state.write_all_at(&IDLE.to_le_bytes(), 0);
                    let mut tot = totals.lock().unwrap();
                    tot.evaluations += evals;
                    tot.cases += cases;
                    tot.nontrivial.extend(seen);
                    tot.samples.extend(samples);
                    for (k, v) in local {
                        *tot.classes.entry(k).or_default() += v;
                    }
                    running.fetch_sub(1, Ordering::SeqCst);
                })
                .expect("spawn");
        }

        // Watches for a case that burns CPU without ending.
        let running = &running;
        scope.spawn(move || {
            let mut at: Vec<(u64, u64)> = vec![(IDLE, 0); nthreads];
            while running.load(Ordering::SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(200));
                for (t, th) in threads.iter().enumerate() {
                    let case = th.case.load(Ordering::SeqCst);
                    let ticks = thread_cpu_ticks(th.tid.load(Ordering::SeqCst)).unwrap_or(0);
                    if case == IDLE || case != at[t].0 {
                        at[t] = (case, ticks);
                    } else if ticks.saturating_sub(at[t].1) > HANG_CPU_TICKS {
                        std::process::exit(10);
                    }
                }
            }
        });
    });

    let tot = totals.into_inner().unwrap();
    let mut fails = fails.into_inner().unwrap();
    fails.sort_by_key(|f| f.0);
    if let Some((idx, record, fail)) = fails.into_iter().next() {
        violations = 1;
        let (choices, fail) = std::thread::Builder::new()
            .stack_size(1 << 30)
            .spawn(move || shrink(prop, idx, record, fail))
            .expect("spawn")
            .join()
            .unwrap();
        let path = write_replay(
            prop.id,
            &format!("{}-{}", opt.seed, idx),
            json!({"property": prop.id, "case": idx, "seed": opt.seed, "choices": choices,
                   "input": fail.input, "message": fail.msg}),
        );
        violation(prop.id, &path, &fail.msg, &fail.input);
    }

    let mut samples: Vec<(u64, String)> = tot.samples;
    samples.sort();
    let mut sample_values: Vec<Value> =
        samples.into_iter().take(12).map(|s| Value::String(s.1)).collect();
    sample_values.extend(fixed.samples.iter().take(8).map(|s| Value::String(s.clone())));
    let evidence = json!({
        "property": prop.id,
        "tier": if opt.thorough { "thorough" } else { "quick" },
        "seed": opt.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": tot.evaluations + fixed.evaluations,
            "distinct_nontrivial": tot.nontrivial.len() as u64 + fixed.distinct,
            "rule": prop.rule,
            "samples": sample_values,
            "cases": tot.cases,
            "enumerated": fixed.evaluations,
            "notes": fixed.notes,
            "classes": tot.classes,
            "known_findings_replayed": known,
        },
        "assumptions": prop.assumptions,
        "wall_s": begun.elapsed().as_secs_f64(),
        "violations": violations,
    });
    write_evidence(prop.id, &evidence);
    if opt.stats {
        println!("{}", serde_json::to_string_pretty(&evidence).unwrap());
    } else {
        println!(
            "{}: {} cases, {} evaluations, {} distinct non-trivial, {:.1}s",
            prop.id,
            tot.cases,
            tot.evaluations + fixed.evaluations,
            tot.nontrivial.len() as u64 + fixed.distinct,
            begun.elapsed().as_secs_f64()
        );
    }
    (violations > 0) as i32
}

fn write_evidence(id: &str, v: &Value) {
    let dir = format!("{}/evidence", crate::verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{id}.json"), serde_json::to_string_pretty(v).unwrap() + "\n")
        .expect("write evidence");
}

/// Runs one case in this process, used for crashes that take the process with them.
pub fn single(prop: &'static Property, seed: u64, case: u64) -> i32 {
    on_big_stack(move || {
        let mut src = case_src(seed, prop, case);
        let mut info = Info::default();
        (prop.run)(&mut src, &mut info, case).is_err() as i32
    })
}

pub fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(1 << 30).spawn(f).expect("spawn").join().unwrap()
}

/// The parent process: runs the worker, and turns a crash or hang of the code under test into a
/// violation once it reproduces in a process of its own.
pub fn supervise(prop: &'static Property, opt: &Options, args: &[String]) -> i32 {
    let state = format!("{}/replays/.state-{}-{}", crate::verif_dir(), prop.id, std::process::id());
    let _ = std::fs::create_dir_all(format!("{}/replays", crate::verif_dir()));
    let exe = std::env::current_exe().expect("exe");
    let begun = Instant::now();
    let mut cmd = std::process::Command::new("/bin/bash");
    cmd.arg("-c").arg("ulimit -S -v 24000000; exec \"$0\" \"$@\"").arg(&exe).args(args);
    cmd.arg("--worker").arg(&state);
    let status = cmd.status().expect("run worker");
    let mut cases = vec![];
    for t in 0..8 {
        let p = format!("{state}.{t}");
        if let Ok(d) = std::fs::read(&p) {
            if d.len() == 8 {
                let v = u64::from_le_bytes(d.try_into().unwrap());
                if v != IDLE {
                    cases.push(v);
                }
            }
            let _ = std::fs::remove_file(&p);
        }
    }
    match status.code() {
        Some(0) => return 0,
        Some(1) => return 1,
        Some(10) | None => {}
        Some(other) => {
            eprintln!("worker ended with {other}");
            return 3;
        }
    }
    if status.signal() == Some(9) {
        eprintln!("worker was killed");
        return 3;
    }
    for case in cases {
        let trace = format!("{state}.trace");
        let mut child = std::process::Command::new("/bin/bash")
            .env("VERIF_TRACE", &trace)
            .arg("-c")
            .arg("ulimit -S -v 16000000; ulimit -S -t 60; exec \"$0\" \"$@\"")
            .arg(&exe)
            .args(args)
            .arg("--single")
            .arg(case.to_string())
            .spawn()
            .expect("spawn");
        let st = child.wait().expect("wait");
        let last = std::fs::read_to_string(&trace).unwrap_or_default();
        let _ = std::fs::remove_file(&trace);
        if matches!(st.code(), Some(0) | Some(1)) {
            continue;
        }
        if matches!(st.code(), Some(c) if c == 3) {
            continue;
        }
        let what = match st.signal() {
            Some(24) | Some(9) => "does not terminate within 60 s of CPU time".to_owned(),
            Some(s) => format!("the process is ended by signal {s} (stack overflow, abort or runaway allocation)"),
            None => format!("exit {:?}", st.code()),
        };
        let input = format!("{last}\n(property {} seed {} case {case})", prop.id, opt.seed);
        let path = write_replay(
            prop.id,
            &format!("{}-{}", opt.seed, case),
            json!({"property": prop.id, "case": case, "seed": opt.seed, "input": input,
                   "message": what}),
        );
        write_evidence(
            prop.id,
            &json!({"property": prop.id, "tier": if opt.thorough {"thorough"} else {"quick"},
                "seed": opt.seed, "level": "exploration",
                "coverage": {"evaluations": case + 1, "distinct_nontrivial": 1, "rule": prop.rule,
                             "samples": [input.clone()]},
                "wall_s": begun.elapsed().as_secs_f64(), "violations": 1}),
        );
        violation(prop.id, &path, &what, &input);
        return 1;
    }
    eprintln!("the worker crashed ({status:?}) and the crash does not reproduce");
    3
}

/// Input of the enumeration that runs now, and since when, in CPU time.
static WATCH: Mutex<Option<String>> = Mutex::new(None);
static WATCH_COUNT: AtomicU64 = AtomicU64::new(0);
static WATCHED: AtomicU64 = AtomicU64::new(0);

/// Notes what an enumeration is about to try.
pub fn watch(text: impl FnOnce() -> String) {
    WATCH_COUNT.fetch_add(1, Ordering::Relaxed);
    *WATCH.lock().unwrap() = Some(text());
}

fn watch_ends() {
    WATCHED.store(0, Ordering::SeqCst);
}

/// An enumeration runs on this thread: a part of it that does not end is a violation.
fn watch_over(id: &'static str) {
    let tid = own_tid();
    WATCHED.store(tid, Ordering::SeqCst);
    std::thread::spawn(move || {
        let (mut count, mut ticks) = (u64::MAX, 0);
        while WATCHED.load(Ordering::SeqCst) == tid {
            std::thread::sleep(Duration::from_millis(200));
            let now = thread_cpu_ticks(tid).unwrap_or(0);
            let n = WATCH_COUNT.load(Ordering::Relaxed);
            if n != count {
                (count, ticks) = (n, now);
            } else if now.saturating_sub(ticks) > HANG_CPU_TICKS && WATCHED.load(Ordering::SeqCst) == tid {
                let input = WATCH.lock().unwrap().clone().unwrap_or_default();
                let msg = "does not terminate within 40 s of CPU time";
                let path = write_replay(id, "fixed", json!({"property": id, "fixed": true, "input": input, "message": msg}));
                write_evidence(id, &json!({"property": id, "tier": "quick", "seed": 1, "level": "exploration",
                    "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "", "samples": [input.clone()]},
                    "wall_s": 40.0, "violations": 1}));
                violation(id, &path, msg, &input);
                std::process::exit(1);
            }
        }
    });
}

pub fn replay(prop: &'static Property, path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file"))
        .expect("replay json");
    if v["fixed"] == json!(true) {
        let mut fixed = Fixed::default();
        if let Some(f) = prop.fixed {
            if let Err(fail) = f(&mut fixed) {
                violation(prop.id, path, &fail.msg, &fail.input);
                return 1;
            }
        }
        println!("does not fail");
        return 0;
    }
    let idx = v["case"].as_u64().unwrap_or(0);
    let choices: Vec<u32> = match v["choices"].as_array() {
        Some(a) => a.iter().map(|x| x.as_u64().unwrap() as u32).collect(),
        None => return single(prop, v["seed"].as_u64().unwrap_or(1), idx),
    };
    let r = on_big_stack(move || run_choices(prop, &choices, idx).0);
    match r {
        Ok(()) => {
            println!("does not fail");
            0
        }
        Err(f) => {
            violation(prop.id, path, &f.msg, &f.input);
            1
        }
    }
}
