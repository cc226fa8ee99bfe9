//! Exploration of scenarios by a pool of workers, confirmation of counterexamples by replaying
//! them natively, and the evidence record.
use crate::dom::{Native, NAT};
use crate::engine::*;
use crate::z3::Res;
use serde_json::{json, Value};
use std::collections::{HashMap, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub type Thunk = Box<dyn Fn() + Send + Sync>;
pub struct Scen {
    pub name: String,
    pub mode: Mode,
    pub exact_forks: bool,
    /// sines and cosines carry few facts of their own
    pub light: bool,
    pub congruent: bool,
    pub envelopes: bool,
    pub sym: Thunk,
    /// native instantiations, tried in order when replaying
    pub nat: Vec<(&'static str, Thunk)>,
    pub bounds: String,
    /// limit on the worker time of the scenario
    pub secs: f64,
    /// run in the thorough tier only
    pub thorough: bool,
}
#[macro_export]
macro_rules! scen {
    ($name:expr, $mode:ident, $bounds:expr, $f:ident $(, $arg:expr)*) => {
        $crate::run::Scen {
            name: $name.to_string(),
            mode: $crate::engine::Mode::$mode,
            exact_forks: $crate::engine::Mode::$mode == $crate::engine::Mode::Real,
            light: false,
            congruent: false,
            envelopes: false,
            sym: $crate::thunk!($f, $crate::sym::S $(, $arg)*),
            nat: $crate::natives!($mode, $f $(, $arg)*),
            bounds: $bounds.to_string(),
            secs: 360.0,
            thorough: false,
        }
    };
}
#[macro_export]
macro_rules! natives {
    (Int, $f:ident $(, $arg:expr)*) => { vec![("i32", $crate::thunk!($f, i32 $(, $arg)*))] };
    (Round, $f:ident $(, $arg:expr)*) => { vec![
        ("f64", $crate::thunk!($f, f64 $(, $arg)*)),
        ("f32", $crate::thunk!($f, f32 $(, $arg)*))] };
    (Real, $f:ident $(, $arg:expr)*) => { vec![("f64", $crate::thunk!($f, f64 $(, $arg)*))] };
}
#[macro_export]
macro_rules! thunk {
    ($f:ident, $t:ty) => { Box::new(|| $f::<$t>()) as $crate::run::Thunk };
    ($f:ident, $t:ty, $a:expr) => {{ let a = $a.clone(); Box::new(move || $f::<$t>(a.clone())) as $crate::run::Thunk }};
    ($f:ident, $t:ty, $a:expr, $b:expr) => {{ let (a, b) = ($a.clone(), $b.clone()); Box::new(move || $f::<$t>(a.clone(), b.clone())) as $crate::run::Thunk }};
    ($f:ident, $t:ty, $a:expr, $b:expr, $c:expr) => {{ let (a, b, c) = ($a.clone(), $b.clone(), $c.clone()); Box::new(move || $f::<$t>(a.clone(), b.clone(), c.clone())) as $crate::run::Thunk }};
    ($f:ident, $t:ty, $a:expr, $b:expr, $c:expr, $d:expr) => {{ let (a, b, c, d) = ($a.clone(), $b.clone(), $c.clone(), $d.clone()); Box::new(move || $f::<$t>(a.clone(), b.clone(), c.clone(), d.clone())) as $crate::run::Thunk }};
}
impl Scen {
    pub fn secs(mut self, s: f64) -> Scen {
        self.secs = s * 4.0;
        self
    }
    pub fn light(mut self) -> Scen {
        self.light = true;
        self.exact_forks = false;
        self
    }
    /// linear envelopes over the ranges of the variables
    pub fn envelopes(mut self) -> Scen {
        self.envelopes = true;
        self
    }
    pub fn congruent(mut self) -> Scen {
        self.congruent = true;
        self
    }
    pub fn thorough(mut self) -> Scen {
        self.thorough = true;
        self
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub scenario: String,
    pub what: String,
    pub num: String,
    pub values: Vec<(String, f64)>,
    pub choices: Vec<u16>,
    pub path: String,
}
pub enum NatOut {
    Ok(Vec<i64>, u64),
    Prune,
    Fail(String),
}
fn payload(p: Box<dyn std::any::Any + Send>) -> Stop {
    match p.downcast::<Stop>() {
        Ok(s) => *s,
        Err(p) => {
            let m = if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else {
                "panic".into()
            };
            Stop::Check(format!("panic: {m}"))
        }
    }
}
/// Run a native instantiation on concrete values.
pub fn replay(f: &Thunk, values: &[(String, f64)], choices: &[u16]) -> (NatOut, Vec<(String, f64)>) {
    let saved = ENG.with(|e| e.borrow_mut().take());
    NAT.with(|n| {
        *n.borrow_mut() = Some(Native {
            values: values.iter().cloned().collect::<HashMap<_, _>>(),
            choices: choices.to_vec(),
            ..Default::default()
        })
    });
    let r = catch_unwind(AssertUnwindSafe(|| f()));
    let n = NAT.with(|n| n.borrow_mut().take()).unwrap();
    ENG.with(|e| *e.borrow_mut() = saved);
    let out = match r {
        Ok(()) => NatOut::Ok(n.observed, n.checks),
        Err(p) => match payload(p) {
            Stop::Prune => NatOut::Prune,
            Stop::Check(w) => NatOut::Fail(w),
            Stop::Engine(w) => NatOut::Fail(format!("panic: {w}")),
        },
    };
    (out, n.used)
}

#[derive(Default, Clone)]
pub struct ScenResult {
    pub stats: Stats,
    pub violations: Vec<Violation>,
    pub refuted: u64,
    pub unresolved: Vec<String>,
    pub errors: Vec<String>,
    pub truncated: bool,
    pub mismatches: u64,
    pub sample: Vec<String>,
    pub val_runs: u64,
    pub started: Option<Instant>,
    pub wall: f64,
}
struct Job {
    scen: usize,
    prefix: Vec<Dec>,
}
struct Shared {
    q: Mutex<(VecDeque<Job>, Vec<usize>)>, // jobs, outstanding jobs per scenario
    cv: Condvar,
    idle: AtomicUsize,
    stop: Vec<AtomicBool>,
    res: Vec<Mutex<ScenResult>>,
    /// worker time spent per scenario, in microseconds
    used: Vec<AtomicU64>,
    beat: Vec<Mutex<(Instant, usize)>>,
    /// when the first violation was confirmed: the rest is given little more time
    first: Mutex<Option<Instant>>,
}
const GRACE: u64 = 90;
const MAX_DECISIONS: usize = 400_000;

fn worker(sh: Arc<Shared>, scens: Arc<Vec<Scen>>, wid: usize, deadline: Instant) {
    let mut cur: usize = usize::MAX;
    let here = 0u8;
    let base = &here as *const u8;
    loop {
        let job = {
            let mut g = sh.q.lock().unwrap();
            loop {
                if let Some(j) = g.0.pop_front() {
                    break Some(j);
                }
                if g.1.iter().sum::<usize>() == 0 {
                    sh.cv.notify_all();
                    break None;
                }
                sh.idle.fetch_add(1, SeqCst);
                g = sh.cv.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
                sh.idle.fetch_sub(1, SeqCst);
            }
        };
        let Some(job) = job else { break };
        let sc = &scens[job.scen];
        {
            let mut r = sh.res[job.scen].lock().unwrap();
            if r.started.is_none() {
                r.started = Some(Instant::now());
            }
        }
        let started = sh.res[job.scen].lock().unwrap().started.unwrap();
        if cur != job.scen {
            cur = job.scen;
            let mut e = Engine::new(sc.mode);
            e.exact_forks = sc.exact_forks;
            e.light = sc.light;
            e.congruent = sc.congruent;
            e.envelopes = sc.envelopes;
            ENG.with(|g| *g.borrow_mut() = Some(e));
        }
        with(|e| e.begin_job(job.prefix));
        loop {
            if sh.stop[job.scen].load(SeqCst) {
                break;
            }
            if sh.used[job.scen].load(SeqCst) as f64 / 1e6 > sc.secs
                || Instant::now() > deadline
                || sh.first.lock().unwrap().is_some_and(|t| t.elapsed() > Duration::from_secs(GRACE))
            {
                sh.res[job.scen].lock().unwrap().truncated = true;
                break;
            }
            *sh.beat[wid].lock().unwrap() = (Instant::now(), job.scen);
            let t0 = Instant::now();
            with(|e| {
                e.begin_path();
                e.stack_base = base as usize;
                e.path_limit = (sc.secs / 2.0).min(100.0)
            });
            let r = catch_unwind(AssertUnwindSafe(|| (sc.sym)()));
            match r {
                Ok(()) => path_done(&sh, sc, job.scen),
                Err(p) => match payload(p) {
                    Stop::Prune => with(|e| e.stats.pruned += 1),
                    Stop::Engine(m) => {
                        let mut r = sh.res[job.scen].lock().unwrap();
                        if m == "path too long" {
                            r.truncated = true;
                        } else if r.errors.len() < 5 && !r.errors.contains(&m) {
                            r.errors.push(m);
                        }
                        if r.errors.len() >= 5 {
                            sh.stop[job.scen].store(true, SeqCst);
                        }
                    }
                    Stop::Check(what) => candidate(&sh, sc, job.scen, &what),
                },
            }
            sh.used[job.scen].fetch_add(t0.elapsed().as_micros() as u64, SeqCst);
            // share work with idle workers
            let want = sh.idle.load(SeqCst);
            if want > 0 {
                let mut g = sh.q.lock().unwrap();
                let mut given = 0;
                while given < want && g.0.len() < want {
                    match with(|e| e.donate()) {
                        Some(p) => {
                            g.0.push_back(Job { scen: job.scen, prefix: p });
                            g.1[job.scen] += 1;
                            given += 1;
                        }
                        None => break,
                    }
                }
                if given > 0 {
                    sh.cv.notify_all();
                }
            }
            if !with(|e| e.backtrack()) {
                break;
            }
        }
        let st = with(|e| {
            e.flush_solver_stats();
            std::mem::take(&mut e.stats)
        });
        {
            let mut r = sh.res[job.scen].lock().unwrap();
            add(&mut r.stats, &st);
            r.wall = started.elapsed().as_secs_f64();
        }
        let mut g = sh.q.lock().unwrap();
        g.1[job.scen] -= 1;
        sh.cv.notify_all();
    }
    ENG.with(|g| *g.borrow_mut() = None);
    *sh.beat[wid].lock().unwrap() = (Instant::now() + Duration::from_secs(1 << 20), 0);
}
fn add(a: &mut Stats, b: &Stats) {
    a.paths += b.paths;
    a.pruned += b.pruned;
    a.forks += b.forks;
    a.decisions += b.decisions;
    a.queries += b.queries;
    a.unknown += b.unknown;
    a.checks += b.checks;
    a.exact_queries += b.exact_queries;
    a.exact_unsat += b.exact_unsat;
    a.solver_s += b.solver_s;
    a.validated += b.validated;
    a.val_runs += b.val_runs;
}
fn path_done(sh: &Shared, sc: &Scen, i: usize) {
    let n = with(|e| {
        e.stats.paths += 1;
        e.stats.paths
    });
    // replay a sample of the explored paths against the natively compiled code
    if n <= 24 || n % 64 == 0 {
        let (m, choices, obs) = with(|e| (e.abstract_model(), e.choices(), e.observed.clone()));
        if let Some(m) = m {
            let mut ok = false;
            let mut failed = None;
            let (out, _) = replay(&sc.nat[0].1, &m, &choices);
            match out {
                NatOut::Ok(o, _) => ok = o == obs,
                NatOut::Fail(w) => failed = Some(w),
                NatOut::Prune => {}
            }
            with(|e| {
                e.stats.val_runs += 1;
                e.stats.validated += ok as u64
            });
            if !ok || n <= 2 {
                let mut r = sh.res[i].lock().unwrap();
                if !ok {
                    r.mismatches += 1;
                }
                if r.sample.len() < 3 {
                    let f = failed.map(|w| format!(" native check failed: {w}")).unwrap_or_default();
                    r.sample.push(format!("{} inputs {:?} choices {:?} {}{}", sc.name, m, choices, if ok { "agrees with native run" } else { "native run differs (rounding)" }, f));
                }
            }
        }
    }
}
fn candidate(sh: &Shared, sc: &Scen, i: usize, what: &str) {
    let choices = with(|e| e.choices());
    let mut found: Option<Violation> = None;
    let path = with(|e| e.describe_path());
    let mut try_values = |m: &[(String, f64)]| -> bool {
        for (num, f) in &sc.nat {
            if what == RUNAWAY {
                // may never come back: in a process of its own
                let v = Violation { scenario: sc.name.clone(), what: what.to_string(), num: num.to_string(), values: m.to_vec(), choices: choices.clone(), path: String::new() };
                if let Some(w) = replay_apart(&v) {
                    found = Some(Violation { what: w, ..v });
                    return true;
                }
                continue;
            }
            let (out, used) = replay(f, m, &choices);
            if let NatOut::Fail(w) = out {
                found = Some(Violation { scenario: sc.name.clone(), what: w, num: num.to_string(), values: used, choices: choices.clone(), path: String::new() });
                return true;
            }
        }
        false
    };
    // the engine is out of its cell while natives run; take it explicitly for the model search
    let mut e = ENG.with(|g| g.borrow_mut().take()).unwrap();
    // where sines and cosines are abstracted, look for concrete inputs around the abstract counterexample first
    let mut taken = what != RUNAWAY && sc.mode == Mode::Real && e.concretize(&mut try_values);
    let r = if taken {
        Res::Sat
    } else {
        let (r, t) = e.exact_models(&mut try_values);
        taken = t;
        r
    };
    if !taken && r != Res::Unsat {
        if let Some(m) = e.abstract_model() {
            taken = try_values(&m);
        }
        if !taken {
            // neighbours of the model: solver witnesses often sit exactly on a boundary
            if let Some(m) = e.abstract_model() {
                for g in [1.0, 4.0, 16.0, 256.0] {
                    let q: Vec<(String, f64)> = m.iter().map(|(n, v)| (n.clone(), (v * g).round() / g)).collect();
                    if try_values(&q) {
                        taken = true;
                        break;
                    }
                }
            }
        }
    }
    if !taken && r != Res::Unsat && what != RUNAWAY && sc.mode != Mode::Int {
        taken = e.spread_models(60, &mut try_values);
    }
    ENG.with(|g| *g.borrow_mut() = Some(e));
    let mut res = sh.res[i].lock().unwrap();
    if taken {
        let mut v = found.unwrap();
        v.path = path;
        res.violations.push(v);
        sh.first.lock().unwrap().get_or_insert_with(Instant::now);
        if res.violations.len() >= 3 {
            sh.stop[i].store(true, SeqCst);
        }
    } else if r == Res::Unsat {
        res.refuted += 1;
    } else {
        if res.unresolved.len() < 10 {
            res.unresolved.push(format!("{what} [{r:?}] choices {choices:?}"));
        }
        if std::env::var("SX_DEBUG").is_ok() {
            eprintln!("UNRESOLVED {} {what} {r:?}\n{path}", sc.name);
        }
        if res.unresolved.len() >= 10 {
            sh.stop[i].store(true, SeqCst);
            res.truncated = true;
        }
    }
}
/// Replay in a child process; what went wrong, if anything did.
pub fn replay_apart(v: &Violation) -> Option<String> {
    static N: AtomicUsize = AtomicUsize::new(0);
    let f = std::env::temp_dir().join(format!("sx-{}-{}.json", std::process::id(), N.fetch_add(1, SeqCst)));
    let prop = PROP.get().map(|s| s.as_str()).unwrap_or("");
    std::fs::write(&f, violation_json(prop, v).to_string()).ok()?;
    let mut c = std::process::Command::new(std::env::current_exe().ok()?)
        .arg("replay")
        .arg(&f)
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn()
        .ok()?;
    let t = Instant::now();
    let r = loop {
        match c.try_wait() {
            Ok(Some(s)) => {
                break match s.code() {
                    Some(0) | Some(2) => None,
                    Some(1) => Some("an assertion fails natively".to_string()),
                    _ => Some("the native run overflows its stack or aborts".to_string()),
                }
            }
            Ok(None) if t.elapsed().as_secs() >= 15 => {
                let _ = c.kill();
                let _ = c.wait();
                break Some("the native run does not end within 15 s".to_string());
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(10)),
            Err(_) => break None,
        }
    };
    let _ = std::fs::remove_file(&f);
    r
}
pub static PROP: std::sync::OnceLock<String> = std::sync::OnceLock::new();
pub fn explore(scens: Vec<Scen>, workers: usize, budget: f64) -> (Arc<Vec<Scen>>, Vec<ScenResult>) {
    let n = scens.len();
    let scens = Arc::new(scens);
    let mut q = VecDeque::new();
    for i in 0..n {
        q.push_back(Job { scen: i, prefix: vec![] });
    }
    let sh = Arc::new(Shared {
        q: Mutex::new((q, vec![1; n])),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        stop: (0..n).map(|_| AtomicBool::new(false)).collect(),
        res: (0..n).map(|_| Mutex::new(ScenResult::default())).collect(),
        used: (0..n).map(|_| AtomicU64::new(0)).collect(),
        beat: (0..workers).map(|_| Mutex::new((Instant::now(), 0))).collect(),
        first: Mutex::new(None),
    });
    let deadline = Instant::now() + Duration::from_secs_f64(budget);
    let hs: Vec<_> = (0..workers)
        .map(|w| {
            let (sh, sc) = (sh.clone(), scens.clone());
            std::thread::Builder::new().stack_size(256 << 20).spawn(move || worker(sh, sc, w, deadline)).unwrap()
        })
        .collect();
    // watchdog: a path that makes no progress is reported, not waited for
    let mut stuck = false;
    loop {
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
        for b in &sh.beat {
            let (t, s) = *b.lock().unwrap();
            if Instant::now().saturating_duration_since(t) > Duration::from_secs(150) {
                let mut r = sh.res[s].lock().unwrap();
                r.errors.push("a path did not finish within 150 s".into());
                r.truncated = true;
                // does the code hang natively, too?
                let sc = &scens[s];
                let tries: Vec<Vec<u16>> = vec![vec![], vec![1; 12], vec![2; 12], vec![0, 1, 0, 1, 0, 1], vec![1, 0, 1, 0, 1, 0]];
                let hit = std::thread::scope(|g| {
                    let hs: Vec<_> = tries
                        .into_iter()
                        .map(|ch| {
                            g.spawn(move || {
                                let v = Violation { scenario: sc.name.clone(), what: RUNAWAY.into(), num: sc.nat[0].0.into(), values: vec![], choices: ch, path: String::new() };
                                replay_apart(&v).filter(|w| w.starts_with("the native run")).map(|w| Violation { what: w, ..v })
                            })
                        })
                        .collect();
                    hs.into_iter().filter_map(|h| h.join().ok().flatten()).next()
                });
                r.violations.extend(hit);
                stuck = true;
            }
        }
        if stuck {
            break;
        }
    }
    if !stuck {
        for h in hs {
            let _ = h.join();
        }
    }
    let res = sh.res.iter().map(|r| r.lock().unwrap().clone()).collect();
    let _ = MAX_DECISIONS;
    (scens, res)
}
pub fn violation_json(prop: &str, v: &Violation) -> Value {
    json!({
        "property": prop,
        "scenario": v.scenario,
        "violated": v.what,
        "number_type": v.num,
        "values": v.values.iter().map(|(n, x)| json!([n, x])).collect::<Vec<_>>(),
        "choices": v.choices,
        "path_condition": v.path,
    })
}
