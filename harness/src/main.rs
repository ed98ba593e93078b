//! Runtime monitors for Panacea. `pverif <property> --seed S --tier quick|thorough --out F --replay F`
//! runs the property's workload under its oracle and writes what was observed.
//!
//! Exit status: 0 held, 1 violated (line `VIOLATION ...`), 3 inconclusive.
#![allow(unexpected_cfgs, deprecated, unused_mut, dead_code)]
mod alloc;
mod algebra;
mod misc;
mod noise;
mod oram;
mod tree;
mod util;

use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use util::*;

#[cfg(not(panacea_san))]
#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

pub type Res = Result<(), String>;

/// One case: its generator state and what its monitors observed.
pub struct Case {
    pub k: u64,
    pub rng: Rng,
    pub thorough: bool,
    /// run under a slow instrumentation: smaller workload
    pub light: bool,
    pub evals: u64,
    pub seen: Vec<u64>,
    pub sums: BTreeMap<&'static str, f64>,
    pub maxs: BTreeMap<&'static str, f64>,
    pub desc: String,
    pub sample: String,
}

impl Case {
    /// One oracle decision on an observed execution; `key` identifies it for the distinct count
    /// (None: trivial by the property's rule).
    pub fn eval(&mut self, key: Option<u64>) {
        self.evals += 1;
        BEAT.fetch_add(1, Relaxed);
        if let Some(k) = key {
            self.seen.push(k);
        }
    }
    pub fn add(&mut self, k: &'static str, v: f64) {
        *self.sums.entry(k).or_insert(0.0) += v;
    }
    pub fn max(&mut self, k: &'static str, v: f64) {
        let e = self.maxs.entry(k).or_insert(f64::NEG_INFINITY);
        if v > *e {
            *e = v;
        }
    }
    pub fn note(&mut self, s: String) {
        if self.desc.len() < 4000 {
            if !self.desc.is_empty() {
                self.desc.push_str("; ");
            }
            self.desc.push_str(&s);
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// cases run at the same time
    pub workers: usize,
    /// seconds after which no new case is started (quick tier; thorough gets 15 times as much)
    pub secs: f64,
    /// fewer evaluations than this are inconclusive
    pub min_evals: u64,
    pub rule: &'static str,
    pub f: fn(&mut Case) -> Res,
}

pub static BEAT: AtomicU64 = AtomicU64::new(0);
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    let m = if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    };
    format!("{} [{}]", m, LAST_PANIC.lock().map(|x| x.clone()).unwrap_or_default())
}

/// Run `f`, which must be refused with a panic.
pub fn refused<T>(f: impl FnOnce() -> T) -> Result<String, T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Err(x),
        Err(p) => Ok(panic_text(&*p)),
    }
}

fn props() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(oram::props());
    v.extend(noise::props());
    v.extend(algebra::props());
    v.extend(tree::props());
    v.extend(misc::props());
    v
}

struct Args {
    id: String,
    seed: u64,
    thorough: bool,
    light: bool,
    out: Option<String>,
    replay: Option<String>,
    case: Option<u64>,
    cases: Option<u64>,
    secs: Option<f64>,
    from: u64,
}

fn args() -> Args {
    let mut it = std::env::args().skip(1);
    let id = it.next().expect("property id");
    let mut a = Args { id, seed: 1, thorough: false, light: false, out: None, replay: None, case: None, cases: None, secs: None, from: 0 };
    while let Some(x) = it.next() {
        let mut val = || it.next().expect("value");
        match x.as_str() {
            "--seed" => a.seed = val().parse().unwrap(),
            "--tier" => a.thorough = val() == "thorough",
            "--light" => a.light = true,
            "--out" => a.out = Some(val()),
            "--replay" => a.replay = Some(val()),
            "--case" => a.case = Some(val().parse().unwrap()),
            "--cases" => a.cases = Some(val().parse().unwrap()),
            "--from" => a.from = val().parse().unwrap(),
            "--secs" => a.secs = Some(val().parse().unwrap()),
            _ => panic!("unknown option {x}"),
        }
    }
    a
}

fn cpu_ticks() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
}
/// CPU seconds of this process
pub fn cpu_secs() -> f64 {
    cpu_ticks() as f64 / 100.0
}

fn all_asleep() -> bool {
    let me = std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().map(|s| s.to_owned()));
    let Ok(dir) = std::fs::read_dir("/proc/self/task") else { return false };
    for t in dir.flatten() {
        if Some(t.file_name()) == me {
            continue;
        }
        let s = std::fs::read_to_string(t.path().join("stat")).unwrap_or_default();
        let st = s.rsplit(')').next().unwrap_or("").trim_start().chars().next().unwrap_or('S');
        if st != 'S' {
            return false;
        }
    }
    true
}

fn main() {
    let a = args();
    std::panic::set_hook(Box::new(|i| {
        if let Ok(mut l) = LAST_PANIC.lock() {
            *l = i.location().map(|x| x.to_string()).unwrap_or_default();
        }
    }));
    let all = props();
    if let Some(kind) = a.id.strip_prefix("sample-") {
        misc::print_sample(kind == "secure");
        return;
    }
    if a.id == "list" {
        for p in &all {
            println!("{}", p.id);
        }
        return;
    }
    let p = all.into_iter().find(|p| p.id == a.id).unwrap_or_else(|| {
        eprintln!("unknown property {}", a.id);
        std::process::exit(3)
    });
    let start = Instant::now();
    let n = a.cases.unwrap_or(if a.thorough { p.thorough } else { p.quick });
    let secs = a.secs.unwrap_or(if a.thorough { p.secs * 15.0 } else { p.secs }).min(800.0);
    let next = AtomicU64::new(a.from);
    let done = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    struct Total {
        evals: u64,
        distinct: HashSet<u64>,
        sums: BTreeMap<&'static str, f64>,
        maxs: BTreeMap<&'static str, f64>,
        samples: Vec<String>,
        violations: Vec<(u64, String, String)>,
    }
    let total = Mutex::new(Total { evals: 0, distinct: HashSet::new(), sums: BTreeMap::new(), maxs: BTreeMap::new(), samples: vec![], violations: vec![] });
    let open = Mutex::new(BTreeMap::<u64, Instant>::new());
    let finished = AtomicBool::new(false);

    let finish = |total: &Total, hang: Option<String>| -> i32 {
        let mut viol = total.violations.clone();
        viol.sort();
        if let Some(h) = &hang {
            let k = open.lock().unwrap().keys().next().copied().unwrap_or(0);
            viol.push((k, h.clone(), String::new()));
        }
        let cases = done.load(SeqCst);
        let ev = json!({
            "property": p.id,
            "tier": if a.thorough { "thorough" } else { "quick" },
            "seed": a.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": total.evals,
                "distinct_nontrivial": total.distinct.len(),
                "rule": p.rule,
                "samples": total.samples,
                "cases": cases,
                "observed": total.sums.iter().map(|(k, v)| (k.to_string(), json!(v))).collect::<serde_json::Map<String, Value>>(),
                "observed_max": total.maxs.iter().filter(|x| x.1.is_finite()).map(|(k, v)| (k.to_string(), json!((v * 1000.0).round() / 1000.0))).collect::<serde_json::Map<String, Value>>(),
            },
            "wall_s": start.elapsed().as_secs_f64(),
            "violations": viol.len(),
        });
        if let Some(o) = &a.out {
            std::fs::write(o, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        }
        println!("{}: {} cases, {} evaluations, {} distinct non-trivial, {:.1} s", p.id, cases, total.evals, total.distinct.len(), start.elapsed().as_secs_f64());
        for (k, v) in &total.sums {
            println!("  {k} = {v}");
        }
        for (k, v) in &total.maxs {
            println!("  max {k} = {v:.3}");
        }
        if let Some((k, e, _)) = viol.iter().find(|v| v.1.contains("HARNESS:")) {
            println!("INCONCLUSIVE: case {k}: {e}");
            viol.retain(|v| !v.1.contains("HARNESS:"));
            if viol.is_empty() {
                return 3;
            }
        }
        if let Some((k, e, d)) = viol.first() {
            let rp = a.replay.clone().unwrap_or_else(|| format!("/tmp/{}-replay.json", p.id));
            let f = json!({"property": p.id, "seed": a.seed, "tier": if a.thorough { "thorough" } else { "quick" }, "light": a.light,
                "case": k, "error": e, "case_description": d,
                "all": viol.iter().map(|(k, e, _)| json!({"case": k, "error": e})).collect::<Vec<_>>(),
                "replay_cmd": format!("pverif {} --seed {} --tier {} --case {}", p.id, a.seed, if a.thorough { "thorough" } else { "quick" }, k)});
            let _ = std::fs::write(&rp, serde_json::to_string_pretty(&f).unwrap());
            println!("case {k}: {e}");
            println!("  {d}");
            println!("VIOLATION property={} replay={}", p.id, rp);
            return 1;
        }
        if a.case.is_none() && a.cases.is_none() && total.evals < p.min_evals {
            println!("INCONCLUSIVE: only {} evaluations, at least {} are needed", total.evals, p.min_evals);
            return 3;
        }
        0
    };

    let code = std::thread::scope(|s| {
        for _ in 0..p.workers {
            std::thread::Builder::new().stack_size(32 << 20).spawn_scoped(s, || loop {
                if stop.load(SeqCst) || start.elapsed().as_secs_f64() > secs {
                    break;
                }
                let mut k = next.fetch_add(1, SeqCst);
                if let Some(c) = a.case {
                    if k > a.from {
                        break;
                    }
                    k = c;
                } else if k >= a.from + n {
                    break;
                }
                open.lock().unwrap().insert(k, Instant::now());
                let mut c = Case {
                    k,
                    rng: Rng::new(hash_u64s(&[a.seed, hash_str(p.id), k])),
                    thorough: a.thorough,
                    light: a.light,
                    evals: 0,
                    seen: vec![],
                    sums: BTreeMap::new(),
                    maxs: BTreeMap::new(),
                    desc: String::new(),
                    sample: String::new(),
                };
                let r = catch_unwind(AssertUnwindSafe(|| (p.f)(&mut c)));
                let r = match r {
                    Ok(x) => x,
                    Err(e) => Err(format!("panic on valid input: {}", panic_text(&*e))),
                };
                open.lock().unwrap().remove(&k);
                done.fetch_add(1, SeqCst);
                BEAT.fetch_add(1, Relaxed);
                let mut t = total.lock().unwrap();
                t.evals += c.evals;
                t.distinct.extend(c.seen);
                for (k, v) in c.sums {
                    *t.sums.entry(k).or_insert(0.0) += v;
                }
                for (k, v) in c.maxs {
                    let e = t.maxs.entry(k).or_insert(f64::NEG_INFINITY);
                    *e = e.max(v);
                }
                if t.samples.len() < 4 {
                    let s = if c.sample.is_empty() { c.desc.clone() } else { c.sample };
                    t.samples.push(format!("case {k}: {}", s.chars().take(400).collect::<String>()));
                }
                if let Err(e) = r {
                    t.violations.push((k, e, c.desc));
                    if t.violations.len() >= 3 {
                        stop.store(true, SeqCst);
                    }
                }
            }).unwrap();
        }
        // watchdog
        let fin = &finished;
        let total = &total;
        let open = &open;
        let finish = &finish;
        let wd = s.spawn(move || {
            let (mut beat, mut cpu, mut quiet) = (0u64, 0u64, 0u32);
            loop {
                for _ in 0..10 {
                    std::thread::sleep(Duration::from_millis(100));
                    if fin.load(SeqCst) {
                        return;
                    }
                }
                let (b, c) = (BEAT.load(Relaxed), cpu_ticks());
                let idle = b == beat && c <= cpu + 2 && !open.lock().unwrap().is_empty() && all_asleep();
                quiet = if idle { quiet + 1 } else { 0 };
                beat = b;
                cpu = c;
                if quiet >= 25 {
                    // every thread has been asleep for 25 s with a case open: a deadlock
                    let t = total.lock().unwrap();
                    let code = finish(&t, Some("deadlock: a call is open and every thread of the process sleeps without making progress".into()));
                    std::process::exit(code);
                }
                if start.elapsed().as_secs_f64() > secs + 400.0 {
                    println!("INCONCLUSIVE: time limit");
                    std::process::exit(3);
                }
            }
        });
        // wait for the workers: the scope joins them, so poll the open cases
        loop {
            std::thread::sleep(Duration::from_millis(20));
            let idle = open.lock().unwrap().is_empty();
            let over = stop.load(SeqCst) || start.elapsed().as_secs_f64() > secs || match a.case {
                Some(_) => done.load(SeqCst) >= 1,
                None => done.load(SeqCst) as u64 >= n,
            };
            if idle && over {
                // a worker may be between the time check and opening a case
                std::thread::sleep(Duration::from_millis(30));
                if open.lock().unwrap().is_empty() {
                    break;
                }
            }
        }
        finished.store(true, SeqCst);
        let _ = wd.join();
        let t = total.lock().unwrap();
        finish(&t, None)
    });
    std::process::exit(code);
}
