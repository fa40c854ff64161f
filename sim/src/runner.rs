//! Seeded search, minimisation, replay, evidence.

use crate::core::*;
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Scenario {
    pub name: &'static str,
    pub run: fn() -> Check,
    /// Share of the runs.
    pub weight: u64,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub scenarios: &'static [Scenario],
    pub quick: u64,
    pub thorough: u64,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

pub struct Outcome {
    pub viol: Option<Viol>,
    pub harness: Option<String>,
    pub ctx: Ctx,
}

thread_local! {
    static PANIC_AT: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

pub fn hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| *q.borrow()) {
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            PANIC_AT.with(|p| *p.borrow_mut() = loc);
        } else {
            old(info)
        }
    }));
}

fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Turn a caught panic into a verdict: a panic raised by the code under test is a violation,
/// a panic of the harness is an error of the check.
pub fn judge_panic(p: Box<dyn std::any::Any + Send>) -> Result<Viol, String> {
    if p.is::<Runaway>() {
        return Ok(Viol {
            class: "runaway".into(),
            msg: "the operation never stopped issuing I/O".into(),
        });
    }
    let at = PANIC_AT.with(|p| p.borrow().clone());
    let text = panic_text(p.as_ref());
    let harness = at.starts_with("src/") && !at.starts_with("src/types.rs");
    if harness {
        return Err(format!("harness panic at {at}: {text}"));
    }
    // the class names the file only: line numbers move with edits
    let file = at.rsplit_once(':').map(|x| x.0).unwrap_or(&at);
    let short = file.rsplit('/').take(2).collect::<Vec<_>>();
    let short = short.into_iter().rev().collect::<Vec<_>>().join("/");
    Ok(Viol {
        class: format!("panic:{short}"),
        msg: format!("panic at {at}: {text}"),
    })
}

pub fn run_one(f: fn() -> Check, seed: Option<u64>, script: Vec<u32>) -> Outcome {
    install(seed, script);
    QUIET.with(|q| *q.borrow_mut() = true);
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = false);
    crate::vfs::reset();
    brec::sim::reset();
    let ctx = take();
    let (viol, harness) = match res {
        _ if ctx.runaway => (
            Some(Viol { class: "runaway".into(), msg: "the operation never stopped issuing I/O".into() }),
            None,
        ),
        Ok(Ok(())) => (None, None),
        Ok(Err(v)) if v.class.starts_with("harness") => (None, Some(v.msg)),
        Ok(Err(v)) => (Some(v), None),
        Err(p) => match judge_panic(p) {
            Ok(v) => (Some(v), None),
            Err(h) => (None, Some(h)),
        },
    };
    Outcome {
        viol,
        harness,
        ctx,
    }
}

fn run_seed(prop: &Prop, base: u64, run: u64) -> u64 {
    mix(mix(hash_bytes(prop.id.as_bytes()), base), run)
}

fn scenario(prop: &Prop, run: u64) -> usize {
    let total: u64 = prop.scenarios.iter().map(|s| s.weight).sum();
    let mut k = run % total;
    for (i, s) in prop.scenarios.iter().enumerate() {
        if k < s.weight {
            return i;
        }
        k -= s.weight;
    }
    0
}

#[derive(Default)]
struct Tally {
    runs: u64,
    io: u64,
    sim_ns: u64,
    events: u64,
    choices: u64,
    faults: BTreeMap<String, u64>,
    faulty_runs: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    per_scn: BTreeMap<String, u64>,
    scheds: HashSet<u64>,
    trivial: u64,
    rerun: u64,
    mismatch: u64,
    known: BTreeMap<String, u64>,
    curve: Vec<(u64, u64)>,
}

impl Tally {
    fn merge(&mut self, o: Tally) {
        self.runs += o.runs;
        self.io += o.io;
        self.sim_ns += o.sim_ns;
        self.events += o.events;
        self.choices += o.choices;
        self.trivial += o.trivial;
        self.rerun += o.rerun;
        self.mismatch += o.mismatch;
        for (a, b) in [
            (&mut self.faults, o.faults),
            (&mut self.faulty_runs, o.faulty_runs),
            (&mut self.probes, o.probes),
            (&mut self.per_scn, o.per_scn),
            (&mut self.known, o.known),
        ] {
            for (k, v) in b {
                *a.entry(k).or_insert(0) += v;
            }
        }
        self.scheds.extend(o.scheds);
    }
}

/// Findings recorded in the committed file: (property, class).
fn known_findings() -> Vec<(String, String, String)> {
    let Ok(s) = std::fs::read_to_string("/verif/known_findings.txt") else {
        return vec![];
    };
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: ")?;
            let mut prop = None;
            let mut class = None;
            for w in l.split_whitespace() {
                if let Some(v) = w.strip_prefix("property=") {
                    prop = Some(v.to_string());
                }
                if let Some(v) = w.strip_prefix("class=") {
                    class = Some(v.to_string());
                }
            }
            Some((prop?, class?, l.to_string()))
        })
        .collect()
}

pub struct Beat {
    map: *mut u64,
}
unsafe impl Send for Beat {}
unsafe impl Sync for Beat {}

/// Distinct placements remembered per worker (memory bound of the thorough tier).
const DISTINCT_CAP: usize = 6_000_000;

pub const MAXW: usize = 64;

impl Beat {
    /// Shared with the supervisor: run index + 1 per worker, 0 when idle.
    pub fn open(path: &Path) -> std::io::Result<Beat> {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)?;
        f.set_len((MAXW * 8) as u64)?;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                MAXW * 8,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        if p == libc::MAP_FAILED {
            return Err(std::io::Error::last_os_error());
        }
        Ok(Beat { map: p as *mut u64 })
    }
    pub fn set(&self, w: usize, v: u64) {
        unsafe { std::ptr::write_volatile(self.map.add(w), v) }
    }
    pub fn get(&self, w: usize) -> u64 {
        unsafe { std::ptr::read_volatile(self.map.add(w)) }
    }
}

const HANG: Duration = Duration::from_secs(40);

pub struct Opts {
    pub seed: u64,
    pub tier: String,
    pub runs: u64,
    pub workers: usize,
    pub from: u64,
    pub limit: Duration,
}

/// The search itself (child process).
pub fn work(prop: &'static Prop, o: &Opts, out: &Path) -> i32 {
    let start = Instant::now();
    let beat = Arc::new(Beat::open(&out.join("beat")).expect("beat"));
    let next = Arc::new(AtomicU64::new(o.from));
    let stop_at = Arc::new(AtomicU64::new(o.from + o.runs));
    let found: Arc<Mutex<Vec<(u64, usize, Viol, Vec<u32>)>>> = Arc::default();
    let harness: Arc<Mutex<Option<String>>> = Arc::default();
    let total = Arc::new(Mutex::new(Tally::default()));
    let samples: Arc<Mutex<Vec<(u64, Value)>>> = Arc::default();
    let known = Arc::new(known_findings());
    let done = Arc::new(AtomicBool::new(false));
    let started: Arc<Vec<AtomicU64>> = Arc::new((0..MAXW).map(|_| AtomicU64::new(0)).collect());
    {
        let (done, started, beat) = (done.clone(), started.clone(), beat.clone());
        let t0 = start;
        std::thread::spawn(move || {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(250));
                let now = t0.elapsed().as_millis() as u64;
                for w in 0..MAXW {
                    let s = started[w].load(Ordering::Relaxed);
                    if beat.get(w) != 0 && s != 0 && now.saturating_sub(s) > HANG.as_millis() as u64
                    {
                        eprintln!("run {} does not end", beat.get(w) - 1);
                        unsafe { libc::_exit(77) };
                    }
                }
            }
        });
    }
    let mut handles = Vec::new();
    for w in 0..o.workers {
        let (beat, next, stop_at, found, harness, total, samples, known, started) = (
            beat.clone(),
            next.clone(),
            stop_at.clone(),
            found.clone(),
            harness.clone(),
            total.clone(),
            samples.clone(),
            known.clone(),
            started.clone(),
        );
        let (base, limit) = (o.seed, o.limit);
        handles.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let mut t = Tally::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= stop_at.load(Ordering::SeqCst) || start.elapsed() > limit {
                            break;
                        }
                        started[w].store(start.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                        beat.set(w, i + 1);
                        let si = scenario(prop, i);
                        let scn = &prop.scenarios[si];
                        let seed = run_seed(prop, base, i);
                        let out = run_one(scn.run, Some(seed), vec![]);
                        let c = &out.ctx;
                        t.runs += 1;
                        t.io += c.io_ops;
                        t.sim_ns += c.now_ns - 1_000_000_000;
                        t.events += c.events;
                        t.choices += c.rec.len() as u64;
                        *t.per_scn.entry(scn.name.into()).or_insert(0) += 1;
                        for (k, v) in &c.faults {
                            *t.faults.entry(k.to_string()).or_insert(0) += v;
                            *t.faulty_runs.entry(k.to_string()).or_insert(0) += 1;
                        }
                        for (k, v) in &c.probes {
                            *t.probes.entry(k.to_string()).or_insert(0) += v;
                        }
                        if c.sched_hash == 0xcbf29ce484222325 {
                            t.trivial += 1;
                        } else if t.scheds.len() < DISTINCT_CAP {
                            t.scheds.insert(mix(c.sched_hash, si as u64));
                        }
                        if samples.lock().unwrap().len() < 4 {
                            let mut s = samples.lock().unwrap();
                            if s.len() < 4 {
                                s.push((i, sample(scn.name, seed, i, c)));
                            }
                        }
                        if let Some(h) = out.harness {
                            let mut g = harness.lock().unwrap();
                            if g.is_none() {
                                *g = Some(format!("run {i} ({}): {h}", scn.name));
                            }
                            stop_at.fetch_min(i, Ordering::SeqCst);
                        }
                        if let Some(v) = out.viol {
                            if let Some(k) = known
                                .iter()
                                .find(|k| k.0 == prop.id && k.1 == v.class)
                            {
                                *t.known.entry(k.2.clone()).or_insert(0) += 1;
                            } else {
                                found.lock().unwrap().push((i, si, v, c.rec.clone()));
                                stop_at.fetch_min(i, Ordering::SeqCst);
                            }
                        } else if i % 61 == 0 {
                            // the same seed again must be the same execution
                            let again = run_one(scn.run, Some(seed), vec![]);
                            t.rerun += 1;
                            if again.ctx.hash != c.hash
                                || again.ctx.events != c.events
                                || again.ctx.rec != c.rec
                            {
                                t.mismatch += 1;
                            }
                        }
                        beat.set(w, 0);
                    }
                    beat.set(w, 0);
                    let mut g = total.lock().unwrap();
                    let n = g.runs + t.runs;
                    g.merge(t);
                    let d = g.scheds.len() as u64;
                    g.curve.push((n, d));
                })
                .expect("thread"),
        );
    }
    for h in handles {
        if h.join().is_err() {
            eprintln!("worker thread died");
            return 2;
        }
    }
    done.store(true, Ordering::Relaxed);
    let t = std::mem::take(&mut *total.lock().unwrap());
    let mut found = std::mem::take(&mut *found.lock().unwrap());
    found.sort_by_key(|f| f.0);
    let harness = harness.lock().unwrap().clone();
    let mut smp = std::mem::take(&mut *samples.lock().unwrap());
    smp.sort_by_key(|s| s.0);
    for (k, n) in &t.known {
        println!("KNOWN-FINDING: {k} (seen in {n} runs)");
    }
    let mut code = 0;
    let mut nviol = 0;
    if let Some((i, si, v, rec)) = found.into_iter().next() {
        nviol = 1;
        let path = minimise_and_save(prop, o.seed, i, si, &v, rec, true);
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        code = 1;
    } else if let Some(h) = harness {
        eprintln!("HARNESS ERROR: {h}");
        code = 2;
    }
    let wall = start.elapsed().as_secs_f64();
    let ev = evidence(prop, o, &t, smp, wall, nviol);
    write_evidence(prop.id, &ev);
    println!(
        "{} {}: {} runs in {:.1}s, {} distinct fault/schedule placements, {} io ops, {} rerun/{} mismatch",
        prop.id,
        o.tier,
        t.runs,
        wall,
        t.scheds.len(),
        t.io,
        t.rerun,
        t.mismatch
    );
    if t.mismatch > 0 {
        eprintln!("WARNING: {} runs were not repeatable", t.mismatch);
    }
    code
}

fn sample(name: &str, seed: u64, run: u64, c: &Ctx) -> Value {
    json!({
        "run": run, "seed": seed, "scenario": name,
        "choices": c.rec.len(), "events": c.events,
        "faults": c.faults.iter().map(|(k,v)| (k.to_string(), *v)).collect::<BTreeMap<_,_>>(),
        "first_choices": c.rec.iter().take(24).collect::<Vec<_>>(),
        "trace_head": trace(c, 12),
    })
}

fn trace(c: &Ctx, n: usize) -> Vec<String> {
    c.log
        .iter()
        .take(n)
        .map(|e| format!("{} {} {}", e.kind, e.a, e.b))
        .collect()
}

fn evidence(prop: &Prop, o: &Opts, t: &Tally, smp: Vec<(u64, Value)>, wall: f64, nviol: u64) -> Value {
    let per_hour = |n: u64| (n as f64 * 3600.0 / wall.max(0.001)) as u64;
    json!({
        "property": prop.id,
        "tier": o.tier,
        "seed": o.seed,
        "level": "exploration",
        "wall_s": wall,
        "violations": nviol,
        "assumptions": prop.assumptions,
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.scheds.len(),
            "rule": format!("{} A run is non-trivial if at least one fault, chunk boundary, preemption or crash took place; two runs are distinct if their scenario and the hash of the ordered list of those placements (kind, position) differ.", prop.rule),
            "samples": smp.into_iter().map(|s| s.1).collect::<Vec<_>>(),
            "runs_without_any_fault_or_switch": t.trivial,
            "runs_per_scenario": t.per_scn,
            "runs_per_hour": per_hour(t.runs),
            "seeds_per_hour": per_hour(t.runs),
            "simulated_time_s": t.sim_ns as f64 / 1e9,
            "simulated_io_operations": t.io,
            "choices_drawn": t.choices,
            "events_logged": t.events,
            "faults_injected": t.faults,
            "runs_with_fault": t.faulty_runs,
            "sometimes_probes": t.probes,
            "repeatability": {"seeds_executed_twice": t.rerun, "mismatches": t.mismatch},
            "distinct_growth": t.curve,
            "components_real": prop.real,
            "components_stubbed": prop.stub,
            "workers": o.workers,
            "known_findings_seen": t.known,
        }
    })
}

pub fn write_evidence(id: &str, ev: &Value) {
    let dir = PathBuf::from("/verif/evidence");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{id}.json"));
    std::fs::write(&p, serde_json::to_string_pretty(ev).expect("json")).expect("evidence");
}

fn replay_path(prop: &Prop, seed: u64, run: u64) -> PathBuf {
    let dir = PathBuf::from("/verif/replays");
    let _ = std::fs::create_dir_all(&dir);
    dir.join(format!("{}-s{}-r{}.json", prop.id, seed, run))
}

pub fn minimise_and_save(
    prop: &'static Prop,
    seed: u64,
    run: u64,
    si: usize,
    v: &Viol,
    rec: Vec<u32>,
    shrink: bool,
) -> PathBuf {
    let f = prop.scenarios[si].run;
    let class = v.class.clone();
    let orig = rec.len();
    let mut best = rec;
    let mut tries = 0u64;
    let t0 = Instant::now();
    let mut ok = |script: &[u32], tries: &mut u64| -> Option<Vec<u32>> {
        *tries += 1;
        let o = run_one(f, None, script.to_vec());
        match o.viol {
            Some(v) if v.class == class => {
                let mut r = o.ctx.rec;
                while r.last() == Some(&0) {
                    r.pop();
                }
                Some(r)
            }
            _ => None,
        }
    };
    let reproduced = ok(&best, &mut tries);
    if let (Some(r), true) = (reproduced, shrink) {
        best = r;
        let over = |t: u64| t > 6000 || t0.elapsed() > Duration::from_secs(25);
        loop {
            let before = best.clone();
            // remove chunks, from the end
            let mut size = (best.len() / 2).max(1);
            while size > 0 && !over(tries) {
                let mut at = best.len().saturating_sub(size);
                loop {
                    if over(tries) {
                        break;
                    }
                    let mut cand = best.clone();
                    cand.drain(at..(at + size).min(best.len()));
                    if let Some(r) = ok(&cand, &mut tries)
                        && r.len() < best.len()
                    {
                        best = r;
                    }
                    if at == 0 {
                        break;
                    }
                    at = at.saturating_sub(size).min(best.len().saturating_sub(1));
                }
                size /= 2;
            }
            // simplify values
            let mut i = 0;
            while i < best.len() && !over(tries) {
                if best[i] != 0 {
                    for cand_v in [0, 1, best[i] / 2, best[i] - 1] {
                        if cand_v >= best[i] {
                            continue;
                        }
                        let mut cand = best.clone();
                        cand[i] = cand_v;
                        if let Some(r) = ok(&cand, &mut tries)
                            && (r.len(), &r) < (best.len(), &best)
                        {
                            best = r;
                            break;
                        }
                        if i >= best.len() {
                            break;
                        }
                    }
                }
                i += 1;
            }
            if best == before || over(tries) {
                break;
            }
        }
    }
    let o = run_one(f, None, best.clone());
    let (msg, class) = match &o.viol {
        Some(v) => (v.msg.clone(), v.class.clone()),
        None => (v.msg.clone(), v.class.clone()),
    };
    let path = replay_path(prop, seed, run);
    let doc = json!({
        "property": prop.id,
        "scenario": prop.scenarios[si].name,
        "class": class,
        "violation": msg,
        "base_seed": seed,
        "run": run,
        "seed": run_seed(prop, seed, run),
        "choices": best,
        "choices_before_minimisation": orig,
        "minimiser_runs": tries,
        "hash": format!("{:016x}", o.ctx.hash),
        "faults": o.ctx.faults.iter().map(|(k,v)| (k.to_string(), *v)).collect::<BTreeMap<_,_>>(),
        "trace": trace(&o.ctx, 400),
    });
    std::fs::write(&path, serde_json::to_string_pretty(&doc).expect("json")).expect("replay");
    println!("  {} [{}] {}", prop.id, class, msg);
    println!(
        "  run {run} of seed {seed}: {} choices minimised to {} in {} executions",
        orig,
        best.len(),
        tries
    );
    path
}

/// Save a replay for a run that kills or hangs the process (no minimisation in-process).
pub fn save_fatal(prop: &'static Prop, seed: u64, run: u64, class: &str, msg: &str) -> PathBuf {
    let path = replay_path(prop, seed, run);
    let doc = json!({
        "property": prop.id,
        "scenario": prop.scenarios[scenario(prop, run)].name,
        "class": class,
        "violation": msg,
        "base_seed": seed,
        "run": run,
        "seed": run_seed(prop, seed, run),
        "by_seed": true,
    });
    std::fs::write(&path, serde_json::to_string_pretty(&doc).expect("json")).expect("replay");
    println!("  {} [{}] {}", prop.id, class, msg);
    path
}

/// Execute a single run index (used by the supervisor to confirm a fatal run).
pub fn one(prop: &'static Prop, base: u64, run: u64) -> i32 {
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            let si = scenario(prop, run);
            let o = run_one(prop.scenarios[si].run, Some(run_seed(prop, base, run)), vec![]);
            println!("hash {:016x} events {} choices {}", o.ctx.hash, o.ctx.events, o.ctx.rec.len());
            match (o.viol, o.harness) {
                (Some(v), _) => {
                    println!("[{}] {}", v.class, v.msg);
                    1
                }
                (_, Some(h)) => {
                    println!("{h}");
                    2
                }
                _ => 0,
            }
        })
        .expect("thread")
        .join()
        .unwrap_or(2)
}

pub fn replay(props: &'static [Prop], file: &str) -> i32 {
    let doc: Value = match std::fs::read_to_string(file)
        .map_err(|e| e.to_string())
        .and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string()))
    {
        Ok(d) => d,
        Err(e) => {
            eprintln!("cannot read {file}: {e}");
            return 2;
        }
    };
    let id = doc["property"].as_str().unwrap_or("");
    let Some(prop) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    if doc["by_seed"].as_bool() == Some(true) {
        return one(prop, doc["base_seed"].as_u64().unwrap_or(1), doc["run"].as_u64().unwrap_or(0));
    }
    let name = doc["scenario"].as_str().unwrap_or("");
    let Some(scn) = prop.scenarios.iter().find(|s| s.name == name) else {
        eprintln!("unknown scenario {name}");
        return 2;
    };
    let script: Vec<u32> = doc["choices"]
        .as_array()
        .map(|a| a.iter().filter_map(|v| v.as_u64().map(|v| v as u32)).collect())
        .unwrap_or_default();
    let f = scn.run;
    let o = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || run_one(f, None, script))
        .expect("thread")
        .join();
    let Ok(o) = o else { return 2 };
    for l in trace(&o.ctx, usize::MAX) {
        println!("  {l}");
    }
    match o.viol {
        Some(v) => {
            println!("[{}] {}", v.class, v.msg);
            let same = doc["hash"].as_str() == Some(&format!("{:016x}", o.ctx.hash));
            println!(
                "event hash {:016x} ({})",
                o.ctx.hash,
                if same { "identical to the recorded execution" } else { "differs from the recorded execution" }
            );
            println!("VIOLATION property={id} replay={file}");
            1
        }
        None => {
            println!("no violation on this tree (event hash {:016x})", o.ctx.hash);
            if let Some(h) = o.harness {
                println!("{h}");
                return 2;
            }
            0
        }
    }
}

/// Print "run hash" lines; used to diff executions across processes and worker counts.
pub fn hashes(prop: &'static Prop, base: u64, from: u64, n: u64, workers: usize) {
    let next = Arc::new(AtomicU64::new(from));
    let lines: Arc<Mutex<BTreeMap<u64, String>>> = Arc::default();
    let hs: Vec<_> = (0..workers)
        .map(|_| {
            let (next, lines) = (next.clone(), lines.clone());
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= from + n {
                            break;
                        }
                        let si = scenario(prop, i);
                        let o =
                            run_one(prop.scenarios[si].run, Some(run_seed(prop, base, i)), vec![]);
                        let mut rh = 0u64;
                        for r in &o.ctx.rec {
                            rh = mix(rh, *r as u64);
                        }
                        let l = format!(
                            "{i} {:016x} {:016x} {} {}",
                            o.ctx.hash,
                            rh,
                            o.ctx.events,
                            o.viol.map(|v| v.class).unwrap_or_default()
                        );
                        lines.lock().unwrap().insert(i, l);
                    }
                })
                .expect("thread")
        })
        .collect();
    for h in hs {
        h.join().expect("worker");
    }
    let mut out = std::io::stdout().lock();
    for l in lines.lock().unwrap().values() {
        let _ = writeln!(out, "{l}");
    }
}

/// Supervisor: runs the search in a child so that a run that aborts or hangs the process
/// is still attributed to its seed.
pub fn supervise(prop: &'static Prop, o: &Opts) -> i32 {
    let exe = std::env::current_exe().expect("exe");
    let tmp = PathBuf::from(format!(
        "/verif/sim/target/run-{}-{}",
        prop.id,
        std::process::id()
    ));
    std::fs::create_dir_all(&tmp).expect("scratch");
    let status = std::process::Command::new(&exe)
        .args([
            "work",
            prop.id,
            &o.seed.to_string(),
            &o.tier,
            &o.runs.to_string(),
            &o.workers.to_string(),
            &o.from.to_string(),
            &o.limit.as_secs().to_string(),
        ])
        .arg(&tmp)
        .status()
        .expect("child");
    let code = match status.code() {
        Some(c @ (0..=2)) => c,
        other => {
            // aborted or hung: find the run
            let beat = Beat::open(&tmp.join("beat")).expect("beat");
            let mut code = 2;
            for w in 0..MAXW {
                let v = beat.get(w);
                if v == 0 {
                    continue;
                }
                let run = v - 1;
                match confirm(&exe, prop, o.seed, run) {
                    Some((class, msg)) => {
                        let p = save_fatal(prop, o.seed, run, &class, &msg);
                        println!("VIOLATION property={} replay={}", prop.id, p.display());
                        let t = Tally {
                            runs: run + 1,
                            ..Default::default()
                        };
                        let mut t = t;
                        t.per_scn.insert(prop.scenarios[scenario(prop, run)].name.into(), 1);
                        write_evidence(prop.id, &evidence(prop, o, &t, vec![(run, json!({"run": run, "fatal": class}))], 1.0, 1));
                        code = 1;
                        break;
                    }
                    None => continue,
                }
            }
            if code == 2 {
                eprintln!("child ended with {other:?} / {status:?} and no single run reproduces it");
            }
            code
        }
    };
    let _ = std::fs::remove_dir_all(&tmp);
    code
}

fn confirm(exe: &Path, prop: &Prop, seed: u64, run: u64) -> Option<(String, String)> {
    let mut child = std::process::Command::new(exe)
        .args(["one", prop.id, &seed.to_string(), &run.to_string()])
        .stdout(std::process::Stdio::null())
        .spawn()
        .ok()?;
    let t0 = Instant::now();
    loop {
        match child.try_wait().ok()? {
            Some(st) => {
                use std::os::unix::process::ExitStatusExt;
                return st.signal().map(|s| {
                    (
                        "abort".to_string(),
                        format!("run {run} kills the process (signal {s})"),
                    )
                });
            }
            None => {
                if t0.elapsed() > HANG {
                    let _ = child.kill();
                    let _ = child.wait();
                    return Some((
                        "hang".to_string(),
                        format!("run {run} does not end within {} s", HANG.as_secs()),
                    ));
                }
                std::thread::sleep(Duration::from_millis(50));
            }
        }
    }
}
