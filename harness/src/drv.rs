//! Command line driver: runs an engine on many seeds in parallel, collects what the monitors saw.
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crate::sim;

#[derive(Clone)]
pub struct Opts {
    pub engine: String,
    pub seed: u64,
    pub secs: f64,
    pub max: u64,
    pub workers: usize,
    pub prop: String,
    pub out: String,
    pub trace: bool,
    pub ops: usize,
    pub arg: String,
    pub keep: usize,
}

/// What one episode reports.
#[derive(Default)]
pub struct Report {
    pub viol: Vec<(Vec<&'static str>, String)>,
    pub trace: String,
    pub stats: Vec<(&'static str, u64)>,
    pub states: Vec<u64>,
    pub sched: Option<u64>,
}

fn parse(args: &[String]) -> Opts {
    let mut o = Opts {
        engine: args.get(1).cloned().unwrap_or_default(),
        seed: 1, secs: 5.0, max: u64::MAX, workers: 8, prop: "ALL".into(), out: String::new(), trace: false, ops: 0, arg: String::new(), keep: 1,
    };
    let mut i = 2;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--seed" => o.seed = v.parse().unwrap(),
            "--secs" => o.secs = v.parse().unwrap(),
            "--max" => o.max = v.parse().unwrap(),
            "--workers" => o.workers = v.parse().unwrap(),
            "--prop" => o.prop = v,
            "--out" => o.out = v,
            "--ops" => o.ops = v.parse().unwrap(),
            "--arg" => o.arg = v,
            "--keep" => o.keep = v.parse().unwrap(),
            "--trace" => {
                o.trace = true;
                i += 1;
                continue;
            }
            x => panic!("unknown option {x}"),
        }
        i += 2;
    }
    o
}

pub fn episode(o: &Opts, seed: u64, trace: bool) -> Report {
    SEQUENTIAL.with(|s| s.set(!matches!(o.engine.as_str(), "conc" | "stress")));
    match o.engine.as_str() {
        "sim" => {
            let ops = if o.ops > 0 { o.ops } else { 40 + (seed % 5) as usize * 30 };
            let (b0, _) = crate::heap::live();
            let mut s = sim::Sim::new(seed, sim::Cfg { mode: sim::Mode::Mixed, trace, ops, miri: cfg!(miri) });
            s.run();
            let (mut viol, trace, stats, states) = s.finish();
            let (b1, _) = crate::heap::live();
            let own = trace.capacity() + stats.capacity() * std::mem::size_of::<(&'static str, u64)>() + states.capacity() * 8;
            if viol.is_empty() && b1 - b0 != own as i64 {
                viol.push((vec!["C16"], format!("all handles are gone, all payloads dropped, but {} bytes are still allocated", b1 - b0 - own as i64)));
            }
            Report { viol, trace, stats, states, sched: None }
        }
        "obs" => {
            let ops = 40 + (seed % 5) as usize * 30;
            let run = || {
                let mut s = sim::Sim::new(seed, sim::Cfg { mode: sim::Mode::Mixed, trace, ops, miri: cfg!(miri) });
                s.run();
                s
            };
            #[cfg(feature = "instr")]
            let s = if seed % 4 == 0 {
                run()
            } else {
                use tracing::Level;
                let rec = Arc::new(crate::rec::Rec::new(if seed % 4 == 1 { Level::INFO } else { Level::TRACE }, 0));
                let s = tracing::dispatcher::with_default(&tracing::Dispatch::new(crate::rec::Shared(rec.clone())), run);
                rec.forget();
                s
            };
            #[cfg(not(feature = "instr"))]
            let s = run();
            let h = crate::rng::mix(s.obs ^ s.obs_events.rotate_left(17) ^ s.viol.len() as u64);
            OBS.lock().unwrap().push((seed, h));
            let n = s.stats[sim::St::twin_observations as usize];
            let (_, trace, mut stats, states) = s.finish();
            stats.push(("observations", n));
            Report { viol: vec![], trace, stats, states, sched: None }
        }
        "laws" => crate::laws::episode(seed, trace),
        "residue" => crate::residue::episode(seed, trace),
        "scale" => crate::scale::episode(seed, trace),
        "sink" => crate::sinks::episode(seed, trace),
        "twin" => sim::twin(seed, trace, if o.ops > 0 { o.ops } else { 120 }),
        "conc" => concurrent(o, seed, trace, crate::conc::How2::Baton),
        "stress" => concurrent(o, seed, trace, crate::conc::How2::Native { noise: !cfg!(miri) }),
        e => panic!("unknown engine {e}"),
    }
}

fn concurrent(o: &Opts, seed: u64, trace: bool, how: crate::conc::How2) -> Report {
    let p = crate::conc::plan(seed, &o.prop, cfg!(miri));
    // should the scheduler keep losing threads, real threads are the better judges
    let how = if crate::rt::RESCUES.load(SeqCst) > 40 { crate::conc::How2::Native { noise: true } } else { how };
    let r = crate::conc::execute(&p, seed, how);
    let mut stats = std::collections::HashMap::new();
    let viol = crate::judge::judge(&p, &r, &mut stats);
    let mut text = String::new();
    if trace || !viol.is_empty() {
        text = crate::conc::show(&p, &r);
    }
    stats.insert("steps", r.out.steps);
    stats.insert("switches", r.out.switches);
    if r.out.stuck.is_some() {
        LEAKED.fetch_add(p.roles.len() as u64, SeqCst);
    }
    let h = crate::rng::mix(r.out.hash ^ seed_shape(&p));
    Report { viol, trace: text, stats: stats.into_iter().collect(), states: vec![], sched: Some(h) }
}
fn seed_shape(p: &crate::conc::Plan) -> u64 {
    format!("{p:?}").bytes().fold(7, |h, b| crate::rng::mix(h ^ b as u64))
}
/// What was observed, by seed.
pub static OBS: Mutex<Vec<(u64, u64)>> = Mutex::new(vec![]);
/// Threads left behind by programs that got stuck.
pub static LEAKED: AtomicU64 = AtomicU64::new(0);

pub fn json_str(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(r, "\\u{:04x}", c as u32);
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

pub struct Found {
    pub seed: u64,
    pub props: Vec<&'static str>,
    pub what: String,
    pub trace: String,
}

struct Shared {
    next: AtomicU64,
    stop: AtomicBool,
    done: AtomicU64,
    res: Mutex<Res>,
    cur: Vec<AtomicU64>,      // seed + 1 being worked on
    started: Vec<Mutex<Instant>>,
}
#[derive(Default)]
struct Res {
    found: Vec<Found>,
    other: BTreeMap<String, u64>,
    stats: BTreeMap<&'static str, u64>,
    states: HashSet<u64>,
    scheds: HashSet<u64>,
}

fn matches(prop: &str, props: &[&'static str]) -> bool {
    prop == "ALL" || props.iter().any(|p| *p == prop || *p == "ANY")
}

fn emit(o: &Opts, sh: &Shared, t0: Instant) {
    let r = sh.res.lock().unwrap();
    let mut s = String::from("{");
    let _ = write!(s, "\"engine\":{},\"episodes\":{},\"seconds\":{:.1},\"states\":{},\"schedules\":{},", json_str(&o.engine), sh.done.load(SeqCst), t0.elapsed().as_secs_f64(), r.states.len(), r.scheds.len());
    s.push_str("\"stats\":{");
    let v: Vec<String> = r.stats.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
    s.push_str(&v.join(","));
    s.push_str("},\"other\":{");
    let v: Vec<String> = r.other.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
    s.push_str(&v.join(","));
    s.push_str("},\"violations\":[");
    let v: Vec<String> = r
        .found
        .iter()
        .map(|f| format!("{{\"seed\":{},\"props\":[{}],\"what\":{},\"trace\":{}}}", f.seed, f.props.iter().map(|p| json_str(p)).collect::<Vec<_>>().join(","), json_str(&f.what), json_str(&f.trace)))
        .collect();
    s.push_str(&v.join(","));
    s.push_str("]}\n");
    if o.out.is_empty() {
        println!("{s}");
    } else {
        std::fs::write(&o.out, s).unwrap();
        let mut v = OBS.lock().unwrap();
        if !v.is_empty() {
            v.sort_unstable();
            let t: String = v.iter().map(|(s, h)| format!("{s} {h:016x}\n")).collect();
            std::fs::write(format!("{}.obs", o.out), t).unwrap();
        }
    }
}

thread_local! {
    pub static SEQUENTIAL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    pub static WORKER: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}
static GLOBAL: Mutex<Option<(Opts, Arc<Shared>, Instant)>> = Mutex::new(None);

/// A definite deadlock or endless loop of the episode running on the given worker: the process cannot go on.
pub fn fatal(worker: usize, props: &[&'static str], what: &str) -> ! {
    let g = match GLOBAL.try_lock() {
        Ok(g) => g,
        Err(_) => loop {
            std::thread::park();
        },
    };
    if let Some((o, sh, t0)) = &*g {
        let seed = sh.cur.get(worker).map_or(0, |c| c.load(SeqCst)).wrapping_sub(1);
        let p = props.to_vec();
        let trace = format!("{what}\n(the episode could not be finished; replay with: xh {} --seed {seed} --max 1 --trace)\n", o.engine);
        if matches(&o.prop, &p) {
            sh.res.lock().unwrap().found.push(Found { seed, props: p, what: what.into(), trace });
        } else {
            *sh.res.lock().unwrap().other.entry(p.join("+")).or_default() += 1;
        }
        emit(o, sh, *t0);
    } else {
        eprintln!("fatal: {what}");
    }
    std::process::exit(3);
}

fn thread_cpu(tid: i32) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let r = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = r.split(' ').collect();
    Some((f[11].parse::<f64>().ok()? + f[12].parse::<f64>().ok()?) / 100.0)
}
/// State and CPU time of a thread.
pub fn thread_state(tid: i32) -> Option<(char, f64)> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let r = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = r.split(' ').collect();
    Some((f[0].chars().next()?, (f[11].parse::<f64>().ok()? + f[12].parse::<f64>().ok()?) / 100.0))
}
pub fn gettid() -> i32 {
    // /proc/thread-self -> <pid>/task/<tid>
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name()?.to_str()?.parse().ok()).unwrap_or(0)
}

pub fn main(args: &[String]) {
    let o = parse(args);
    std::panic::set_hook(Box::new(|i| {
        if i.payload().is::<crate::world::SimPanic>() {
            return;
        }
        if std::env::var_os("XH_PANICS").is_some() {
            eprintln!("{i}");
        }
    }));
    crate::hooks::install();
    if o.trace || o.max == 1 {
        WORKER.with(|w| w.set(0));
        let r = episode(&o, o.seed, true);
        println!("{}", r.trace);
        for v in &r.viol {
            println!("VIOLATED {:?}: {}", v.0, v.1);
        }
        std::process::exit(if r.viol.is_empty() { 0 } else { 1 });
    }
    let t0 = Instant::now();
    let n = o.workers;
    let sh = Arc::new(Shared {
        next: AtomicU64::new(0),
        stop: AtomicBool::new(false),
        done: AtomicU64::new(0),
        res: Mutex::new(Res::default()),
        cur: (0..n).map(|_| AtomicU64::new(0)).collect(),
        started: (0..n).map(|_| Mutex::new(t0)).collect(),
    });
    *GLOBAL.lock().unwrap() = Some((o.clone(), sh.clone(), t0));
    let tids: Arc<Mutex<Vec<i32>>> = Arc::new(Mutex::new(vec![0; n]));
    let hs: Vec<_> = (0..n)
        .map(|k| {
            let (o, sh, tids) = (o.clone(), sh.clone(), tids.clone());
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    tids.lock().unwrap()[k] = gettid();
                    WORKER.with(|w| w.set(k));
                    worker(&o, &sh, k, t0);
                })
                .unwrap()
        })
        .collect();
    // watchdog
    let mut base: Vec<(u64, f64, Instant)> = vec![(0, 0.0, t0); n];
    loop {
        std::thread::sleep(Duration::from_millis(if cfg!(miri) { 1 } else { 50 }));
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        if cfg!(miri) {
            continue;
        }
        for k in 0..n {
            let c = sh.cur[k].load(SeqCst);
            let tid = tids.lock().unwrap()[k];
            let cpu = thread_cpu(tid).unwrap_or(0.0);
            if c != base[k].0 || c == 0 {
                base[k] = (c, cpu, Instant::now());
                continue;
            }
            if !matches!(o.engine.as_str(), "conc" | "stress") {
                let (dcpu, dwall) = (cpu - base[k].1, base[k].2.elapsed().as_secs_f64());
                if dcpu > 15.0 {
                    fatal(k, &["C17"], "a call on the actor's handles did not return (endless loop, 15 s of CPU time)");
                }
                if dwall > 60.0 && dcpu < 0.5 {
                    fatal(k, &["C17"], "a call on the actor's handles did not return (blocked forever)");
                }
            }
        }
    }
    for h in hs {
        if let Err(p) = h.join() {
            eprintln!("worker failed: {}", sim::panic_text(p));
            std::process::exit(4);
        }
    }
    emit(&o, &sh, t0);
    let v = !sh.res.lock().unwrap().found.is_empty();
    std::process::exit(v as i32);
}

fn worker(o: &Opts, sh: &Shared, k: usize, t0: Instant) {
    let mut local: Res = Res::default();
    let lim = Duration::from_secs_f64(o.secs);
    loop {
        if LEAKED.load(SeqCst) > 2000 || sh.stop.load(SeqCst) || t0.elapsed() > lim {
            break;
        }
        let n = sh.next.fetch_add(1, SeqCst);
        if n >= o.max {
            break;
        }
        let seed = o.seed.wrapping_mul(1_000_000_000).wrapping_add(n);
        sh.cur[k].store(seed + 1, SeqCst);
        *sh.started[k].lock().unwrap() = Instant::now();
        let r = episode(o, seed, false);
        sh.cur[k].store(0, SeqCst);
        sh.done.fetch_add(1, SeqCst);
        for (n, v) in &r.stats {
            *local.stats.entry(n).or_default() += v;
        }
        if local.states.len() < 2_000_000 {
            local.states.extend(r.states.iter().copied());
        }
        if let Some(s) = r.sched {
            if local.scheds.len() < 4_000_000 {
                local.scheds.insert(s);
            }
        }
        if !r.viol.is_empty() {
            let mut hit = false;
            for v in &r.viol {
                if matches(&o.prop, &v.0) {
                    hit = true;
                } else {
                    *local.other.entry(v.0.join("+")).or_default() += 1;
                }
            }
            if hit {
                let mut trace = r.trace;
                if trace.is_empty() {
                    sh.cur[k].store(seed + 1, SeqCst);
                    trace = episode(o, seed, true).trace;
                    sh.cur[k].store(0, SeqCst);
                }
                let mut res = sh.res.lock().unwrap();
                for v in r.viol {
                    if matches(&o.prop, &v.0) {
                        res.found.push(Found { seed, props: v.0, what: v.1, trace: std::mem::take(&mut trace) });
                    }
                }
                if res.found.len() >= o.keep {
                    sh.stop.store(true, SeqCst);
                }
            }
        }
    }
    let mut res = sh.res.lock().unwrap();
    for (k, v) in local.stats {
        *res.stats.entry(k).or_default() += v;
    }
    for (k, v) in local.other {
        *res.other.entry(k).or_default() += v;
    }
    res.states.extend(local.states);
    res.scheds.extend(local.scheds);
}
