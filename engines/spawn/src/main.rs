//! Spawn helpers of every runtime: random configurations, the life of every spawned actor is recorded and judged.
//! xspawn --seed S --secs T --out FILE [--max N]
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use xtra::prelude::*;

struct Rng(u64);
fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    fn below(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        (mix(self.0) >> 11) as usize % n.max(1)
    }
    fn chance(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Rt {
    TokioMulti,
    TokioCurrent,
    Smol,
    AsyncStd,
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Ev {
    Started(usize),
    Enter(usize, u32),
    Exit(usize, u32),
    Stopped(usize),
    Gone(usize),
    MsgGone(u32),
    Place(usize, String),
}
#[derive(Default)]
struct Log(Mutex<Vec<Ev>>);
impl Log {
    fn put(&self, e: Ev) {
        self.0.lock().unwrap().push(e);
    }
    fn all(&self) -> Vec<Ev> {
        self.0.lock().unwrap().clone()
    }
}

struct A {
    k: usize,
    fail: bool,
    rt: Rt,
    l: Arc<Log>,
}
impl Drop for A {
    fn drop(&mut self) {
        self.l.put(Ev::Gone(self.k));
    }
}
/// Where this code runs, if that is not where it should.
fn misplaced(rt: Rt) -> Option<String> {
    let name = std::thread::current().name().unwrap_or("?").to_string();
    let tok = tokio::runtime::Handle::try_current().is_ok();
    let astd = async_std::task::try_current().is_some();
    let ok = match rt {
        Rt::TokioMulti => tok && !astd && name.starts_with("my-tokio"),
        Rt::TokioCurrent => tok && !astd && !name.starts_with("my-tokio"),
        Rt::Smol => !tok && !astd && name.starts_with("smol"),
        Rt::AsyncStd => !tok && astd,
    };
    if ok {
        None
    } else {
        Some(format!("thread {name:?}, in tokio {tok}, in async-std {astd}"))
    }
}
impl A {
    fn place(&self) {
        if let Some(s) = misplaced(self.rt) {
            self.l.put(Ev::Place(self.k, s));
        }
    }
}
impl Actor for A {
    type Stop = ();
    async fn started(&mut self, m: &Mailbox<Self>) -> Result<(), ()> {
        self.l.put(Ev::Started(self.k));
        self.place();
        let _ = m.address();
        if self.fail {
            Err(())
        } else {
            Ok(())
        }
    }
    async fn stopped(self) {
        self.place();
        self.l.put(Ev::Stopped(self.k));
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Do {
    Nothing,
    Yield,
    Sleep,
    StopSelf,
    StopAll,
    Panic,
}
struct Tok(u32, Arc<Log>);
impl Drop for Tok {
    fn drop(&mut self) {
        self.1.put(Ev::MsgGone(self.0));
    }
}
struct M(u32, Do, #[allow(dead_code)] Tok);
#[derive(Clone)]
struct B(u32);
async fn pause(rt: Rt, sleep: bool) {
    match (rt, sleep) {
        (Rt::TokioMulti | Rt::TokioCurrent, true) => tokio::time::sleep(Duration::from_micros(300)).await,
        (Rt::TokioMulti | Rt::TokioCurrent, false) => tokio::task::yield_now().await,
        (Rt::Smol, true) => {
            smol::Timer::after(Duration::from_micros(300)).await;
        }
        (Rt::Smol, false) => smol::future::yield_now().await,
        (Rt::AsyncStd, true) => async_std::task::sleep(Duration::from_micros(300)).await,
        (Rt::AsyncStd, false) => async_std::task::yield_now().await,
    }
}
impl Handler<M> for A {
    type Return = (usize, u32);
    async fn handle(&mut self, m: M, ctx: &mut Context<Self>) -> (usize, u32) {
        self.l.put(Ev::Enter(self.k, m.0));
        self.place();
        match m.1 {
            Do::Nothing => {}
            Do::Yield => pause(self.rt, false).await,
            Do::Sleep => pause(self.rt, true).await,
            Do::StopSelf => ctx.stop_self(),
            Do::StopAll => ctx.stop_all(),
            Do::Panic => std::panic::panic_any(7u8),
        }
        self.place();
        self.l.put(Ev::Exit(self.k, m.0));
        (self.k, m.0)
    }
}
impl Handler<B> for A {
    type Return = ();
    async fn handle(&mut self, m: B, _: &mut Context<Self>) {
        self.l.put(Ev::Enter(self.k, m.0));
        self.l.put(Ev::Exit(self.k, m.0));
    }
}

fn spawn(rt: Rt, a: A, p: (Address<A>, Mailbox<A>)) -> Address<A> {
    match rt {
        Rt::TokioMulti | Rt::TokioCurrent => xtra::spawn_tokio(a, p),
        Rt::Smol => xtra::spawn_smol(a, p),
        Rt::AsyncStd => xtra::spawn_async_std(a, p),
    }
}
fn counts(a: &impl std::fmt::Debug) -> (u64, u64) {
    let s = format!("{a:?}");
    let num = |k: &str| -> u64 { s.find(k).map(|p| s[p + k.len()..].chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0)).unwrap_or(u64::MAX) };
    (num("addresses:"), num("mailboxes:"))
}

type Fut<T> = Pin<Box<dyn Future<Output = T> + Send>>;
const LIMIT: Duration = Duration::from_secs(20);

/// None: did not finish in time
async fn within<T>(f: impl Future<Output = T>) -> Option<T> {
    futures_util::pin_mut!(f);
    let t = smol::Timer::after(LIMIT);
    match futures_util::future::select(f, t).await {
        futures_util::future::Either::Left((x, _)) => Some(x),
        _ => None,
    }
}
/// Wait for a condition that other threads bring about.
async fn until(mut f: impl FnMut() -> bool) -> bool {
    let t0 = Instant::now();
    loop {
        if f() {
            return true;
        }
        if t0.elapsed() > LIMIT {
            return false;
        }
        smol::Timer::after(Duration::from_micros(200)).await;
    }
}

struct Out {
    viol: Vec<String>,
    log: String,
    key: u64,
    msgs: u64,
    actors: u64,
    rt: Rt,
}

async fn case(seed: u64, rt: Rt) -> Out {
    let mut r = Rng(seed ^ 0x1234);
    let l = Arc::new(Log::default());
    let mut v: Vec<String> = vec![];
    let mut log = String::new();
    let cap = r.below(5);
    let n = 1 + r.below(3);
    let (addr, mb) = match cap {
        0 => Mailbox::unbounded(),
        c => Mailbox::bounded(c),
    };
    let fails: Vec<bool> = (0..n).map(|_| r.chance(8)).collect();
    let weak = addr.downgrade();
    let _ = writeln!(log, "{rt:?}, capacity {cap} (0 is unbounded), {n} actors, start failures {fails:?}");
    // the first actors get a mere address of their own, which has to go away again
    let mut rest: Vec<Address<A>> = vec![];
    let mut mbs = vec![mb];
    for _ in 1..n {
        let m = mbs[0].clone();
        mbs.push(m);
    }
    let mut first = Some(addr);
    for (k, m) in mbs.into_iter().enumerate() {
        let give = if k + 1 == n { first.take().unwrap() } else { first.as_ref().unwrap().clone() };
        let before = counts(&weak);
        let back = spawn(rt, A { k, fail: fails[k], rt, l: l.clone() }, (give, m));
        let after = counts(&weak);
        if before.0 != after.0 {
            v.push(format!("spawning actor {k} changed the number of strong addresses from {} to {}", before.0, after.0));
        }
        if !back.same_actor(&weak) {
            v.push(format!("spawning actor {k} returned an address of something else"));
        }
        if back.capacity() != weak.capacity() || back.capacity() != (if cap == 0 { None } else { Some(cap) }) {
            v.push(format!("capacity {:?} after spawning", back.capacity()));
        }
        rest.push(back);
    }
    // keep exactly one strong address
    let a = rest.pop().unwrap();
    drop(rest);
    if counts(&weak).0 != 1 {
        v.push(format!("{} strong addresses exist, only one was kept", counts(&weak).0));
    }
    let live: Vec<usize> = (0..n).filter(|&k| !fails[k]).collect();
    // history
    let nmsg = r.below(14);
    let enders = r.below(4); // what ends the actors: 0/1 last address, 2 stop_all, 3 stop_self of everybody
    let mut sent: Vec<(u32, Do)> = vec![];
    let mut replies: Vec<(u32, Do, Fut<Result<(usize, u32), xtra::Error>>)> = vec![];
    let mut bc: Vec<u32> = vec![];
    let mut panics = 0;
    if live.is_empty() {
        let j = a.join();
        if within(j).await.is_none() {
            v.push("starting failed for every actor, but the address stays connected".into());
        }
    } else {
        for id in 0..nmsg as u32 {
            if r.chance(15) && fails.iter().all(|f| !f) && panics == 0 {
                bc.push(id);
                let f = a.broadcast(B(id));
                match within(f).await {
                    Some(Ok(())) => {}
                    x => v.push(format!("broadcast {id} -> {x:?}")),
                }
                continue;
            }
            let mut d = match r.below(12) {
                0 | 1 => Do::Yield,
                2 => Do::Sleep,
                3 if n > 1 && panics + 1 < live.len() && bc.is_empty() && r.chance(30) => {
                    panics += 1;
                    Do::Panic
                }
                _ => Do::Nothing,
            };
            if d == Do::Panic && fails.iter().any(|f| *f) {
                panics -= 1;
                d = Do::Nothing;
            }
            sent.push((id, d));
            let m = M(id, d, Tok(id, l.clone()));
            let pri = if r.chance(20) { r.below(4) as u32 } else { 0 };
            if r.chance(50) {
                match within(a.send(m).priority(pri)).await {
                    None => v.push(format!("the reply to message {id} never came")),
                    Some(Ok((_, x))) if x == id && d != Do::Panic => {}
                    Some(Err(xtra::Error::Interrupted)) if d == Do::Panic => {}
                    Some(x) => v.push(format!("reply to message {id} ({d:?}) is {x:?}")),
                }
            } else {
                match within(a.send(m).priority(pri).detach()).await {
                    None => v.push(format!("message {id} was never accepted")),
                    Some(Ok(rx)) => replies.push((id, d, Box::pin(rx))),
                    Some(Err(e)) => v.push(format!("message {id} was refused: {e:?}")),
                }
            }
            if !v.is_empty() {
                break;
            }
        }
        let mut a = Some(a);
        let mut stops: Vec<u32> = vec![];
        if v.is_empty() {
            match enders {
                2 => {
                    let id = 1000;
                    let _ = within(a.as_ref().unwrap().send(M(id, Do::StopAll, Tok(id, l.clone())))).await;
                    sent.push((id, Do::StopAll));
                    stops.push(id);
                }
                3 => {
                    for k in 0..(live.len() - panics.min(live.len())) as u32 {
                        let id = 2000 + k;
                        if let Some(Ok(_)) = within(a.as_ref().unwrap().send(M(id, Do::StopSelf, Tok(id, l.clone())))).await {
                            sent.push((id, Do::StopSelf));
                            stops.push(id);
                        } else {
                            v.push(format!("stop request {k} was not handled"));
                        }
                    }
                }
                _ => {
                    drop(a.take());
                }
            }
            // everything ends
            let j = weak.join();
            if within(j).await.is_none() {
                v.push(format!("the actors did not come to an end (way {enders})"));
            }
            let survivors = live.len() - panics.min(live.len());
            let l2 = l.clone();
            let ok = until(|| l2.all().iter().filter(|e| matches!(e, Ev::Gone(_))).count() == n).await;
            if !ok {
                v.push("an actor was never dropped".into());
            }
            let stopped = l.all().iter().filter(|e| matches!(e, Ev::Stopped(_))).count();
            if stopped != survivors {
                v.push(format!("{stopped} actors ran their stopped hook, expected {survivors}"));
            }
            if weak.is_connected() {
                v.push("still connected after everything has ended".into());
            }
            for (id, d, f) in replies {
                match within(f).await {
                    None => v.push(format!("the reply to detached message {id} never came")),
                    Some(Ok((_, x))) if x == id && d != Do::Panic => {}
                    Some(Err(xtra::Error::Interrupted)) if d == Do::Panic || enders >= 2 => {}
                    Some(x) => v.push(format!("reply to detached message {id} ({d:?}) is {x:?}")),
                }
            }
        }
        drop(a);
    }
    let l2 = l.clone();
    if v.is_empty() && !until(|| l2.all().iter().filter(|e| matches!(e, Ev::Gone(_))).count() == n).await {
        v.push("an actor was never dropped".into());
    }
    // judge the log
    let ev = l.all();
    for k in 0..n {
        let mine: Vec<&Ev> = ev.iter().filter(|e| matches!(e, Ev::Started(x) | Ev::Enter(x, _) | Ev::Exit(x, _) | Ev::Stopped(x) | Ev::Gone(x) if *x == k)).collect();
        if mine.iter().filter(|e| matches!(e, Ev::Started(_))).count() != 1 || !matches!(mine.first(), Some(Ev::Started(_))) {
            v.push(format!("actor {k} was not started exactly once before everything else: {mine:?}"));
        }
        let st = mine.iter().filter(|e| matches!(e, Ev::Stopped(_))).count();
        if fails[k] && (st != 0 || mine.iter().any(|e| matches!(e, Ev::Enter(..)))) {
            v.push(format!("actor {k} failed to start but went on: {mine:?}"));
        }
        if st > 1 {
            v.push(format!("actor {k} was stopped {st} times"));
        }
        let mut open: Option<u32> = None;
        let mut over = false;
        for e in &mine {
            match e {
                Ev::Enter(_, m) => {
                    if open.is_some() || over {
                        v.push(format!("actor {k} handles {m} while {open:?} / after the end"));
                    }
                    open = Some(*m);
                }
                Ev::Exit(_, _) => open = None,
                Ev::Stopped(_) => over = true,
                _ => {}
            }
        }
    }
    for (id, d) in &sent {
        let c = ev.iter().filter(|e| matches!(e, Ev::Enter(_, x) if x == id)).count();
        let detached_may_be_lost = enders >= 2 && v.is_empty();
        if c > 1 || (c == 0 && !detached_may_be_lost && v.is_empty()) {
            v.push(format!("message {id} ({d:?}) was handled {c} times"));
        }
        let g = ev.iter().filter(|e| matches!(e, Ev::MsgGone(x) if x == id)).count();
        if g != 1 && v.is_empty() {
            v.push(format!("message {id} was dropped {g} times"));
        }
    }
    if enders < 2 {
        for b in &bc {
            for &k in &live {
                let c = ev.iter().filter(|e| **e == Ev::Enter(k, *b)).count();
                if c != 1 && panics == 0 && v.is_empty() {
                    v.push(format!("broadcast {b} was handled {c} times by actor {k}"));
                }
            }
        }
    }
    for e in &ev {
        if let Ev::Place(k, s) = e {
            v.push(format!("actor {k} runs outside its runtime ({rt:?}): {s}"));
            break;
        }
    }
    if !v.is_empty() {
        for e in &ev {
            let _ = writeln!(log, "{e:?}");
        }
    }
    let key = ev.iter().fold(rt as u64, |h, e| mix(h ^ format!("{e:?}").bytes().fold(3, |a, b| mix(a ^ b as u64))));
    Out { viol: v, log, key, msgs: sent.len() as u64, actors: n as u64, rt }
}

fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => {}
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String { args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned().unwrap_or(d.into()) };
    let seed: u64 = get("--seed", "1").parse().unwrap();
    let secs: f64 = get("--secs", "5").parse().unwrap();
    let max: u64 = get("--max", "1000000000").parse().unwrap();
    let out = get("--out", "");
    std::panic::set_hook(Box::new(|i| {
        if !i.payload().is::<u8>() {
            eprintln!("{i}");
        }
    }));
    let t0 = Instant::now();
    let next = Arc::new(AtomicU64::new(0));
    let res: Arc<Mutex<(u64, HashSet<u64>, BTreeMap<String, u64>, Vec<(u64, String, String)>)>> = Default::default();
    let replay = args.iter().any(|a| a == "--trace");
    let workers = if replay { 1 } else { 4 };
    let hs: Vec<_> = (0..workers)
        .map(|_| {
            let (next, res) = (next.clone(), res.clone());
            std::thread::spawn(move || {
                let multi = tokio::runtime::Builder::new_multi_thread().worker_threads(2).thread_name("my-tokio").enable_all().build().unwrap();
                loop {
                    let k = next.fetch_add(1, SeqCst);
                    if k >= max || t0.elapsed().as_secs_f64() > secs || !res.lock().unwrap().3.is_empty() {
                        break;
                    }
                    let s = if replay { seed } else { seed.wrapping_mul(1_000_000_000) + k };
                    let rt = [Rt::TokioMulti, Rt::TokioCurrent, Rt::Smol, Rt::AsyncStd][(s % 4) as usize];
                    let o = match rt {
                        Rt::TokioMulti => {
                            // the driving side runs on this thread, the actors on the runtime's
                            let _g = multi.enter();
                            smol::block_on(case(s, rt))
                        }
                        Rt::TokioCurrent => {
                            let one = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
                            one.block_on(case(s, rt))
                        }
                        Rt::Smol | Rt::AsyncStd => smol::block_on(case(s, rt)),
                    };
                    if replay {
                        println!("{}", o.log);
                    }
                    let mut r = res.lock().unwrap();
                    r.0 += 1;
                    r.1.insert(o.key);
                    *r.2.entry(format!("{:?}", o.rt)).or_default() += 1;
                    *r.2.entry("messages".into()).or_default() += o.msgs;
                    *r.2.entry("actors".into()).or_default() += o.actors;
                    if let Some(v) = o.viol.first() {
                        r.3.push((s, v.clone(), o.log));
                    }
                }
                multi.shutdown_background();
            })
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            std::process::exit(4);
        }
    }
    let r = res.lock().unwrap();
    let st: Vec<String> = r.2.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let vi: Vec<String> = r.3.iter().map(|(s, w, t)| format!("{{\"seed\":{s},\"props\":[\"C24\"],\"what\":{},\"trace\":{}}}", js(w), js(t))).collect();
    let s = format!("{{\"engine\":\"spawn\",\"episodes\":{},\"seconds\":{:.1},\"states\":{},\"schedules\":0,\"stats\":{{{}}},\"other\":{{}},\"violations\":[{}]}}\n", r.0, t0.elapsed().as_secs_f64(), r.1.len(), st.join(","), vi.join(","));
    if out.is_empty() {
        println!("{s}");
    } else {
        std::fs::write(&out, s).unwrap();
    }
    std::process::exit(!r.3.is_empty() as i32);
}
