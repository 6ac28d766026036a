//! Sinks made from addresses and message channels: one or two sinks, a competing sender, one or two actors
//! run by the event loop, all polled by hand; every step is judged.
use std::fmt::Write as _;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};
use std::task::{Context as Cx, Poll, Waker};

use futures_sink::Sink;
use futures_util::FutureExt;
use xtra::prelude::*;
use xtra::Error;

use crate::rng::{mix, Rng};
use crate::world::Flag;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum E {
    Enter(u32),
    Exit(u32),
    Cut(u32),
    Drop(u32),
    Stopped(u32),
}
#[derive(Default)]
struct W {
    ev: Mutex<Vec<E>>,
    open: Mutex<(bool, Vec<u32>, Vec<Waker>)>,
}
impl W {
    fn log(&self, e: E) {
        self.ev.lock().unwrap().push(e);
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Do {
    Nothing,
    Stop,
    Panic,
}
struct It {
    id: u32,
    gate: bool,
    act: Do,
    w: Arc<W>,
}
impl Drop for It {
    fn drop(&mut self) {
        self.w.log(E::Drop(self.id));
    }
}
struct Gate(Arc<W>, u32);
impl Future for Gate {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<()> {
        let mut g = self.0.open.lock().unwrap();
        if g.0 || g.1.contains(&self.1) {
            return Poll::Ready(());
        }
        g.2.push(cx.waker().clone());
        Poll::Pending
    }
}
struct A(u32, Arc<W>);
impl Actor for A {
    type Stop = ();
    async fn stopped(self) {
        self.1.log(E::Stopped(self.0));
    }
}
struct G(Arc<W>, u32, bool);
impl Drop for G {
    fn drop(&mut self) {
        if !self.2 {
            self.0.log(E::Cut(self.1));
        }
    }
}
impl Handler<It> for A {
    type Return = ();
    async fn handle(&mut self, m: It, ctx: &mut Context<Self>) {
        self.1.log(E::Enter(m.id));
        let mut g = G(self.1.clone(), m.id, false);
        if m.gate {
            Gate(self.1.clone(), m.id).await;
        }
        match m.act {
            Do::Nothing => {}
            Do::Stop => ctx.stop_self(),
            Do::Panic => std::panic::panic_any(crate::world::SimPanic),
        }
        g.2 = true;
        self.1.log(E::Exit(m.id));
    }
}

struct Snk {
    s: Option<Pin<Box<dyn Sink<It, Error = Error> + Send>>>,
    strong: bool,
    fed: Vec<u32>,
    /// item not reported as done yet
    out: Option<u32>,
    polled: bool,
    flag: Option<Arc<Flag>>,
    failed: bool,
}
struct Other {
    f: Option<Pin<Box<dyn Future<Output = Result<(), Error>> + Send>>>,
    id: u32,
    strong: bool,
    polled: bool,
    flag: Arc<Flag>,
}
struct Task {
    id: u32,
    f: Option<Pin<Box<dyn Future<Output = ()> + Send>>>,
    flag: Arc<Flag>,
    polled: bool,
}

pub fn episode(seed: u64, trace: bool) -> crate::drv::Report {
    let mut r = Rng::new(seed);
    let w = Arc::new(W::default());
    let cap = r.below(5);
    let (addr, mb) = match cap {
        4 => Mailbox::unbounded(),
        c => Mailbox::bounded(c),
    };
    let mut log = String::new();
    let mut viol: Vec<(Vec<&'static str>, String)> = vec![];
    let mut tasks: Vec<Task> = vec![];
    let na = 1 + r.below(2);
    let mut mbs = vec![];
    for k in 0..na {
        let m = if k + 1 == na { None } else { Some(mb.clone()) };
        if let Some(m) = m {
            mbs.push(m);
        }
    }
    mbs.push(mb);
    for (k, m) in mbs.into_iter().enumerate() {
        let a = A(k as u32, w.clone());
        tasks.push(Task { id: k as u32, f: Some(Box::pin(xtra::run(m, a))), flag: Flag::new(), polled: false });
    }
    let mut sinks: Vec<Snk> = vec![];
    for _ in 0..1 + r.below(2) {
        let k = r.below(6);
        let s: Pin<Box<dyn Sink<It, Error = Error> + Send>> = match k {
            0 => Box::pin(addr.clone().into_sink()),
            1 => Box::pin(addr.downgrade().into_sink()),
            2 => Box::pin(addr.as_either().into_sink()),
            3 => Box::pin(addr.downgrade().as_either().into_sink()),
            4 => Box::pin(MessageChannel::<It, ()>::new(addr.clone()).into_sink()),
            _ => Box::pin(MessageChannel::<It, (), xtra::refcount::Weak>::new(addr.downgrade()).into_sink()),
        };
        sinks.push(Snk { s: Some(s), strong: matches!(k, 0 | 2 | 4), fed: vec![], out: None, polled: false, flag: None, failed: false });
        if trace {
            let _ = writeln!(log, "sink {} kind {k}, capacity {cap}, {na} actors", sinks.len() - 1);
        }
    }
    let mut addr = Some(addr);
    let mut others: Vec<Other> = vec![];
    let mut next = 0u32;
    let (mut entered, mut exited, mut cut, mut dropped): (Vec<u32>, Vec<u32>, Vec<u32>, Vec<u32>) = Default::default();
    let mut stopped: Vec<u32> = vec![];
    let mut told: Vec<u32> = vec![]; // actors with a reason to stop
    let mut acts: Vec<Do> = vec![];
    let mut pos = 0usize;
    let (mut n_ok, mut n_err, mut n_pend, mut n_checks) = (0u64, 0u64, 0u64, 0u64);
    let steps = if cfg!(miri) { 40 } else { 120 };
    let mut state = 0u64;
    let mut cause_drop = false;
    for step in 0..steps {
        let last = step + 12 >= steps;
        if step + 12 == steps {
            // end phase: everything opens
            let ws = {
                let mut g = w.open.lock().unwrap();
                g.0 = true;
                std::mem::take(&mut g.2)
            };
            ws.into_iter().for_each(Waker::wake);
        }
        let any_strong = addr.is_some() || sinks.iter().any(|s| s.s.is_some() && s.strong);
        let op = if last { 3 } else { r.weighted(&[24, 22, 10, 26, 6, 8, 2, 2, 2]) };
        match op {
            0 | 2 => {
                // readiness, flush, close
                let i = r.below(sinks.len());
                let which = r.below(if op == 0 { 2 } else { 3 });
                sink_poll(&mut sinks[i], i, which, &mut viol, &mut log, trace, &mut n_ok, &mut n_err, &mut n_pend, &entered, &exited, &cut, &dropped, tasks.iter().all(|t| t.f.is_none()) || !any_strong);
            }
            1 => {
                let i = r.below(sinks.len());
                let s = &mut sinks[i];
                if s.s.is_some() && !s.failed && s.out.is_none() {
                    // the contract of sinks: readiness first
                    let f = Flag::new();
                    let wk = f.clone().into();
                    let rdy = s.s.as_mut().unwrap().as_mut().poll_ready(&mut Cx::from_waker(&wk));
                    n_checks += 1;
                    if !matches!(rdy, Poll::Ready(Ok(()))) {
                        viol.push((vec!["C22"], format!("sink {i} is not ready although nothing is outstanding: {rdy:?}")));
                        break;
                    }
                    let act = if r.chance(4) { Do::Stop } else if r.chance(2) { Do::Panic } else { Do::Nothing };
                    let id = next;
                    next += 1;
                    acts.push(act);
                    let gate = r.chance(35);
                    let e = s.s.as_mut().unwrap().as_mut().start_send(It { id, gate, act, w: w.clone() });
                    if trace {
                        let _ = writeln!(log, "start_send item {id} into sink {i} gate {gate} {act:?} -> {e:?}");
                    }
                    if e.is_err() {
                        viol.push((vec!["C22"], format!("start_send into the ready sink {i} failed")));
                    }
                    s.fed.push(id);
                    s.out = Some(id);
                    s.polled = false;
                    s.flag = None;
                }
            }
            4 => {
                // open the gate of something
                let ws = {
                    let mut g = w.open.lock().unwrap();
                    let ids: Vec<u32> = entered.iter().copied().filter(|x| !exited.contains(x) && !cut.contains(x)).collect();
                    if let Some(&x) = ids.first() {
                        g.1.push(x);
                    }
                    std::mem::take(&mut g.2)
                };
                ws.into_iter().for_each(Waker::wake);
            }
            5 => {
                // somebody else sends
                if others.len() < 4 {
                    if let Some(a) = &addr {
                        let id = next;
                        next += 1;
                        acts.push(Do::Nothing);
                        let m = It { id, gate: r.chance(20), act: Do::Nothing, w: w.clone() };
                        let p = r.below(2) as u32;
                        let strong = r.chance(50);
                        let mut f: Pin<Box<dyn Future<Output = Result<(), Error>> + Send>> = if strong { Box::pin(a.send(m).priority(p)) } else { Box::pin(a.downgrade().send(m).priority(p)) };
                        let flag = Flag::new();
                        let pend = f.as_mut().poll(&mut Cx::from_waker(&flag.clone().into())).is_pending();
                        if trace {
                            let _ = writeln!(log, "other sender: item {id}, pending {pend}");
                        }
                        if pend {
                            others.push(Other { f: Some(f), id, strong, polled: true, flag });
                        }
                    }
                } else {
                    let o = others.remove(0);
                    let _ = (o.id, o.polled);
                    drop(o.f);
                }
            }
            6 => {
                if trace {
                    let _ = writeln!(log, "drop the address");
                }
                addr = None;
            }
            7 => {
                let i = r.below(sinks.len());
                if trace {
                    let _ = writeln!(log, "drop sink {i}");
                }
                sinks[i].s = None;
            }
            8 => {
                // an actor's task is dropped
                let i = r.below(tasks.len());
                if r.chance(40) {
                    if trace {
                        let _ = writeln!(log, "drop the task of actor {i}");
                    }
                    cause_drop |= tasks[i].f.is_some();
                    told.push(i as u32);
                    tasks[i].f = None;
                }
            }
            _ => {
                // run actors that want to run, and everybody who was woken
                for _ in 0..6 {
                    let mut any = false;
                    for t in tasks.iter_mut() {
                        if t.f.is_some() && (!t.polled || t.flag.woken.swap(false, SeqCst)) {
                            any = true;
                            t.polled = true;
                            let wk = t.flag.clone().into();
                            let f = t.f.as_mut().unwrap();
                            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.as_mut().poll(&mut Cx::from_waker(&wk))));
                            match res {
                                Ok(Poll::Pending) => {}
                                Ok(Poll::Ready(())) => t.f = None,
                                Err(_) => {
                                    told.push(t.id);
                                    t.f = None;
                                }
                            }
                            if trace {
                                let _ = writeln!(log, "poll actor {}: {}", t.id, if t.f.is_none() { "ended" } else { "pending" });
                            }
                        }
                    }
                    for o in others.iter_mut() {
                        if o.flag.woken.swap(false, SeqCst) {
                            any = true;
                            let wk = o.flag.clone().into();
                            if o.f.as_mut().unwrap().as_mut().poll(&mut Cx::from_waker(&wk)).is_ready() {
                                o.f = None;
                            }
                        }
                    }
                    others.retain(|o| o.f.is_some());
                    if last {
                        // what was woken is polled
                        absorb(&w, &mut pos, &mut entered, &mut exited, &mut cut, &mut dropped, &mut stopped);
                        for i in 0..sinks.len() {
                            if sinks[i].s.is_some() && sinks[i].out.is_some() && (!sinks[i].polled || sinks[i].flag.as_ref().map_or(false, |f| f.is_woken())) {
                                any = true;
                                sink_poll(&mut sinks[i], i, 1, &mut viol, &mut log, trace, &mut n_ok, &mut n_err, &mut n_pend, &entered, &exited, &cut, &dropped, tasks.iter().all(|t| t.f.is_none()) || !any_strong);
                            }
                        }
                    }
                    if !any {
                        break;
                    }
                }
            }
        }
        absorb(&w, &mut pos, &mut entered, &mut exited, &mut cut, &mut dropped, &mut stopped);
        // ---- rules
        for (i, s) in sinks.iter_mut().enumerate() {
            n_checks += 1;
            let seen: Vec<u32> = entered.iter().copied().filter(|x| s.fed.contains(x)).collect();
            if seen != s.fed[..seen.len()] {
                // an item may be skipped only if it was never handled because the actor went away
                viol.push((vec!["C22"], format!("items of sink {i} were fed in the order {:?} but handled in the order {seen:?}", s.fed)));
            }
            // no interleaving: all but the last entered are finished
            for x in seen.iter().rev().skip(1) {
                if !exited.contains(x) && !cut.contains(x) {
                    viol.push((vec!["C22"], format!("item {x} of sink {i} is still being handled while a later one is")));
                }
            }
            // waker: the outcome of the outstanding item is known
            if let (Some(id), Some(f), true) = (s.out, &s.flag, s.s.is_some()) {
                let fate = exited.contains(&id) || cut.contains(&id) || dropped.contains(&id);
                if fate && !f.is_woken() {
                    viol.push((vec!["C22", "C03"], format!("the fate of item {id} is known but the task waiting for sink {i} was not woken")));
                }
            }
        }
        let mut e2 = entered.clone();
        e2.sort();
        e2.dedup();
        if e2.len() != entered.len() {
            viol.push((vec!["C22", "C01"], "an item was handled twice".to_string()));
        }
        // strength: as long as a strong sink exists actors do not stop by themselves
        for &a in &stopped {
            let self_stop = exited.iter().any(|&x| acts[x as usize] == Do::Stop);
            if any_strong && (addr.is_some() || sinks.iter().any(|s| s.s.is_some() && s.strong)) && !self_stop && !told.contains(&a) {
                viol.push((vec!["C22", "C10"], format!("actor {a} stopped although a strong sink or address exists")));
            }
            told.push(a);
        }
        state = mix(state ^ (op as u64) ^ ((entered.len() * 64 + exited.len()) as u64));
        if !viol.is_empty() {
            break;
        }
    }
    if viol.is_empty() {
        let end = tasks.iter().all(|t| t.f.is_none());
        // served to the end: nothing may be outstanding
        for (i, s) in sinks.iter().enumerate() {
            if s.s.is_some() && s.out.is_some() {
                viol.push((vec!["C22", "C03"], format!("sink {i} is still pending with item {:?} though everything was served (all actors gone: {end})", s.out)));
            }
        }
        // no strong handle left: actors stop
        let strong = addr.is_some() || sinks.iter().any(|s| s.s.is_some() && s.strong) || others.iter().any(|o| o.strong);
        if !strong && !end {
            viol.push((vec!["C22", "C10"], "the actor keeps running although only sinks made from weak handles are left".to_string()));
        }
    }
    let _ = cause_drop;
    drop(sinks);
    drop(others);
    drop(addr);
    drop(tasks);
    let text = if trace || !viol.is_empty() { log } else { String::new() };
    crate::drv::Report {
        viol,
        trace: text,
        stats: vec![("items", next as u64), ("handled", exited.len() as u64), ("ready_ok", n_ok), ("ready_err", n_err), ("pending", n_pend), ("checks", n_checks)],
        states: vec![state],
        sched: None,
    }
}

fn absorb(w: &W, pos: &mut usize, entered: &mut Vec<u32>, exited: &mut Vec<u32>, cut: &mut Vec<u32>, dropped: &mut Vec<u32>, stopped: &mut Vec<u32>) {
    let ev = w.ev.lock().unwrap();
    for e in &ev[*pos..] {
        match *e {
            E::Enter(x) => entered.push(x),
            E::Exit(x) => exited.push(x),
            E::Cut(x) => cut.push(x),
            E::Drop(x) => dropped.push(x),
            E::Stopped(a) => stopped.push(a),
        }
    }
    *pos = ev.len();
}

#[allow(clippy::too_many_arguments)]
fn sink_poll(
    s: &mut Snk, i: usize, which: usize, viol: &mut Vec<(Vec<&'static str>, String)>, log: &mut String, trace: bool, n_ok: &mut u64, n_err: &mut u64, n_pend: &mut u64,
    entered: &[u32], exited: &[u32], cut: &[u32], dropped: &[u32], gone: bool,
) {
    let Some(k) = s.s.as_mut() else { return };
    if s.failed {
        return;
    }
    let f = Flag::new();
    let wk: Waker = f.clone().into();
    let cx = &mut Cx::from_waker(&wk);
    let name = ["poll_ready", "poll_flush", "poll_close"][which];
    let r = match which {
        0 => k.as_mut().poll_ready(cx),
        1 => k.as_mut().poll_flush(cx),
        _ => k.as_mut().poll_close(cx),
    };
    if trace {
        let _ = writeln!(log, "{name} of sink {i}: {r:?} (outstanding {:?})", s.out);
    }
    let mut bad = |p: &[&'static str], m: String| viol.push((p.to_vec(), m));
    match (r, s.out) {
        (Poll::Ready(Ok(())), None) => {}
        (Poll::Ready(Ok(())), Some(id)) => {
            *n_ok += 1;
            if !exited.contains(&id) {
                bad(&["C22"], format!("{name} of sink {i} is complete although item {id} has not been handled (entered: {}, interrupted: {}, gone: {})", entered.contains(&id), cut.contains(&id), dropped.contains(&id)));
            }
            s.out = None;
            s.flag = None;
        }
        (Poll::Ready(Err(e)), Some(id)) => {
            *n_err += 1;
            if exited.contains(&id) {
                bad(&["C22", "C02"], format!("{name} of sink {i} reports {e:?} although item {id} was handled"));
            } else if e == Error::Interrupted && s.polled == false {
                bad(&["C22", "C02"], format!("{name} of sink {i} reports Interrupted for item {id}, which had not been sent yet"));
            } else if e == Error::Disconnected && entered.contains(&id) {
                bad(&["C22", "C02"], format!("{name} of sink {i} reports Disconnected for item {id}, which was accepted"));
            } else if e == Error::Disconnected && !gone && !s.polled {
                bad(&["C22", "C13"], format!("{name} of sink {i} reports Disconnected although an actor and a strong handle are there"));
            }
            s.out = None;
            s.flag = None;
            s.failed = true;
        }
        (Poll::Ready(Err(e)), None) => {
            bad(&["C22"], format!("{name} of sink {i} fails with {e:?} although nothing is outstanding"));
            s.failed = true;
        }
        (Poll::Pending, None) => bad(&["C22"], format!("{name} of sink {i} is pending although nothing is outstanding")),
        (Poll::Pending, Some(id)) => {
            *n_pend += 1;
            let fate = exited.contains(&id) || cut.contains(&id) || (dropped.contains(&id));
            if fate {
                bad(&["C22", "C03"], format!("{name} of sink {i} is pending although the fate of item {id} is known"));
            }
            s.flag = Some(f);
            s.polled = true;
        }
    }
}

#[allow(dead_code)]
fn unused() {
    let _ = async {}.map(|x| x);
}
