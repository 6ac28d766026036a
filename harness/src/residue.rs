//! Does anything stay behind? A base state is set up, a random sequence of operations that leaves the
//! actor as it was is repeated many times, and the live heap of the thread is compared. At the end all
//! handles are dropped and the heap has to be exactly where it started.
use std::fmt::Write as _;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context as Cx, Poll, Wake, Waker};

use xtra::prelude::*;
use xtra::refcount::{Either, Weak};
use xtra::WeakAddress;

use crate::heap::live;
use crate::rng::{mix, Rng};

struct R {
    n: u64,
}
struct Um(#[allow(dead_code)] [u8; 40]);
#[derive(Clone)]
struct Bm(#[allow(dead_code)] [u8; 40]);
impl Actor for R {
    type Stop = ();
    async fn stopped(self) {}
}
impl Handler<Um> for R {
    type Return = u64;
    async fn handle(&mut self, _: Um, _: &mut Context<Self>) -> u64 {
        self.n += 1;
        self.n
    }
}
impl Handler<Bm> for R {
    type Return = ();
    async fn handle(&mut self, _: Bm, _: &mut Context<Self>) {
        self.n += 1;
    }
}
struct Noop;
impl Wake for Noop {
    fn wake(self: Arc<Self>) {}
}
fn um() -> Um {
    Um([7; 40])
}
fn bm() -> Bm {
    Bm([7; 40])
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    /// send that is polled (accepted or waiting) or not, then dropped
    Send { pri: u8, poll: bool, chan: bool },
    SendDetach { poll: bool },
    Bcast { pri: u8, poll: bool },
    /// broadcast, keep until taken
    Recv { mb: u8, poll: bool },
    RecvKeepTwo { mb: u8 },
    /// take everything there is out of all mailboxes and handle it (or drop it)
    Serve { handle: bool },
    MbClone { poll: bool },
    MbCloneBcast,
    AddrClone,
    Downgrade,
    Upgrade,
    EitherOf,
    ChannelOf,
    Join { poll: bool },
    Scoped { poll: bool },
    Query,
    NewActor { cap: u8, bcast: bool, send: bool, recv: bool, order: u8, stop: bool },
    /// keep a pending receive, send to it, drop it (the message goes back) and serve
    HandOver { mb: u8 },
    Reply { early: bool },
    Sink { poll: bool },
}

struct Base {
    addr: Address<R>,
    weak: WeakAddress<R>,
    chan: MessageChannel<Um, u64>,
    ei: Address<R, Either>,
    mbs: Vec<Mailbox<R>>,
    act: R,
    handled: u64,
}

fn poll<F: Future + ?Sized>(f: Pin<&mut F>, w: &Waker) -> Option<F::Output> {
    match f.poll(&mut Cx::from_waker(w)) {
        Poll::Ready(x) => Some(x),
        Poll::Pending => None,
    }
}

impl Base {
    fn serve(&mut self, handle: bool, w: &Waker) {
        for i in 0..self.mbs.len() {
            for _ in 0..1000 {
                let mut f = Box::pin(self.mbs[i].next());
                let Some(m) = poll(f.as_mut(), w) else { break };
                if handle {
                    let mut d = Box::pin(m.dispatch_to(&mut self.act));
                    for _ in 0..4 {
                        if poll(d.as_mut(), w).is_some() {
                            break;
                        }
                    }
                    self.handled += 1;
                } else {
                    drop(m);
                }
            }
        }
    }
    fn run(&mut self, op: Op, w: &Waker, kept: &mut Vec<Pin<Box<dyn Future<Output = ()>>>>) {
        use futures_util::FutureExt;
        let nm = self.mbs.len();
        match op {
            Op::Send { pri, poll: p, chan } => {
                if chan {
                    let mut f = Box::pin(self.chan.send(um()).priority(pri as u32));
                    if p {
                        let _ = poll(f.as_mut(), w);
                    }
                } else {
                    let mut f = Box::pin(self.addr.send(um()).priority(pri as u32));
                    if p {
                        let _ = poll(f.as_mut(), w);
                    }
                }
            }
            Op::SendDetach { poll: p } => {
                let mut f = Box::pin(self.weak.send(um()).detach());
                if p {
                    let _ = poll(f.as_mut(), w);
                }
            }
            Op::Bcast { pri, poll: p } => {
                let mut f = Box::pin(self.addr.broadcast(bm()).priority(pri as u32));
                if p {
                    let _ = poll(f.as_mut(), w);
                }
            }
            Op::Recv { mb, poll: p } => {
                let mut f = Box::pin(self.mbs[mb as usize % nm].next());
                if p {
                    if let Some(m) = poll(f.as_mut(), w) {
                        drop(m);
                    }
                }
            }
            Op::RecvKeepTwo { mb } => {
                let mut f = Box::pin(self.mbs[mb as usize % nm].next());
                let mut g = Box::pin(self.mbs[mb as usize % nm].next().fuse());
                let _ = poll(f.as_mut(), w);
                let _ = poll(g.as_mut(), w);
                drop(f);
                let _ = poll(g.as_mut(), w);
            }
            Op::Serve { handle } => self.serve(handle, w),
            Op::MbClone { poll: p } => {
                let m = self.mbs[0].clone();
                let mut f = Box::pin(m.next().fuse());
                if p {
                    let _ = poll(f.as_mut(), w);
                }
                drop(m);
                if p {
                    let _ = poll(f.as_mut(), w);
                }
            }
            Op::MbCloneBcast => {
                let m = self.mbs[0].clone();
                let mut f = Box::pin(self.addr.broadcast(bm()).fuse());
                let _ = poll(f.as_mut(), w);
                drop(m);
                let _ = poll(f.as_mut(), w);
            }
            Op::AddrClone => drop(self.addr.clone()),
            Op::Downgrade => drop((self.addr.downgrade(), self.ei.downgrade(), self.mbs[0].address())),
            Op::Upgrade => drop(self.weak.try_upgrade()),
            Op::EitherOf => drop((self.addr.as_either(), self.weak.as_either(), self.ei.clone())),
            Op::ChannelOf => {
                let c: MessageChannel<Um, u64, Weak> = MessageChannel::new(self.weak.clone());
                drop((c.clone(), c, self.chan.downgrade(), self.chan.as_either(), self.chan.clone()));
            }
            Op::Join { poll: p } => {
                let mut j = Box::pin(self.addr.join());
                if p {
                    let _ = poll(j.as_mut(), w);
                }
            }
            Op::Scoped { poll: p } => {
                let mut j = Box::pin(xtra::scoped(&self.weak, std::future::pending::<()>()));
                if p {
                    let _ = poll(j.as_mut(), w);
                }
            }
            Op::Query => {
                let _ = (self.addr.len(), self.addr.is_connected(), self.weak.is_empty(), format!("{:?}", self.addr).len(), format!("{:?}", self.chan).len());
            }
            Op::NewActor { cap, bcast, send, recv, order, stop } => {
                let (a, m) = if cap > 3 { Mailbox::<R>::unbounded() } else { Mailbox::bounded(cap as usize) };
                let mut fs: Vec<Pin<Box<dyn Future<Output = ()>>>> = vec![];
                if recv {
                    fs.push(Box::pin(m.next().map(drop)));
                }
                if send {
                    fs.push(Box::pin(a.send(um()).map(drop)));
                    fs.push(Box::pin(a.send(um()).map(drop)));
                }
                if bcast {
                    fs.push(Box::pin(a.broadcast(bm()).map(drop)));
                    fs.push(Box::pin(a.broadcast(bm()).map(drop)));
                }
                for f in &mut fs {
                    let _ = poll(f.as_mut(), w);
                }
                let _j = Box::pin(a.join());
                let m2 = m.clone();
                if stop {
                    let mut ac = R { n: 0 };
                    let mut f = Box::pin(xtra::select(&m, &mut ac, Box::pin(async {})));
                    let _ = poll(f.as_mut(), w);
                }
                match order % 4 {
                    0 => {
                        drop(m);
                        drop(m2);
                        drop(a);
                        drop(fs);
                    }
                    1 => {
                        drop(a);
                        drop(fs);
                        drop(m2);
                        drop(m);
                    }
                    2 => {
                        drop(fs);
                        drop(m);
                        drop(a);
                        drop(m2);
                    }
                    _ => {
                        let wk = a.downgrade();
                        drop(a);
                        drop(m);
                        drop(fs);
                        drop(m2);
                        drop(wk);
                    }
                }
            }
            Op::HandOver { mb } => {
                let mut f = Box::pin(self.mbs[mb as usize % nm].next());
                let p = poll(f.as_mut(), w);
                if p.is_none() {
                    let mut s = Box::pin(self.addr.send(um()));
                    let _ = poll(s.as_mut(), w);
                    drop(f);
                    drop(s);
                }
            }
            Op::Reply { early } => {
                let mut s = Box::pin(self.addr.send(um()).detach());
                if let Some(r) = poll(s.as_mut(), w) {
                    if let Ok(r) = r {
                        let mut r = Box::pin(r.fuse());
                        let _ = poll(r.as_mut(), w);
                        if !early {
                            self.serve(true, w);
                            let _ = poll(r.as_mut(), w);
                        }
                    }
                }
            }
            Op::Sink { poll: p } => {
                use futures_sink::Sink;
                let mut s: Pin<Box<dyn Sink<Bm, Error = xtra::Error>>> = Box::pin(self.addr.clone().into_sink());
                let _ = s.as_mut().start_send(bm());
                if p {
                    let _ = s.as_mut().poll_flush(&mut Cx::from_waker(w));
                }
            }
        }
        let _ = kept;
    }
}

fn op(r: &mut Rng) -> Op {
    match r.below(24) {
        0 | 1 | 2 => Op::Send { pri: r.below(3) as u8, poll: r.chance(80), chan: r.chance(30) },
        3 => Op::SendDetach { poll: r.chance(80) },
        4 | 5 => Op::Bcast { pri: r.below(3) as u8, poll: r.chance(80) },
        6 | 7 => Op::Recv { mb: r.below(3) as u8, poll: r.chance(80) },
        8 => Op::RecvKeepTwo { mb: r.below(3) as u8 },
        9 => Op::Serve { handle: r.chance(70) },
        10 => Op::MbClone { poll: r.chance(60) },
        11 => Op::MbCloneBcast,
        12 => Op::AddrClone,
        13 => Op::Downgrade,
        14 => Op::Upgrade,
        15 => Op::EitherOf,
        16 => Op::ChannelOf,
        17 => Op::Join { poll: r.chance(60) },
        18 => Op::Scoped { poll: r.chance(60) },
        19 => Op::Query,
        20 => Op::NewActor { cap: r.below(6) as u8, bcast: r.chance(50), send: r.chance(50), recv: r.chance(40), order: r.below(4) as u8, stop: r.chance(20) },
        21 => Op::HandOver { mb: r.below(3) as u8 },
        22 => Op::Reply { early: r.chance(50) },
        _ => Op::Sink { poll: r.chance(70) },
    }
}

pub fn episode(seed: u64, trace: bool) -> crate::drv::Report {
    let w: Waker = Arc::new(Noop).into();
    let (b0, _) = live();
    let r = inner(seed, trace, &w);
    let own = (r.trace.capacity() + r.stats.capacity() * std::mem::size_of::<(&'static str, u64)>() + r.states.capacity() * 8 + r.viol.capacity() * std::mem::size_of::<(Vec<&'static str>, String)>()) as i64;
    let mut r = r;
    let (b1, _) = live();
    if r.viol.is_empty() && b1 - b0 != own {
        let d = b1 - b0 - own;
        r.viol.push((vec!["C16"], format!("after the last handle of every actor is gone {d} bytes are still allocated")));
    }
    r
}

fn inner(seed: u64, trace: bool, w: &Waker) -> crate::drv::Report {
    let mut r = Rng::new(seed);
    let cap = r.below(5);
    let (addr, m) = match cap {
        4 => Mailbox::<R>::unbounded(),
        c => Mailbox::bounded(c),
    };
    let mut mbs = vec![m];
    for _ in 0..r.below(3) {
        let m = mbs[0].clone();
        mbs.push(m);
    }
    let nm = mbs.len();
    let mut b = Base { weak: addr.downgrade(), chan: MessageChannel::new(addr.clone()), ei: addr.as_either(), addr, mbs, act: R { n: 0 }, handled: 0 };
    let len = 1 + r.below(4);
    let ops: Vec<Op> = (0..len).map(|_| op(&mut r)).collect();
    // state that stays the same throughout: a full mailbox, waiting senders, or an idle receiver
    let mut base: Vec<Pin<Box<dyn Future<Output = ()>>>> = vec![];
    use futures_util::FutureExt;
    let kind = r.below(5);
    let accepts = ops.iter().any(|o| matches!(o, Op::Send { poll: true, .. } | Op::SendDetach { poll: true } | Op::Bcast { poll: true, .. } | Op::MbCloneBcast | Op::HandOver { .. } | Op::Reply { .. } | Op::Sink { poll: true }));
    match kind {
        0 if cap < 4 => {
            for _ in 0..cap + r.below(3) {
                base.push(Box::pin(b.addr.send(um()).map(drop)));
                base.push(Box::pin(b.addr.broadcast(bm()).map(drop)));
            }
        }
        1 if !accepts => base.push(Box::pin(b.mbs[0].next().map(drop))),
        _ => {}
    }
    let mut serving = true;
    if kind == 0 && cap < 4 && r.chance(60) {
        serving = false; // stays full
    }
    for f in base.iter_mut() {
        let _ = poll(f.as_mut(), w);
    }
    let mut log = String::new();
    if trace {
        let _ = writeln!(log, "capacity {cap} (4 is unbounded), {nm} mailboxes, base {kind} ({} futures), serving {serving}: {ops:?}", base.len());
    }
    // messages accepted in an iteration are taken within it, so that the state at its end is the same every time
    let mut all = ops.clone();
    if serving && accepts {
        all.push(Op::Serve { handle: r.chance(70) });
    }
    if !serving {
        // an unbounded mailbox, or one that is served, would let the number of accepted messages vary
        all.retain(|o| !matches!(o, Op::Serve { .. } | Op::Recv { poll: true, .. } | Op::RecvKeepTwo { .. } | Op::HandOver { .. } | Op::Reply { early: false }));
        all.retain(|o| !matches!(o, Op::MbClone { poll: true }));
    }
    let (n1, n2) = if cfg!(miri) { (4, 8) } else { (250, 2250) };
    let mut kept = vec![];
    let mut at = vec![];
    for k in 0..n2 {
        if k == n1 {
            at.push(live());
        }
        for o in &all {
            b.run(*o, w, &mut kept);
        }
    }
    at.push(live());
    let grown = at[1].0 - at[0].0;
    let mut viol = vec![];
    if !cfg!(miri) && grown > 4 * (n2 - n1) as i64 {
        let mut p = vec!["C16"];
        if ops.iter().any(|o| matches!(o, Op::Recv { poll: true, .. } | Op::RecvKeepTwo { .. } | Op::MbClone { poll: true } | Op::HandOver { .. })) {
            p.push("C09");
        }
        viol.push((p, format!("repeating {all:?} another {} times (capacity {cap}, {nm} mailboxes, base {kind}) made the heap grow by {grown} bytes", n2 - n1)));
    }
    let mut o2 = all.len() as u64;
    for o in &all {
        o2 = mix(o2 ^ format!("{o:?}").bytes().fold(0, |h, b| mix(h ^ b as u64)));
    }
    let st = mix(o2 ^ (cap * 100 + nm * 10 + kind) as u64);
    // everything goes
    let handled = b.handled;
    if r.chance(50) {
        drop(base);
        drop(b);
    } else {
        let Base { addr, weak, chan, ei, mbs, .. } = b;
        drop((addr, chan, ei));
        if r.chance(50) {
            drop(mbs);
            drop(base);
        } else {
            drop(base);
            drop(mbs);
        }
        drop(weak);
    }
    drop(kept);
    crate::drv::Report { viol, trace: log, stats: vec![("iterations", n2 as u64), ("operations", n2 as u64 * all.len() as u64), ("handled", handled)], states: vec![st], sched: None }
}
