//! Small random programs over the whole safe API, from several threads, meant to be run under Miri and the
//! sanitizers: they judge races, undefined behaviour and leaks; the program itself checks the payloads.
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::pin::Pin;
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::task::{Context as Cx, Poll, Wake, Waker};
use std::time::Instant;

use futures_sink::Sink;
use xtra::prelude::*;
use xtra::refcount::{Either, Strong, Weak};
use xtra::{Address, Error, Mailbox};

struct Rng(u64);
fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    fn below(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        (mix(self.0) >> 11) as usize % n.max(1)
    }
    fn chance(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
}

/// Everything that was created minus everything that was dropped.
struct Live {
    payloads: AtomicI64,
    actors: AtomicI64,
    handled: AtomicU64,
    polls: AtomicU64,
    bad: Mutex<Option<(bool, String)>>,
}
impl Live {
    fn fail(&self, s: String) {
        self.bad.lock().unwrap().get_or_insert((true, s));
    }
    /// not a matter of memory
    fn note(&self, s: String) {
        self.bad.lock().unwrap().get_or_insert((false, s));
    }
}

/// Plain memory that is written by whoever has the payload: an access without a happens-before edge is a
/// data race the sanitizers see; freed or torn memory shows in the value.
struct Pay {
    v: Box<[u64; 3]>,
    l: Arc<Live>,
    sum: u64,
}
impl Pay {
    fn new(x: u64, l: &Arc<Live>) -> Pay {
        l.payloads.fetch_add(1, Relaxed);
        Pay { v: Box::new([x, x ^ 0x5555, 0]), l: l.clone(), sum: 0 }
    }
    fn touch(&mut self) {
        if self.v[0] ^ 0x5555 != self.v[1] || self.v[2] != self.sum {
            self.l.fail(format!("the content of a message changed: {:?} {}", self.v, self.sum));
        }
        self.v[2] += 1;
        self.sum += 1;
    }
}
impl Clone for Pay {
    fn clone(&self) -> Pay {
        self.l.payloads.fetch_add(1, Relaxed);
        Pay { v: self.v.clone(), l: self.l.clone(), sum: self.sum }
    }
}
impl Drop for Pay {
    fn drop(&mut self) {
        self.touch();
        self.l.payloads.fetch_sub(1, Relaxed);
    }
}

struct U {
    p: Pay,
    what: u8,
    cargo: Option<Box<Obj>>,
}
#[derive(Clone)]
struct B {
    p: Pay,
    what: u8,
}
struct S(Pay);

struct A {
    n: Box<u64>,
    l: Arc<Live>,
    got: Vec<Pay>,
}
impl A {
    fn new(l: &Arc<Live>) -> A {
        l.actors.fetch_add(1, Relaxed);
        A { n: Box::new(0), l: l.clone(), got: vec![] }
    }
}
impl Drop for A {
    fn drop(&mut self) {
        *self.n += 1;
        self.l.actors.fetch_sub(1, Relaxed);
    }
}
impl Actor for A {
    type Stop = Pay;
    async fn started(&mut self, mb: &Mailbox<Self>) -> Result<(), Pay> {
        *self.n += 1;
        let _ = mb.address().is_connected();
        if *self.n % 7 == 6 {
            return Err(Pay::new(99, &self.l));
        }
        Ok(())
    }
    async fn stopped(mut self) -> Pay {
        *self.n += 1;
        Pay::new(*self.n, &self.l)
    }
}
struct Yield(bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<()> {
        if std::mem::replace(&mut self.0, true) {
            return Poll::Ready(());
        }
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
struct Planned;
impl A {
    async fn act(&mut self, p: &mut Pay, what: u8, ctx: &mut Context<Self>) {
        *self.n += 1;
        p.touch();
        self.l.handled.fetch_add(1, Relaxed);
        match what {
            0 => Yield(false).await,
            1 => {
                Yield(false).await;
                Yield(false).await;
            }
            2 => ctx.stop_self(),
            3 => ctx.stop_all(),
            4 => {
                let a = ctx.mailbox().address();
                let mut f = a.send(U { p: Pay::new(7, &self.l), what: 9, cargo: None }).detach();
                let _ = poll1(&mut f);
            }
            5 => {
                let mb = ctx.mailbox().clone();
                xtra::join(&mb, self, Yield(false)).await;
            }
            6 => std::panic::panic_any(Planned),
            7 => self.got.push(p.clone()),
            8 => self.got.clear(),
            10 => {
                let mb = ctx.mailbox().clone();
                let _ = xtra::select(&mb, self, Box::pin(Yield(false))).await;
            }
            _ => {}
        }
        p.touch();
        *self.n += 1;
    }
}
impl Handler<U> for A {
    type Return = Pay;
    async fn handle(&mut self, mut m: U, ctx: &mut Context<Self>) -> Pay {
        let w = m.what;
        self.act(&mut m.p, w, ctx).await;
        drop(m.cargo);
        m.p
    }
}
impl Handler<B> for A {
    type Return = ();
    async fn handle(&mut self, mut m: B, ctx: &mut Context<Self>) {
        let w = m.what;
        self.act(&mut m.p, w, ctx).await;
    }
}
impl Handler<S> for A {
    type Return = ();
    async fn handle(&mut self, mut m: S, ctx: &mut Context<Self>) {
        self.act(&mut m.0, 0, ctx).await;
    }
}

type Bf<T> = Pin<Box<dyn Future<Output = T> + Send>>;
type Snk = Pin<Box<dyn Sink<S, Error = Error> + Send>>;
enum Obj {
    St(Address<A>),
    We(Address<A, Weak>),
    Ei(Address<A, Either>),
    ChS(MessageChannel<U, Pay, Strong>),
    ChW(MessageChannel<U, Pay, Weak>),
    ChE(MessageChannel<U, Pay, Either>),
    Mb(Mailbox<A>),
    Reply(Bf<Result<Pay, Error>>),
    Unit(Bf<()>),
    Det(Bf<Result<xtra::Receiver<Pay>, Error>>),
    Recv(Bf<()>),
    Run(Bf<Pay>),
    Sink(Snk, bool),
}

struct Wk(AtomicUsize);
impl Wake for Wk {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Relaxed);
    }
}
thread_local! { static WAKER: Waker = Arc::new(Wk(AtomicUsize::new(0))).into(); }
fn poll1<F: Future + Unpin>(f: &mut F) -> Poll<F::Output> {
    WAKER.with(|w| Pin::new(f).poll(&mut Cx::from_waker(w)))
}
fn guarded<T>(l: &Live, f: impl FnOnce() -> T) -> Option<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(t) => Some(t),
        Err(p) if p.is::<Planned>() => None,
        Err(p) => {
            let t = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            l.note(format!("a call panicked: {t}"));
            None
        }
    }
}

struct Th {
    r: Rng,
    o: Vec<Obj>,
    l: Arc<Live>,
    slot: Arc<Mutex<Vec<Obj>>>,
    next: u64,
    ops: Vec<u8>,
}
impl Th {
    fn pay(&mut self) -> Pay {
        self.next += 1;
        Pay::new(self.next, &self.l)
    }
    fn pick(&mut self, f: impl Fn(&Obj) -> bool) -> Option<usize> {
        if self.o.is_empty() {
            return None;
        }
        let s = self.r.below(self.o.len());
        (0..self.o.len()).map(|i| (i + s) % self.o.len()).find(|i| f(&self.o[*i]))
    }
    fn what(&mut self) -> u8 {
        [0, 0, 1, 2, 3, 4, 4, 5, 6, 7, 7, 8, 9, 9, 9, 10][self.r.below(16)]
    }
    fn op(&mut self) {
        let k = self.r.below(24);
        self.ops.push(k as u8);
        let l = self.l.clone();
        if self.o.len() > 14 {
            let i = self.r.below(self.o.len());
            let x = self.o.swap_remove(i);
            guarded(&l, || drop(x));
        }
        match k {
            0..=4 => {
                let Some(i) = self.pick(|o| matches!(o, Obj::St(_) | Obj::We(_) | Obj::Ei(_) | Obj::ChS(_) | Obj::ChW(_) | Obj::ChE(_))) else { return };
                let (p, what, q) = (self.pay(), self.what(), self.r.below(5));
                let cargo: Option<Box<Obj>> = (|| {
                    if q != 4 {
                        return None;
                    }
                    Some(Box::new(match &self.o[i] {
                        Obj::We(a) => Obj::We(a.clone()),
                        Obj::St(a) => Obj::We(a.downgrade()),
                        Obj::ChS(a) => Obj::ChW(a.downgrade()),
                        _ => return None,
                    }))
                })();
                let m = U { p, what, cargo };
                let pri = q as u32 % 3;
                macro_rules! send { ($a:expr) => { match q { 0 => Obj::Det(Box::pin($a.send(m).detach())), 1 => Obj::Reply(Box::pin($a.send(m).priority(pri))), 2 => Obj::Det(Box::pin($a.send(m).priority(pri).detach())), _ => Obj::Reply(Box::pin($a.send(m))) } } }
                let x = match &self.o[i] {
                    Obj::St(a) => send!(a),
                    Obj::We(a) => send!(a),
                    Obj::Ei(a) => send!(a),
                    Obj::ChS(a) => send!(a),
                    Obj::ChW(a) => send!(a),
                    Obj::ChE(a) => send!(a),
                    _ => return,
                };
                self.o.push(x);
                let n = self.o.len() - 1;
                self.poll(n);
            }
            5 => {
                let (p, what) = (self.pay(), self.what());
                let Some(i) = self.pick(|o| matches!(o, Obj::St(_) | Obj::We(_))) else { return };
                let m = B { p, what };
                let f: Bf<Result<(), Error>> = match &self.o[i] {
                    Obj::St(a) => Box::pin(a.broadcast(m)),
                    Obj::We(a) => Box::pin(a.broadcast(m).priority(2)),
                    _ => return,
                };
                self.o.push(Obj::Unit(Box::pin(async move {
                    let _ = f.await;
                })));
                let n = self.o.len() - 1;
                self.poll(n);
            }
            6..=9 => {
                if let Some(i) = self.pick(|o| matches!(o, Obj::Reply(_) | Obj::Unit(_) | Obj::Det(_) | Obj::Recv(_) | Obj::Run(_) | Obj::Sink(..))) {
                    self.poll(i);
                }
            }
            10 | 11 => {
                if !self.o.is_empty() {
                    let i = self.r.below(self.o.len());
                    let x = self.o.swap_remove(i);
                    guarded(&l, || drop(x));
                }
            }
            12 => {
                let Some(i) = self.pick(|o| matches!(o, Obj::St(_) | Obj::We(_) | Obj::Ei(_) | Obj::ChS(_) | Obj::ChW(_))) else { return };
                let x = match &self.o[i] {
                    Obj::St(a) => match self.r.below(4) {
                        0 => Obj::St(a.clone()),
                        1 => Obj::We(a.downgrade()),
                        2 => Obj::ChS(MessageChannel::new(a.clone())),
                        _ => Obj::Ei(a.clone().as_either()),
                    },
                    Obj::We(a) => match self.r.below(3) {
                        0 => Obj::We(a.clone()),
                        1 => match a.try_upgrade() {
                            Some(s) => Obj::St(s),
                            None => return,
                        },
                        _ => Obj::ChW(MessageChannel::new(a.clone())),
                    },
                    Obj::Ei(a) => match self.r.below(2) {
                        0 => Obj::Ei(a.clone()),
                        _ => Obj::We(a.downgrade()),
                    },
                    Obj::ChS(a) => match self.r.below(3) {
                        0 => Obj::ChS(a.clone()),
                        1 => Obj::ChE(a.clone().as_either()),
                        _ => Obj::ChW(a.downgrade()),
                    },
                    Obj::ChW(a) => Obj::ChW(a.clone()),
                    _ => return,
                };
                self.o.push(x);
            }
            13..=15 => {
                // take and handle
                let Some(i) = self.pick(|o| matches!(o, Obj::Mb(_))) else { return };
                let n = self.r.below(4);
                let Obj::Mb(m) = &self.o[i] else { return };
                let mut f = Box::pin(m.next());
                let Poll::Ready(m) = poll1(&mut f) else {
                    return;
                };
                drop(f);
                let mut a = A::new(&l);
                guarded(&l, || {
                    let mut d = m.dispatch_to(&mut a);
                    for _ in 0..n {
                        l.polls.fetch_add(1, Relaxed);
                        if poll1(&mut d).is_ready() {
                            break;
                        }
                    }
                });
            }
            16 => {
                // a receive that stays around
                let Some(i) = self.pick(|o| matches!(o, Obj::Mb(_))) else { return };
                let Obj::Mb(m) = &self.o[i] else { return };
                let m = m.clone();
                let l = l.clone();
                self.o.push(Obj::Recv(Box::pin(async move {
                    let msg = m.next().await;
                    drop(m);
                    let mut a = A::new(&l);
                    let _ = msg.dispatch_to(&mut a).await;
                })));
                let n = self.o.len() - 1;
                self.poll(n);
            }
            17 => {
                let Some(i) = self.pick(|o| matches!(o, Obj::Mb(_))) else { return };
                let Obj::Mb(m) = &self.o[i] else { return };
                let x = match self.r.below(3) {
                    0 => Obj::Mb(m.clone()),
                    1 => Obj::We(m.address()),
                    _ => Obj::Run(Box::pin(xtra::run(m.clone(), A::new(&l)))),
                };
                self.o.push(x);
                let n = self.o.len() - 1;
                self.poll(n);
            }
            18 => {
                let Some(i) = self.pick(|o| matches!(o, Obj::St(_) | Obj::We(_) | Obj::ChS(_))) else { return };
                let x: Bf<()> = match &self.o[i] {
                    Obj::St(a) => Box::pin(a.join()),
                    Obj::We(a) => {
                        let a = a.clone();
                        Box::pin(async move {
                            let _ = xtra::scoped(&a, Yield(false)).await;
                        })
                    }
                    Obj::ChS(a) => Box::pin(a.join()),
                    _ => return,
                };
                self.o.push(Obj::Unit(x));
                let n = self.o.len() - 1;
                self.poll(n);
            }
            19 => {
                // queries
                let (mut n, mut h) = (0usize, std::collections::hash_map::DefaultHasher::new());
                for (i, o) in self.o.iter().enumerate() {
                    match o {
                        Obj::St(a) => {
                            n += a.len() + a.is_connected() as usize + a.capacity().unwrap_or(0) + format!("{a:?}").len();
                            a.hash(&mut h);
                            if let Some(Obj::St(b)) = self.o.get(i + 1) {
                                n += (a == b) as usize + (a < b) as usize + a.same_actor(b) as usize;
                            }
                        }
                        Obj::We(a) => n += a.len() + a.is_empty() as usize + a.is_connected() as usize,
                        Obj::ChS(c) => n += c.len() + format!("{c:?}").len(),
                        _ => {}
                    }
                }
                std::hint::black_box((n, h.finish()));
            }
            20 => {
                let Some(i) = self.pick(|o| matches!(o, Obj::St(_) | Obj::We(_))) else { return };
                let x = match &self.o[i] {
                    Obj::St(a) => Box::pin(a.clone().into_sink()) as Snk,
                    Obj::We(a) => Box::pin(a.clone().into_sink()) as Snk,
                    _ => return,
                };
                self.o.push(Obj::Sink(x, true));
                let n = self.o.len() - 1;
                self.poll(n);
            }
            _ => {
                // hand over to another thread, or take over
                if self.r.chance(60) && self.o.len() > 2 {
                    let i = self.r.below(self.o.len());
                    let x = self.o.swap_remove(i);
                    self.slot.lock().unwrap().push(x);
                } else {
                    let x = self.slot.lock().unwrap().pop();
                    self.o.extend(x);
                }
            }
        }
    }
    fn poll(&mut self, i: usize) {
        let l = self.l.clone();
        l.polls.fetch_add(1, Relaxed);
        let item = matches!(self.o[i], Obj::Sink(..)).then(|| self.pay());
        let fl = self.r.chance(30);
        let o = &mut self.o[i];
        let done = guarded(&l, || match o {
            Obj::Reply(f) => match poll1(f) {
                Poll::Ready(Ok(mut p)) => {
                    p.touch();
                    true
                }
                Poll::Ready(Err(_)) => true,
                Poll::Pending => false,
            },
            Obj::Unit(f) | Obj::Recv(f) => poll1(f).is_ready(),
            Obj::Run(f) => match poll1(f) {
                Poll::Ready(mut p) => {
                    p.touch();
                    true
                }
                _ => false,
            },
            Obj::Det(f) => match poll1(f) {
                Poll::Ready(Ok(r)) => {
                    *o = Obj::Reply(Box::pin(r));
                    false
                }
                Poll::Ready(Err(_)) => true,
                Poll::Pending => false,
            },
            Obj::Sink(s, alive) => WAKER.with(|w| {
                let cx = &mut Cx::from_waker(w);
                if !*alive {
                    return true;
                }
                let e = if fl {
                    match s.as_mut().poll_flush(cx) {
                        Poll::Ready(r) => r.is_err(),
                        _ => false,
                    }
                } else {
                    match s.as_mut().poll_ready(cx) {
                        Poll::Ready(Ok(())) => s.as_mut().start_send(S(item.unwrap())).is_err(),
                        Poll::Ready(Err(_)) => true,
                        _ => false,
                    }
                };
                *alive = !e;
                e
            }),
            _ => false,
        });
        // a future that panicked is not polled again
        if done != Some(false) {
            let x = self.o.swap_remove(i);
            guarded(&l, || drop(x));
        }
    }
}

struct Out {
    bad: Option<(bool, String)>,
    handled: u64,
    polls: u64,
    ops: u64,
    key: u64,
    text: String,
}
fn episode(seed: u64, small: bool) -> Out {
    let mut r = Rng(mix(seed));
    let l = Arc::new(Live { payloads: AtomicI64::new(0), actors: AtomicI64::new(0), handled: AtomicU64::new(0), polls: AtomicU64::new(0), bad: Mutex::new(None) });
    let slot = Arc::new(Mutex::new(vec![]));
    let n = 2 + r.below(if small { 2 } else { 3 });
    let len = if small { 14 } else { 40 };
    let cap = r.below(4);
    let (a, m) = match cap {
        0 | 1 => Mailbox::<A>::unbounded(),
        c => Mailbox::bounded(c - 1),
    };
    let mut th = vec![];
    for k in 0..n {
        let mut o = vec![];
        if r.chance(70) {
            o.push(Obj::St(a.clone()));
        }
        o.push(Obj::We(a.downgrade()));
        if r.chance(60) || k == 0 {
            o.push(Obj::Mb(m.clone()));
        }
        th.push(Th { r: Rng(mix(seed ^ (k as u64 + 1) << 40)), o, l: l.clone(), slot: slot.clone(), next: (k as u64 + 1) * 1000, ops: vec![] });
    }
    drop((a, m));
    let start = Arc::new(AtomicUsize::new(0));
    let hs: Vec<_> = th
        .into_iter()
        .map(|mut t| {
            let start = start.clone();
            std::thread::spawn(move || {
                start.fetch_add(1, SeqCst);
                while start.load(SeqCst) < n {
                    std::thread::yield_now();
                }
                for _ in 0..len {
                    t.op();
                }
                let l = t.l.clone();
                let half = t.o.len() / 2;
                for _ in 0..half {
                    let i = t.r.below(t.o.len());
                    let x = t.o.swap_remove(i);
                    guarded(&l, || drop(x));
                }
                t.slot.lock().unwrap().append(&mut t.o);
                t.ops
            })
        })
        .collect();
    let mut ops = 0;
    let mut key = mix(cap as u64 * 8 + n as u64);
    for h in hs {
        match h.join() {
            Ok(o) => {
                ops += o.len() as u64;
                key = o.iter().fold(key, |k, x| mix(k ^ *x as u64));
            }
            Err(_) => l.note("a thread panicked".into()),
        }
    }
    let mut rest: Vec<Obj> = std::mem::take(&mut *slot.lock().unwrap());
    while !rest.is_empty() {
        let i = r.below(rest.len());
        let x = rest.swap_remove(i);
        guarded(&l, || drop(x));
    }
    let (p, ac) = (l.payloads.load(SeqCst), l.actors.load(SeqCst));
    if p != 0 || ac != 0 {
        l.fail(format!("all handles are gone, but {p} messages and {ac} actors were never dropped (or dropped twice)"));
    }
    let bad = l.bad.lock().unwrap().clone();
    Out { bad, handled: l.handled.load(SeqCst), polls: l.polls.load(SeqCst), ops, key, text: format!("capacity class {cap}, {n} threads, {len} operations each") }
}

/// Deliberate faults: whoever watches has to see them.
fn selftest(what: &str) {
    struct P(std::cell::UnsafeCell<u64>);
    unsafe impl Sync for P {}
    match what {
        "race" => {
            let p = Arc::new(P(0.into()));
            let hs: Vec<_> = (0..2)
                .map(|_| {
                    let p = p.clone();
                    std::thread::spawn(move || {
                        for _ in 0..20 {
                            // SAFETY: none, on purpose
                            unsafe { *p.0.get() += 1 };
                            std::thread::yield_now();
                        }
                    })
                })
                .collect();
            hs.into_iter().for_each(|h| h.join().unwrap());
            std::process::exit(0);
        }
        "uaf" => {
            let b = Box::into_raw(Box::new(5u64));
            // SAFETY: none, on purpose
            let x = unsafe {
                drop(Box::from_raw(b));
                std::ptr::read_volatile(b)
            };
            std::process::exit((x == 77) as i32);
        }
        "leak" => {
            let b = Box::new([1u8; 1000]);
            std::hint::black_box(&b);
            std::mem::forget(b);
        }
        _ => return,
    }
    if what == "leak" {
        LEAK.store(true, SeqCst);
    }
}
static LEAK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn js(s: &str) -> String {
    let s: String = s.chars().map(|c| if c == '"' || c == '\\' || (c as u32) < 32 { ' ' } else { c }).collect();
    format!("\"{s}\"")
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String { args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned().unwrap_or(d.into()) };
    let seed: u64 = get("--seed", "1").parse().unwrap();
    let secs: f64 = get("--secs", "5").parse().unwrap();
    let max: u64 = get("--max", "1000000000").parse().unwrap();
    let workers: usize = get("--workers", "2").parse().unwrap();
    let first: u64 = get("--first", "0").parse().unwrap();
    let out = get("--out", "");
    let verbose = args.iter().any(|a| a == "--say");
    std::panic::set_hook(Box::new(|i| {
        if !i.payload().is::<Planned>() {
            eprintln!("{i}");
        }
    }));
    selftest(&get("--selftest", ""));
    if args.iter().any(|a| a == "--trace") {
        let o = episode(seed, cfg!(miri));
        println!("{}: {} operations, {} handled", o.text, o.ops, o.handled);
        if let Some(b) = &o.bad {
            println!("VIOLATED {b:?}");
        }
        std::process::exit(o.bad.is_some() as i32);
    }
    if LEAK.load(SeqCst) {
        return;
    }
    let t0 = Instant::now();
    let next = Arc::new(AtomicU64::new(first));
    #[allow(clippy::type_complexity)]
    let res: Arc<Mutex<(u64, std::collections::HashSet<u64>, [u64; 3], Vec<(u64, (bool, String), String)>)>> = Default::default();
    let hs: Vec<_> = (0..workers)
        .map(|_| {
            let (next, res) = (next.clone(), res.clone());
            std::thread::spawn(move || loop {
                let k = next.fetch_add(1, SeqCst);
                if k >= first + max || t0.elapsed().as_secs_f64() > secs || !res.lock().unwrap().3.is_empty() {
                    break;
                }
                let s = seed.wrapping_mul(1_000_000_000) + k;
                if verbose {
                    eprintln!("EPISODE {s}");
                }
                let o = episode(s, cfg!(miri));
                let mut r = res.lock().unwrap();
                r.0 += 1;
                r.1.insert(o.key);
                r.2[0] += o.ops;
                r.2[1] += o.handled;
                r.2[2] += o.polls;
                if let Some(b) = o.bad {
                    r.3.push((s, b, o.text));
                }
            })
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            std::process::exit(4);
        }
    }
    let r = res.lock().unwrap();
    let vi: Vec<String> = r.3.iter().map(|(s, w, t)| format!("{{\"seed\":{s},\"props\":[\"{}\"],\"what\":{},\"trace\":{}}}", if w.0 { "C23" } else { "C26" }, js(&w.1), js(t))).collect();
    let st = format!("{{\"engine\":\"mem\",\"episodes\":{},\"seconds\":{:.1},\"states\":{},\"schedules\":0,\"stats\":{{\"operations\":{},\"handled\":{},\"polls\":{}}},\"other\":{{}},\"violations\":[{}]}}\n", r.0, t0.elapsed().as_secs_f64(), r.1.len(), r.2[0], r.2[1], r.2[2], vi.join(","));
    if out.is_empty() {
        println!("{st}");
    } else {
        std::fs::write(&out, st).unwrap();
    }
    if !r.3.is_empty() {
        std::process::exit(1);
    }
}
