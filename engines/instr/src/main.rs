//! Instrumentation: random histories under a recording subscriber with random filters.
mod rec;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::future::Future;
use std::ops::ControlFlow;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context as Cx, Poll, Wake, Waker};
use std::time::Instant;

use rec::*;
use tracing::{Level, Span};
use xtra::prelude::*;
use xtra::{Error, Receiver};

struct Rng(u64);
fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    fn below(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        (mix(self.0) >> 11) as usize % n.max(1)
    }
    fn chance(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
}

#[derive(Default)]
struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst);
    }
}

struct MsgInfo {
    bcast: bool,
    /// span the sender was in at the first poll, and whether there was a first poll
    sender: Option<Option<u64>>,
    copies: i64,
    handled: Vec<usize>,
    request: Option<u64>,
    spans: Vec<u64>,
    type_name: &'static str,
}
struct World {
    rec: Arc<Rec>,
    msgs: Mutex<Vec<MsgInfo>>,
    gates: Mutex<HashSet<u32>>,
    all_open: AtomicBool,
    viol: Mutex<Vec<String>>,
    log: Mutex<String>,
    trace: bool,
    checks: AtomicU64,
    depth: AtomicU64,
    /// handlers of each actor that ran to their end since its current dispatch began
    done: [AtomicU64; 8],
}
impl World {
    fn bad(&self, s: String) {
        self.say(|| format!("VIOLATION {s}"));
        self.viol.lock().unwrap().push(s);
    }
    fn say(&self, f: impl FnOnce() -> String) {
        if self.trace {
            let _ = writeln!(self.log.lock().unwrap(), "{}", f());
        }
    }
    fn new_msg(&self, bcast: bool, type_name: &'static str) -> u32 {
        let mut m = self.msgs.lock().unwrap();
        m.push(MsgInfo { bcast, sender: None, copies: 0, handled: vec![], request: None, spans: vec![], type_name });
        m.len() as u32 - 1
    }
    fn first_poll(&self, id: u32) {
        let c = self.rec.cur();
        let m = &mut self.msgs.lock().unwrap()[id as usize];
        if m.sender.is_none() {
            m.sender = Some(c);
        }
    }
    /// Called whenever the handler of a message runs.
    fn in_handler(&self, id: u32, actor: usize, own: &mut Option<u64>, first: bool) {
        self.checks.fetch_add(1, SeqCst);
        let cur = self.rec.cur();
        let chain = self.rec.chain(cur);
        let r = &self.rec;
        let on = |i: usize| Level::DEBUG <= r.max && r.hide & (1 << i) == 0;
        let (sender, bcast, req, ty) = {
            let m = &self.msgs.lock().unwrap()[id as usize];
            (m.sender, m.bcast, m.request, m.type_name)
        };
        let names: Vec<String> = chain.iter().map(|c| format!("{}#{}", c.1, c.0)).collect();
        self.say(|| format!("  message {id} handled by actor {actor} in {names:?}"));
        let Some(sender) = sender else {
            self.bad(format!("message {id} is handled though it was never sent"));
            return;
        };
        if let Some(s) = sender {
            if !chain.iter().any(|c| c.0 == s) {
                self.bad(format!("message {id} (broadcast: {bcast}) was sent in span {s}, but its handler runs in {names:?}, which does not descend from it"));
                return;
            }
        }
        // what lies between the sender's span and here
        let mut inner: Vec<(u64, &str)> = vec![];
        for c in &chain {
            if Some(c.0) == sender {
                break;
            }
            inner.push(*c);
        }
        let mut want: Vec<&str> = vec![];
        if on(2) {
            want.push(NAMES[2]);
        }
        if on(0) {
            want.push(NAMES[0]);
        }
        let got: Vec<&str> = inner.iter().map(|c| c.1).collect();
        // without a sender's span and without a request span the handler may belong to whoever dispatches the message
        let free = sender.is_none() && !on(0);
        let ok = if free { got.first() == want.first() || want.is_empty() } else { got == want };
        if !ok {
            self.bad(format!("message {id} (broadcast: {bcast}), sent in {sender:?}, max level {}, hidden {:03b}: the spans around its handler are {names:?}, expected {want:?} followed by the sender's", r.max, r.hide));
            return;
        }
        let mine = if on(2) { cur } else { None };
        if first {
            *own = mine;
            if on(2) {
                let h = mine.unwrap();
                let mut m = self.msgs.lock().unwrap();
                for (k, x) in m.iter_mut().enumerate() {
                    if x.spans.contains(&h) {
                        drop(m);
                        self.bad(format!("message {id} is handled in span {h}, which is the handler span of another handling (message {k})"));
                        return;
                    }
                }
                m[id as usize].spans.push(h);
            }
            if on(0) {
                let q = inner.last().unwrap().0;
                {
                    let t = self.rec.tab.lock().unwrap();
                    let f = &t.spans[&q].fields;
                    let want = [format!("actor_type={}", std::any::type_name::<A>()), format!("message_type={ty}")];
                    if !want.iter().all(|w| f.contains(w)) {
                        drop(t);
                        self.bad(format!("the request span of message {id} does not name its actor and message"));
                        return;
                    }
                }
                let mut m = self.msgs.lock().unwrap();
                if let Some(r) = req {
                    if r != q {
                        drop(m);
                        self.bad(format!("message {id} has two request spans, {r} and {q}"));
                        return;
                    }
                }
                for (k, x) in m.iter().enumerate() {
                    if k as u32 != id && x.request == Some(q) {
                        drop(m);
                        self.bad(format!("messages {k} and {id} share request span {q}"));
                        return;
                    }
                }
                m[id as usize].request = Some(q);
            }
        } else if *own != mine {
            self.bad(format!("the handler of message {id} started in span {own:?} and goes on in {mine:?}"));
        }
    }
}

const NAMES_HANDLER: &str = NAMES[2];
struct Tok(u32, Arc<World>);
impl Tok {
    fn new(id: u32, w: &Arc<World>) -> Tok {
        w.msgs.lock().unwrap()[id as usize].copies += 1;
        Tok(id, w.clone())
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        Tok::new(self.0, &self.1)
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        self.1.msgs.lock().unwrap()[self.0 as usize].copies -= 1;
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Do {
    Nothing,
    Nested,
    NestedBcast,
    StopSelf,
    StopAll,
    Span,
    Join,
    Panic,
}
struct U(u32, u8, Do, Tok);
#[derive(Clone)]
struct B(u32, u8, Do, Tok);

struct A {
    k: usize,
    w: Arc<World>,
    addr: xtra::WeakAddress<A>,
}
impl Actor for A {
    type Stop = ();
    async fn stopped(self) {}
}
struct Gate(Arc<World>, u32);
impl Future for Gate {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut Cx<'_>) -> Poll<()> {
        // polled by hand all the time
        if self.0.all_open.load(SeqCst) || self.0.gates.lock().unwrap().remove(&self.1) {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    }
}
struct Pp;
impl A {
    async fn go(&mut self, id: u32, gates: u8, d: Do, ctx: &mut Context<Self>) {
        let w = self.w.clone();
        let mut own = None;
        w.in_handler(id, self.k, &mut own, true);
        w.msgs.lock().unwrap()[id as usize].handled.push(self.k);
        for _ in 0..gates {
            Gate(w.clone(), id).await;
            w.in_handler(id, self.k, &mut own, false);
        }
        match d {
            Do::Nothing => {}
            Do::Nested if w.depth.fetch_add(1, SeqCst) < 40 => {
                let n = w.new_msg(false, std::any::type_name::<U>());
                let mut f = self.addr.send(U(n, 0, Do::Nothing, Tok::new(n, &w))).detach();
                w.first_poll(n);
                w.say(|| format!("  message {n} sent from the handler of {id}"));
                let _ = Pin::new(&mut f).poll(&mut Cx::from_waker(&Waker::from(Arc::new(Flag::default()))));
            }
            Do::NestedBcast if w.depth.fetch_add(1, SeqCst) < 40 => {
                let n = w.new_msg(true, std::any::type_name::<B>());
                let mut f = self.addr.broadcast(B(n, 0, Do::Nothing, Tok::new(n, &w)));
                w.first_poll(n);
                w.say(|| format!("  broadcast {n} sent from the handler of {id}"));
                let _ = Pin::new(&mut f).poll(&mut Cx::from_waker(&Waker::from(Arc::new(Flag::default()))));
            }
            Do::StopSelf => ctx.stop_self(),
            Do::StopAll => ctx.stop_all(),
            Do::Span => {
                let s = tracing::info_span!("in_handler");
                let _g = s.enter();
            }
            Do::Join => {
                let mb = ctx.mailbox().clone();
                let _ = xtra::join(&mb, self, Gate(w.clone(), id)).await;
            }
            Do::Panic => std::panic::panic_any(Pp),
            _ => {}
        }
        w.in_handler(id, self.k, &mut own, false);
        w.done[self.k].fetch_add(1, SeqCst);
    }
}
impl Handler<U> for A {
    type Return = u32;
    async fn handle(&mut self, m: U, ctx: &mut Context<Self>) -> u32 {
        self.go(m.0, m.1, m.2, ctx).await;
        m.0
    }
}
impl Handler<B> for A {
    type Return = ();
    async fn handle(&mut self, m: B, ctx: &mut Context<Self>) {
        self.go(m.0, m.1, m.2, ctx).await;
    }
}

type Bf<T> = Pin<Box<dyn Future<Output = T> + Send>>;
enum SF {
    Plain(Bf<Result<u32, Error>>),
    Det(Bf<Result<Receiver<u32>, Error>>),
    Bc(Bf<Result<(), Error>>),
    Rep(Bf<Result<u32, Error>>),
}
struct Snd {
    id: u32,
    f: Option<SF>,
}
struct Act {
    mb: Option<Mailbox<A>>,
    /// the actor is borrowed by the dispatch future; leaked box taken back at the end
    act: *mut A,
    disp: Option<(Pin<Box<xtra_dispatch::Df>>, Option<u64>)>,
    recv: Option<Bf<xtra_dispatch::Mg>>,
    held: Option<xtra_dispatch::Mg>,
    stopped: bool,
}
mod xtra_dispatch {
    // the types of messages and dispatches have no public name: erase them
    use super::*;
    pub struct Mg(pub Box<dyn FnOnce(&'static mut A) -> Df + Send>);
    pub struct Df {
        pub fut: Pin<Box<dyn DispLike>>,
    }
    pub trait DispLike: Send {
        fn poll(self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<ControlFlow<()>>;
        fn span(self: Pin<&mut Self>) -> Span;
    }
    pub struct D<F, G>(pub F, pub G);
    pub fn mk<F, G: FnMut(&mut F) -> Span>(f: F, g: G) -> D<F, G> {
        D(f, g)
    }
    impl<F: Future<Output = ControlFlow<()>> + Send + Unpin, G: FnMut(&mut F) -> Span + Send + Unpin> DispLike for D<F, G> {
        fn poll(self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<ControlFlow<()>> {
            let s = self.get_mut();
            Pin::new(&mut s.0).poll(cx)
        }
        fn span(self: Pin<&mut Self>) -> Span {
            let s = self.get_mut();
            (s.1)(&mut s.0)
        }
    }
}
use xtra_dispatch::*;

struct Out {
    viol: Vec<String>,
    log: String,
    stats: Vec<(&'static str, u64)>,
    key: u64,
}

fn episode(seed: u64, trace: bool) -> Out {
    let mut r = Rng(mix(seed));
    let max = [Level::TRACE, Level::TRACE, Level::DEBUG, Level::DEBUG, Level::INFO, Level::INFO, Level::ERROR][r.below(7)];
    let hide = if r.chance(60) { 0 } else { r.below(8) as u8 };
    let rec = Arc::new(Rec::new(max, hide));
    let d = tracing::Dispatch::new(Shared(rec.clone()));
    let out = tracing::dispatcher::with_default(&d, || inner(seed, &mut r, rec.clone(), trace));
    rec.forget();
    out
}

fn make_span(r: &mut Rng) -> Span {
    match r.below(8) {
        0 => tracing::trace_span!("user_trace"),
        1 => tracing::debug_span!("user_debug"),
        2 => tracing::error_span!(parent: None, "user_root"),
        3 => tracing::error_span!("user_error"),
        _ => tracing::info_span!("user_info"),
    }
}

fn inner(seed: u64, r: &mut Rng, rec: Arc<Rec>, trace: bool) -> Out {
    let w = Arc::new(World {
        rec: rec.clone(), msgs: Mutex::new(vec![]), gates: Mutex::default(), all_open: AtomicBool::new(false), viol: Mutex::default(), log: Mutex::default(), trace,
        checks: AtomicU64::new(0), depth: AtomicU64::new(0), done: Default::default(),
    });
    let cap = r.below(4);
    let (addr, mb) = match cap {
        0 => Mailbox::<A>::unbounded(),
        c => Mailbox::bounded(c),
    };
    let n = 1 + r.below(3);
    w.say(|| format!("seed {seed}: capacity {cap} (0 unbounded), {n} mailboxes, max level {}, hidden {:03b}", rec.max, rec.hide));
    let mut acts: Vec<Act> = vec![];
    let mut first = Some(mb);
    for k in 0..n {
        let m = if k == 0 { first.take().unwrap() } else { acts[0].mb.as_ref().unwrap().clone() };
        let a = Box::into_raw(Box::new(A { k, w: w.clone(), addr: m.address() }));
        acts.push(Act { mb: Some(m), act: a, disp: None, recv: None, held: None, stopped: false });
    }
    let mut spans: Vec<Span> = vec![];
    let mut sends: Vec<Snd> = vec![];
    let mut addr = Some(addr);
    let wk: Waker = Arc::new(Flag::default()).into();
    let (mut n_hand, mut n_wait, mut n_int, mut n_span) = (0u64, 0u64, 0u64, 0u64);
    let mut key = mix((max_no(&rec.max) * 8 + rec.hide as u64) * 16 + cap as u64);
    let steps = 90;
    for step in 0..steps {
        if !w.viol.lock().unwrap().is_empty() {
            break;
        }
        let end = step + 25 > steps;
        if step + 25 == steps {
            w.all_open.store(true, SeqCst);
        }
        // the span stack of this step
        let mut guards = vec![];
        let depth = r.below(3);
        for _ in 0..depth {
            if !spans.is_empty() {
                let i = r.below(spans.len());
                guards.push(spans[i].clone().entered());
            }
        }
        let before = rec.stack();
        let op = if end { 6 + r.below(6) } else { r.below(16) };
        key = mix(key ^ op as u64);
        match op {
            0 => {
                if spans.len() < 5 {
                    spans.push(make_span(r));
                } else {
                    let i = r.below(spans.len());
                    let s = spans.swap_remove(i);
                    drop(s);
                }
            }
            1 | 2 | 3 | 4 => {
                if let (Some(a), true) = (&addr, sends.len() < 10) {
                    let kind = r.below(8);
                    let bc = kind < 2;
                    let id = w.new_msg(bc, if bc { std::any::type_name::<B>() } else { std::any::type_name::<U>() });
                    let gates = r.below(3) as u8;
                    let d = match r.below(24) {
                        0 | 1 => Do::Nested,
                        2 => Do::NestedBcast,
                        3 => Do::StopSelf,
                        4 if r.chance(30) => Do::StopAll,
                        5 | 6 => Do::Span,
                        7 => Do::Panic,
                        8 | 9 | 10 => Do::Join,
                        _ => Do::Nothing,
                    };
                    let t = Tok::new(id, &w);
                    let pri = r.below(3) as u32;
                    let f = match kind {
                        0 => SF::Bc(Box::pin(a.broadcast(B(id, gates, d, t)))),
                        1 => SF::Bc(Box::pin(a.downgrade().broadcast(B(id, gates, d, t)).priority(pri))),
                        2 => SF::Plain(Box::pin(MessageChannel::<U, u32>::new(a.clone()).send(U(id, gates, d, t)))),
                        3 => SF::Plain(Box::pin(a.send(U(id, gates, d, t)).priority(pri))),
                        4 => SF::Det(Box::pin(a.downgrade().send(U(id, gates, d, t)).detach())),
                        5 => SF::Det(Box::pin(a.send(U(id, gates, d, t)).detach().priority(pri))),
                        _ => SF::Plain(Box::pin(a.send(U(id, gates, d, t)))),
                    };
                    w.say(|| format!("new send {id} (broadcast {bc}, {d:?}), not polled"));
                    sends.push(Snd { id, f: Some(f) });
                    if r.chance(80) {
                        let k = sends.len() - 1;
                        poll_send(&w, &mut sends[k], &wk, &mut n_wait);
                        sends.retain(|s| s.f.is_some());
                    }
                }
            }
            5 => {
                if !sends.is_empty() {
                    let i = r.below(sends.len());
                    let s = sends.swap_remove(i);
                    w.say(|| format!("drop the future of {}", s.id));
                    drop(s);
                }
            }
            6 | 7 => {
                if !sends.is_empty() {
                    let i = r.below(sends.len());
                    poll_send(&w, &mut sends[i], &wk, &mut n_wait);
                    sends.retain(|s| s.f.is_some());
                }
            }
            8 | 9 | 10 | 11 | 12 => {
                let i = r.below(acts.len());
                let a = &mut acts[i];
                if a.stopped || a.mb.is_none() {
                } else if let Some((f, own)) = &mut a.disp {
                    let what = r.below(12);
                    if what == 0 && !end {
                        w.say(|| format!("interrupt actor {i}"));
                        n_int += 1;
                        a.disp = None;
                    } else if what < 3 {
                        let mut s = f.fut.as_mut().span();
                        n_span += 1;
                        if r.chance(30) {
                            s = f.fut.as_mut().span();
                        }
                        let now = s.id().map(|i| i.into_u64());
                        if let Some(o) = own {
                            if now != Some(*o) {
                                w.bad(format!("DispatchFuture::span of actor {i} was {o} and now is {now:?}"));
                            }
                        }
                        *own = now;
                        s.record("interrupted", "x");
                        if let (Some(k), Some(NAMES_HANDLER)) = (now, s.metadata().map(|m| m.name())) {
                            let has = rec.tab.lock().unwrap().spans[&k].fields.iter().any(|f| f == "interrupted=\"x\"");
                            if !has {
                                w.bad(format!("handler span {k} does not take note of an interruption"));
                            }
                        }
                    } else {
                        w.say(|| format!("poll the dispatch of actor {i}"));
                        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.fut.as_mut().poll(&mut Cx::from_waker(&wk))));
                        match res {
                            Ok(Poll::Pending) => {}
                            Ok(Poll::Ready(fl)) => {
                                n_hand += 1;
                                a.disp = None;
                                if fl.is_continue() && w.done[i].load(SeqCst) == 0 {
                                    w.bad(format!("a dispatch to actor {i} is over and no handler has completed"));
                                }
                                if fl.is_break() {
                                    a.stopped = true;
                                    a.mb = None;
                                }
                            }
                            Err(e) => {
                                if !e.is::<Pp>() {
                                    let t = e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned());
                                    w.bad(format!("polling the dispatch of actor {i}, which has not completed, panics though no handler does: {t:?}"));
                                }
                                a.disp = None;
                            }
                        }
                    }
                } else if a.held.is_some() {
                    let m = a.held.take().unwrap();
                    if r.chance(4) {
                        w.say(|| format!("actor {i} drops its message"));
                        drop(m);
                    } else {
                        // SAFETY: the actor is only freed after the dispatch future is gone
                        let act: &'static mut A = unsafe { &mut *a.act };
                        let mut df = (m.0)(act);
                        let mut own = None;
                        if r.chance(25) {
                            let s = df.fut.as_mut().span();
                            own = s.id().map(|i| i.into_u64());
                            n_span += 1;
                            w.say(|| format!("span of the dispatch of actor {i}: {own:?}"));
                        }
                        w.done[i].store(0, SeqCst);
                        a.disp = Some((Box::pin(df), own));
                    }
                } else {
                    if a.recv.is_none() {
                        let f = a.mb.as_ref().unwrap().next();
                        a.recv = Some(Box::pin(async move {
                            let m = f.await;
                            Mg(Box::new(move |act| Df { fut: Box::pin(mk(m.dispatch_to(act), |f| f.span().clone())) }))
                        }));
                    }
                    match a.recv.as_mut().unwrap().as_mut().poll(&mut Cx::from_waker(&wk)) {
                        Poll::Ready(m) => {
                            a.recv = None;
                            a.held = Some(m);
                            w.say(|| format!("actor {i} received a message"));
                        }
                        Poll::Pending => {
                            if r.chance(20) {
                                a.recv = None;
                            }
                        }
                    }
                }
            }
            13 => {
                let ids: Vec<u32> = (0..w.msgs.lock().unwrap().len() as u32).collect();
                let mut g = w.gates.lock().unwrap();
                for i in ids {
                    if r.chance(50) {
                        g.insert(i);
                    }
                }
            }
            14 => {
                let ids: Vec<u32> = (0..w.msgs.lock().unwrap().len() as u32).collect();
                w.gates.lock().unwrap().extend(ids);
            }
            _ => {
                if r.chance(8) {
                    let i = r.below(acts.len());
                    let a = &mut acts[i];
                    w.say(|| format!("mailbox of actor {i} dropped"));
                    a.recv = None;
                    a.held = None;
                    a.disp = None;
                    a.mb = None;
                } else if r.chance(4) {
                    w.say(|| "address dropped".into());
                    addr = None;
                }
            }
        }
        let after = rec.stack();
        if before != after {
            w.bad(format!("operation {op} left the thread in the spans {after:?}, it was in {before:?}"));
        }
        while let Some(g) = guards.pop() {
            drop(g);
        }
        if !rec.stack().is_empty() {
            w.bad(format!("spans {:?} are still entered", rec.stack()));
        }
        closed(&w, &sends, &acts);
        let b = rec.tab.lock().unwrap().bad.first().cloned();
        if let Some(b) = b {
            w.bad(b);
        }
    }
    // everything goes
    sends.clear();
    for a in acts.iter_mut() {
        a.disp = None;
        a.recv = None;
        a.held = None;
        a.mb = None;
    }
    drop(addr);
    for a in acts {
        // SAFETY: from Box::into_raw; nothing borrows it any more
        drop(unsafe { Box::from_raw(a.act) });
    }
    drop(spans);
    let t = rec.tab.lock().unwrap();
    let ok = w.viol.lock().unwrap().is_empty();
    if ok {
        for (i, s) in &t.spans {
            if s.refs != 0 {
                w.bad(format!("span {i} ({}) is still open ({} references) after everything is gone", s.name, s.refs));
                break;
            }
        }
        // one request span per request, one handler span per handling
        let on = |i: usize| Level::DEBUG <= rec.max && rec.hide & (1 << i) == 0;
        let m = w.msgs.lock().unwrap();
        let handlings: usize = m.iter().map(|m| m.handled.len()).sum();
        let sent = m.iter().filter(|m| m.sender.is_some()).count();
        let nreq = t.spans.values().filter(|s| s.name == NAMES[0]).count();
        let nh = t.spans.values().filter(|s| s.name == NAMES[2]).count();
        let handled_msgs = m.iter().filter(|m| !m.handled.is_empty()).count();
        if on(0) && (nreq > sent || nreq < handled_msgs) {
            w.bad(format!("{nreq} request spans for {sent} requests sent, {handled_msgs} of them handled"));
        }
        // a dispatch asked for its span but never polled has one as well
        if on(2) && (nh < handlings || nh as u64 > handlings as u64 + n_span) {
            w.bad(format!("{nh} handler spans for {handlings} handlings"));
        }
        if !on(0) && nreq != 0 || !on(2) && nh != 0 {
            w.bad("a span that is filtered out was created".into());
        }
    }
    let (n_new, n_enter) = (t.n_new, t.n_enter);
    drop(t);
    let viol = w.viol.lock().unwrap().clone();
    let log = w.log.lock().unwrap().clone();
    let hs = w.msgs.lock().unwrap().iter().map(|m| m.handled.len() as u64).sum::<u64>();
    let c = w.checks.load(SeqCst);
    Out { viol, log, stats: vec![("spans", n_new), ("enters", n_enter), ("handlings", hs), ("completed", n_hand), ("waiting_sends", n_wait), ("interrupted", n_int), ("span_queries", n_span), ("handler_checks", c)], key }
}
fn max_no(l: &Level) -> u64 {
    match *l {
        Level::TRACE => 4,
        Level::DEBUG => 3,
        Level::INFO => 2,
        Level::WARN => 1,
        _ => 0,
    }
}
fn poll_send(w: &Arc<World>, s: &mut Snd, wk: &Waker, n_wait: &mut u64) {
    let cx = &mut Cx::from_waker(wk);
    w.first_poll(s.id);
    w.say(|| format!("poll the future of {}", s.id));
    let f = s.f.take().unwrap();
    s.f = match f {
        SF::Plain(mut f) => match f.as_mut().poll(cx) {
            Poll::Ready(_) => None,
            Poll::Pending => Some(SF::Plain(f)),
        },
        SF::Rep(mut f) => match f.as_mut().poll(cx) {
            Poll::Ready(_) => None,
            Poll::Pending => Some(SF::Rep(f)),
        },
        SF::Det(mut f) => match f.as_mut().poll(cx) {
            Poll::Ready(Ok(rx)) => Some(SF::Rep(Box::pin(rx))),
            Poll::Ready(Err(_)) => None,
            Poll::Pending => {
                *n_wait += 1;
                Some(SF::Det(f))
            }
        },
        SF::Bc(mut f) => match f.as_mut().poll(cx) {
            Poll::Ready(_) => None,
            Poll::Pending => {
                *n_wait += 1;
                Some(SF::Bc(f))
            }
        },
    };
}

/// Spans of messages that are gone for good have to be closed.
fn closed(w: &Arc<World>, sends: &[Snd], acts: &[Act]) {
    let busy = acts.iter().any(|a| a.disp.is_some() || a.held.is_some());
    let m = w.msgs.lock().unwrap();
    let t = w.rec.tab.lock().unwrap();
    let mut bad = None;
    // a message sent inside a span may keep it open if its own spans are filtered out
    let mut kept = HashSet::new();
    for (k, x) in m.iter().enumerate() {
        if x.copies > 0 || sends.iter().any(|s| s.id as usize == k) {
            let mut c = x.sender.flatten();
            while let Some(i) = c {
                kept.insert(i);
                c = t.spans.get(&i).and_then(|s| s.parent);
            }
        }
    }
    for (k, x) in m.iter().enumerate() {
        if x.copies > 0 || sends.iter().any(|s| s.id as usize == k) || busy {
            continue;
        }
        for s in x.spans.iter().chain(&x.request) {
            if t.spans[s].refs > 0 && !kept.contains(s) {
                bad = Some(format!("message {k} and its futures are gone, but its span {s} ({}) is still open", t.spans[s].name));
            }
        }
    }
    // a waiting or request span that belongs to nobody
    if !busy && m.iter().all(|x| x.copies == 0) && sends.is_empty() {
        for (i, s) in &t.spans {
            if NAMES.contains(&s.name) && s.refs > 0 {
                bad = Some(format!("no message is left, but span {i} ({}) is still open", s.name));
            }
        }
    }
    drop((m, t));
    if let Some(b) = bad {
        w.bad(b);
    }
}

fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => {}
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String { args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned().unwrap_or(d.into()) };
    let seed: u64 = get("--seed", "1").parse().unwrap();
    let secs: f64 = get("--secs", "5").parse().unwrap();
    let max: u64 = get("--max", "1000000000").parse().unwrap();
    let out = get("--out", "");
    std::panic::set_hook(Box::new(|i| {
        if !i.payload().is::<Pp>() {
            eprintln!("{i}");
        }
    }));
    if args.iter().any(|a| a == "--trace") {
        let o = episode(seed, true);
        println!("{}", o.log);
        for v in &o.viol {
            println!("VIOLATED {v}");
        }
        std::process::exit(!o.viol.is_empty() as i32);
    }
    let t0 = Instant::now();
    let next = Arc::new(AtomicU64::new(0));
    #[allow(clippy::type_complexity)]
    let res: Arc<Mutex<(u64, HashSet<u64>, BTreeMap<&'static str, u64>, Vec<(u64, String, String)>)>> = Default::default();
    let hs: Vec<_> = (0..8)
        .map(|_| {
            let (next, res) = (next.clone(), res.clone());
            std::thread::spawn(move || {
                let (mut n, mut keys, mut st): (u64, Vec<u64>, BTreeMap<&'static str, u64>) = Default::default();
                loop {
                    let k = next.fetch_add(1, SeqCst);
                    if k >= max || t0.elapsed().as_secs_f64() > secs || (k % 16 == 0 && !res.lock().unwrap().3.is_empty()) {
                        break;
                    }
                    let s = seed.wrapping_mul(1_000_000_000) + k;
                    let o = episode(s, false);
                    n += 1;
                    keys.push(o.key);
                    for (a, b) in &o.stats {
                        *st.entry(a).or_default() += b;
                    }
                    if let Some(v) = o.viol.first() {
                        let t = episode(s, true);
                        res.lock().unwrap().3.push((s, v.clone(), t.log));
                    }
                }
                let mut r = res.lock().unwrap();
                r.0 += n;
                r.1.extend(keys);
                for (a, b) in st {
                    *r.2.entry(a).or_default() += b;
                }
            })
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            std::process::exit(4);
        }
    }
    let r = res.lock().unwrap();
    let st: Vec<String> = r.2.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let vi: Vec<String> = r.3.iter().map(|(s, w, t)| format!("{{\"seed\":{s},\"props\":[\"C21\"],\"what\":{},\"trace\":{}}}", js(w), js(t))).collect();
    let s = format!("{{\"engine\":\"instr\",\"episodes\":{},\"seconds\":{:.1},\"states\":{},\"schedules\":0,\"stats\":{{{}}},\"other\":{{}},\"violations\":[{}]}}\n", r.0, t0.elapsed().as_secs_f64(), r.1.len(), st.join(","), vi.join(","));
    if out.is_empty() {
        println!("{s}");
    } else {
        std::fs::write(&out, s).unwrap();
    }
    std::process::exit(!r.3.is_empty() as i32);
}
