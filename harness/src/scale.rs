//! Large numbers: thousands of queued messages, waiting senders, abandoned and idle receives, mailboxes
//! and handles, on one thread, with an exact model. What only goes wrong when a counter, a buffer or an
//! index grows large goes wrong here.
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context as Cx, Poll, Wake, Waker};

use futures_util::FutureExt;
use xtra::prelude::*;
use xtra::Error;

use crate::rng::{mix, Rng};

type Id = u32;
struct Tok(Arc<AtomicI64>);
impl Tok {
    fn new(c: &Arc<AtomicI64>) -> Tok {
        c.fetch_add(1, SeqCst);
        Tok(c.clone())
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        self.0.fetch_sub(1, SeqCst);
    }
}
struct Uni(Id, #[allow(dead_code)] Tok);
/// The copies handed to handlers are not counted, the broadcast itself is.
struct Bro(Id, #[allow(dead_code)] Option<Tok>);
impl Clone for Bro {
    fn clone(&self) -> Self {
        Bro(self.0, None)
    }
}
#[derive(Default)]
struct Act {
    log: Vec<(Id, bool)>,
}
impl Actor for Act {
    type Stop = ();
    async fn stopped(self) {}
}
impl Handler<Uni> for Act {
    type Return = Id;
    async fn handle(&mut self, m: Uni, _: &mut Context<Self>) -> Id {
        self.log.push((m.0, false));
        m.0 ^ 0x5a5a
    }
}
impl Handler<Bro> for Act {
    type Return = ();
    async fn handle(&mut self, m: Bro, _: &mut Context<Self>) {
        self.log.push((m.0, true));
    }
}

struct Bell(Id, Arc<Mutex<Vec<Id>>>);
impl Wake for Bell {
    fn wake(self: Arc<Self>) {
        self.1.lock().unwrap().push(self.0);
    }
}
fn poll<F: Future + ?Sized>(f: Pin<&mut F>, w: &Waker) -> Option<F::Output> {
    match f.poll(&mut Cx::from_waker(w)) {
        Poll::Ready(x) => Some(x),
        Poll::Pending => None,
    }
}
type SendFut = Pin<Box<dyn Future<Output = Result<Option<xtra::Receiver<Id>>, Error>>>>;

type Got = Box<dyn FnOnce(&mut Act) -> Option<std::ops::ControlFlow<()>>>;
type RecvFut = Pin<Box<dyn Future<Output = Got>>>;
fn next(m: &Mailbox<Act>) -> RecvFut {
    Box::pin(m.next().map(|m| Box::new(move |a: &mut Act| m.dispatch_to(a).now_or_never()) as Got))
}

struct Mb {
    id: u32,
    mb: Mailbox<Act>,
    b: BTreeMap<u32, HashSet<Id>>,
    nb: usize,
}
struct Wait {
    id: Id,
    pri: u32,
    fut: SendFut,
}

struct Sc {
    rng: Rng,
    trace: Option<String>,
    viol: Vec<(Vec<&'static str>, String)>,
    cap: Option<usize>,
    addr: Option<Address<Act>>,
    chan: Option<MessageChannel<Uni, Id>>,
    mbs: Vec<Mb>,
    act: Act,
    live: Arc<AtomicI64>,
    bell: Arc<Mutex<Vec<Id>>>,
    next: Id,
    next_mb: u32,
    /// accepted unicast messages; default priority apart, in order
    fifo: VecDeque<Id>,
    loose: HashSet<Id>,
    rest: BTreeMap<u32, HashSet<Id>>,
    nrest: usize,
    wait_u: Vec<Wait>,
    wait_b: Vec<Wait>,
    replies: HashMap<Id, Pin<Box<xtra::Receiver<Id>>>>,
    copies: HashMap<Id, usize>,
    joins: Vec<(u32, Pin<Box<dyn Future<Output = bool>>>)>,
    jbell: Arc<Mutex<Vec<Id>>>,
    stats: [u64; 11],
    shape: u64,
    big_left: u32,
}

const PRI: [u32; 12] = [0, 0, 0, 1, 2, 255, 256, 65535, 65536, 1 << 31, u32::MAX - 1, u32::MAX];

impl Sc {
    fn fail(&mut self, p: &[&'static str], what: String) {
        if self.viol.is_empty() {
            self.viol.push((p.to_vec(), what));
        }
    }
    fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            let _ = writeln!(t, "{}", f());
        }
    }
    fn waker(&self, id: Id) -> Waker {
        Waker::from(Arc::new(Bell(id, self.bell.clone())))
    }
    fn rung(&self) -> Vec<Id> {
        std::mem::take(&mut *self.bell.lock().unwrap())
    }
    fn n_uni(&self) -> usize {
        self.fifo.len() + self.loose.len() + self.nrest
    }
    fn slowest(&self) -> usize {
        self.mbs.iter().map(|m| m.nb).max().unwrap_or(0)
    }
    fn count(&mut self) -> usize {
        match self.rng.below(20) {
            0..=11 => 1 + self.rng.below(8),
            12..=16 => 20 + self.rng.below(380),
            17..=18 => 300 + self.rng.below(2000),
            _ if self.big_left > 0 && self.cap.map_or(true, |c| c > 70_000) => {
                self.big_left -= 1;
                65_400 + self.rng.below(3000)
            }
            _ => 257,
        }
    }
    fn put(&mut self, id: Id, pri: u32) {
        if pri == 0 {
            self.fifo.push_back(id);
        } else {
            self.rest.entry(pri).or_default().insert(id);
            self.nrest += 1;
        }
    }
    fn put_b(&mut self, id: Id, pri: u32) {
        for m in &mut self.mbs {
            m.b.entry(pri).or_default().insert(id);
            m.nb += 1;
        }
        self.copies.insert(id, self.mbs.len());
    }
    fn mk_send(&mut self, id: Id, pri: u32) -> SendFut {
        let m = Uni(id, Tok::new(&self.live));
        let via = self.rng.below(4);
        let addr = self.addr.as_ref().unwrap();
        match via {
            0 => Box::pin(self.chan.as_ref().unwrap().send(m).priority(pri).detach().map(|r| r.map(Some))),
            1 => Box::pin(addr.downgrade().send(m).detach().priority(pri).map(|r| r.map(Some))),
            2 if pri == 0 => Box::pin(addr.send(m).detach().map(|r| r.map(Some))),
            _ => Box::pin(addr.send(m).priority(pri).detach().map(|r| r.map(Some))),
        }
    }

    fn send(&mut self, n: usize) {
        let uniform = self.rng.chance(50);
        for _ in 0..n {
            let id = self.next;
            self.next += 1;
            let pri = if uniform { 0 } else { *self.rng.pick(&PRI) };
            let mut f = self.mk_send(id, pri);
            let w = self.waker(id);
            let full = self.cap.map_or(false, |c| self.n_uni() >= c);
            match poll(f.as_mut(), &w) {
                Some(Ok(r)) => {
                    if full {
                        return self.fail(&["C07"], format!("send {id} accepted although {} messages are waiting (capacity {:?})", self.n_uni(), self.cap));
                    }
                    if self.replies.len() < 500 {
                        self.replies.insert(id, Box::pin(r.unwrap()));
                    }
                    self.put(id, pri);
                }
                Some(Err(e)) => return self.fail(&["C13"], format!("send {id} failed with {e:?} although the address is connected")),
                None => {
                    if !full {
                        return self.fail(&["C08"], format!("send {id} has to wait although only {} messages are waiting (capacity {:?})", self.n_uni(), self.cap));
                    }
                    self.wait_u.push(Wait { id, pri, fut: f });
                }
            }
            self.stats[0] += 1;
        }
    }
    fn bcast(&mut self, n: usize) {
        let uniform = self.rng.chance(50);
        for _ in 0..n {
            let id = self.next;
            self.next += 1;
            let pri = if uniform { 0 } else { *self.rng.pick(&PRI) };
            let m = Bro(id, Some(Tok::new(&self.live)));
            let a = self.addr.as_ref().unwrap();
            let mut f: SendFut = Box::pin(a.broadcast(m).priority(pri).map(|r| r.map(|()| None)));
            let w = self.waker(id);
            let full = self.cap.map_or(false, |c| self.slowest() >= c);
            match poll(f.as_mut(), &w) {
                Some(Ok(_)) => {
                    if full {
                        return self.fail(&["C07"], format!("broadcast {id} accepted although {} are outstanding (capacity {:?})", self.slowest(), self.cap));
                    }
                    self.put_b(id, pri);
                }
                Some(Err(e)) => return self.fail(&["C13"], format!("broadcast {id} failed with {e:?} although the address is connected")),
                None => {
                    if !full {
                        return self.fail(&["C08"], format!("broadcast {id} has to wait although only {} are outstanding (capacity {:?})", self.slowest(), self.cap));
                    }
                    self.wait_b.push(Wait { id, pri, fut: f });
                }
            }
            self.stats[1] += 1;
        }
    }
    /// Space was freed: exactly those that have to be admitted are woken, and resolve.
    fn admit(&mut self, bcast: bool) {
        let mut rung = self.rung();
        loop {
            let room = if bcast { self.cap.map_or(true, |c| self.slowest() < c) } else { self.cap.map_or(true, |c| self.n_uni() < c) };
            let q = if bcast { &mut self.wait_b } else { &mut self.wait_u };
            if !room || q.is_empty() {
                break;
            }
            let top = q.iter().map(|w| w.pri).max().unwrap();
            // which of the most urgent ones was it?
            let pos = if top == 0 { q.iter().position(|w| w.pri == 0) } else { q.iter().position(|w| w.pri == top && rung.contains(&w.id)) };
            let Some(pos) = pos else {
                let id = q.iter().find(|w| w.pri == top).unwrap().id;
                return self.fail(&["C08", "C03"], format!("there is space but none of the most urgent waiting (e.g. {id}, priority {top}) was woken"));
            };
            let mut w = q.remove(pos);
            let waker = self.waker(w.id);
            match poll(w.fut.as_mut(), &waker) {
                Some(Ok(r)) => {
                    let Some(k) = rung.iter().position(|x| *x == w.id) else {
                        return self.fail(&["C03", "C08"], format!("{} was admitted but not woken", w.id));
                    };
                    rung.swap_remove(k);
                    if bcast {
                        self.put_b(w.id, w.pri);
                    } else {
                        if let Some(r) = r {
                            if self.replies.len() < 500 {
                                self.replies.insert(w.id, Box::pin(r));
                            }
                        }
                        self.put(w.id, w.pri);
                    }
                    self.stats[2] += 1;
                }
                Some(Err(e)) => return self.fail(&["C13"], format!("waiting {} failed with {e:?}", w.id)),
                None => {
                    let k = if bcast { self.slowest() } else { self.n_uni() };
                    return self.fail(&["C08", "C04"], format!("{} (priority {}, longest waiting) was not admitted although only {k} are there (capacity {:?}); woken: {rung:?}", w.id, w.pri, self.cap));
                }
            }
        }
        if let Some(x) = rung.first() {
            if self.wait_u.iter().chain(&self.wait_b).any(|w| w.id == *x) {
                self.fail(&["C07", "C08"], format!("{x} was woken although there is no space for it"));
            }
        }
    }
    fn take_model(&mut self, i: usize, id: Id, bcast: bool) {
        let u = self.rest.keys().next_back().copied().or(if self.fifo.is_empty() && self.loose.is_empty() { None } else { Some(0) });
        let b = self.mbs[i].b.keys().next_back().copied();
        let best = u.max(b);
        if bcast {
            let p = self.mbs[i].b.iter().find(|(_, s)| s.contains(&id)).map(|(p, _)| *p);
            let Some(p) = p else { return self.fail(&["C06"], format!("mailbox {} got broadcast {id}, which is not outstanding for it", self.mbs[i].id)) };
            if Some(p) != best {
                return self.fail(&["C05"], format!("mailbox {} got broadcast {id} of priority {p} although there is something of priority {best:?}", self.mbs[i].id));
            }
            let s = self.mbs[i].b.get_mut(&p).unwrap();
            s.remove(&id);
            if s.is_empty() {
                self.mbs[i].b.remove(&p);
            }
            self.mbs[i].nb -= 1;
            let c = self.copies.get_mut(&id).unwrap();
            *c -= 1;
            if *c == 0 {
                self.copies.remove(&id);
            }
            self.admit(true);
        } else {
            let p = if self.fifo.front() == Some(&id) || self.loose.contains(&id) { Some(0) } else { self.rest.iter().find(|(_, s)| s.contains(&id)).map(|(p, _)| *p) };
            let Some(p) = p else {
                if let Some(k) = self.fifo.iter().position(|x| *x == id) {
                    return self.fail(&["C04"], format!("message {id} was handled before {k} messages sent earlier, e.g. {:?}", self.fifo.front()));
                }
                return self.fail(&["C01"], format!("message {id} was handled, but is not waiting to be"));
            };
            if Some(p) != best {
                return self.fail(&["C05"], format!("message {id} of priority {p} was taken although there is something of priority {best:?}"));
            }
            if p == 0 {
                if !self.loose.remove(&id) {
                    self.fifo.pop_front();
                }
            } else {
                let s = self.rest.get_mut(&p).unwrap();
                s.remove(&id);
                if s.is_empty() {
                    self.rest.remove(&p);
                }
                self.nrest -= 1;
            }
            if let Some(mut r) = self.replies.remove(&id) {
                match poll(r.as_mut(), Waker::noop()) {
                    Some(Ok(x)) if x == id ^ 0x5a5a => {}
                    x => return self.fail(&["C02"], format!("the sender of {id} got {x:?}")),
                }
            }
            self.admit(false);
        }
    }
    fn handle(&mut self, m: Got) -> Option<(Id, bool)> {
        let n = self.act.log.len();
        let r = m(&mut self.act);
        match r {
            Some(std::ops::ControlFlow::Continue(())) if self.act.log.len() == n + 1 => self.act.log.pop(),
            x => {
                self.fail(&["C10", "C12"], format!("a dispatched message ended with {x:?} and {} handler calls", self.act.log.len() - n));
                None
            }
        }
    }
    fn recv(&mut self, i: usize, n: usize) {
        for _ in 0..n {
            let empty = self.n_uni() == 0 && self.mbs[i].nb == 0;
            let r = next(&self.mbs[i].mb).now_or_never();
            match r {
                None if empty => return,
                None => return self.fail(&["C09", "C01"], format!("mailbox {} has to wait although {} messages and {} broadcasts are waiting", self.mbs[i].id, self.n_uni(), self.mbs[i].nb)),
                Some(m) => {
                    let Some((id, b)) = self.handle(m) else { return };
                    if empty {
                        return self.fail(&["C01", "C06"], format!("mailbox {} got {id} (broadcast {b}) although nothing is waiting", self.mbs[i].id));
                    }
                    self.take_model(i, id, b);
                }
            }
            if !self.viol.is_empty() {
                return;
            }
            self.stats[3] += 1;
        }
    }
    /// The same through `select` or `join`, whose future becomes ready at its `k`th poll.
    fn recv_in(&mut self, i: usize, k: usize) {
        if !self.wait_u.is_empty() || !self.wait_b.is_empty() {
            return;
        }
        let join = self.rng.chance(40);
        let extra = self.rng.below(3);
        let n0 = self.act.log.len();
        let mut polls = 0usize;
        let mut over = false;
        let (done, right) = {
            let fut = futures_util::future::poll_fn(|_| {
                over |= polls >= k;
                polls += 1;
                if polls >= k {
                    Poll::Ready(0xfeedu32)
                } else {
                    Poll::Pending
                }
            });
            let mb = &self.mbs[i].mb;
            let act = &mut self.act;
            let mut f: Pin<Box<dyn Future<Output = Option<u32>> + '_>> = if join {
                Box::pin(xtra::join(mb, act, fut).map(Some))
            } else {
                Box::pin(xtra::select(mb, act, fut).map(|e| match e {
                    futures_util::future::Either::Left(v) => Some(v),
                    futures_util::future::Either::Right(_) => None,
                }))
            };
            let mut r = None;
            for _ in 0..=extra {
                r = poll(f.as_mut(), Waker::noop());
                if r.is_some() {
                    break;
                }
            }
            (r.is_some(), r.map_or(true, |v| v == Some(0xfeed)))
        };
        let got = self.act.log.split_off(n0);
        self.note(|| format!("in select: {} handled, {polls} polls of {k}, ready {done}", got.len()));
        if !right || over || done != (polls >= k) {
            return self.fail(&["C15"], format!("select or join ended {done} with the right result {right}; its future, ready at poll {k}, was polled {polls} times, again when it was over {over}"));
        }
        if got.len() / 64 > polls {
            return self.fail(&["C15"], format!("select or join handled {} messages, but polled its future only {polls} times", got.len()));
        }
        for (id, b) in got {
            if self.n_uni() == 0 && self.mbs[i].nb == 0 {
                return self.fail(&["C15", "C01"], format!("{id} was handled in select although nothing is waiting"));
            }
            self.take_model(i, id, b);
            if !self.viol.is_empty() {
                return;
            }
        }
        if !done && self.n_uni() + self.mbs[i].nb > 0 {
            self.fail(&["C15"], format!("select waits although {} messages and {} broadcasts are there", self.n_uni(), self.mbs[i].nb));
        }
        self.stats[8] += 1;
    }
    /// Many mailboxes of which one lags behind: it alone decides what is admitted.
    fn crowd(&mut self, n: usize) {
        let k = 2 + n.min(150);
        for _ in 0..k {
            let i = self.rng.below(self.mbs.len());
            let mb = self.mbs[i].mb.clone();
            self.next_mb += 1;
            let id = self.next_mb;
            self.mbs.push(Mb { id, mb, b: BTreeMap::new(), nb: 0 });
        }
        let m = self.cap.map_or(3, |c| c.saturating_sub(self.slowest()).min(30) + self.rng.below(4)).max(1);
        self.bcast(m);
        let slow = self.rng.below(self.mbs.len());
        for i in 0..self.mbs.len() {
            if !self.viol.is_empty() {
                return;
            }
            if i != slow {
                let k = self.mbs[i].nb;
                self.recv(i, k.min(40));
            }
        }
        if !self.viol.is_empty() {
            return;
        }
        let k2 = 1 + self.rng.below(2);
        self.bcast(k2);
        let k1 = 1 + self.rng.below(4);
        self.recv(slow, k1);
        for _ in 0..k {
            if self.mbs.len() < 2 || !self.viol.is_empty() {
                return;
            }
            let i = self.rng.below(self.mbs.len());
            self.drop_mb(i);
        }
    }
    /// Idle receives on empty mailboxes; then sends or a broadcast; some of the receives are dropped.
    fn idle(&mut self, n: usize) {
        if self.n_uni() > 0 || self.mbs.iter().any(|m| m.nb > 0) {
            return;
        }
        let n = n.min(2500);
        let mut rx: Vec<(u32, usize, Option<RecvFut>)> = vec![];
        let base = 1u32 << 31;
        for k in 0..n {
            let i = self.rng.below(self.mbs.len());
            let mut f = next(&self.mbs[i].mb);
            let w = self.waker(base + k as u32);
            if poll(f.as_mut(), &w).is_some() {
                return self.fail(&["C01"], "a receive resolved although nothing is there".into());
            }
            rx.push((base + k as u32, i, Some(f)));
        }
        self.stats[4] += n as u64;
        if self.rng.chance(40) {
            // abandon some of them first
            for k in 0..n {
                if self.rng.chance(50) {
                    rx[k].2 = None;
                }
            }
        }
        let idle = rx.iter().filter(|r| r.2.is_some()).count();
        self.rung();
        if self.rng.chance(60) {
            let k = 1 + self.rng.below(n + 3);
            let mut ids = vec![];
            for j in 0..k {
                let id = self.next;
                self.next += 1;
                let mut f = self.mk_send(id, 0);
                let waker = self.waker(id);
                let must = j < idle || self.cap.map_or(true, |c| j - idle < c);
                match poll(f.as_mut(), &waker) {
                    Some(Ok(_)) if must => ids.push(id),
                    Some(Ok(_)) => return self.fail(&["C07"], format!("send {id} accepted, {idle} idle receives, {j} sent before, capacity {:?}", self.cap)),
                    None if must => return self.fail(&["C08"], format!("send {id} has to wait, {idle} idle receives, {j} sent before, capacity {:?}", self.cap)),
                    None => break,
                    Some(Err(e)) => return self.fail(&["C13"], format!("send failed with {e:?}")),
                }
            }
            let direct = idle.min(ids.len());
            // drop some unpolled: what they were handed goes to others or back
            let dropped = self.rng.chance(60);
            if dropped {
                for r in rx.iter_mut() {
                    if self.rng.chance(30) {
                        r.2 = None;
                    }
                }
            }
            let rung: HashSet<Id> = self.rung().into_iter().collect();
            let mut got = HashSet::new();
            let mut order = vec![];
            for k in 0..rx.len() {
                let Some(mut f) = rx[k].2.take() else { continue };
                let w = self.waker(rx[k].0);
                match poll(f.as_mut(), &w) {
                    Some(m) => {
                        if !rung.contains(&rx[k].0) {
                            return self.fail(&["C03", "C09"], "an idle receive was handed a message without being woken".into());
                        }
                        let Some((id, _)) = self.handle(m) else { return };
                        if !ids.contains(&id) || !got.insert(id) {
                            return self.fail(&["C01", "C09"], format!("message {id} was received twice or never sent"));
                        }
                        order.push(id);
                    }
                    None => rx[k].2 = Some(f),
                }
            }
            drop(rx);
            if !dropped && got.len() != direct {
                return self.fail(&["C09", "C08"], format!("{idle} idle receives, {} sent, only {} received", ids.len(), got.len()));
            }
            for id in ids {
                if !got.contains(&id) {
                    if dropped {
                        self.loose.insert(id);
                    } else {
                        self.fifo.push_back(id);
                    }
                }
            }
        } else {
            let id = self.next;
            self.next += 1;
            let m = Bro(id, Some(Tok::new(&self.live)));
            match self.addr.as_ref().unwrap().broadcast(m).now_or_never() {
                Some(Ok(())) => {}
                x => return self.fail(&["C08"], format!("a broadcast with nothing outstanding resolved to {x:?}")),
            }
            self.put_b(id, 0);
            let rung: HashSet<Id> = self.rung().into_iter().collect();
            for k in 0..rx.len() {
                let (tag, i) = (rx[k].0, rx[k].1);
                let Some(mut f) = rx[k].2.take() else { continue };
                if self.rng.chance(20) {
                    continue;
                }
                let open = self.mbs[i].nb > 0;
                let w = self.waker(tag);
                match poll(f.as_mut(), &w) {
                    Some(m) => {
                        if !rung.contains(&tag) {
                            return self.fail(&["C03", "C06"], "an idle receive has a broadcast but was not woken".into());
                        }
                        let Some((got, b)) = self.handle(m) else { return };
                        if got != id || !b || !open {
                            return self.fail(&["C06"], format!("mailbox {} got {got} (broadcast {b}) for the second time or unsent", self.mbs[i].id));
                        }
                        self.take_model(i, id, true);
                    }
                    None if open => return self.fail(&["C06", "C09"], format!("an idle receive of mailbox {} did not get broadcast {id}", self.mbs[i].id)),
                    None => rx[k].2 = Some(f),
                }
            }
        }
        self.rung();
    }
    /// Many join handles and scoped tasks; some are dropped again.
    fn join(&mut self, n: usize) {
        let n = n.min(3000);
        if self.rng.chance(30) {
            let keep = self.rng.below(3);
            let mut k = 0;
            self.joins.retain(|_| {
                k += 1;
                k % 3 == keep
            });
        }
        for k in 0..n {
            let tag = (self.joins.len() + k) as u32;
            let a = self.addr.as_ref().unwrap();
            let mut f: Pin<Box<dyn Future<Output = bool>>> = match self.rng.below(4) {
                0 => Box::pin(self.chan.as_ref().unwrap().join().map(|()| true)),
                1 => Box::pin(xtra::scoped(a, std::future::pending::<()>()).map(|r| r.is_none())),
                2 => Box::pin(a.downgrade().join().map(|()| true)),
                _ => Box::pin(a.join().map(|()| true)),
            };
            let w = Waker::from(Arc::new(Bell(tag, self.jbell.clone())));
            if poll(f.as_mut(), &w).is_some() {
                return self.fail(&["C14"], "a join or scoped task of a connected address is ready".into());
            }
            self.joins.push((tag, f));
        }
        self.stats[9] += n as u64;
    }
    fn joined(&mut self) {
        let rung: HashSet<Id> = std::mem::take(&mut *self.jbell.lock().unwrap()).into_iter().collect();
        let n = self.joins.len();
        for (tag, mut f) in std::mem::take(&mut self.joins) {
            if !rung.contains(&tag) {
                return self.fail(&["C14"], format!("the last mailbox is gone, and one of {n} joins or scoped tasks is not woken"));
            }
            match poll(f.as_mut(), Waker::noop()) {
                Some(true) => {}
                x => return self.fail(&["C14"], format!("the last mailbox is gone, and a join or scoped task gives {x:?}")),
            }
        }
    }
    /// A few receives stay idle while many others come and go, and while messages pass by.
    fn idle_through(&mut self, n: usize) {
        if self.n_uni() > 0 || self.mbs.iter().any(|m| m.nb > 0) {
            return;
        }
        let n = n.min(70_000);
        let (i, j) = (self.rng.below(self.mbs.len()), self.rng.below(self.mbs.len()));
        let base = 1u32 << 31;
        let k = 1 + self.rng.below(4);
        let mut rx = vec![];
        for t in 0..k as u32 {
            let mut f = next(&self.mbs[i].mb);
            if poll(f.as_mut(), &self.waker(base + t)).is_some() {
                return self.fail(&["C01"], "a receive resolved although nothing is there".into());
            }
            rx.push((base + t, f));
        }
        for _ in 0..n {
            if next(&self.mbs[j].mb).now_or_never().is_some() {
                return self.fail(&["C01", "C10"], "a receive resolved although nothing is there".into());
            }
        }
        self.rung();
        let mut ids = vec![];
        for _ in 0..k {
            let id = self.next;
            self.next += 1;
            let mut f = self.mk_send(id, 0);
            match poll(f.as_mut(), Waker::noop()) {
                Some(Ok(_)) => ids.push(id),
                x => return self.fail(&["C08"], format!("there is an idle receive, {n} others were abandoned, and a send gives {:?}", x.map(|r| r.is_ok()))),
            }
        }
        let rung = self.rung();
        for (tag, mut f) in rx {
            let m = poll(f.as_mut(), Waker::noop());
            let (true, Some(m)) = (rung.contains(&tag), m) else {
                return self.fail(&["C09", "C01", "C08"], format!("an idle receive got no message after {n} others were abandoned, although {k} were sent to {k}"));
            };
            let Some((id, b)) = self.handle(m) else { return };
            let Some(p) = ids.iter().position(|x| *x == id) else {
                return self.fail(&["C01"], format!("an idle receive got {id} (broadcast {b})"));
            };
            ids.remove(p);
        }
        self.stats[10] += n as u64;
    }
    fn drop_mb(&mut self, i: usize) {
        let m = self.mbs.swap_remove(i);
        for id in m.b.values().flatten() {
            let c = self.copies.get_mut(id).unwrap();
            *c -= 1;
            if *c == 0 {
                self.copies.remove(id);
            }
        }
        drop(m);
        if !self.mbs.is_empty() {
            self.admit(true);
        }
    }
    fn handles(&mut self, n: usize) {
        let n = n.min(70_000);
        let a = self.addr.as_ref().unwrap();
        let mut cl = Vec::with_capacity(n);
        for _ in 0..n {
            cl.push(a.clone());
        }
        let w: Vec<_> = (0..n.min(1000)).map(|_| a.downgrade()).collect();
        let d = crate::sim::parse_debug(&format!("{a:?}"));
        let want = 2 + n as u64;
        let up = w.first().and_then(|w| w.try_upgrade());
        if d.0 != Some(want) || up.is_none() || !a.is_connected() {
            return self.fail(&["C20", "C10"], format!("with {want} strong handles: debug {d:?}, upgradable {}", up.is_some()));
        }
        drop(up);
        drop(cl);
        let d = crate::sim::parse_debug(&format!("{:?}", self.addr.as_ref().unwrap()));
        if d.0 != Some(2) || d.1 != Some(self.mbs.len() as u64) {
            return self.fail(&["C20"], format!("debug counts {d:?} with 2 strong handles and {} mailboxes", self.mbs.len()));
        }
        let i = self.rng.below(self.mbs.len());
        if self.n_uni() == 0 && self.mbs[i].nb == 0 && next(&self.mbs[i].mb).now_or_never().is_some() {
            self.fail(&["C10"], "an actor was told to stop although a strong address is left".into());
        }
        self.stats[5] += n as u64;
    }
    fn check(&mut self) {
        if !self.viol.is_empty() || self.addr.is_none() {
            return;
        }
        let a = self.addr.as_ref().unwrap();
        let (len, want) = (a.len(), self.n_uni() + self.slowest());
        if len != want {
            return self.fail(&["C20"], format!("length {len}, expected {want}"));
        }
        if a.is_empty() != (want == 0) {
            return self.fail(&["C20"], "is_empty disagrees with the length".into());
        }
        if a.capacity() != self.cap {
            return self.fail(&["C20"], "wrong capacity".into());
        }
        let live = self.live.load(SeqCst);
        let want = (self.n_uni() + self.wait_u.len() + self.wait_b.len() + self.copies.len()) as i64;
        if live != want {
            return self.fail(&["C16"], format!("{live} messages exist, expected {want}"));
        }
        self.stats[6] += 1;
    }

    fn run(&mut self) {
        let steps = 12 + self.rng.below(20);
        for _ in 0..steps {
            let n = self.count();
            let op = self.rng.weighted(&[20, 10, 26, 4, 4, 10, 4, 3, 3, 5, 3, 3, 5]);
            self.shape = mix(self.shape ^ (op as u64) << 32 ^ (n.min(300) as u64));
            self.note(|| format!("op {op} n {n}"));
            match op {
                0 => {
                    // waiting senders are searched linearly: keep their number reasonable
                    let room = self.cap.map_or(usize::MAX, |c| c.saturating_sub(self.n_uni()).saturating_add(1500usize.saturating_sub(self.wait_u.len())));
                    self.send(n.min(room))
                }
                1 => {
                    let room = self.cap.map_or(usize::MAX, |c| c.saturating_sub(self.slowest()).saturating_add(1500usize.saturating_sub(self.wait_b.len())));
                    let n = n.min(60_000 / self.mbs.len()).min(room);
                    self.bcast(n)
                }
                2 => {
                    let i = self.rng.below(self.mbs.len());
                    let n = if self.rng.chance(30) { usize::MAX } else { n };
                    self.recv(i, n)
                }
                3 => {
                    let n = n.min(40);
                    for _ in 0..n {
                        let i = self.rng.below(self.mbs.len());
                        let mb = self.mbs[i].mb.clone();
                        self.next_mb += 1;
                        let id = self.next_mb;
                        self.mbs.push(Mb { id, mb, b: BTreeMap::new(), nb: 0 });
                    }
                }
                4 => {
                    for _ in 0..n.min(60) {
                        if self.mbs.len() < 2 {
                            break;
                        }
                        let i = self.rng.below(self.mbs.len());
                        self.drop_mb(i);
                        if !self.viol.is_empty() {
                            return;
                        }
                    }
                }
                5 => self.idle(n),
                6 => self.handles(n),
                7 => {
                    // abandon waiting senders
                    for b in [false, true] {
                        let mut k = 0;
                        let (keep, all) = (self.rng.below(3), self.rng.chance(30));
                        let q = if b { &mut self.wait_b } else { &mut self.wait_u };
                        q.retain(|_| {
                            k += 1;
                            !all && k % 3 == keep
                        });
                    }
                }
                10 => self.join(n),
                11 => self.idle_through(n),
                12 => self.crowd(n),
                9 => {
                    let i = self.rng.below(self.mbs.len());
                    let k = if self.rng.chance(50) { usize::MAX } else { n };
                    self.recv_in(i, k)
                }
                _ => {
                    // many abandoned receives
                    let i = self.rng.below(self.mbs.len());
                    if self.n_uni() == 0 && self.mbs[i].nb == 0 {
                        for _ in 0..n.min(20_000) {
                            if next(&self.mbs[i].mb).now_or_never().is_some() {
                                return self.fail(&["C01", "C10"], "a receive resolved although nothing is there".into());
                            }
                        }
                    }
                }
            }
            self.check();
            if !self.viol.is_empty() {
                return;
            }
        }
        // the end: no strong address, everything is handled, then the mailboxes go
        if self.rng.chance(50) {
            self.wait_u.clear();
            self.wait_b.clear();
            self.addr = None;
            self.chan = None;
            for i in 0..self.mbs.len() {
                loop {
                    let empty = self.n_uni() == 0 && self.mbs[i].nb == 0;
                    let Some(m) = next(&self.mbs[i].mb).now_or_never() else {
                        return self.fail(&["C10"], "an actor without strong addresses has to wait".into());
                    };
                    if empty {
                        let n = self.act.log.len();
                        let r = m(&mut self.act);
                        if self.act.log.len() != n || r != Some(std::ops::ControlFlow::Break(())) {
                            return self.fail(&["C10"], format!("without strong addresses and messages an actor is told {r:?}"));
                        }
                        break;
                    }
                    let Some((id, b)) = self.handle(m) else { return };
                    self.take_model(i, id, b);
                    if !self.viol.is_empty() {
                        return;
                    }
                }
            }
            self.mbs.clear();
            self.joined();
        } else {
            while !self.mbs.is_empty() {
                let i = self.rng.below(self.mbs.len());
                self.drop_mb(i);
                if !self.viol.is_empty() {
                    return;
                }
            }
            for mut w in std::mem::take(&mut self.wait_u).into_iter().chain(std::mem::take(&mut self.wait_b)) {
                match poll(w.fut.as_mut(), Waker::noop()) {
                    Some(Err(Error::Disconnected)) => {}
                    x => return self.fail(&["C03", "C13"], format!("{} was waiting when the last mailbox went away: {:?}", w.id, x.map(|r| r.map(|_| ())))),
                }
            }
            for (id, mut r) in std::mem::take(&mut self.replies) {
                match poll(r.as_mut(), Waker::noop()) {
                    Some(Err(Error::Interrupted)) => {}
                    x => return self.fail(&["C03", "C02"], format!("the reply to {id}, which was queued when the last mailbox went away: {x:?}")),
                }
            }
            self.joined();
            let a = self.addr.as_ref().unwrap();
            let (l, c) = (a.len(), a.is_connected());
            if l != 0 || c {
                return self.fail(&["C20", "C13"], format!("after the last mailbox is gone: length {l}, connected {c}"));
            }
        }
        let live = self.live.load(SeqCst);
        if live != 0 {
            self.fail(&["C16"], format!("{live} messages are left after the last mailbox is gone"));
        }
        self.stats[7] += 1;
    }
}

pub fn episode(seed: u64, trace: bool) -> crate::drv::Report {
    let mut rng = Rng::new(mix(seed ^ 0x5ca1e));
    let cap = match rng.below(10) {
        0..=4 => None,
        5 => Some(1 + rng.below(3)),
        6 => Some(250 + rng.below(12)),
        7 => Some(1 + rng.below(2000)),
        8 => Some(*rng.pick(&[usize::MAX, usize::MAX - 1, 1 << 63, 1 << 32, (1 << 32) + 1, 1 << 31, u32::MAX as usize])),
        _ => Some(65_530 + rng.below(12)),
    };
    let (a, m) = match cap {
        None => Mailbox::unbounded(),
        Some(c) => Mailbox::bounded(c),
    };
    let mut s = Sc {
        rng,
        trace: trace.then(|| format!("capacity {cap:?}\n")),
        viol: vec![],
        cap,
        chan: Some(MessageChannel::new(a.clone())),
        addr: Some(a),
        mbs: vec![Mb { id: 0, mb: m, b: BTreeMap::new(), nb: 0 }],
        act: Act::default(),
        live: Arc::default(),
        bell: Arc::default(),
        next: 0,
        next_mb: 0,
        fifo: VecDeque::new(),
        loose: HashSet::new(),
        rest: BTreeMap::new(),
        nrest: 0,
        wait_u: vec![],
        wait_b: vec![],
        replies: HashMap::new(),
        copies: HashMap::new(),
        joins: vec![],
        jbell: Arc::default(),
        stats: [0; 11],
        shape: 0,
        big_left: 2,
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.run()));
    if let Err(p) = r {
        let t = crate::sim::panic_text(p);
        s.fail(&["C17", "C26", "C01", "C03", "C09", "C16"], format!("a call panicked: {t}"));
    }
    for v in &s.viol {
        if let Some(t) = &mut s.trace {
            let _ = writeln!(t, "!! {v:?}");
        }
    }
    let names = ["sends", "broadcasts", "admitted", "taken", "idle_receives", "handles", "checks", "finished", "selects", "joins", "idle_through"];
    crate::drv::Report { viol: std::mem::take(&mut s.viol), trace: s.trace.take().unwrap_or_default(), stats: names.iter().copied().zip(s.stats).collect(), states: vec![s.shape], sched: None }
}
