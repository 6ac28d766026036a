//! E1: sequential simulator. Random operation sequences against the real crate, every future polled
//! by hand with tracking wakers, judged online by user-level rules (no copy of the implementation).
use std::collections::HashSet;
use std::fmt::Write as _;
use std::future::Future;
use std::ops::ControlFlow;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context as Cx, Poll, Waker};

use futures_util::future::FusedFuture;
use futures_util::FutureExt;
use xtra::prelude::*;
use xtra::refcount::{Either, Strong, Weak};
use xtra::{Error, Receiver, WeakAddress};

/// A received message (its type cannot be named): dispatches it to an actor when called.
type Held = Box<dyn FnOnce(Act) -> BoxFut>;

use crate::rng::Rng;
use crate::world::*;

thread_local! { static FUSED: std::cell::RefCell<Option<&'static str>> = const { std::cell::RefCell::new(None) }; }
/// A receive future must count as terminated exactly once it has returned its message (`select!` relies on it).
struct Fz<F>(F);
impl<F: Future + FusedFuture + Unpin> Future for Fz<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<F::Output> {
        let before = self.0.is_terminated();
        let r = Pin::new(&mut self.0).poll(cx);
        if before {
            FUSED.with(|f| *f.borrow_mut() = Some("a receive future that has not returned anything claims to be terminated"));
        } else if self.0.is_terminated() != r.is_ready() {
            FUSED.with(|f| *f.borrow_mut() = Some(if r.is_ready() { "a receive future that has returned its message claims not to be terminated" } else { "a pending receive future claims to be terminated" }));
        }
        r
    }
}

pub struct Violation {
    pub props: Vec<&'static str>,
    pub what: String,
}

macro_rules! stats { ($($n:ident),* $(,)?) => {
    #[allow(non_camel_case_types, dead_code)]
    #[derive(Clone, Copy)]
    pub enum St { $($n),* , COUNT }
    pub const STAT_NAMES: &[&str] = &[$(stringify!($n)),*];
} }
stats!(
    episodes, ops, events, sends, broadcasts, takes, fresh_takes, handled, dropped_receives, dropped_woken_receives,
    interrupted, panics, stops_consumed, stop_alls, stop_selfs, natural_stops, selects, joins_in_handler, run_actors,
    rule_fifo_pairs, rule_priority_choice, rule_bcast_entries, rule_must_refuse, rule_must_accept, rule_waiting_justified,
    rule_admission, rule_len, rule_debug_counts, rule_connected, rule_outcome, rule_resolved, rule_idle_woken, rule_single_poll,
    rule_drop_on_disconnect, rule_join, rule_scoped, rule_lifecycle, rule_upgrade, rule_leak_end, rule_stop_next, rule_drain,
    rule_abandoned_send, bcast_admitted, uni_admitted, disconnects, cargo_drops, stop_in_select, twin_observations,
);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Mixed,
    AddrOnly,
    ChanOnly,
}

macro_rules! held_of {
    () => {
        |m| {
            let h: Held = Box::new(move |mut act: Act| {
                let f: BoxFut = Box::pin(async move { Out::Disp(m.dispatch_to(&mut act).await) });
                f
            });
            Out::Msg(h)
        }
    };
}

enum H {
    S(Address<Act>),
    W(WeakAddress<Act>),
    E(Address<Act, Either>),
    CS(MessageChannel<Msg, Reply, Strong>),
    CW(MessageChannel<Msg, Reply, Weak>),
    CE(MessageChannel<Msg, Reply, Either>),
}
macro_rules! each {
    ($h:expr, $x:ident => $e:expr) => {
        match $h {
            H::S($x) => $e,
            H::W($x) => $e,
            H::E($x) => $e,
            H::CS($x) => $e,
            H::CW($x) => $e,
            H::CE($x) => $e,
        }
    };
}
struct HObj {
    chan: usize,
    strong: bool,
    h: H,
}

enum Out {
    Sent(Result<Receiver<Reply>, Error>),
    Reply(Result<Reply, Error>),
    Bcast(Result<(), Error>),
    Msg(Held),
    Disp(ControlFlow<()>),
    Run((Id, bool)),
    Join,
    Scoped(Option<u32>),
}
type BoxFut = Pin<Box<dyn Future<Output = Out>>>;

#[derive(Clone, Debug)]
enum Frame {
    Handler(Id),
    Sel { id: Id, join: bool, stop_seen: bool, maybe_stopped: bool },
}

#[derive(Clone, Debug)]
struct Srv {
    actor: Id,
    mb: u32,
    stack: Vec<Frame>,
    start: Start,
    looping: bool,
    entered: u32,
    started: u32,
    stopped: u32,
    exit_stop: bool,
    dropped: u32,
}

#[derive(Clone, Debug)]
enum K {
    Send { id: Id, detached: bool },
    Bcast { id: Id },
    Reply { id: Id },
    Recv { mb: u32 },
    Disp(Srv),
    Run(Srv),
    Join { connected: bool },
    Scoped { sid: Id, connected: bool },
}

struct FutObj {
    chan: usize,
    k: K,
    fut: Option<BoxFut>,
    flag: Option<Arc<Flag>>,
    holds_strong: bool,
    grace: bool,
    lazy: bool,
    woken_before: bool,
    polled_step: u32,
}
impl FutObj {
    fn polled(&self) -> bool {
        self.flag.is_some()
    }
    fn woken(&self) -> bool {
        self.flag.as_ref().map_or(false, |f| f.is_woken())
    }
    fn srv(&self) -> Option<&Srv> {
        match &self.k {
            K::Disp(s) | K::Run(s) => Some(s),
            _ => None,
        }
    }
    fn srv_mut(&mut self) -> Option<&mut Srv> {
        match &mut self.k {
            K::Disp(s) | K::Run(s) => Some(s),
            _ => None,
        }
    }
    fn mb(&self) -> Option<u32> {
        match &self.k {
            K::Recv { mb } => Some(*mb),
            K::Disp(s) | K::Run(s) => Some(s.mb),
            _ => None,
        }
    }
    /// Whether a receive future that has been polled is pending within this future.
    fn recv_out(&self) -> bool {
        if self.fut.is_none() || !self.polled() {
            return false;
        }
        match &self.k {
            K::Recv { .. } => true,
            K::Disp(s) => matches!(s.stack.last(), Some(Frame::Sel { maybe_stopped: false, .. })),
            K::Run(s) => match s.stack.last() {
                None => s.looping && s.stopped == 0,
                Some(Frame::Sel { maybe_stopped: false, .. }) => true,
                _ => false,
            },
            _ => false,
        }
    }
    /// Whether there may be a pending receive future within this future.
    fn maybe_recv(&self) -> bool {
        self.fut.is_some() && self.srv().map_or(false, |s| matches!(s.stack.last(), Some(Frame::Sel { maybe_stopped: true, .. })))
    }
    fn idle(&self) -> bool {
        self.recv_out() && !self.woken()
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum MS {
    New,
    Waiting,
    Maybe,
    Accepted,
    Taken,
    Done,
    Interrupted,
    Lost,
    Gone,
    MaybeDead,
}

struct MsgM {
    chan: usize,
    bcast: bool,
    prio: u32,
    seq: u32,
    st: MS,
    script: Script,
    pending: Vec<u32>, // mailboxes a broadcast still has to reach
    exempt: bool,
    may_be_handed: bool,
    copies: i64,
    acc_step: u32,
    exit_actor: Id,
    dropped: bool,
    polled_at: u32,
    /// epoch of its channel in which it certainly had to wait
    refused: Option<u32>,
}

struct MbM {
    chan: usize,
    alive: bool,
    must: bool,
    may: u32,
    slack: usize,
    stop_props: &'static [&'static str],
}

struct ChanM {
    cap: Option<usize>,
    alive: bool,
    s0_step: Option<u32>,
    cargo_strong: i64,
    faults: u32,
    /// grows whenever something might be taken
    epoch: u32,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    Other,
    DropSend(Id),
    DropRecv(bool),
    DropHeld,
    Fault,
}

pub struct Cfg {
    pub mode: Mode,
    pub trace: bool,
    pub ops: usize,
    pub miri: bool,
}

pub struct Sim {
    rng: Rng,
    w: Arc<World>,
    chans: Vec<ChanM>,
    mbm: Vec<MbM>,
    msgs: Vec<MsgM>,
    handles: Vec<HObj>,
    mbs: Vec<(u32, Mailbox<Act>)>,
    held: Vec<(usize, u32, Held)>,
    cargo_mbs: Vec<u32>,
    futs: Vec<FutObj>,
    next_actor: Id,
    next_sid: Id,
    next_seq: u32,
    scoped_dead: HashSet<Id>,
    step: u32,
    op: Op,
    pub viol: Vec<Violation>,
    pub trace: Option<String>,
    pub obs: u64,
    pub obs_events: u64,
    pub stats: Vec<u64>,
    pub states: HashSet<u64>,
    dropped_now: Vec<Id>,
    cfg: Cfg,
    actors_live: i64,
    replies_live: i64,
    free_gates: bool,
    cur: Option<usize>,
    was_waiting: bool,
    grace: bool,
    alive_before: Vec<u32>,
    waiting_before: Vec<Id>,
    admitted: Vec<Id>,
    took: bool,
    panicked: bool,
    died: Vec<usize>,
}

const DEF: u32 = 0;

fn fnv(h: u64, x: u64) -> u64 {
    (h ^ x).wrapping_mul(0x100000001b3).rotate_left(5)
}

impl Sim {
    pub fn new(seed: u64, cfg: Cfg) -> Sim {
        let mut s = Sim {
            rng: Rng::new(seed),
            w: Arc::new(World::default()),
            chans: vec![],
            mbm: vec![],
            msgs: vec![],
            handles: vec![],
            mbs: vec![],
            held: vec![],
            cargo_mbs: vec![],
            futs: vec![],
            next_actor: 1,
            next_sid: 1_000_000,
            next_seq: 0,
            scoped_dead: HashSet::new(),
            step: 0,
            op: Op::Other,
            viol: vec![],
            trace: if cfg.trace { Some(String::new()) } else { None },
            obs: 0,
            obs_events: 0,
            stats: vec![0; St::COUNT as usize],
            states: HashSet::new(),
            dropped_now: vec![],
            cfg,
            actors_live: 0,
            replies_live: 0,
            free_gates: false,
            cur: None,
            was_waiting: false,
            grace: false,
            alive_before: vec![],
            waiting_before: vec![],
            admitted: vec![],
            took: false, panicked: false,
            died: vec![],
        };
        let n = if s.rng.chance(25) { 2 } else { 1 };
        for _ in 0..n {
            let cap = match s.rng.below(10) {
                0..=3 => None,
                4..=6 => Some(1),
                7 => Some(2),
                8 => Some(3),
                _ => if s.rng.chance(40) { Some(0) } else { Some(1 + s.rng.below(4)) },
            };
            s.new_chan(cap);
        }
        s
    }

    fn new_chan(&mut self, cap: Option<usize>) {
        let (a, m) = match cap {
            None => Mailbox::unbounded(),
            Some(c) => Mailbox::bounded(c),
        };
        let c = self.chans.len();
        self.chans.push(ChanM { cap, alive: true, s0_step: None, cargo_strong: 0, faults: 0, epoch: 0 });
        self.mbm.push(MbM { chan: c, alive: true, must: false, may: 0, slack: 0, stop_props: &[] });
        self.mbs.push((self.mbm.len() as u32 - 1, m));
        let h = if self.cfg.mode == Mode::ChanOnly { H::CS(MessageChannel::new(a)) } else { H::S(a) };
        self.handles.push(HObj { chan: c, strong: true, h });
        self.note(|| format!("new channel {c} capacity {cap:?}"));
    }

    // ---- reporting
    fn bump(&mut self, s: St) {
        self.stats[s as usize] += 1;
    }
    fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            let _ = writeln!(t, "[{}] {}", self.step, f());
        }
    }
    fn observe(&mut self, x: u64) {
        self.obs = fnv(self.obs, x);
        self.bump(St::twin_observations);
        if self.cfg.mode != Mode::Mixed {
            let o = self.obs;
            self.note(|| format!("  observation {x:#x} (running hash {o:#x})"));
        }
    }
    fn fail(&mut self, props: &[&'static str], what: String) {
        let mut p: Vec<&'static str> = props.to_vec();
        match self.op {
            Op::DropRecv(_) if p.contains(&"C01") => p.push("C09"),
            Op::Fault if !p.contains(&"C26") => p.push("C26"),
            _ => {}
        }
        self.note(|| format!("!! VIOLATION {p:?}: {what}"));
        self.viol.push(Violation { props: p, what: format!("step {}: {}", self.step, what) });
    }

    // ---- model queries
    fn strong(&self, c: usize) -> i64 {
        self.handles.iter().filter(|h| h.chan == c && h.strong).count() as i64
            + self.futs.iter().filter(|f| f.chan == c && f.holds_strong).count() as i64
            + self.chans[c].cargo_strong
    }
    fn mb_alive(&self, m: u32) -> bool {
        self.mbs.iter().any(|(i, _)| *i == m)
            || self.held.iter().any(|h| h.1 == m)
            || self.cargo_mbs.contains(&m)
            || self.futs.iter().any(|f| f.fut.is_some() && f.mb() == Some(m))
    }
    fn receivers(&self, c: usize) -> bool {
        self.mbm.iter().any(|m| m.chan == c && m.alive)
    }
    fn connected(&self, c: usize) -> bool {
        self.strong(c) > 0 && self.chan_has_mb(c)
    }
    fn chan_has_mb(&self, c: usize) -> bool {
        (0..self.mbm.len()).any(|i| self.mbm[i].chan == c && self.mb_alive(i as u32))
    }
    fn n_held(&self, c: usize) -> usize {
        self.held.iter().filter(|h| h.0 == c).count()
    }
    fn n_held_mb(&self, m: u32) -> usize {
        self.held.iter().filter(|h| h.1 == m).count()
    }
    fn u_acc(&self, c: usize) -> usize {
        self.msgs.iter().filter(|m| m.chan == c && !m.bcast && m.st == MS::Accepted).count()
    }
    fn u_hi(&self, c: usize) -> usize {
        self.msgs
            .iter()
            .filter(|m| m.chan == c && !m.bcast && matches!(m.st, MS::Accepted | MS::Maybe))
            .count()
    }
    fn u_lo(&self, c: usize) -> usize {
        self.u_acc(c).saturating_sub(self.n_held(c))
    }
    fn wp(&self, c: usize, except: Option<usize>) -> usize {
        self.futs
            .iter()
            .enumerate()
            .filter(|(i, f)| f.chan == c && Some(*i) != except && ((f.recv_out() && f.woken()) || f.maybe_recv()))
            .count()
    }
    fn idle_exists(&self, c: usize) -> bool {
        self.futs.iter().any(|f| f.chan == c && f.idle())
    }
    fn bpend(&self, m: u32) -> usize {
        self.msgs
            .iter()
            .filter(|x| x.bcast && x.st == MS::Accepted && x.pending.contains(&m))
            .count()
    }
    fn bpend_lo(&self, m: u32) -> usize {
        self.bpend(m).saturating_sub(self.n_held_mb(m) + self.mbm[m as usize].slack)
    }
    fn maxb(&self, c: usize) -> (usize, usize) {
        let (mut lo, mut hi) = (0, 0);
        for (i, m) in self.mbm.iter().enumerate() {
            if m.chan == c && m.alive {
                lo = lo.max(self.bpend_lo(i as u32));
                hi = hi.max(self.bpend(i as u32) + m.may as usize);
            }
        }
        (lo, hi)
    }
    fn srv_of(&mut self, actor: Id) -> Option<usize> {
        self.futs.iter().position(|f| f.srv().map_or(false, |s| s.actor == actor))
    }

    // ---- events
    fn process_events(&mut self) {
        loop {
            let evs: Vec<Ev> = std::mem::take(&mut *self.w.evs.lock().unwrap());
            if evs.is_empty() {
                return;
            }
            for e in evs {
                self.bump(St::events);
                self.note(|| format!("    event {e:?}"));
                if self.cfg.mode != Mode::Mixed {
                    // within one step the order of e.g. drops does not matter
                    let step = self.step as u64;
                    let h = format!("{e:?}").bytes().fold(step, |h, b| fnv(h, b as u64));
                    self.obs_events = self.obs_events.wrapping_add(crate::rng::mix(h));
                    self.bump(St::twin_observations);
                }
                self.event(e);
            }
        }
    }

    fn accept(&mut self, id: Id) {
        let c = self.msgs[id as usize].chan;
        if self.msgs[id as usize].bcast {
            let p: Vec<u32> = (0..self.mbm.len() as u32)
                .filter(|&m| self.mbm[m as usize].chan == c && self.mbm[m as usize].alive && (self.mb_alive(m) || self.alive_before.contains(&m)))
                .collect();
            self.msgs[id as usize].pending = p;
        }
        let step = self.step;
        let m = &mut self.msgs[id as usize];
        if m.st == MS::Waiting {
            self.admitted.push(id);
        }
        m.st = MS::Accepted;
        m.acc_step = step;
    }

    fn event(&mut self, e: Ev) {
        match e {
            Ev::MsgClone(id) => self.msgs[id as usize].copies += 1,
            Ev::MsgDrop(id) => {
                self.msgs[id as usize].copies -= 1;
                if self.msgs[id as usize].copies == 0 {
                    self.msgs[id as usize].dropped = true;
                    self.dropped_now.push(id);
                }
            }
            Ev::CargoDrop { chan, what } => {
                self.bump(St::cargo_drops);
                match what {
                    CargoKind::Strong => self.chans[chan].cargo_strong -= 1,
                    CargoKind::Mailbox(m) => self.cargo_mbs.retain(|x| *x != m),
                    _ => {}
                }
            }
            Ev::ReplyDrop(_) => self.replies_live -= 1,
            Ev::ActorDrop(a) => {
                self.actors_live -= 1;
                if let Some(i) = self.srv_of(a) {
                    let s = self.futs[i].srv_mut().unwrap();
                    s.dropped += 1;
                    if s.dropped > 1 {
                        self.fail(&["C16"], format!("actor {a} dropped twice"));
                    }
                }
            }
            Ev::Started(a) => {
                let i = match self.srv_of(a) { Some(i) => i, None => return };
                let s = self.futs[i].srv_mut().unwrap();
                s.started += 1;
                let (n, en) = (s.started, s.entered);
                self.bump(St::rule_lifecycle);
                if n != 1 || en > 0 {
                    self.fail(&["C12"], format!("actor {a} started {n} times / after handling {en} messages"));
                }
            }
            Ev::Stopped(a) => {
                let i = match self.srv_of(a) { Some(i) => i, None => return };
                let s = self.futs[i].srv_mut().unwrap();
                s.stopped += 1;
                let (st, n, busy, fs, ok) = (s.started, s.stopped, !s.stack.is_empty(), s.exit_stop, matches!(s.start, Start::Ok | Start::Gate));
                let mb = s.mb;
                self.bump(St::rule_lifecycle);
                if n != 1 || st != 1 || busy || !ok {
                    self.fail(&["C12"], format!("actor {a}: stopped hook ran {n} times, started {st} times, mid-handler {busy}, start ok {ok}"));
                }
                if !fs {
                    self.consume_stop(i, mb, "run loop ended");
                }
            }
            Ev::Enter { actor, id, bcast } => self.enter(actor, id, bcast),
            Ev::Exit { actor, id, stop_self } => {
                let i = match self.srv_of(actor) { Some(i) => i, None => return };
                self.bump(St::handled);
                if stop_self {
                    self.bump(St::stop_selfs);
                }
                let s = self.futs[i].srv_mut().unwrap();
                let mb = s.mb;
                match s.stack.pop() {
                    Some(Frame::Handler(x)) if x == id => {}
                    _ => {
                        self.fail(&["C12"], format!("handler of {id} on actor {actor} ended out of order"));
                        return;
                    }
                }
                let mut owed = false;
                match s.stack.last_mut() {
                    None => s.exit_stop |= stop_self,
                    Some(Frame::Sel { join, stop_seen, maybe_stopped, .. }) => {
                        if stop_self {
                            *stop_seen = true;
                            if *join {
                                *maybe_stopped = true;
                                owed = true;
                            }
                        }
                    }
                    _ => {}
                }
                if owed {
                    self.owe_stop(mb, &["C15"]);
                }
                self.msgs[id as usize].exit_actor = actor;
                if !self.msgs[id as usize].bcast {
                    self.msgs[id as usize].st = MS::Done;
                    self.replies_live += 1;
                }
            }
            Ev::Interrupted { actor, id } => {
                self.bump(St::interrupted);
                if let Some(i) = self.srv_of(actor) {
                    if self.op != Op::Fault {
                        // neither a panic nor the drop of the actor's future: somebody let go of the handler
                        let sel = self.futs[i].srv_mut().unwrap().stack.iter().any(|f| matches!(f, Frame::Sel { .. }));
                        let b = if self.msgs[id as usize].bcast { "C06" } else { "C01" };
                        self.fail(if sel { &["C15", "C12"][..] } else { &["C12"] }, format!("actor {actor} abandoned the handler of {id}"));
                        self.viol.last_mut().unwrap().props.push(b);
                    }
                    let s = self.futs[i].srv_mut().unwrap();
                    let mut sel = false;
                    while let Some(f) = s.stack.pop() {
                        if matches!(f, Frame::Handler(x) if x == id) {
                            break;
                        }
                        sel = true;
                    }
                    // a select or join may have taken a stop notice, and put it back, before it panicked
                    self.took |= sel && self.panicked;
                }
                if !self.msgs[id as usize].bcast {
                    self.msgs[id as usize].st = MS::Interrupted;
                }
            }
            Ev::StopAll { actor } => {
                self.bump(St::stop_alls);
                let i = match self.srv_of(actor) { Some(i) => i, None => return };
                let c = self.futs[i].chan;
                for m in self.alive_before.clone() {
                    if self.mbm[m as usize].chan == c {
                        self.owe_stop(m, &["C11"]);
                    }
                }
                for f in &mut self.futs {
                    if f.chan == c && f.recv_out() {
                        f.grace = f.woken_before;
                    } else if f.maybe_recv() {
                        f.grace = true;
                    }
                }
            }
            Ev::SelEnter { actor, id, join } => {
                self.bump(if join { St::joins_in_handler } else { St::selects });
                let i = match self.srv_of(actor) { Some(i) => i, None => return };
                let s = self.futs[i].srv_mut().unwrap();
                s.stack.push(Frame::Sel { id, join, stop_seen: false, maybe_stopped: false });
                // a receive future created in here is fresh
                if self.cur == Some(i) {
                    self.was_waiting = false;
                }
            }
            Ev::SelDone { actor, id, left, ok } => {
                let i = match self.srv_of(actor) { Some(i) => i, None => return };
                let s = self.futs[i].srv_mut().unwrap();
                let mb = s.mb;
                let fr = s.stack.pop();
                self.took = true;
                let (join, seen) = match fr {
                    Some(Frame::Sel { id: x, join, stop_seen, .. }) if x == id => (join, stop_seen),
                    _ => {
                        self.fail(&["C15", "C12"], format!("select/join of {id} ended while a nested handler is running"));
                        return;
                    }
                };
                if !ok {
                    self.fail(&["C15"], format!("select/join of {id} returned a wrong result or future"));
                }
                let c = self.futs[i].chan;
                if left && self.strong(c) == 0 {
                    // it may just have been told to stop for lack of addresses
                    self.mbm[mb as usize].may += 1;
                }
                if left && !join && seen {
                    self.bump(St::stop_in_select);
                    self.owe_stop(mb, &["C15"]);
                }
                if !left && !seen {
                    self.bump(St::stop_in_select);
                    self.consume_stop(i, mb, "select returned the unfinished future");
                }
                if self.cur == Some(i) {
                    self.was_waiting = false;
                }
            }
            Ev::ScopedPoll(sid) => {
                if self.scoped_dead.contains(&sid) {
                    self.fail(&["C14"], format!("inner future of scoped task {sid} polled after the actor had gone"));
                }
            }
        }
    }

    fn owe_stop(&mut self, mb: u32, props: &'static [&'static str]) {
        let m = &mut self.mbm[mb as usize];
        m.must = true;
        m.may += 1;
        m.stop_props = props;
    }

    fn consume_stop(&mut self, i: usize, mb: u32, how: &str) {
        self.bump(St::stops_consumed);
        self.took = true;
        let c = self.futs[i].chan;
        let (ww, _) = (self.was_waiting, self.grace);
        if self.cur == Some(i) {
            self.was_waiting = false;
        }
        if self.strong(c) == 0 && self.chans[c].s0_step.is_none() {
            self.chans[c].s0_step = Some(self.step);
        }
        let requested = self.mbm[mb as usize].may > 0;
        self.mbm[mb as usize].must = false;
        if self.chans[c].s0_step.is_none() {
            if requested {
                self.mbm[mb as usize].may -= 1;
            } else {
                self.fail(&["C10", "C11", "C12"], format!("actor of mailbox {mb} was told to stop ({how}) although a strong address exists and nobody asked for it"));
            }
            return;
        }
        // for lack of addresses: what is there has to be handled first
        self.bump(St::natural_stops);
        let s0 = self.chans[c].s0_step.unwrap();
        let w = self.wp(c, Some(i)) + self.n_held(c);
        let avail = self
            .msgs
            .iter()
            .filter(|x| x.chan == c && !x.bcast && x.st == MS::Accepted && (!ww || (!x.exempt && x.acc_step < s0)))
            .count();
        let own = self
            .msgs
            .iter()
            .filter(|x| x.bcast && x.st == MS::Accepted && x.pending.contains(&mb) && (!ww || x.acc_step < s0))
            .count();
        let many = own > self.n_held_mb(mb) + self.mbm[mb as usize].slack;
        if requested {
            // otherwise it is unknown which of the two reasons it was
            if avail > w || many {
                self.mbm[mb as usize].may -= 1;
            }
            return;
        }
        if avail > w {
            self.fail(&["C10", "C01"], format!("actor of mailbox {mb} was told to stop for lack of addresses while {avail} accepted messages are unhandled (at most {w} of them handed to others)"));
        }
        if many {
            self.fail(&["C10", "C06"], format!("actor of mailbox {mb} was told to stop for lack of addresses while {own} of its broadcasts are unhandled"));
        }
    }

    fn enter(&mut self, actor: Id, id: Id, bcast: bool) {
        let i = match self.srv_of(actor) {
            Some(i) => i,
            None => {
                self.fail(&["C12", "C01"], format!("unknown actor {actor} handles {id}"));
                return;
            }
        };
        self.bump(St::takes);
        self.took = true;
        self.bump(St::rule_lifecycle);
        let c = self.futs[i].chan;
        let (ww, gr) = if self.cur == Some(i) { (self.was_waiting, self.grace) } else { (true, true) };
        self.was_waiting = false;
        self.grace = false;
        self.futs[i].grace = false;
        let is_run = matches!(self.futs[i].k, K::Run(_));
        let s = self.futs[i].srv_mut().unwrap();
        let mb = s.mb;
        s.entered += 1;
        let (st, sp, xs, top) = (s.started, s.stopped, s.exit_stop, s.stack.last().cloned());
        s.stack.push(Frame::Handler(id));
        if is_run && (st != 1 || sp != 0 || s.start == Start::Fail || s.start == Start::GateFail) {
            self.fail(&["C12"], format!("actor {actor} handles {id}: started {st} stopped {sp}"));
        }
        if xs {
            self.fail(&["C12"], format!("actor {actor} handles {id} after stop_self"));
        }
        match top {
            Some(Frame::Handler(x)) => self.fail(&["C12"], format!("actor {actor} handles {id} while handling {x}")),
            Some(Frame::Sel { stop_seen: true, .. }) => {
                self.fail(&["C15", "C12"], format!("select/join on actor {actor} handles {id} after the actor was stopped within it"))
            }
            _ => {}
        }
        if self.msgs[id as usize].bcast != bcast || self.msgs[id as usize].chan != c {
            self.fail(&["C01", "C02"], format!("message {id} handled by an actor of another address"));
            return;
        }
        // stop requests outrank everything
        if self.mbm[mb as usize].must {
            self.bump(St::rule_stop_next);
            if !(ww && gr) {
                let p = self.mbm[mb as usize].stop_props;
                self.fail(p, format!("actor {actor} (mailbox {mb}) handles {id} although it has to stop as its next action"));
                if top.is_some() {
                    self.viol.last_mut().unwrap().props.push("C15");
                }
            }
        }
        if self.msgs[id as usize].st == MS::Waiting {
            self.accept(id); // admitted within this operation
        }
        let held = self.n_held(c);
        let w = self.wp(c, Some(i));
        let prio = self.msgs[id as usize].prio;
        if bcast {
            self.bump(St::rule_bcast_entries);
            let m = &mut self.msgs[id as usize];
            if m.st != MS::Accepted {
                let st = m.st;
                self.fail(&["C06", "C01"], format!("broadcast {id} handled in state {st:?}"));
                return;
            }
            match m.pending.iter().position(|x| *x == mb) {
                Some(p) => {
                    m.pending.remove(p);
                }
                None => self.fail(&["C06"], format!("broadcast {id} handled by the actor of mailbox {mb}, which already handled it or did not exist at acceptance")),
            }
        } else {
            let st = self.msgs[id as usize].st;
            match st {
                MS::Accepted | MS::Maybe => {}
                MS::Taken | MS::Done | MS::Interrupted => {
                    self.fail(&["C01"], format!("message {id} handled twice"));
                    return;
                }
                _ => {
                    self.fail(&["C01", "C13"], format!("message {id} handled although it was never accepted ({st:?})"));
                    return;
                }
            }
            self.msgs[id as usize].st = MS::Taken;
            // C04
            if prio == DEF && !self.msgs[id as usize].exempt {
                let seq = self.msgs[id as usize].seq;
                let mut earlier = 0;
                let mut pairs = 0;
                let mut ex = 0;
                for (k, x) in self.msgs.iter().enumerate() {
                    if x.chan == c && !x.bcast && x.prio == DEF && k as u32 != id && x.st != MS::New {
                        pairs += 1;
                        if x.seq < seq && !x.exempt && matches!(x.st, MS::Accepted | MS::Waiting | MS::Maybe) {
                            earlier += 1;
                            ex = k;
                        }
                    }
                }
                self.stats[St::rule_fifo_pairs as usize] += pairs;
                if earlier > w + held && !(held > 0 && ww) {
                    self.fail(&["C04"], format!("message {id} (sent #{seq}) handled before {earlier} earlier default-priority messages, e.g. {ex}; at most {w} of them could be in the hands of other receivers"));
                }
            }
        }
        // C05
        if !ww {
            self.bump(St::fresh_takes);
            let gt = self
                .msgs
                .iter()
                .filter(|x| x.chan == c && !x.bcast && x.st == MS::Accepted && x.prio > prio)
                .count();
            let own = self
                .msgs
                .iter()
                .filter(|x| x.bcast && x.st == MS::Accepted && x.pending.contains(&mb) && x.prio > prio)
                .count();
            if gt + own > 0 || self.u_acc(c) > 0 {
                self.bump(St::rule_priority_choice);
            }
            if gt > w + held {
                self.fail(&["C05"], format!("actor {actor} took {id} (priority {prio}) although {gt} more urgent messages are available"));
            }
            if own > self.n_held_mb(mb) + self.mbm[mb as usize].slack {
                self.fail(&["C05"], format!("actor {actor} took {id} (priority {prio}) although {own} more urgent broadcasts are available to it"));
            }
        }
    }

    // ---- polling
    fn poll_fut(&mut self, i: usize) -> Option<Out> {
        self.cur = Some(i);
        let step = self.step;
        let f = &mut self.futs[i];
        f.polled_step = step;
        if !matches!(f.k, K::Send { .. } | K::Bcast { .. } | K::Reply { .. } | K::Join { .. }) {
            let c = f.chan;
            self.chans[c].epoch += 1;
        }
        let f = &mut self.futs[i];
        self.was_waiting = f.recv_out() || f.maybe_recv();
        let receiving = self.was_waiting;
        if f.maybe_recv() {
            f.grace = true;
        }
        self.grace = f.grace;
        let first_recv_poll = matches!(f.k, K::Recv { .. }) && !f.polled();
        if first_recv_poll {
            self.was_waiting = false;
        }
        let flag = Flag::new();
        let waker: Waker = flag.clone().into();
        let mut fut = self.futs[i].fut.take().expect("poll of finished future");
        let r = {
            let mut cx = Cx::from_waker(&waker);
            catch_unwind(AssertUnwindSafe(|| {
                let r = fut.as_mut().poll(&mut cx);
                if r.is_pending() {
                    (r, Some(fut))
                } else {
                    drop(fut);
                    (r, None)
                }
            }))
        };
        self.futs[i].flag = Some(flag);
        self.futs[i].holds_strong = false;
        let out = match r {
            Ok((Poll::Pending, f)) => {
                self.futs[i].fut = f;
                None
            }
            Ok((Poll::Ready(o), _)) => Some(o),
            Err(p) => {
                let sim = p.is::<SimPanic>();
                let txt = panic_text(p);
                if sim {
                    self.bump(St::panics);
                    self.op = Op::Fault;
                    let c = self.futs[i].chan;
                    self.chans[c].faults += 1;
                    self.panicked = true;
                    if receiving {
                        self.handed_back(c);
                    }
                } else {
                    self.fail(&["ANY", "C26"], format!("unexpected panic while polling {:?}: {txt}", self.futs[i].k));
                }
                None
            }
        };
        // a run task whose start gate is open reaches its loop in this poll
        if let K::Run(s) = &mut self.futs[i].k {
            if !s.looping && (s.start == Start::Ok || (s.start == Start::Gate && (self.free_gates || gate_open(&self.w, s.actor)))) {
                s.looping = true;
                self.was_waiting = false;
            }
        }
        // a finished/panicked future is gone before its events are judged
        if self.futs[i].fut.is_some() && matches!(self.futs[i].k, K::Run(_)) {
            let c = self.futs[i].chan;
            if let Some(h) = self.handles.iter().find(|h| h.chan == c) {
                let d = each!(&h.h, a => format!("{a:?}"));
                if parse_debug(&d).1 == Some(0) {
                    self.fail(&["C14", "C12", "C13"], "the event loop of an actor is not over, but its mailbox is gone".into());
                }
            }
        }
        self.process_events();
        self.cur = None;
        out
    }

    fn fate(&self, id: Id) -> Option<Vec<Result<(), Error>>> {
        Some(match self.msgs[id as usize].st {
            MS::Done => vec![Ok(())],
            MS::Interrupted | MS::Lost => vec![Err(Error::Interrupted)],
            MS::Gone => vec![Err(Error::Disconnected)],
            MS::MaybeDead => vec![Err(Error::Interrupted), Err(Error::Disconnected)],
            _ => return None,
        })
    }

    fn check_reply(&mut self, id: Id, r: Result<Reply, Error>) {
        self.bump(St::rule_outcome);
        let st = self.msgs[id as usize].st;
        let want = self.fate(id);
        let got = match &r {
            Ok(_) => Ok(()),
            Err(e) => Err(e.clone()),
        };
        let code = match &got { Ok(()) => 1, Err(Error::Interrupted) => 2, Err(Error::Disconnected) => 3 };
        self.observe(code << 32 | id as u64);
        let mut p = vec!["C02"];
        if matches!(self.msgs[id as usize].script.act, Do::Panic) || st == MS::Interrupted {
            p.push("C26");
        }
        if got == Err(Error::Disconnected) || st == MS::Gone {
            p.push("C13");
        }
        match want {
            Some(w) if w.contains(&got) => {}
            w => self.fail(&p, format!("sender of {id} observed {got:?} but its message is {st:?} (expected {w:?})")),
        }
        if let Ok(r) = &r {
            let a = self.msgs[id as usize].exit_actor;
            if r.id != id || r.val != reply_val(id, a) {
                self.fail(&["C02"], format!("sender of {id} received the reply of {} (value {:#x})", r.id, r.val));
            }
        }
        drop(r);
        self.process_events();
    }

    /// Poll a future and interpret its result.
    fn drive(&mut self, i: usize) {
        let c = self.futs[i].chan;
        let first = !self.futs[i].polled();
        let kind = self.futs[i].k.clone();
        self.note(|| format!("poll fut {i} {kind:?}"));
        match kind {
            K::Send { id, detached } => {
                let (mut idle, mut maybe_idle) = (false, false);
                let (mut ulo, mut uhi, mut wp) = (0, 0, 0);
                let mut conn = true;
                if first {
                    idle = self.idle_exists(c);
                    maybe_idle = idle || self.futs.iter().any(|f| f.chan == c && f.maybe_recv());
                    ulo = self.u_lo(c);
                    uhi = self.u_hi(c);
                    wp = self.wp(c, None);
                    conn = self.connected(c);
                    let handed = self.futs.iter().any(|f| f.chan == c && (f.recv_out() || f.maybe_recv()));
                    let seq = self.next_seq;
                    self.next_seq += 1;
                    let step = self.step;
                    let m = &mut self.msgs[id as usize];
                    m.seq = seq;
                    m.polled_at = step;
                    m.may_be_handed = handed;
                }
                let out = self.poll_fut(i);
                if first {
                    self.bump(St::rule_connected);
                    let disc = matches!(out, Some(Out::Sent(Err(Error::Disconnected))) | Some(Out::Reply(Err(Error::Disconnected))));
                    if !conn {
                        if !disc {
                            self.fail(&["C13", "C03"], format!("send of {id} on a disconnected address did not resolve to Disconnected at once"));
                        }
                        self.msgs[id as usize].st = MS::Gone;
                        self.observe(0xd15c);
                        return;
                    } else if disc {
                        self.fail(&["C13"], format!("send of {id} reported Disconnected although the address is connected"));
                        self.msgs[id as usize].st = MS::Gone;
                        return;
                    }
                }
                match out {
                    Some(Out::Sent(Ok(rx))) => {
                        let st = self.msgs[id as usize].st;
                        if st == MS::New || st == MS::Waiting {
                            self.accept(id);
                            if !first { self.bump(St::uni_admitted); }
                        } else if st == MS::MaybeDead {
                            self.msgs[id as usize].st = MS::Lost;
                        } else if matches!(st, MS::Gone) {
                            self.fail(&["C02", "C03"], format!("send of {id} reported success although its message was discarded before being accepted"));
                        }
                        self.observe(0xacce97 ^ (id as u64) << 24);
                        if first {
                            if let Some(cap) = self.chans[c].cap {
                                if !maybe_idle && ulo >= wp + cap {
                                    self.bump(St::rule_must_refuse);
                                    self.fail(&["C07"], format!("send of {id} was accepted although {ulo} accepted messages are waiting (at most {wp} of them handed out) with capacity {cap}"));
                                }
                            }
                        }
                        let lazy = self.rng.chance(20);
                        self.futs.push(FutObj { chan: c, k: K::Reply { id }, fut: Some(Box::pin(rx.map(Out::Reply))), flag: None, holds_strong: false, grace: false, lazy, woken_before: false, polled_step: 0 });
                    }
                    Some(Out::Sent(Err(e))) => {
                        let st = self.msgs[id as usize].st;
                        self.observe(0xe44 ^ id as u64);
                        self.bump(St::rule_outcome);
                        if e != Error::Disconnected || !matches!(st, MS::Gone | MS::MaybeDead) {
                            self.fail(&["C02"], format!("waiting send of {id} ended with {e:?} while its message is {st:?}"));
                        }
                    }
                    Some(Out::Reply(r)) => self.check_reply(id, r),
                    None if first => {
                        let must = self.chans[c].cap.map_or(true, |cap| uhi < cap) || idle;
                        if detached {
                            self.bump(St::rule_must_accept);
                            if must {
                                let p: &[&str] = if self.chans[c].cap.is_none() { &["C07", "C08"] } else { &["C08"] };
                                self.fail(p, format!("send of {id} has to wait although there is space ({uhi} waiting, capacity {:?}) or an idle actor ({idle})", self.chans[c].cap));
                            }
                            self.msgs[id as usize].st = MS::Waiting;
                            self.observe(0x3a17 ^ id as u64);
                        } else if self.chans[c].cap.is_none() {
                            self.accept(id);
                        } else {
                            self.msgs[id as usize].st = MS::Maybe;
                            if self.chans[c].cap.map_or(false, |cap| cap > 0 && !maybe_idle && ulo >= wp + cap) {
                                self.msgs[id as usize].refused = Some(self.chans[c].epoch);
                            }
                        }
                        if !must && detached {
                            self.bump(St::rule_must_refuse);
                        }
                    }
                    _ => {}
                }
            }
            K::Bcast { id } => {
                let (mut lo, mut hi, mut conn) = (0, 0, true);
                if first {
                    (lo, hi) = self.maxb(c);
                    conn = self.connected(c);
                    let seq = self.next_seq;
                    self.next_seq += 1;
                    self.msgs[id as usize].seq = seq;
                }
                let out = self.poll_fut(i);
                let cap = self.chans[c].cap;
                match out {
                    Some(Out::Bcast(Ok(()))) => {
                        if first && !conn {
                            self.fail(&["C13"], format!("broadcast {id} accepted on a disconnected address"));
                        }
                        let st = self.msgs[id as usize].st;
                        if st == MS::New || st == MS::Waiting {
                            self.accept(id);
                            if !first { self.bump(St::bcast_admitted); }
                        } else if st == MS::Gone {
                            self.fail(&["C02", "C03"], format!("broadcast {id} reported success although it was discarded"));
                        }
                        if first {
                            if let Some(cap) = cap {
                                if lo >= cap {
                                    self.bump(St::rule_must_refuse);
                                    self.fail(&["C07"], format!("broadcast {id} accepted although the slowest mailbox has {lo} outstanding (capacity {cap})"));
                                }
                            }
                        }
                    }
                    Some(Out::Bcast(Err(e))) => {
                        let st = self.msgs[id as usize].st;
                        if first {
                            if conn || e != Error::Disconnected {
                                self.fail(&["C13"], format!("broadcast {id} reported {e:?} although connected={conn}"));
                            }
                            self.msgs[id as usize].st = MS::Gone;
                        } else if e != Error::Disconnected || !matches!(st, MS::Gone | MS::MaybeDead) {
                            self.fail(&["C02"], format!("waiting broadcast {id} ended with {e:?} in state {st:?}"));
                        }
                    }
                    _ => {
                        if first && self.futs[i].fut.is_some() {
                            self.bump(St::rule_must_accept);
                            if !conn {
                                self.fail(&["C13", "C03"], format!("broadcast {id} on a disconnected address did not resolve"));
                            } else if cap.map_or(true, |cap| hi < cap) {
                                let p: &[&str] = if cap.is_none() { &["C07", "C08"] } else { &["C08"] };
                                self.fail(p, format!("broadcast {id} has to wait although the slowest mailbox has {hi} outstanding (capacity {cap:?})"));
                            } else {
                                self.bump(St::rule_must_refuse);
                            }
                            self.msgs[id as usize].st = MS::Waiting;
                        }
                    }
                }
            }
            K::Reply { id } => {
                if let Some(Out::Reply(r)) = self.poll_fut(i) {
                    self.check_reply(id, r);
                }
            }
            K::Recv { mb } => {
                let grace = self.futs[i].grace;
                let ww = self.futs[i].recv_out();
                let out = self.poll_fut(i);
                if let Some(what) = FUSED.with(|f| f.borrow_mut().take()) {
                    self.fail(&["C09"], what.into());
                }
                if let Some(Out::Msg(m)) = out {
                    if self.rng.chance(8) {
                        self.note(|| format!("keep received message of mailbox {mb}"));
                        self.mbm[mb as usize].must = false;
                        self.held.push((c, mb, m));
                    } else {
                        self.dispatch(c, mb, m, ww, grace);
                    }
                } else if self.futs[i].fut.is_some() && self.viol.is_empty() {
                    // whatever there was to return, a single poll has to return it
                    let (ulo, wp) = (self.u_lo(c), self.wp(c, Some(i)));
                    self.bump(St::rule_single_poll);
                    if ulo > wp {
                        self.fail(&["C09"], format!("a receive on mailbox {mb} is pending after a poll although {ulo} messages are available (at most {wp} handed to others)"));
                    } else if self.bpend_lo(mb) > 0 {
                        self.fail(&["C09", "C06"], format!("a receive on mailbox {mb} is pending after a poll although it has an outstanding broadcast"));
                    }
                }
            }
            K::Disp(_) => {
                let out = self.poll_fut(i);
                self.disp_result(i, out);
            }
            K::Run(_) => {
                let out = self.poll_fut(i);
                if let Some(Out::Run((a, ok))) = out {
                    let s = self.futs[i].srv().unwrap().clone();
                    self.observe(0x20_0000 ^ a as u64 ^ (ok as u64) << 40);
                    let good = matches!(s.start, Start::Ok | Start::Gate);
                    self.bump(St::rule_lifecycle);
                    if a != s.actor || ok != good || s.stopped != good as u32 || s.started != 1 || (!good && s.entered > 0) {
                        self.fail(&["C12"], format!("run of actor {} returned {:?}, start {:?}, started {}, stopped {}, handled {}", s.actor, (a, ok), s.start, s.started, s.stopped, s.entered));
                    }
                }
            }
            K::Join { connected } => {
                let r = self.chan_has_mb(c);
                let conn = self.connected(c);
                let done = self.poll_fut(i).is_some();
                self.bump(St::rule_join);
                self.observe(0x101 ^ (done as u64) << 20);
                if done && conn {
                    self.fail(&["C14"], format!("join resolved while the address is connected"));
                }
                if !done && (!r || !connected) {
                    self.fail(&["C14"], format!("join does not resolve although the actor is gone (mailboxes: {r}, connected when obtained: {connected})"));
                }
            }
            K::Scoped { sid, connected } => {
                let r = self.chan_has_mb(c);
                let conn = self.connected(c);
                if !r || !connected {
                    self.scoped_dead.insert(sid);
                }
                let out = self.poll_fut(i);
                self.bump(St::rule_scoped);
                match out {
                    Some(Out::Scoped(None)) if conn => self.fail(&["C14"], format!("scoped task {sid} gave up while the address is connected")),
                    Some(Out::Scoped(Some(v))) => {
                        if !r || !connected || v != sid ^ 0x55 || !(self.free_gates || gate_open_k(&self.w, (sid, 3))) {
                            self.fail(&["C14"], format!("scoped task {sid} yielded {v:#x} (mailboxes {r})"));
                        }
                    }
                    None if self.futs[i].fut.is_some() && (!r || !connected) => {
                        self.fail(&["C14"], format!("scoped task {sid} does not end although the actor is gone"))
                    }
                    None if gate_open_k(&self.w, (sid, 3)) => self.fail(&["C14"], format!("scoped task {sid} does not complete")),
                    _ => {}
                }
            }
        }
    }

    fn dispatch(&mut self, c: usize, mb: u32, m: Held, ww: bool, grace: bool) {
        let id = self.next_actor;
        self.next_actor += 1;
        self.actors_live += 1;
        let act = Act { id, w: self.w.clone(), start: Start::Ok, lingers: false, exclusive: false };
        let fut = m(act);
        let srv = Srv { actor: id, mb, stack: vec![], start: Start::Ok, looping: true, entered: 0, started: 1, stopped: 0, exit_stop: false, dropped: 0 };
        self.futs.push(FutObj { chan: c, k: K::Disp(srv), fut: Some(fut), flag: None, holds_strong: false, grace, lazy: false, woken_before: false, polled_step: 0 });
        let i = self.futs.len() - 1;
        self.note(|| format!("dispatch to actor {id} (fut {i})"));
        // like poll_fut, but with the knowledge of how the message was received
        self.cur = Some(i);
        self.futs[i].polled_step = self.step;
        let flag = Flag::new();
        let waker: Waker = flag.clone().into();
        let mut fut = self.futs[i].fut.take().unwrap();
        self.was_waiting = ww;
        self.grace = grace;
        let r = {
            let mut cx = Cx::from_waker(&waker);
            catch_unwind(AssertUnwindSafe(|| {
                let r = fut.as_mut().poll(&mut cx);
                let keep = r.is_pending();
                (r, if keep { Some(fut) } else { None })
            }))
        };
        self.futs[i].flag = Some(flag);
        let out = match r {
            Ok((Poll::Pending, f)) => {
                self.futs[i].fut = f;
                None
            }
            Ok((Poll::Ready(o), _)) => Some(o),
            Err(p) => {
                if p.is::<SimPanic>() {
                    self.bump(St::panics);
                    self.op = Op::Fault;
                    self.chans[c].faults += 1;
                } else {
                    let t = panic_text(p);
                    self.fail(&["ANY", "C26"], format!("unexpected panic in dispatch: {t}"));
                }
                None
            }
        };
        self.process_events();
        self.cur = None;
        self.disp_result(i, out);
    }

    fn disp_result(&mut self, i: usize, out: Option<Out>) {
        let s = self.futs[i].srv().unwrap().clone();
        match out {
            Some(Out::Disp(flow)) => {
                self.observe(0x30_0000 ^ flow.is_break() as u64);
                self.bump(St::rule_lifecycle);
                if s.entered == 0 {
                    if flow.is_break() {
                        self.cur = Some(i);
                        self.consume_stop(i, s.mb, "dispatch returned Break");
                        self.cur = None;
                    } else {
                        self.fail(&["C01", "C12"], format!("dispatch on mailbox {} completed without handling anything", s.mb));
                    }
                } else if flow.is_break() != s.exit_stop {
                    self.fail(&["C12", "C11"], format!("dispatch returned {flow:?} but stop_self called: {}", s.exit_stop));
                }
            }
            None if self.futs[i].fut.is_some() && s.stack.is_empty() => {
                self.fail(&["C12", "C01"], format!("dispatch is pending although no handler is running on actor {}", s.actor));
            }
            _ => {}
        }
    }

    // ---- after every operation
    fn begin_op(&mut self) {
        self.step += 1;
        self.op = Op::Other;
        self.dropped_now.clear();
        self.admitted.clear();
        self.alive_before = (0..self.mbm.len() as u32).filter(|&m| self.mb_alive(m)).collect();
        self.waiting_before = (0..self.msgs.len() as u32).filter(|&i| self.msgs[i as usize].st == MS::Waiting).collect();
        for f in &mut self.futs {
            f.woken_before = f.woken();
        }
        self.took = false;
        self.panicked = false;
        self.died.clear();
    }

    fn end_op(&mut self) {
        self.process_events();
        self.sweep();
        // settle senders: every woken one is polled, and everything decided must have woken its sender
        loop {
            let mut any = false;
            let mut i = 0;
            while i < self.futs.len() {
                if self.futs[i].fut.is_some() && self.futs[i].polled() && self.futs[i].woken() {
                    let go = match self.futs[i].k {
                        K::Send { .. } | K::Bcast { .. } => true,
                        K::Reply { .. } => !self.futs[i].lazy || self.rng.chance(15),
                        _ => false,
                    };
                    if go {
                        self.drive(i);
                        any = true;
                    }
                }
                i += 1;
            }
            self.process_events();
            self.sweep();
            if !any {
                break;
            }
        }
        self.rules();
        if self.futs.iter().filter(|f| f.fut.is_none()).count() > 40 {
            self.futs.retain(|f| f.fut.is_some());
        }
    }

    /// Bring the model's view of what exists up to date and judge what happened to messages.
    fn sweep(&mut self) {
        for m in 0..self.mbm.len() {
            if self.mbm[m].alive && !self.mb_alive(m as u32) {
                self.mbm[m].alive = false;
                self.died.push(self.mbm[m].chan);
                self.note(|| format!("  mailbox {m} is gone"));
                for x in &mut self.msgs {
                    x.pending.retain(|p| *p != m as u32);
                }
            }
        }
        for c in 0..self.chans.len() {
            if self.strong(c) == 0 && self.chans[c].s0_step.is_none() {
                self.chans[c].s0_step = Some(self.step);
                self.note(|| format!("  last strong handle of channel {c} is gone"));
            }
            if self.chans[c].alive && !self.receivers(c) {
                self.chans[c].alive = false;
                let died = self.died.iter().filter(|x| **x == c).count();
                self.bump(St::disconnects);
                self.note(|| format!("  last mailbox of channel {c} is gone"));
                for i in 0..self.msgs.len() {
                    let m = &mut self.msgs[i];
                    if m.chan != c {
                        continue;
                    }
                    let before = m.st;
                    match m.st {
                        MS::Accepted => m.st = if m.bcast { MS::Done } else { MS::Lost },
                        // something taken within the same operation may have admitted it just before
                        MS::Waiting => m.st = if self.took || (m.bcast && died > 1) { MS::MaybeDead } else { MS::Gone },
                        MS::Maybe if m.refused == Some(self.chans[c].epoch) && !self.took => m.st = MS::Gone,
                        MS::Maybe => m.st = MS::MaybeDead,
                        _ => continue,
                    }
                    let (copies, mw) = (m.copies, before == MS::Accepted && m.bcast);
                    if copies > 0 {
                        self.stats[St::rule_drop_on_disconnect as usize] += 1;
                        self.fail(&["C16"], format!("message {i} ({before:?}, broadcast {mw}) is still alive ({copies}) after the last mailbox is gone"));
                    } else {
                        self.stats[St::rule_drop_on_disconnect as usize] += 1;
                    }
                }
            }
        }
        let d = std::mem::take(&mut self.dropped_now);
        for id in d {
            let m = &self.msgs[id as usize];
            let (c, st) = (m.chan, m.st);
            if m.bcast {
                if st == MS::Waiting && self.op != Op::DropSend(id) {
                    self.fail(&["C03", "C06", "C08"], format!("waiting broadcast {id} was discarded"));
                    self.msgs[id as usize].st = MS::Gone;
                } else if st == MS::Waiting || st == MS::New {
                    self.msgs[id as usize].st = MS::Gone;
                } else if st == MS::Accepted {
                    let left = self.msgs[id as usize].pending.clone();
                    let excuse: usize = left.iter().map(|&m| self.n_held_mb(m) + self.mbm[m as usize].slack).sum();
                    if left.len() > excuse {
                        self.fail(&["C06"], format!("broadcast {id} was discarded before mailboxes {left:?} handled it"));
                    }
                }
                continue;
            }
            match st {
                MS::New => self.msgs[id as usize].st = MS::Gone,
                MS::Waiting => {
                    self.msgs[id as usize].st = MS::Gone;
                    if self.op != Op::DropSend(id) {
                        self.fail(&["C01", "C03", "C08"], format!("message {id}, whose sender is waiting, was discarded"));
                    }
                }
                MS::Maybe if self.op == Op::DropSend(id) => self.msgs[id as usize].st = MS::Gone,
                MS::Accepted | MS::Maybe => {
                    self.msgs[id as usize].st = MS::Lost;
                    if self.op != Op::DropHeld {
                        let mut p = vec!["C01"];
                        if self.chans[c].faults > 0 {
                            p.push("C26");
                        }
                        self.fail(&p, format!("accepted message {id} was discarded without being handled"));
                    }
                }
                _ => {}
            }
        }
    }

    fn rules(&mut self) {
        // C03/C02: whatever is decided has woken its sender
        for i in 0..self.futs.len() {
            let f = &self.futs[i];
            if f.fut.is_none() {
                continue;
            }
            let id = match f.k {
                K::Send { id, .. } | K::Bcast { id } | K::Reply { id } => id,
                _ => continue,
            };
            if !f.polled() {
                continue;
            }
            let st = self.msgs[id as usize].st;
            let decided = match f.k {
                K::Reply { .. } => self.fate(id).is_some(),
                K::Send { detached: false, .. } => self.fate(id).is_some(),
                K::Send { detached: true, .. } | K::Bcast { .. } => st != MS::Waiting,
                _ => false,
            };
            if decided {
                self.bump(St::rule_resolved);
                if !self.futs[i].woken() {
                    let mut p = vec!["C03"];
                    if self.op == Op::Fault {
                        p.push("C26");
                    }
                    if st == MS::Done { p.push("C02"); }
                    self.fail(&p, format!("{:?} is decided ({st:?}) but still pending and not woken", self.futs[i].k));
                    self.futs[i].flag.as_ref().unwrap().woken.store(true, std::sync::atomic::Ordering::SeqCst);
                }
            }
        }
        // joins of dead channels are woken
        for i in 0..self.futs.len() {
            let f = &self.futs[i];
            if f.fut.is_none() || !f.polled() {
                continue;
            }
            if matches!(f.k, K::Join { .. } | K::Scoped { .. }) && !self.chans[f.chan].alive {
                self.bump(St::rule_join);
                if !self.futs[i].woken() {
                    self.fail(&["C14"], format!("{:?} is not woken although the last mailbox is gone", self.futs[i].k));
                    self.futs[i].flag.as_ref().unwrap().woken.store(true, std::sync::atomic::Ordering::SeqCst);
                }
            }
        }
        // C08: admission order
        for a in self.admitted.clone() {
            let (ap, aseq, ac, ab) = { let m = &self.msgs[a as usize]; (m.prio, m.seq, m.chan, m.bcast) };
            for w in self.waiting_before.clone() {
                let m = &self.msgs[w as usize];
                if m.st == MS::Waiting && m.chan == ac && m.bcast == ab {
                    self.stats[St::rule_admission as usize] += 1;
                    if m.prio > ap {
                        self.fail(&["C08"], format!("{a} (priority {ap}) was admitted before the more urgent waiting {w}"));
                    } else if m.prio == ap && ap == DEF && m.seq < aseq {
                        let p: &[&str] = if ab { &["C08"] } else { &["C08", "C04"] };
                        self.fail(p, format!("{a} was admitted before {w}, which has been waiting for longer at the same priority"));
                    }
                }
            }
        }
        for c in 0..self.chans.len() {
            if !self.chans[c].alive {
                continue;
            }
            // a join in a handler stops receiving once it has seen the request to stop
            let s0 = self.strong(c) == 0;
            for i in 0..self.futs.len() {
                let f = &mut self.futs[i];
                if f.chan != c || f.polled_step != self.step {
                    continue;
                }
                let mbx = f.mb();
                if let Some(s) = f.srv_mut() {
                    let must = mbx.map_or(false, |m| self.mbm[m as usize].may > 0);
                    if let Some(Frame::Sel { join: true, maybe_stopped, .. }) = s.stack.last_mut() {
                        if (must || s0) && !*maybe_stopped {
                            *maybe_stopped = true;
                            if s0 {
                                self.mbm[mbx.unwrap() as usize].may += 1;
                            }
                        }
                    }
                }
            }
            let (uhi, ulo, wp) = (self.u_hi(c), self.u_lo(c), self.wp(c, None));
            let (_blo, bhi) = self.maxb(c);
            let waiting_uni = self.msgs.iter().any(|m| m.chan == c && !m.bcast && m.st == MS::Waiting);
            let waiting_b = self.msgs.iter().any(|m| m.chan == c && m.bcast && m.st == MS::Waiting);
            let cap = self.chans[c].cap;
            if waiting_uni {
                self.bump(St::rule_waiting_justified);
                if cap.map_or(true, |cap| uhi < cap) {
                    self.fail(&["C08"], format!("a sender keeps waiting although only {uhi} messages are queued (capacity {cap:?})"));
                }
                if self.idle_exists(c) {
                    self.fail(&["C08"], format!("a sender keeps waiting although an actor is idle"));
                }
            }
            if waiting_b {
                self.bump(St::rule_waiting_justified);
                if cap.map_or(true, |cap| bhi < cap) {
                    self.fail(&["C08"], format!("a broadcast keeps waiting although the slowest mailbox has only {bhi} outstanding (capacity {cap:?})"));
                }
            }
            // idle receivers have nothing to do
            for i in 0..self.futs.len() {
                if self.futs[i].chan != c || !self.futs[i].idle() {
                    continue;
                }
                let mb = self.futs[i].mb().unwrap();
                let in_sel = self.futs[i].srv().map_or(false, |s| !s.stack.is_empty());
                let tag = |p: &[&'static str]| { let mut p = p.to_vec(); if in_sel { p.push("C15"); } p };
                self.bump(St::rule_idle_woken);
                if ulo > wp {
                    let p = tag(&["C01", "C09"]);
                    self.fail(&p, format!("a receive on mailbox {mb} stays idle and unwoken although {ulo} messages are available (at most {wp} handed to others)"));
                }
                if self.bpend_lo(mb) > 0 {
                    let p = tag(&["C06", "C09"]);
                    self.fail(&p, format!("a receive on mailbox {mb} stays idle and unwoken although it has an outstanding broadcast"));
                }
                if self.mbm[mb as usize].must && self.n_held_mb(mb) == 0 {
                    let mut p = tag(self.mbm[mb as usize].stop_props);
                    p.push("C09");
                    self.fail(&p, format!("a receive on mailbox {mb} stays idle and unwoken although the actor has to stop"));
                }
                if s0 {
                    let p = tag(&["C10", "C09"]);
                    self.fail(&p, format!("a receive on mailbox {mb} stays idle and unwoken although no strong handle exists"));
                }
            }
            // broadcasts completely handled are released
            for id in 0..self.msgs.len() {
                let m = &self.msgs[id];
                if m.chan == c && m.bcast && m.st == MS::Accepted && m.pending.is_empty() && m.copies > 0 {
                    let running = self.futs.iter().filter(|f| f.fut.is_some()).filter_map(|f| f.srv()).flat_map(|s| s.stack.iter()).filter(|fr| matches!(fr, Frame::Handler(x) if *x == id as u32)).count() as i64;
                    let copies = self.msgs[id].copies;
                    if copies > running && self.n_held(c) == 0 {
                        self.fail(&["C16"], format!("broadcast {id} has {copies} copies left after every mailbox handled it ({running} handlers running)"));
                    }
                }
            }
            let st = fnv(fnv(fnv(fnv(c as u64 ^ 0x9, (ulo as u64) << 8 | wp as u64), (bhi as u64) << 8 | cap.map_or(99, |c| c as u64)),
                (waiting_uni as u64) | (waiting_b as u64) << 1 | (s0 as u64) << 2 | (self.idle_exists(c) as u64) << 3),
                self.mbm.iter().filter(|m| m.chan == c && m.alive).map(|m| 1 + 8 * m.must as u64 + 64 * m.may as u64).sum());
            self.states.insert(st);
        }
    }

    // ---- operations
    fn mk_script(&mut self, mb_sel_ok: bool) -> Script {
        let gate = self.rng.chance(35);
        let act = match self.rng.below(100) {
            0..=2 => Do::StopSelf,
            3..=5 => Do::StopAll,
            6..=9 => Do::Panic,
            10..=15 if mb_sel_ok => Do::Select { adopt: self.rng.chance(60), panic: self.rng.chance(12) },
            16..=20 if mb_sel_ok => Do::Join { panic: self.rng.chance(12) },
            _ => Do::Nothing,
        };
        Script { gate, act }
    }

    fn mk_msg(&mut self, c: usize, bcast: bool) -> (Id, u32, Script, Cargo) {
        let id = self.msgs.len() as Id;
        let prio = match self.rng.below(10) {
            0..=4 => DEF,
            5 => 1,
            6 => 2,
            7 => 1 + self.rng.below(5) as u32,
            8 => u32::MAX,
            _ => DEF,
        };
        // select and join are only used where one actor owns its mailbox exclusively
        let script = self.mk_script(true);
        let cargo = if self.cfg.mode == Mode::Mixed && self.rng.chance(12) {
            let other = self.rng.below(self.chans.len());
            match self.rng.below(4) {
                0 | 1 => match self.strong_addr(c) {
                    Some(a) => { self.chans[c].cargo_strong += 1; Cargo::Strong(c, Some(a)) }
                    None => Cargo::None,
                },
                2 => match self.weak_addr(c) {
                    Some(a) => Cargo::WeakProbe(c, a),
                    None => Cargo::None,
                },
                // the other way round messages could own each other's mailboxes, a cycle made by the user
                _ if other > c => {
                    match self.mbs.iter().position(|(m, _)| self.mbm[*m as usize].chan == other) {
                        Some(p) if self.mbs.iter().filter(|(m, _)| self.mbm[*m as usize].chan == other).count() > 1 => {
                            let (m, x) = self.mbs.remove(p);
                            self.cargo_mbs.push(m);
                            Cargo::Mailbox(other, m, Some(x))
                        }
                        _ => Cargo::None,
                    }
                }
                _ => Cargo::None,
            }
        } else {
            Cargo::None
        };
        self.msgs.push(MsgM {
            chan: c, bcast, prio, seq: u32::MAX, st: MS::New, script, pending: vec![], exempt: false, may_be_handed: false,
            copies: 1, acc_step: 0, exit_actor: 0, dropped: false, polled_at: 0, refused: None,
        });
        (id, prio, script, cargo)
    }

    fn strong_addr(&mut self, c: usize) -> Option<Address<Act>> {
        self.handles.iter().find_map(|h| match &h.h {
            H::S(a) if h.chan == c => Some(a.clone()),
            _ => None,
        })
    }
    fn weak_addr(&mut self, c: usize) -> Option<WeakAddress<Act>> {
        self.mbs.iter().find(|(m, _)| self.mbm[*m as usize].chan == c).map(|(_, m)| m.address())
    }

    fn op_send(&mut self) {
        if self.handles.is_empty() || self.msgs.len() > 400 {
            return;
        }
        let hi = self.rng.below(self.handles.len());
        let c = self.handles[hi].chan;
        let attached = self.rng.chance(if self.chans[c].cap.is_none() { 50 } else { 12 });
        let (id, prio, script, cargo) = self.mk_msg(c, false);
        let set_prio = prio != DEF || self.rng.chance(30);
        let msg = Msg { id, script, tok: Tok { w: self.w.clone(), id, cargo } };
        let strong = self.handles[hi].strong;
        self.bump(St::sends);
        self.note(|| format!("send {id} prio {prio} attached {attached} script {script:?} via handle {hi} (chan {c}, strong {strong})"));
        let prio_first = self.rng.chance(50);
        let fut: BoxFut = each!(&self.handles[hi].h, a => {
            let mut f = a.send(msg);
            if attached {
                if set_prio { f = f.priority(prio); }
                Box::pin(f.map(Out::Reply))
            } else if prio_first {
                if set_prio { f = f.priority(prio); }
                Box::pin(f.detach().map(Out::Sent))
            } else {
                let mut f = f.detach();
                if set_prio { f = f.priority(prio); }
                Box::pin(f.map(Out::Sent))
            }
        });
        self.futs.push(FutObj { chan: c, k: K::Send { id, detached: !attached }, fut: Some(fut), flag: None, holds_strong: strong, grace: false, lazy: false, woken_before: false, polled_step: 0 });
        if self.rng.chance(85) {
            self.drive(self.futs.len() - 1);
        }
    }

    fn op_bcast(&mut self) {
        if self.cfg.mode != Mode::Mixed {
            return self.twin_bcast();
        }
        let v: Vec<usize> = (0..self.handles.len()).filter(|&i| matches!(self.handles[i].h, H::S(_) | H::W(_) | H::E(_))).collect();
        if v.is_empty() || self.msgs.len() > 400 {
            return;
        }
        let hi = *self.rng.pick(&v);
        let c = self.handles[hi].chan;
        let (id, prio, script, cargo) = self.mk_msg(c, true);
        let set_prio = prio != DEF || self.rng.chance(30);
        let msg = BMsg { id, script, tok: Tok { w: self.w.clone(), id, cargo } };
        let strong = self.handles[hi].strong;
        self.bump(St::broadcasts);
        self.note(|| format!("broadcast {id} prio {prio} script {script:?} via handle {hi} (chan {c})"));
        macro_rules! b { ($a:expr) => {{ let mut f = $a.broadcast(msg); if set_prio { f = f.priority(prio); } Box::pin(f.map(Out::Bcast)) as BoxFut }} }
        let fut = match &self.handles[hi].h {
            H::S(a) => b!(a),
            H::W(a) => b!(a),
            H::E(a) => b!(a),
            _ => unreachable!(),
        };
        self.futs.push(FutObj { chan: c, k: K::Bcast { id }, fut: Some(fut), flag: None, holds_strong: strong, grace: false, lazy: false, woken_before: false, polled_step: 0 });
        if self.rng.chance(85) {
            self.drive(self.futs.len() - 1);
        }
    }

    /// Channels cannot broadcast: both twins do it through a weak address of a mailbox.
    fn twin_bcast(&mut self) {
        if self.mbs.is_empty() || self.msgs.len() > 400 {
            return;
        }
        let p = self.rng.below(self.mbs.len());
        let m = self.mbs[p].0;
        let c = self.mbm[m as usize].chan;
        let (id, prio, script, _) = self.mk_msg(c, true);
        let msg = BMsg { id, script, tok: Tok { w: self.w.clone(), id, cargo: Cargo::None } };
        self.bump(St::broadcasts);
        self.note(|| format!("broadcast {id} prio {prio} script {script:?} via mailbox {m} (chan {c})"));
        let fut: BoxFut = Box::pin(self.mbs[p].1.address().broadcast(msg).priority(prio).map(Out::Bcast));
        self.futs.push(FutObj { chan: c, k: K::Bcast { id }, fut: Some(fut), flag: None, holds_strong: false, grace: false, lazy: false, woken_before: false, polled_step: 0 });
        if self.rng.chance(85) {
            self.drive(self.futs.len() - 1);
        }
    }

    fn op_handle(&mut self) {
        if self.handles.is_empty() {
            return;
        }
        let hi = self.rng.below(self.handles.len());
        let (c, strong) = (self.handles[hi].chan, self.handles[hi].strong);
        let k = self.rng.below(9);
        let many = self.handles.len() > 8;
        let conv = self.cfg.mode == Mode::Mixed;
        match k {
            0 | 1 if !many => {
                let h = match &self.handles[hi].h {
                    H::S(a) => H::S(a.clone()),
                    H::W(a) => H::W(a.clone()),
                    H::E(a) => H::E(a.clone()),
                    H::CS(a) => H::CS(a.clone()),
                    H::CW(a) => H::CW(a.clone()),
                    H::CE(a) => H::CE(a.clone()),
                };
                self.note(|| format!("clone handle {hi}"));
                self.handles.push(HObj { chan: c, strong, h });
            }
            2 if !many => {
                // downgrade
                let h = match &self.handles[hi].h {
                    H::S(a) => H::W(a.downgrade()),
                    H::E(a) => H::W(a.downgrade()),
                    H::CS(a) => H::CW(a.downgrade()),
                    H::CE(a) => H::CW(a.downgrade()),
                    _ => return,
                };
                self.note(|| format!("downgrade handle {hi}"));
                self.handles.push(HObj { chan: c, strong: false, h });
            }
            3 if !many => {
                let h = match &self.handles[hi].h {
                    H::S(a) => H::E(a.as_either()),
                    H::W(a) => H::E(a.as_either()),
                    H::E(a) => H::E(a.as_either()),
                    H::CS(a) => H::CE(a.as_either()),
                    H::CW(a) => H::CE(a.as_either()),
                    H::CE(a) => H::CE(a.as_either()),
                };
                self.note(|| format!("as_either of handle {hi}"));
                self.handles.push(HObj { chan: c, strong, h });
            }
            4 if conv => {
                // consuming conversion into a message channel
                let o = self.handles.remove(hi);
                self.note(|| format!("convert handle {hi} into a channel"));
                let h = match o.h {
                    H::S(a) => H::CS(if self.rng.chance(50) { MessageChannel::new(a) } else { a.into() }),
                    H::W(a) => H::CW(MessageChannel::new(a)),
                    H::E(a) => H::CE(a.into()),
                    x => x,
                };
                self.handles.push(HObj { chan: c, strong, h });
            }
            5 if conv && !many => {
                if let H::W(a) = &self.handles[hi].h {
                    let expect = self.strong(c) > 0;
                    let r = a.try_upgrade();
                    self.bump(St::rule_upgrade);
                    self.note(|| format!("try_upgrade handle {hi}: {}", r.is_some()));
                    if r.is_some() != expect {
                        self.fail(&["C10"], format!("try_upgrade gave {} although {} strong handles exist", r.is_some(), self.strong(c)));
                    }
                    if let Some(a) = r {
                        if expect {
                            self.handles.push(HObj { chan: c, strong: true, h: H::S(a) });
                        }
                    }
                }
            }
            6 if self.handles.len() > 1 || self.rng.chance(15) => {
                self.note(|| format!("drop handle {hi} (chan {c} strong {strong})"));
                let o = self.handles.remove(hi);
                drop(o);
            }
            7 if !many => {
                if let Some((m, mb)) = self.mbs.iter().find(|(m, _)| self.mbm[*m as usize].chan == c) {
                    let a = mb.address();
                    let m = *m;
                    self.note(|| format!("weak address of mailbox {m}"));
                    let h = if self.cfg.mode == Mode::ChanOnly { H::CW(MessageChannel::new(a)) } else { H::W(a) };
                    self.handles.push(HObj { chan: c, strong: false, h });
                }
            }
            _ => self.query(hi),
        }
    }

    fn query(&mut self, hi: usize) {
        let c = self.handles[hi].chan;
        let h = &self.handles[hi].h;
        let (conn, len, empty, cap, dbg) = each!(h, a => (a.is_connected(), a.len(), a.is_empty(), a.capacity(), format!("{a:?}")));
        let via = if matches!(h, H::CS(_) | H::CW(_) | H::CE(_)) { "channel" } else { "address" };
        self.bump(St::rule_connected);
        self.note(|| format!("query handle {hi}: connected {conn} len {len} cap {cap:?} {dbg}"));
        let e = self.connected(c);
        let s = self.strong(c);
        if conn != e {
            self.fail(&["C13"], format!("is_connected ({via}) is {conn} with {s} strong handles and mailboxes present: {}", self.chan_has_mb(c)));
        }
        if cap != self.chans[c].cap {
            self.fail(&["C20"], format!("capacity ({via}) reported as {cap:?}, configured {:?}", self.chans[c].cap));
        }
        if empty != (len == 0) {
            self.fail(&["C20"], format!("is_empty ({via}) is {empty} with length {len}"));
        }
        self.observe(fnv(len as u64, conn as u64 | (cap.map_or(99, |c| c as u64)) << 8));
        self.bump(St::rule_len);
        if !self.chans[c].alive {
            if len != 0 {
                self.fail(&["C20"], format!("length ({via}) is {len} after the last mailbox is gone"));
            }
        } else {
            let (lo, hi_) = self.maxb(c);
            let low = self.u_lo(c).saturating_sub(self.wp(c, None)) + lo;
            let high = self.u_hi(c) + hi_;
            if len < low || len > high {
                self.fail(&["C20"], format!("length ({via}) is {len}, expected between {low} and {high}"));
            }
        }
        // handle counts of the debug output
        let mut exact = true;
        let mut r = self.mbs.iter().filter(|(m, _)| self.mbm[*m as usize].chan == c).count()
            + self.held.iter().filter(|h| h.0 == c).count()
            + self.cargo_mbs.iter().filter(|m| self.mbm[**m as usize].chan == c).count();
        for f in &self.futs {
            if f.chan != c || f.fut.is_none() {
                continue;
            }
            match &f.k {
                K::Recv { .. } => r += 1,
                K::Run(s) | K::Disp(s) => {
                    if s.stack.iter().any(|f| matches!(f, Frame::Sel { maybe_stopped: true, .. })) {
                        exact = false;
                    }
                    r += s.stack.iter().filter(|f| matches!(f, Frame::Handler(_))).count();
                    if matches!(f.k, K::Run(_)) {
                        r += 1;
                    }
                    if f.recv_out() {
                        r += 1;
                    }
                }
                _ => {}
            }
        }
        let (a, m) = parse_debug(&dbg);
        self.observe(fnv(a.unwrap_or(77), m.unwrap_or(77)));
        if exact {
            self.bump(St::rule_debug_counts);
            if a != Some(s as u64) || m != Some(r as u64) {
                self.fail(&["C20"], format!("debug output {dbg} but there are {s} strong handles and {r} mailboxes/receives"));
            }
        }
        if !dbg.contains("Act") {
            self.fail(&["C20"], format!("debug output {dbg} does not name the actor"));
        }
    }

    fn op_mailbox(&mut self) {
        if self.mbs.is_empty() {
            return;
        }
        let p = self.rng.below(self.mbs.len());
        let m = self.mbs[p].0;
        let c = self.mbm[m as usize].chan;
        match self.rng.below(4) {
            0 | 1 if self.mbs.len() < 5 => {
                let n = self.mbs[p].1.clone();
                self.mbm.push(MbM { chan: c, alive: true, must: false, may: 0, slack: 0, stop_props: &[] });
                let id = self.mbm.len() as u32 - 1;
                self.note(|| format!("clone mailbox {m} -> {id}"));
                self.mbs.push((id, n));
            }
            2 if self.mbs.len() > 1 || self.rng.chance(12) => {
                self.note(|| format!("drop mailbox {m}"));
                let o = self.mbs.remove(p);
                drop(o);
            }
            3 => {
                // hand it to the event loop
                if self.futs.iter().filter(|f| f.fut.is_some() && matches!(f.k, K::Run(_))).count() >= 4 {
                    return;
                }
                let (m, mb) = self.mbs.remove(p);
                let id = self.next_actor;
                self.next_actor += 1;
                self.actors_live += 1;
                self.bump(St::run_actors);
                let start = match self.rng.below(10) {
                    0 => Start::Fail,
                    1 => Start::Gate,
                    2 => if self.rng.chance(50) { Start::GateFail } else { Start::Gate },
                    _ => Start::Ok,
                };
                self.note(|| format!("run actor {id} ({start:?}) on mailbox {m}"));
                let exclusive = !self.held.iter().any(|h| h.1 == m) && !self.futs.iter().any(|f| f.fut.is_some() && f.mb() == Some(m));
                let lingers = self.rng.chance(20);
                let act = Act { id, w: self.w.clone(), start, lingers, exclusive };
                let fut = xtra::run(mb, act).map(Out::Run);
                let srv = Srv { actor: id, mb: m, stack: vec![], start, looping: false, entered: 0, started: 0, stopped: 0, exit_stop: false, dropped: 0 };
                self.futs.push(FutObj { chan: c, k: K::Run(srv), fut: Some(Box::pin(fut)), flag: None, holds_strong: false, grace: false, lazy: false, woken_before: false, polled_step: 0 });
                if self.rng.chance(80) {
                    self.drive(self.futs.len() - 1);
                }
            }
            _ => {}
        }
    }

    fn op_recv(&mut self) {
        if self.mbs.is_empty() {
            return;
        }
        let p = self.rng.below(self.mbs.len());
        let m = self.mbs[p].0;
        let c = self.mbm[m as usize].chan;
        if self.futs.iter().filter(|f| f.fut.is_some() && matches!(f.k, K::Recv { .. })).count() > 6 {
            return;
        }
        let f = self.mbs[p].1.next();
        self.note(|| format!("next() on mailbox {m}"));
        self.futs.push(FutObj { chan: c, k: K::Recv { mb: m }, fut: Some(Box::pin(Fz(f).map(held_of!()))), flag: None, holds_strong: false, grace: false, lazy: false, woken_before: false, polled_step: 0 });
        if self.rng.chance(92) {
            self.drive(self.futs.len() - 1);
        }
    }

    fn op_poll(&mut self) {
        let v: Vec<usize> = (0..self.futs.len()).filter(|&i| self.futs[i].fut.is_some()).collect();
        if v.is_empty() {
            return;
        }
        let w: Vec<usize> = v.iter().copied().filter(|&i| self.futs[i].woken() || !self.futs[i].polled()).collect();
        let i = if !w.is_empty() && self.rng.chance(85) { *self.rng.pick(&w) } else { *self.rng.pick(&v) };
        self.drive(i);
    }

    fn op_drop_fut(&mut self) {
        let v: Vec<usize> = (0..self.futs.len()).filter(|&i| self.futs[i].fut.is_some()).collect();
        if v.is_empty() {
            return;
        }
        let i = *self.rng.pick(&v);
        if matches!(self.futs[i].k, K::Run(_)) && !self.rng.chance(25) {
            return;
        }
        self.drop_fut(i);
    }

    /// A receive future goes away: a message it had been handed goes back, possibly out of order.
    fn handed_back(&mut self, c: usize) {
        self.bump(St::dropped_woken_receives);
        for m in &mut self.msgs {
            if m.chan == c && !m.bcast && m.may_be_handed && matches!(m.st, MS::Accepted | MS::Maybe) {
                m.exempt = true;
            }
        }
    }

    fn drop_fut(&mut self, i: usize) {
        let k = self.futs[i].k.clone();
        let (polled, woken, recv) = (self.futs[i].polled(), self.futs[i].woken(), self.futs[i].recv_out());
        let c = self.futs[i].chan;
        self.note(|| format!("drop fut {i} {k:?} (polled {polled} woken {woken})"));
        match &k {
            K::Send { id, .. } | K::Bcast { id } => self.op = Op::DropSend(*id),
            K::Recv { .. } => {
                self.op = Op::DropRecv(woken);
                self.bump(St::dropped_receives);
            }
            K::Disp(_) | K::Run(_) => {
                self.op = Op::Fault;
                self.chans[c].faults += 1;
            }
            _ => {}
        }
        if (recv && woken) || self.futs[i].maybe_recv() {
            self.handed_back(c);
        }
        self.cur = Some(i);
        let f = self.futs[i].fut.take();
        self.futs[i].holds_strong = false;
        let r = catch_unwind(AssertUnwindSafe(|| drop(f)));
        if let Err(p) = r {
            let t = panic_text(p);
            self.fail(&["ANY"], format!("unexpected panic while dropping {k:?}: {t}"));
        }
        self.process_events();
        self.cur = None;
        if let K::Send { id, .. } | K::Bcast { id } = k {
            self.bump(St::rule_abandoned_send);
            let m = &mut self.msgs[id as usize];
            if m.st == MS::Maybe && !m.dropped {
                m.st = MS::Accepted; // a waiting message would have been dropped along with its sender
            } else if matches!(m.st, MS::New | MS::Waiting) && !m.dropped {
                self.fail(&["C16"], format!("message {id} outlives its abandoned sender although it was not accepted"));
                self.msgs[id as usize].st = MS::Gone;
            }
        }
    }

    fn op_gate(&mut self) {
        let g = self.w.closed_gates();
        if g.is_empty() {
            return;
        }
        let k = *self.rng.pick(&g);
        self.note(|| format!("open gate {k:?}"));
        self.w.open_gate(k);
        // usually let the task run
        if self.rng.chance(60) {
            self.op_poll();
        }
    }

    fn op_held(&mut self) {
        if self.held.is_empty() {
            return;
        }
        let p = self.rng.below(self.held.len());
        let (c, mb, m) = self.held.remove(p);
        if self.rng.chance(70) {
            self.dispatch(c, mb, m, true, true);
        } else {
            self.note(|| format!("drop received message of mailbox {mb} undispatched"));
            self.op = Op::DropHeld;
            // if it is a broadcast, nobody can tell
            let before = self.u_acc(c);
            drop(m);
            self.process_events();
            // (what it carried may have brought down another channel, with messages of its own)
            let took_uni = self.dropped_now.iter().any(|&id| !self.msgs[id as usize].bcast && self.msgs[id as usize].chan == c);
            if !took_uni {
                self.mbm[mb as usize].slack += 1;
            }
            let _ = before;
        }
    }

    fn op_join(&mut self) {
        if self.handles.is_empty() || self.futs.iter().filter(|f| f.fut.is_some() && matches!(f.k, K::Join { .. } | K::Scoped { .. })).count() > 4 {
            return;
        }
        let hi = self.rng.below(self.handles.len());
        let c = self.handles[hi].chan;
        let connected = self.connected(c);
        let scoped = self.rng.chance(40) && self.cfg.mode == Mode::Mixed;
        let sid = self.next_sid;
        self.next_sid += 1;
        let w = self.w.clone();
        let inner = async move {
            ScopedInner { g: GateFut { w: w.clone(), k: (sid, 3) }, w, sid }.await
        };
        macro_rules! sc { ($a:expr) => { (Box::pin(xtra::scoped($a, inner).map(Out::Scoped)) as BoxFut, K::Scoped { sid, connected }) } }
        let (fut, k) = match &self.handles[hi].h {
            H::S(a) if scoped => sc!(a),
            H::W(a) if scoped => sc!(a),
            H::E(a) if scoped => sc!(a),
            h => (each!(h, a => Box::pin(a.join().map(|()| Out::Join)) as BoxFut), K::Join { connected }),
        };
        self.note(|| format!("{k:?} via handle {hi}"));
        self.futs.push(FutObj { chan: c, k, fut: Some(fut), flag: None, holds_strong: false, grace: false, lazy: false, woken_before: false, polled_step: 0 });
        if self.rng.chance(80) {
            self.drive(self.futs.len() - 1);
        }
    }

    pub fn run(&mut self) {
        self.bump(St::episodes);
        let profile = self.rng.below(5);
        let w: [u32; 10] = match profile {
            0 => [30, 8, 8, 8, 16, 24, 6, 8, 3, 3],
            1 => [40, 4, 4, 4, 20, 20, 4, 4, 2, 2],
            2 => [20, 24, 4, 10, 16, 20, 5, 6, 2, 3],
            3 => [22, 4, 16, 12, 14, 14, 12, 6, 4, 8],
            _ => [24, 8, 4, 14, 4, 36, 4, 18, 2, 3],
        };
        for _ in 0..self.cfg.ops {
            self.begin_op();
            self.bump(St::ops);
            match self.rng.weighted(&w) {
                0 => self.op_send(),
                1 => self.op_bcast(),
                2 => self.op_handle(),
                3 => self.op_mailbox(),
                4 => self.op_recv(),
                5 => self.op_poll(),
                6 => self.op_drop_fut(),
                7 => self.op_gate(),
                8 => self.op_held(),
                _ => self.op_join(),
            }
            self.end_op();
            if !self.viol.is_empty() {
                return;
            }
        }
        if self.rng.chance(75) {
            self.drain();
        }
        if self.viol.is_empty() {
            self.teardown();
        }
    }

    fn one(&mut self, f: impl FnOnce(&mut Self)) {
        self.begin_op();
        f(self);
        self.end_op();
    }

    /// Serve everything that is still there until nothing is left to do.
    fn drain(&mut self) {
        self.note(|| "drain".into());
        self.free_gates = true;
        self.one(|s| s.w.open_all());
        for _ in 0..60 {
            let v: Vec<usize> = (0..self.futs.len()).filter(|&i| self.futs[i].fut.is_some() && (self.futs[i].woken() || !self.futs[i].polled())).collect();
            if v.is_empty() {
                break;
            }
            for i in v {
                if i < self.futs.len() && self.futs[i].fut.is_some() {
                    self.begin_op();
                    self.drive(i);
                    self.process_events();
                    self.sweep();
                    self.end_op_keep();
                    if !self.viol.is_empty() {
                        return;
                    }
                }
            }
            while !self.held.is_empty() {
                self.one(|s| {
                    let (c, mb, m) = s.held.remove(0);
                    s.dispatch(c, mb, m, true, true);
                });
                if !self.viol.is_empty() {
                    return;
                }
            }
        }
        let mbs: Vec<u32> = self.mbs.iter().map(|m| m.0).collect();
        for m in mbs {
            for _ in 0..400 {
                self.begin_op();
                let p = self.mbs.iter().position(|x| x.0 == m).unwrap();
                let c = self.mbm[m as usize].chan;
                let f = self.mbs[p].1.next();
                self.note(|| format!("drain next() on mailbox {m}"));
                self.futs.push(FutObj { chan: c, k: K::Recv { mb: m }, fut: Some(Box::pin(Fz(f).map(held_of!()))), flag: None, holds_strong: false, grace: false, lazy: false, woken_before: false, polled_step: 0 });
                let i = self.futs.len() - 1;
                self.drive(i);
                let pending = self.futs[i].fut.is_some();
                self.end_op_keep();
                if !self.viol.is_empty() {
                    return;
                }
                while !self.held.is_empty() {
                    self.one(|s| {
                        let (c, mb, m) = s.held.remove(0);
                        s.dispatch(c, mb, m, true, true);
                    });
                }
                // stop once it is pending or tells us to stop for lack of addresses
                let natural = self.strong(c) == 0 && self.u_hi(c) == 0 && self.bpend(m) == 0 && self.mbm[m as usize].may == 0;
                if pending || natural {
                    break;
                }
            }
        }
        for id in 0..self.msgs.len() {
            let m = &self.msgs[id];
            if !self.chans[m.chan].alive || !self.mbs.iter().any(|x| self.mbm[x.0 as usize].chan == m.chan) {
                continue;
            }
            self.stats[St::rule_drain as usize] += 1;
            let m = &self.msgs[id];
            if !m.bcast && m.st == MS::Accepted && self.wp(m.chan, None) == 0 {
                let mut p = vec!["C01"];
                if self.chans[m.chan].faults > 0 {
                    p.push("C26");
                }
                self.fail(&p, format!("accepted message {id} is still unhandled after every mailbox has been served"));
            }
        }
    }

    fn end_op_keep(&mut self) {
        let keep = self.futs.len();
        self.process_events();
        self.sweep();
        let _ = keep;
        // like end_op, but without compaction (indices stay valid)
        loop {
            let mut any = false;
            let mut i = 0;
            while i < self.futs.len() {
                if self.futs[i].fut.is_some() && self.futs[i].polled() && self.futs[i].woken() && matches!(self.futs[i].k, K::Send { .. } | K::Bcast { .. } | K::Reply { .. }) {
                    self.drive(i);
                    any = true;
                }
                i += 1;
            }
            self.process_events();
            self.sweep();
            if !any {
                break;
            }
        }
        self.rules();
    }

    fn teardown(&mut self) {
        self.note(|| "teardown".into());
        loop {
            if !self.viol.is_empty() {
                return;
            }
            let nf: Vec<usize> = (0..self.futs.len()).filter(|&i| self.futs[i].fut.is_some()).collect();
            let total = nf.len() + self.mbs.len() + self.handles.len() + self.held.len();
            if total == 0 {
                break;
            }
            let x = self.rng.below(total);
            self.begin_op();
            if x < nf.len() {
                self.drop_fut(nf[x]);
            } else if x < nf.len() + self.mbs.len() {
                let p = x - nf.len();
                let o = self.mbs.remove(p);
                self.note(|| format!("drop mailbox {}", o.0));
                drop(o);
            } else if x < nf.len() + self.mbs.len() + self.handles.len() {
                let p = x - nf.len() - self.mbs.len();
                let o = self.handles.remove(p);
                self.note(|| format!("drop handle {p} (chan {})", o.chan));
                drop(o);
            } else {
                let (_, mb, m) = self.held.remove(0);
                self.op = Op::DropHeld;
                self.mbm[mb as usize].slack += 1;
                drop(m);
            }
            self.end_op();
        }
        self.process_events();
        for id in 0..self.msgs.len() {
            self.stats[St::rule_leak_end as usize] += 1;
            if self.msgs[id].copies != 0 {
                let (st, n) = (self.msgs[id].st, self.msgs[id].copies);
                self.fail(&["C16"], format!("{n} copies of message {id} ({st:?}) were never dropped"));
            }
        }
        if self.actors_live != 0 {
            self.fail(&["C16"], format!("{} actors were never dropped", self.actors_live));
        }
        if self.replies_live != 0 {
            self.fail(&["C16"], format!("{} replies were never dropped", self.replies_live));
        }
    }
}

impl Sim {
    pub fn finish(self) -> (Vec<(Vec<&'static str>, String)>, String, Vec<(&'static str, u64)>, Vec<u64>) {
        let v = self.viol.into_iter().map(|v| (v.props, v.what)).collect();
        let st = STAT_NAMES.iter().copied().zip(self.stats.iter().copied()).collect();
        (v, self.trace.unwrap_or_default(), st, self.states.into_iter().collect())
    }
}

/// The same random program through addresses and through message channels.
pub fn twin(seed: u64, trace: bool, ops: usize) -> crate::drv::Report {
    let run = |mode, trace| {
        let mut s = Sim::new(seed, Cfg { mode, trace, ops, miri: cfg!(miri) });
        s.run();
        s
    };
    let a = run(Mode::AddrOnly, trace);
    let b = run(Mode::ChanOnly, trace);
    let differs = a.obs != b.obs || a.obs_events != b.obs_events || a.viol.is_empty() != b.viol.is_empty();
    let mut viol = vec![];
    if differs {
        let what = match (a.viol.first(), b.viol.first()) {
            (Some(v), None) => format!("only the address misbehaves: {}", v.what),
            (None, Some(v)) => format!("only the message channel misbehaves: {}", v.what),
            _ => "the same operations have different observable effects through an address and through a message channel".into(),
        };
        viol.push((vec!["C19"], what));
    }
    let n = a.stats[St::twin_observations as usize];
    let mut text = String::new();
    if trace {
        let (ta, tb) = (a.trace.unwrap_or_default(), b.trace.unwrap_or_default());
        let first = ta.lines().zip(tb.lines()).position(|(x, y)| x != y);
        let _ = writeln!(text, "first difference at line {first:?}\n==== address\n{ta}\n==== message channel\n{tb}");
    }
    let mut stats: Vec<_> = STAT_NAMES.iter().copied().zip(b.stats.iter().copied()).collect();
    stats.push(("compared_observations", n));
    crate::drv::Report { viol, trace: text, stats, states: b.states.into_iter().collect(), sched: None }
}

struct ScopedInner {
    g: GateFut,
    w: Arc<World>,
    sid: Id,
}
impl Future for ScopedInner {
    type Output = u32;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<u32> {
        self.w.log(Ev::ScopedPoll(self.sid));
        Pin::new(&mut self.g).poll(cx)
    }
}

fn gate_open(w: &World, actor: Id) -> bool {
    gate_open_k(w, (actor, 7))
}
fn gate_open_k(w: &World, k: (Id, u8)) -> bool {
    w.is_open(k)
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

/// The numbers following "addresses" and "mailboxes".
pub fn parse_debug(s: &str) -> (Option<u64>, Option<u64>) {
    let num = |k: &str| -> Option<u64> {
        let p = s.find(k)? + k.len();
        let t: String = s[p..].chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
        t.parse().ok()
    };
    (num("addresses"), num("mailboxes"))
}
