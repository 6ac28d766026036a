//! Small random concurrent programs over one actor address, and offline checkers over the log of
//! everything observable that happened in them. The same programs run under the baton scheduler
//! (`rt::run_baton`) and with real parallelism (`rt::run_native`).
use std::cell::Cell;
use std::fmt::Write as _;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::task::Poll;

use futures_util::future::Either as FEither;
use xtra::prelude::*;
use xtra::refcount::{Either, Strong, Weak};
use xtra::{Error, Receiver, WeakAddress};

use crate::rng::Rng;
use crate::rt::{self, block_on, poll_once, step, Wait, YieldFut};
use crate::world::SimPanic;

pub type Id = u32;

thread_local! {
    static TID: Cell<usize> = const { Cell::new(0) };
    /// This thread is dropping the future of an actor, handlers included.
    static LETTING_GO: Cell<bool> = const { Cell::new(false) };
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bad {
    Interrupted,
    Disconnected,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum E {
    SendCall { id: Id, hid: Option<u32>, attached: bool },
    BcCall { id: Id, hid: Option<u32> },
    Polled { id: Id },
    Res { id: Id, ok: bool },
    Reply { id: Id, r: Result<u32, Bad> },
    Abandon { id: Id },
    Recv { srv: u32 },
    Cancel { srv: u32 },
    Started { srv: u32 },
    Enter { srv: u32, id: Id },
    Exit { srv: u32, id: Id, stop: bool },
    /// a handler ended early; `why` if a panic or the drop of the actor's future explains it
    Intr { srv: u32, id: Id, why: bool },
    SelEnter { srv: u32, id: Id },
    SelDone { srv: u32, id: Id, left: bool, ok: bool },
    StopAllCall { srv: u32 },
    StopAllRet { srv: u32 },
    Stopped { srv: u32 },
    Told { srv: u32 },
    Returned { srv: u32, who: u32, stopped: bool },
    ActorDrop { srv: u32 },
    Leave { srv: u32 },
    /// Nothing but this thread could run: the length, somebody waiting for space, an idle actor.
    Quiet { srv: u32, len: usize, send: Option<Id>, idle: Option<u32> },
    Kill { srv: u32 },
    Panicking { srv: u32 },
    End { srv: u32 },
    MbNew { srv: u32 },
    MbBorn { srv: u32 },
    TokDrop { id: Id },
    TokClone { id: Id },
    ReplyDrop { id: Id },
    CargoDrop { hid: u32 },
    StrongNew { hid: u32 },
    StrongDrop { hid: u32 },
    Upgrade { some: bool },
    /// from here on a strong handle `hid` may exist (a weak one is being upgraded), until its CargoDrop
    StrongMay { hid: u32 },
    UpgradeCall,
    ConnCall,
    Conn { r: bool, cap: Option<usize> },
    JoinCall { scoped: bool },
    JoinRes { r: Option<u32>, scoped: bool },
    ScopedPoll,
}

pub struct Log {
    seq: AtomicU64,
    bufs: Vec<Mutex<Vec<(u64, E)>>>,
}
impl Log {
    fn new(n: usize) -> Arc<Log> {
        Arc::new(Log { seq: AtomicU64::new(1), bufs: (0..n).map(|_| Mutex::new(vec![])).collect() })
    }
    /// The sequence number comes from a relaxed counter and each buffer is only used by its own
    /// thread: recording does not order the threads, so it hides no race.
    fn put(&self, e: E) -> u64 {
        let s = self.seq.fetch_add(1, Relaxed);
        let t = TID.try_with(|t| t.get()).unwrap_or(0);
        self.bufs[t].lock().unwrap_or_else(|e| e.into_inner()).push((s, e));
        s
    }
    fn all(&self) -> Vec<(u64, usize, E)> {
        let mut v = vec![];
        for (t, b) in self.bufs.iter().enumerate() {
            v.extend(b.lock().unwrap_or_else(|e| e.into_inner()).iter().map(|(s, e)| (*s, t, *e)));
        }
        v.sort_by_key(|x| x.0);
        v
    }
}

// ------------------------------------------------------------------ plan
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Do {
    Nothing,
    StopSelf,
    StopAll,
    Panic,
    Select(u32),
    Join(u32),
    Sub { id: Id, prio: u32, bcast: bool },
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CargoP {
    None,
    Strong,
    Weak,
    Pending(Id),
}
#[derive(Clone, Debug)]
pub struct MsgP {
    id: Id,
    prio: u32,
    yields: u32,
    act: Do,
    cargo: CargoP,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum How {
    Attached,
    DetachAwait,
    DetachForget,
    Abandon(u32, bool),
}
#[derive(Clone, Debug)]
pub enum Op {
    Send { h: usize, m: MsgP, how: How },
    Multi { h: usize, v: Vec<(MsgP, bool)>, leave: usize },
    Bcast { h: usize, m: MsgP, abandon: Option<u32> },
    MultiBcast { h: usize, v: Vec<MsgP>, leave: usize },
    Clone(usize),
    Drop(usize),
    Downgrade(usize),
    Either(usize),
    Channel(usize),
    Upgrade(usize),
    Query(usize),
    Steps(u32),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum StartK {
    Ok,
    Yield(u32),
    Fail,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Style {
    Run(StartK),
    RunKill(u32),
    Loop { cancel: usize, interrupt: usize, limit: Option<u32>, mixed: bool, sleepy: usize },
    Sel,
}
#[derive(Clone, Debug)]
pub enum Role {
    Server(Style),
    Late { steps: u32, style: Style },
    Dropper { steps: u32 },
    Client { strong: usize, weak: usize, ops: Vec<Op> },
    Watch { scoped: bool, yields: u32 },
}
#[derive(Clone, Debug)]
pub struct Plan {
    pub cap: Option<usize>,
    pub main_early: bool,
    pub protected: Option<usize>,
    /// there may be stop notices
    pub odd: bool,
    pub roles: Vec<Role>,
    pub msgs: Vec<(u32, bool, bool)>, // priority, broadcast, sent from within a handler
}

struct Gen {
    r: Rng,
    msgs: Vec<(u32, bool, bool)>,
    prop: String,
    faults: bool,
    stopall: bool,
    stopself: bool,
    nested: bool,
    prios: bool,
    cargo: bool,
    bc: u32,
}
impl Gen {
    fn is(&self, p: &str) -> bool {
        self.prop == p
    }
    fn msg(&mut self, bcast: bool) -> MsgP {
        let prio = if self.prios { *self.r.pick(&[0, 0, 0, 1, 2, 5, u32::MAX]) } else { 0 };
        let id = self.msgs.len() as Id;
        self.msgs.push((prio, bcast, false));
        let r = self.r.below(100);
        let act = match r {
            0..=6 if self.stopall => Do::StopAll,
            7..=14 if self.stopself => Do::StopSelf,
            15..=21 if self.faults => Do::Panic,
            22..=31 if self.nested => Do::Select(self.r.below(4) as u32),
            32..=41 if self.nested => Do::Join(self.r.below(4) as u32),
            42..=46 if !bcast => {
                let p = *self.r.pick(&[0, 0, 3]);
                let b = self.r.below(100) < self.bc as usize;
                let id = self.msgs.len() as Id;
                self.msgs.push((p, b, true));
                Do::Sub { id, prio: p, bcast: b }
            }
            _ => Do::Nothing,
        };
        let cargo = if !self.cargo {
            CargoP::None
        } else {
            match self.r.below(12) {
                0 | 1 => CargoP::Strong,
                2 | 4 | 5 => CargoP::Weak,
                3 if !bcast => {
                    let id = self.msgs.len() as Id;
                    self.msgs.push((0, false, true));
                    CargoP::Pending(id)
                }
                _ => CargoP::None,
            }
        };
        MsgP { id, prio, yields: if self.r.chance(30) { self.r.below(3) as u32 } else { 0 }, act, cargo }
    }
    fn style(&mut self, protected: bool) -> Style {
        let cancel = if self.r.chance(if self.is("C09") { 85 } else { 35 }) { 30 + self.r.below(60) } else { 0 };
        let mixed = self.r.chance(30);
        let sleepy = if self.r.chance(if self.is("C08") || self.is("C20") || self.is("C09") { 60 } else { 20 }) { 20 + self.r.below(70) } else { 0 };
        if protected {
            return match self.r.below(10) {
                0..=3 => Style::Run(if self.r.chance(30) { StartK::Yield(2) } else { StartK::Ok }),
                4..=8 => Style::Loop { cancel, interrupt: 0, limit: None, mixed, sleepy },
                _ => Style::Sel,
            };
        }
        match self.r.below(12) {
            0..=3 => Style::Run(*self.r.pick(&[StartK::Ok, StartK::Ok, StartK::Yield(1), StartK::Fail])),
            4 if self.faults => Style::RunKill(1 + self.r.below(12) as u32),
            4..=9 => {
                let interrupt = if self.faults && self.r.chance(50) { 30 } else { 0 };
                let limit = if self.r.chance(if self.is("C03") || self.is("C16") { 60 } else { 25 }) { Some(self.r.below(4) as u32) } else { None };
                Style::Loop { cancel, interrupt, limit, mixed, sleepy }
            }
            _ => Style::Sel,
        }
    }
}

pub fn plan(seed: u64, prop: &str, small: bool) -> Plan {
    let mut r = Rng::new(seed ^ 0x9a11);
    let focus = r.chance(75) && prop != "ALL";
    let p = if focus { prop.to_string() } else { "ALL".to_string() };
    let f = |x: &[&str]| x.contains(&p.as_str());
    let mut g = Gen {
        faults: r.chance(if f(&["C26", "C02"]) { 80 } else if f(&["C04", "C05", "C07", "C08", "C06", "C10", "C11"]) { 8 } else { 25 }),
        stopall: r.chance(if f(&["C11"]) { 100 } else if f(&["C15", "C12"]) { 40 } else { 12 }),
        stopself: r.chance(if f(&["C12", "C15"]) { 60 } else if f(&["C04", "C05", "C07", "C08", "C06", "C10"]) { 5 } else { 15 }),
        nested: r.chance(if f(&["C15"]) { 100 } else if f(&["C11", "C12", "C09"]) { 35 } else { 15 }),
        prios: r.chance(if f(&["C05"]) { 95 } else if f(&["C04"]) { 20 } else { 45 }),
        cargo: r.chance(if f(&["C17", "C16"]) { 80 } else { 20 }),
        bc: if f(&["C06"]) { 60 } else if f(&["C04"]) { 5 } else if f(&["C08", "C07", "C11", "C09"]) { 35 } else { *r.pick(&[0, 15, 15, 40]) },
        prop: p.clone(),
        msgs: vec![],
        r: r.clone(),
    };
    g.r.next();
    let cap: Option<usize> = match g.r.below(10) {
        0..=3 if !f(&["C07", "C08"]) => None,
        9 => Some(2),
        8 => Some(0),
        7 => Some(3),
        _ => Some(1),
    };
    if cap == Some(0) {
        g.bc = 0; // no broadcast is ever accepted
    }
    let mut roles = vec![];
    let protected;
    let n_srv = match g.r.below(10) {
        0 if !f(&["C04", "C05", "C11", "C12", "C15", "C26"]) => 0,
        1..=5 => 1,
        6..=8 => 2,
        _ => 3,
    };
    if n_srv > 0 && g.r.chance(70) {
        protected = Some(0);
    } else {
        protected = None;
    }
    for k in 0..n_srv {
        let s = g.style(protected == Some(k));
        roles.push(Role::Server(s));
    }
    if n_srv == 0 || g.r.chance(if f(&["C03", "C13", "C14"]) { 50 } else { 20 }) {
        roles.push(Role::Dropper { steps: g.r.below(16) as u32 });
    }
    if g.r.chance(if f(&["C06", "C11"]) { 50 } else { 15 }) {
        let style = g.style(false);
        roles.push(Role::Late { steps: g.r.below(16) as u32, style });
    }
    let n_cl = 1 + g.r.below(if small { 2 } else { 3 });
    for _ in 0..n_cl {
        let strong = if g.r.chance(75) { 1 } else { 0 };
        let weak = if strong == 0 || g.r.chance(if f(&["C10"]) { 60 } else { 30 }) { 1 } else { 0 };
        let n = 1 + g.r.below(if small { 3 } else { 4 });
        let mut ops = vec![];
        for _ in 0..n {
            let h = g.r.below(4);
            let sends = 100 - g.bc as usize;
            let few = f(&["C10"]) && g.r.chance(50);
            let op = match if few { *g.r.pick(&[63, 68, 68, 85, 85, 90, 97]) } else { g.r.below(100) } {
                0..=61 => {
                    if g.r.below(100) < sends {
                        if g.r.chance(35) {
                            let v = (0..2 + g.r.below(3)).map(|_| { let m = g.msg(false); (m, g.r.chance(25)) }).collect();
                            let leave = if g.r.chance(if f(&["C17", "C16", "C08", "C01"]) { 40 } else { 10 }) { 1 + g.r.below(2) } else { 0 };
                            Op::Multi { h, v, leave }
                        } else {
                            let m = g.msg(false);
                            let leave = g.r.chance(if f(&["C17", "C16", "C08"]) { 45 } else { 0 });
                            let how = match if leave { 9 } else { g.r.below(10) } {
                                0..=3 => How::Attached,
                                4..=6 => How::DetachAwait,
                                7 | 8 => How::DetachForget,
                                _ => How::Abandon(g.r.below(3) as u32, g.r.chance(50)),
                            };
                            Op::Send { h, m, how }
                        }
                    } else if g.r.chance(35) {
                        let v = (0..2 + g.r.below(2)).map(|_| g.msg(true)).collect();
                        let leave = if g.r.chance(if f(&["C17", "C16", "C08", "C06"]) { 40 } else { 10 }) { 1 + g.r.below(2) } else { 0 };
                        Op::MultiBcast { h, v, leave }
                    } else {
                        let m = g.msg(true);
                        let abandon = if g.r.chance(15) { Some(g.r.below(3) as u32) } else { None };
                        Op::Bcast { h, m, abandon }
                    }
                }
                62..=66 => Op::Clone(h),
                67..=74 => Op::Drop(h),
                75..=78 => Op::Downgrade(h),
                79..=81 => Op::Either(h),
                82..=84 => Op::Channel(h),
                85..=89 => Op::Upgrade(h),
                90..=95 => Op::Query(h),
                _ => Op::Steps(1 + g.r.below(4) as u32),
            };
            ops.push(op);
        }
        roles.push(Role::Client { strong, weak, ops });
    }
    if g.r.chance(if f(&["C14"]) { 100 } else { 20 }) {
        for _ in 0..1 + g.r.below(2) {
            roles.push(Role::Watch { scoped: g.r.chance(40), yields: if g.r.chance(60) { u32::MAX } else { g.r.below(6) as u32 } });
        }
    }
    Plan { cap, main_early: g.r.chance(20), protected, odd: g.stopall || g.stopself || g.nested, roles, msgs: g.msgs }
}

// ------------------------------------------------------------------ program
pub enum Cargo {
    None,
    Strong(u32, Option<Address<CA>>),
    Weak(WeakAddress<CA>),
    #[allow(dead_code)]
    Pending(Pin<Box<dyn Future<Output = ()> + Send>>),
}
pub struct Tok {
    id: Id,
    log: Arc<Log>,
    cargo: Cargo,
    data: Box<u64>,
}
impl Drop for Tok {
    fn drop(&mut self) {
        self.log.put(E::TokDrop { id: self.id });
        *self.data = 0;
        match &mut self.cargo {
            Cargo::Strong(h, a) => {
                self.log.put(E::StrongDrop { hid: *h });
                drop(a.take());
                self.log.put(E::CargoDrop { hid: *h });
            }
            Cargo::Weak(a) => {
                let _ = a.len();
                let _ = a.is_connected();
                passing_upgrade(a, self.id, &self.log);
            }
            _ => {}
        }
    }
}
/// Upgrade a weak address and drop the result, from the drop of a message: as long as this may last
/// there may be a strong handle nobody else knows of.
fn passing_upgrade(a: &WeakAddress<CA>, id: Id, log: &Log) {
    let hid = 1_000_000 + id as u32;
    log.put(E::StrongMay { hid });
    drop(a.try_upgrade());
    log.put(E::CargoDrop { hid });
}
struct CMsg {
    m: MsgP,
    tok: Tok,
}
#[derive(Clone)]
struct CB {
    m: MsgP,
    tok: BTok,
}
/// The token of a broadcast: its copies own no cargo, the original may (nothing which is not Sync).
struct BTok {
    id: Id,
    log: Arc<Log>,
    cargo: BCargo,
    data: Box<u64>,
}
enum BCargo {
    None,
    Strong(u32, Option<Address<CA>>),
    Weak(WeakAddress<CA>),
}
impl Clone for BTok {
    fn clone(&self) -> Self {
        self.log.put(E::TokClone { id: self.id });
        BTok { id: self.id, log: self.log.clone(), cargo: BCargo::None, data: self.data.clone() }
    }
}
impl Drop for BTok {
    fn drop(&mut self) {
        self.log.put(E::TokDrop { id: self.id });
        *self.data = 0;
        match &mut self.cargo {
            BCargo::Strong(h, a) => {
                self.log.put(E::StrongDrop { hid: *h });
                drop(a.take());
                self.log.put(E::CargoDrop { hid: *h });
            }
            BCargo::Weak(a) => {
                let _ = a.len();
                let _ = a.is_connected();
                passing_upgrade(a, self.id, &self.log);
            }
            BCargo::None => {}
        }
    }
}
fn btok_of(m: &MsgP, log: &Arc<Log>, cargo: BCargo) -> BTok {
    BTok { id: m.id, log: log.clone(), cargo, data: Box::new(m.id as u64 + 7) }
}
pub struct Rep {
    id: Id,
    val: u32,
    log: Arc<Log>,
}
impl Drop for Rep {
    fn drop(&mut self) {
        self.log.put(E::ReplyDrop { id: self.id });
    }
}
pub fn value(id: Id, srv: u32) -> u32 {
    id.wrapping_mul(2654435761) ^ srv
}

pub struct CA {
    srv: u32,
    protected: bool,
    start: StartK,
    log: Arc<Log>,
    count: u64,
}
impl Drop for CA {
    fn drop(&mut self) {
        self.log.put(E::ActorDrop { srv: self.srv });
    }
}
impl Actor for CA {
    type Stop = (u32, bool);
    async fn started(&mut self, _: &Mailbox<Self>) -> Result<(), (u32, bool)> {
        self.log.put(E::Started { srv: self.srv });
        match self.start {
            StartK::Ok => Ok(()),
            StartK::Yield(n) => {
                YieldFut(n).await;
                Ok(())
            }
            StartK::Fail => Err((self.srv, false)),
        }
    }
    async fn stopped(self) -> (u32, bool) {
        self.log.put(E::Stopped { srv: self.srv });
        YieldFut(1).await;
        (self.srv, true)
    }
}
struct HGuard<'a> {
    log: Arc<Log>,
    srv: u32,
    id: Id,
    done: bool,
    _x: &'a (),
}
impl Drop for HGuard<'_> {
    fn drop(&mut self) {
        if !self.done {
            let why = std::thread::panicking() || LETTING_GO.with(|x| x.get());
            self.log.put(E::Intr { srv: self.srv, id: self.id, why });
        }
    }
}
impl CA {
    async fn go(&mut self, m: &MsgP, data: u64, ctx: &mut Context<Self>) -> u32 {
        self.log.put(E::Enter { srv: self.srv, id: m.id });
        let mut g = HGuard { log: self.log.clone(), srv: self.srv, id: m.id, done: false, _x: &() };
        assert_eq!(data, m.id as u64 + 7, "payload");
        self.count += 1;
        if m.yields > 0 {
            YieldFut(m.yields).await;
        }
        let mut stop = false;
        match m.act {
            Do::Nothing => {}
            Do::StopSelf if !self.protected => {
                ctx.stop_self();
                stop = true;
            }
            Do::StopSelf => {}
            Do::StopAll => {
                self.log.put(E::StopAllCall { srv: self.srv });
                ctx.stop_all();
                self.log.put(E::StopAllRet { srv: self.srv });
            }
            Do::Panic if !self.protected => {
                self.log.put(E::Panicking { srv: self.srv });
                std::panic::panic_any(SimPanic)
            }
            Do::Panic => {}
            Do::Select(n) => {
                self.log.put(E::SelEnter { srv: self.srv, id: m.id });
                let f = TagFut(YieldFut(n), m.id);
                match xtra::select(ctx.mailbox(), self, f).await {
                    FEither::Left(v) => {
                        self.log.put(E::SelDone { srv: self.srv, id: m.id, left: true, ok: v == m.id });
                    }
                    FEither::Right(f) => {
                        self.log.put(E::SelDone { srv: self.srv, id: m.id, left: false, ok: f.1 == m.id });
                        // told to stop: the stop has been consumed, so do it
                        ctx.stop_self();
                        stop = true;
                    }
                }
            }
            Do::Join(n) => {
                self.log.put(E::SelEnter { srv: self.srv, id: m.id });
                let v = xtra::join(ctx.mailbox(), self, TagFut(YieldFut(n), m.id)).await;
                self.log.put(E::SelDone { srv: self.srv, id: m.id, left: true, ok: v == m.id });
            }
            Do::Sub { id, prio, bcast } => {
                let a = ctx.mailbox().address();
                let sub = MsgP { id, prio, yields: 0, act: Do::Nothing, cargo: CargoP::None };
                if bcast {
                    self.log.put(E::BcCall { id, hid: None });
                    let mut f = Box::pin(a.broadcast(CB { tok: btok_of(&sub, &self.log, BCargo::None), m: sub }).priority(prio));
                    sub_poll(&mut f, id, &self.log);
                } else {
                    self.log.put(E::SendCall { id, hid: None, attached: false });
                    let log = self.log.clone();
                    let c = CMsg { tok: tok_of(&sub, &self.log, Cargo::None), m: sub };
                    let mut f = Box::pin(async move { a.send(c).detach().priority(prio).await.map(drop) });
                    sub_poll(&mut f, id, &log);
                }
            }
        }
        g.done = true;
        self.log.put(E::Exit { srv: self.srv, id: m.id, stop });
        value(m.id, self.srv)
    }
}
fn sub_poll<F: Future<Output = Result<(), Error>>>(f: &mut Pin<Box<F>>, id: Id, log: &Arc<Log>) {
    match poll_once(f) {
        Some(r) => {
            log.put(E::Res { id, ok: r.is_ok() });
        }
        None => {
            log.put(E::Polled { id });
            log.put(E::Abandon { id });
        }
    }
}
struct TagFut(YieldFut, Id);
impl Future for TagFut {
    type Output = Id;
    fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<Id> {
        let id = self.1;
        Pin::new(&mut self.0).poll(cx).map(|()| id)
    }
}
fn tok_of(m: &MsgP, log: &Arc<Log>, cargo: Cargo) -> Tok {
    Tok { id: m.id, log: log.clone(), cargo, data: Box::new(m.id as u64 + 7) }
}
impl Handler<CMsg> for CA {
    type Return = Rep;
    async fn handle(&mut self, m: CMsg, ctx: &mut Context<Self>) -> Rep {
        let v = self.go(&m.m, *m.tok.data, ctx).await;
        Rep { id: m.m.id, val: v, log: self.log.clone() }
    }
}
impl Handler<CB> for CA {
    type Return = ();
    async fn handle(&mut self, m: CB, ctx: &mut Context<Self>) {
        self.go(&m.m, *m.tok.data, ctx).await;
    }
}

enum Hd {
    S(Address<CA>),
    W(WeakAddress<CA>),
    E(Address<CA, Either>),
    CS(MessageChannel<CMsg, Rep, Strong>),
    CW(MessageChannel<CMsg, Rep, Weak>),
    CE(MessageChannel<CMsg, Rep, Either>),
}
macro_rules! on {
    ($h:expr, $x:ident => $e:expr) => {
        match $h {
            Hd::S($x) => $e,
            Hd::W($x) => $e,
            Hd::E($x) => $e,
            Hd::CS($x) => $e,
            Hd::CW($x) => $e,
            Hd::CE($x) => $e,
        }
    };
}
struct EndGuard(Arc<Log>, u32);
impl Drop for EndGuard {
    fn drop(&mut self) {
        self.0.put(E::End { srv: self.1 });
    }
}

fn serve(mb: Mailbox<CA>, style: Style, srv: u32, protected: bool, log: Arc<Log>, mut r: Rng) {
    let _end = EndGuard(log.clone(), srv);
    let mb = mb; // parameters outlive local variables
    let start = if let Style::Run(s) = style { s } else { StartK::Ok };
    let mut act = CA { srv, protected, start, log: log.clone(), count: 0 };
    match style {
        Style::Run(_) => {
            let (who, stopped) = block_on(&mut Box::pin(xtra::run(mb, act)), Wait::Run(srv));
            log.put(E::Returned { srv, who, stopped });
        }
        Style::RunKill(k) => {
            let mut f = Box::pin(xtra::run(mb, act));
            for _ in 0..k {
                if let Some((who, stopped)) = poll_once(&mut f) {
                    log.put(E::Returned { srv, who, stopped });
                    return;
                }
                step();
                step();
            }
            log.put(E::Kill { srv });
            LETTING_GO.with(|x| x.set(true));
            drop(f);
            LETTING_GO.with(|x| x.set(false));
        }
        Style::Sel => {
            let mut left = 1 + r.below(6);
            loop {
                log.put(E::Recv { srv });
                let n = if left == 0 { u32::MAX } else { r.below(5) as u32 };
                let inner = Patience(if n == u32::MAX { None } else { Some(YieldFut(n)) });
                match block_on(&mut Box::pin(xtra::select(&mb, &mut act, inner)), Wait::Recv(srv)) {
                    FEither::Left(()) => {
                        log.put(E::Cancel { srv });
                        left -= 1;
                    }
                    FEither::Right(_) => {
                        log.put(E::Told { srv });
                        break;
                    }
                }
            }
        }
        Style::Loop { cancel, interrupt, limit, mixed, sleepy } => {
            let mut n = 0;
            let mut cancels = 3;
            loop {
                if limit == Some(n) {
                    log.put(E::Leave { srv });
                    break;
                }
                n += 1;
                if r.chance(sleepy) {
                    if let Some(others) = rt::quiet() {
                        let len = mb.address().len();
                        let send = others.iter().find_map(|w| if let Wait::Send(id) | Wait::Bcast(id) = w { Some(*id) } else { None });
                        let idle = others.iter().find_map(|w| if let Wait::Recv(k) = w { Some(*k) } else { None });
                        log.put(E::Quiet { srv, len, send, idle });
                    }
                }
                log.put(E::Recv { srv });
                if mixed && r.chance(40) {
                    if block_on(&mut Box::pin(xtra::yield_once(&mb, &mut act)), Wait::Recv(srv)).is_break() {
                        log.put(E::Told { srv });
                        break;
                    }
                    continue;
                }
                let mut f = Box::pin(mb.next());
                let mut got = None;
                if cancels > 0 && r.chance(cancel) {
                    for _ in 0..1 + r.below(3) {
                        got = poll_once(&mut f);
                        if got.is_some() {
                            break;
                        }
                        step();
                    }
                    if got.is_none() {
                        log.put(E::Cancel { srv });
                        cancels -= 1;
                        n -= 1;
                        drop(f);
                        continue;
                    }
                }
                let msg = match got {
                    Some(m) => m,
                    None => block_on(&mut f, Wait::Recv(srv)),
                };
                drop(f);
                let mut d = Box::pin(msg.dispatch_to(&mut act));
                if interrupt > 0 && r.chance(interrupt) {
                    let mut out = None;
                    for _ in 0..1 + r.below(2) {
                        out = poll_once(&mut d);
                        if out.is_some() {
                            break;
                        }
                        step();
                    }
                    match out {
                        Some(fl) if fl.is_break() => {
                            log.put(E::Told { srv });
                            break;
                        }
                        _ => {}
                    }
                    LETTING_GO.with(|x| x.set(true));
                    drop(d);
                    LETTING_GO.with(|x| x.set(false));
                    continue;
                }
                if block_on(&mut d, Wait::Dispatch(srv)).is_break() {
                    log.put(E::Told { srv });
                    break;
                }
            }
        }
    }
}
struct Patience(Option<YieldFut>);
impl Future for Patience {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<()> {
        match &mut self.0 {
            None => Poll::Pending,
            Some(y) => Pin::new(y).poll(cx),
        }
    }
}

struct Client {
    log: Arc<Log>,
    hs: Vec<(Hd, Option<u32>)>,
    next_hid: u32,
}
impl Client {
    fn add(&mut self, h: Hd, strong: bool) {
        let hid = if strong {
            self.next_hid += 1;
            self.log.put(E::StrongNew { hid: self.next_hid });
            Some(self.next_hid)
        } else {
            None
        };
        self.hs.push((h, hid));
    }
    fn remove(&mut self, i: usize) {
        let (h, hid) = self.hs.remove(i);
        if let Some(hid) = hid {
            self.log.put(E::StrongDrop { hid });
        }
        drop(h);
        if let Some(hid) = hid {
            self.log.put(E::CargoDrop { hid });
        }
    }
    fn pick(&self, h: usize) -> Option<usize> {
        if self.hs.is_empty() { None } else { Some(h % self.hs.len()) }
    }
    fn strong_addr(&self) -> Option<Address<CA>> {
        self.hs.iter().find_map(|h| if let Hd::S(a) = &h.0 { Some(a.clone()) } else { None })
    }
    fn weak_addr(&self) -> Option<WeakAddress<CA>> {
        self.hs.iter().find_map(|h| match &h.0 {
            Hd::S(a) => Some(a.downgrade()),
            Hd::W(a) => Some(a.clone()),
            Hd::E(a) => Some(a.downgrade()),
            _ => None,
        })
    }
    fn msg(&mut self, m: MsgP) -> CMsg {
        let cargo = match m.cargo {
            CargoP::None => Cargo::None,
            CargoP::Strong => match self.strong_addr() {
                Some(a) => {
                    self.next_hid += 1;
                    self.log.put(E::StrongNew { hid: self.next_hid });
                    Cargo::Strong(self.next_hid, Some(a))
                }
                None => Cargo::None,
            },
            CargoP::Weak => self.weak_addr().map_or(Cargo::None, Cargo::Weak),
            CargoP::Pending(id) => match self.weak_addr() {
                Some(a) => {
                    let sub = MsgP { id, prio: 0, yields: 0, act: Do::Nothing, cargo: CargoP::None };
                    let c = CMsg { tok: tok_of(&sub, &self.log, Cargo::None), m: sub };
                    self.log.put(E::SendCall { id, hid: None, attached: true });
                    let mut f: Pin<Box<dyn Future<Output = ()> + Send>> = Box::pin(async move { drop(a.send(c).await) });
                    let _ = poll_once(&mut f);
                    self.log.put(E::Abandon { id });
                    Cargo::Pending(f)
                }
                None => Cargo::None,
            },
        };
        CMsg { tok: tok_of(&m, &self.log, cargo), m }
    }
    fn reply(&self, id: Id, r: Result<Rep, Error>) {
        let x = r.as_ref().map(|r| if r.id == id { r.val } else { u32::MAX }).map_err(|e| if *e == Error::Disconnected { Bad::Disconnected } else { Bad::Interrupted });
        self.log.put(E::Reply { id, r: x });
    }
    fn op(&mut self, op: Op) {
        let log = self.log.clone();
        match op {
            Op::Send { h, m, how } => {
                let Some(i) = self.pick(h) else { return };
                let (id, prio) = (m.id, m.prio);
                let msg = self.msg(m);
                let hid = self.hs[i].1;
                let attached = matches!(how, How::Attached | How::Abandon(_, true));
                log.put(E::SendCall { id, hid, attached });
                if attached {
                    let mut f = on!(&self.hs[i].0, a => Box::pin({ let f = a.send(msg); async move { (if prio == 0 { f } else { f.priority(prio) }).await } }) as Pin<Box<dyn Future<Output = Result<Rep, Error>> + Send>>);
                    match how {
                        How::Attached => {
                            if let Some(r) = poll_once(&mut f) {
                                return self.reply(id, r);
                            }
                            log.put(E::Polled { id });
                            let r = block_on(&mut f, Wait::Reply(id));
                            drop(f);
                            self.reply(id, r);
                        }
                        How::Abandon(k, _) => {
                            for n in 0..k {
                                if let Some(r) = poll_once(&mut f) {
                                    return self.reply(id, r);
                                }
                                if n == 0 {
                                    log.put(E::Polled { id });
                                }
                                step();
                            }
                            log.put(E::Abandon { id });
                            drop(f);
                        }
                        _ => unreachable!(),
                    }
                } else {
                    let mut f = on!(&self.hs[i].0, a => Box::pin({ let f = a.send(msg).detach(); async move { (if prio == 0 { f } else { f.priority(prio) }).await } }) as Pin<Box<dyn Future<Output = Result<Receiver<Rep>, Error>> + Send>>);
                    let k = if let How::Abandon(k, _) = how { k } else { 1 };
                    let mut res = None;
                    for n in 0..k {
                        res = poll_once(&mut f);
                        if res.is_some() {
                            break;
                        }
                        if n == 0 {
                            log.put(E::Polled { id });
                        }
                        if n + 1 < k {
                            step();
                        }
                    }
                    if res.is_none() {
                        if let How::Abandon(..) = how {
                            log.put(E::Abandon { id });
                            drop(f);
                            return;
                        }
                        res = Some(block_on(&mut f, Wait::Send(id)));
                    }
                    drop(f);
                    let res = res.unwrap();
                    log.put(E::Res { id, ok: res.is_ok() });
                    if let Ok(rx) = res {
                        if how == How::DetachAwait {
                            let mut rx = Box::pin(rx);
                            let r = block_on(&mut rx, Wait::Reply(id));
                            self.reply(id, r);
                        } else {
                            drop(rx);
                        }
                    }
                }
            }
            Op::Multi { h, v, leave } => {
                let Some(i) = self.pick(h) else { return };
                let mut fs = std::collections::VecDeque::new();
                let mut left = leave;
                for (m, att) in v {
                    let (id, prio) = (m.id, m.prio);
                    let msg = self.msg(m);
                    let hid = self.hs[i].1;
                    log.put(E::SendCall { id, hid, attached: att });
                    if att {
                        let mut f = on!(&self.hs[i].0, a => Box::pin({ let f = a.send(msg); async move { (if prio == 0 { f } else { f.priority(prio) }).await } }) as Pin<Box<dyn Future<Output = Result<Rep, Error>> + Send>>);
                        match poll_once(&mut f) {
                            Some(r) => self.reply(id, r),
                            None => {
                                log.put(E::Polled { id });
                                fs.push_back((id, true, FEither::Left(f)));
                            }
                        }
                    } else {
                        let mut f = on!(&self.hs[i].0, a => Box::pin({ let f = a.send(msg).priority(prio).detach(); async move { f.await } }) as Pin<Box<dyn Future<Output = Result<Receiver<Rep>, Error>> + Send>>);
                        match poll_once(&mut f) {
                            Some(r) => {
                                log.put(E::Res { id, ok: r.is_ok() });
                                if let Ok(rx) = r {
                                    if id % 2 == 0 {
                                        let f: Pin<Box<dyn Future<Output = Result<Rep, Error>> + Send>> = Box::pin(rx);
                                        fs.push_back((id, false, FEither::Left(f)));
                                    }
                                }
                            }
                            None => {
                                log.put(E::Polled { id });
                                fs.push_back((id, true, FEither::Right(f)));
                            }
                        }
                    }
                    if id % 3 == 0 {
                        step();
                    }
                }
                while left > 0 {
                    left -= 1;
                    step();
                    if let Some((id, true, _)) = fs.front() {
                        log.put(E::Abandon { id: *id });
                        fs.pop_front();
                    }
                }
                for (id, _, f) in fs {
                    match f {
                        FEither::Left(mut f) => {
                            let r = block_on(&mut f, Wait::Reply(id));
                            self.reply(id, r);
                        }
                        FEither::Right(mut f) => {
                            let r = block_on(&mut f, Wait::Send(id));
                            log.put(E::Res { id, ok: r.is_ok() });
                        }
                    }
                }
            }
            Op::Bcast { h, m, abandon } => {
                let Some(i) = (0..self.hs.len()).map(|k| (k + h) % self.hs.len()).find(|&k| matches!(self.hs[k].0, Hd::S(_) | Hd::W(_) | Hd::E(_))) else { return };
                let id = m.id;
                let mut f = self.bcast(i, m);
                if let Some(k) = abandon {
                    for n in 0..k {
                        if let Some(r) = poll_once(&mut f) {
                            log.put(E::Res { id, ok: r.is_ok() });
                            return;
                        }
                        if n == 0 {
                            log.put(E::Polled { id });
                        }
                        step();
                    }
                    log.put(E::Abandon { id });
                    drop(f);
                } else {
                    let r = match poll_once(&mut f) {
                        Some(r) => r,
                        None => {
                            log.put(E::Polled { id });
                            block_on(&mut f, Wait::Bcast(id))
                        }
                    };
                    drop(f);
                    log.put(E::Res { id, ok: r.is_ok() });
                }
            }
            Op::MultiBcast { h, v, mut leave } => {
                let Some(i) = (0..self.hs.len()).map(|k| (k + h) % self.hs.len()).find(|&k| matches!(self.hs[k].0, Hd::S(_) | Hd::W(_) | Hd::E(_))) else { return };
                let mut fs = vec![];
                for m in v {
                    let id = m.id;
                    let mut f = self.bcast(i, m);
                    match poll_once(&mut f) {
                        Some(r) => {
                            log.put(E::Res { id, ok: r.is_ok() });
                        }
                        None => {
                            log.put(E::Polled { id });
                            fs.push((id, f));
                        }
                    }
                }
                let mut fs = std::collections::VecDeque::from(fs);
                while leave > 0 && !fs.is_empty() {
                    leave -= 1;
                    step();
                    if let Some((id, _)) = fs.front() {
                        log.put(E::Abandon { id: *id });
                        fs.pop_front();
                    }
                }
                for (id, mut f) in fs {
                    let r = block_on(&mut f, Wait::Bcast(id));
                    log.put(E::Res { id, ok: r.is_ok() });
                }
            }
            Op::Clone(h) => {
                let Some(i) = self.pick(h) else { return };
                let s = self.hs[i].1.is_some();
                let n = match &self.hs[i].0 {
                    Hd::S(a) => Hd::S(a.clone()),
                    Hd::W(a) => Hd::W(a.clone()),
                    Hd::E(a) => Hd::E(a.clone()),
                    Hd::CS(a) => Hd::CS(a.clone()),
                    Hd::CW(a) => Hd::CW(a.clone()),
                    Hd::CE(a) => Hd::CE(a.clone()),
                };
                self.add(n, s);
            }
            Op::Drop(h) => {
                if let Some(i) = self.pick(h) {
                    self.remove(i);
                }
            }
            Op::Downgrade(h) => {
                let Some(i) = self.pick(h) else { return };
                let n = match &self.hs[i].0 {
                    Hd::S(a) => Hd::W(a.downgrade()),
                    Hd::E(a) => Hd::W(a.downgrade()),
                    Hd::CS(a) => Hd::CW(a.downgrade()),
                    Hd::CE(a) => Hd::CW(a.downgrade()),
                    _ => return,
                };
                self.add(n, false);
            }
            Op::Either(h) => {
                let Some(i) = self.pick(h) else { return };
                let s = self.hs[i].1.is_some();
                let n = match &self.hs[i].0 {
                    Hd::S(a) => Hd::E(a.as_either()),
                    Hd::W(a) => Hd::E(a.as_either()),
                    Hd::CS(a) => Hd::CE(a.as_either()),
                    Hd::CW(a) => Hd::CE(a.as_either()),
                    _ => return,
                };
                self.add(n, s);
            }
            Op::Channel(h) => {
                let Some(i) = self.pick(h) else { return };
                let s = self.hs[i].1.is_some();
                let n = match &self.hs[i].0 {
                    Hd::S(a) => Hd::CS(MessageChannel::new(a.clone())),
                    Hd::W(a) => Hd::CW(MessageChannel::new(a.clone())),
                    Hd::E(a) => Hd::CE(MessageChannel::new(a.clone())),
                    _ => return,
                };
                self.add(n, s);
            }
            Op::Upgrade(h) => {
                let Some(i) = (0..self.hs.len()).map(|k| (k + h) % self.hs.len()).find(|&k| matches!(self.hs[k].0, Hd::W(_))) else { return };
                let Hd::W(a) = &self.hs[i].0 else { return };
                log.put(E::UpgradeCall);
                let hid = self.next_hid + 1; // the one `add` gives
                log.put(E::StrongMay { hid });
                let r = a.try_upgrade();
                log.put(E::Upgrade { some: r.is_some() });
                match r {
                    Some(a) => self.add(Hd::S(a), true),
                    None => {
                        log.put(E::CargoDrop { hid });
                    }
                }
            }
            Op::Query(h) => {
                let Some(i) = self.pick(h) else { return };
                log.put(E::ConnCall);
                let r = on!(&self.hs[i].0, a => a.is_connected());
                let cap = on!(&self.hs[i].0, a => a.capacity());
                log.put(E::Conn { r, cap });
                on!(&self.hs[i].0, a => { let _ = a.len(); let _ = a.is_empty(); let _ = format!("{a:?}"); });
            }
            Op::Steps(n) => {
                for _ in 0..n {
                    step();
                }
            }
        }
    }
    fn bcast(&mut self, i: usize, m: MsgP) -> Pin<Box<dyn Future<Output = Result<(), Error>> + Send>> {
        let (id, prio) = (m.id, m.prio);
        let cargo = match m.cargo {
            CargoP::Strong => match self.strong_addr() {
                Some(a) => {
                    self.next_hid += 1;
                    self.log.put(E::StrongNew { hid: self.next_hid });
                    BCargo::Strong(self.next_hid, Some(a))
                }
                None => BCargo::None,
            },
            CargoP::Weak => self.weak_addr().map_or(BCargo::None, BCargo::Weak),
            _ => BCargo::None,
        };
        let b = CB { tok: btok_of(&m, &self.log, cargo), m };
        self.log.put(E::BcCall { id, hid: self.hs[i].1 });
        macro_rules! b { ($a:expr) => {{ let f = $a.broadcast(b); Box::pin(async move { (if prio == 0 { f } else { f.priority(prio) }).await }) }} }
        match &self.hs[i].0 {
            Hd::S(a) => b!(a),
            Hd::W(a) => b!(a),
            Hd::E(a) => b!(a),
            _ => unreachable!(),
        }
    }
}

pub struct RunOut {
    pub evs: Vec<(u64, usize, E)>,
    pub out: rt::Outcome,
    pub end: (bool, usize, String),
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum How2 {
    Baton,
    Native { noise: bool },
}

pub fn execute(p: &Plan, seed: u64, how: How2) -> RunOut {
    let (addr, mb) = match p.cap {
        None => Mailbox::unbounded(),
        Some(c) => Mailbox::bounded(c),
    };
    let n = p.roles.len();
    TID.with(|t| t.set(0));
    let log = Log::new(n + 1);
    let weak = addr.downgrade();
    let mut jobs: Vec<Box<dyn FnOnce() + Send>> = vec![];
    let mut clients = vec![];
    let mut rng = Rng::new(seed ^ 0x77);
    log.put(E::StrongNew { hid: 0 });
    for (k, role) in p.roles.iter().enumerate() {
        let t = k + 1;
        let srv = t as u32;
        let log = log.clone();
        let r = Rng::new(rng.next());
        let set = move || TID.with(|x| x.set(t));
        match role.clone() {
            Role::Server(style) => {
                let mb = mb.clone();
                let prot = p.protected == Some(k);
                jobs.push(Box::new(move || {
                    set();
                    serve(mb, style, srv, prot, log, r)
                }));
            }
            Role::Late { steps, style } => {
                let mb = mb.clone();
                jobs.push(Box::new(move || {
                    set();
                    for _ in 0..steps {
                        step();
                    }
                    log.put(E::MbNew { srv });
                    let m2 = mb.clone();
                    log.put(E::MbBorn { srv });
                    drop(mb);
                    serve(m2, style, srv, false, log, r)
                }));
            }
            Role::Dropper { steps } => {
                let mb = mb.clone();
                jobs.push(Box::new(move || {
                    set();
                    for _ in 0..steps {
                        step();
                    }
                    log.put(E::Leave { srv });
                    drop(mb);
                    log.put(E::End { srv });
                }));
            }
            Role::Client { strong, weak: w, ops } => {
                clients.push(t);
                let mut c = Client { log: log.clone(), hs: vec![], next_hid: t as u32 * 1000 };
                for _ in 0..strong {
                    c.add(Hd::S(addr.clone()), true);
                }
                for _ in 0..w {
                    c.add(Hd::W(weak.clone()), false);
                }
                jobs.push(Box::new(move || {
                    set();
                    for op in ops {
                        c.op(op);
                    }
                    while !c.hs.is_empty() {
                        c.remove(0);
                    }
                }));
            }
            Role::Watch { scoped, yields } => {
                let weak = weak.clone();
                jobs.push(Box::new(move || {
                    set();
                    log.put(E::JoinCall { scoped });
                    if scoped {
                        let inner = SInner { log: log.clone(), y: if yields == u32::MAX { None } else { Some(YieldFut(yields)) } };
                        let mut f = Box::pin(xtra::scoped(&weak, inner));
                        let r = block_on(&mut f, Wait::Scoped(t as u32));
                        log.put(E::JoinRes { r, scoped });
                        drop(f);
                    } else {
                        let mut f = Box::pin(weak.join());
                        block_on(&mut f, Wait::Join);
                        log.put(E::JoinRes { r: None, scoped });
                    }
                }));
            }
        }
    }
    drop(mb);
    let mut addr = Some(addr);
    if p.main_early {
        log.put(E::StrongDrop { hid: 0 });
        addr = None;
        log.put(E::CargoDrop { hid: 0 });
    }
    let l2 = log.clone();
    let between = Box::new(move || {
        if let Some(a) = addr {
            l2.put(E::StrongDrop { hid: 0 });
            drop(a);
            l2.put(E::CargoDrop { hid: 0 });
        }
    });
    let out = match how {
        How2::Baton => rt::run_baton(seed, jobs, clients, between),
        How2::Native { noise } => rt::run_native(seed, jobs, clients, between, noise),
    };
    TID.with(|t| t.set(0));
    let end = if out.stuck.is_some() {
        std::mem::forget(weak);
        (false, 0, String::new())
    } else {
        (weak.is_connected(), weak.len(), format!("{weak:?}"))
    };
    RunOut { evs: log.all(), out, end }
}
struct SInner {
    log: Arc<Log>,
    y: Option<YieldFut>,
}
impl Future for SInner {
    type Output = u32;
    fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<u32> {
        self.log.put(E::ScopedPoll);
        match &mut self.y {
            None => Poll::Pending,
            Some(y) => Pin::new(y).poll(cx).map(|()| 4711),
        }
    }
}

pub fn show(p: &Plan, r: &RunOut) -> String {
    let mut s = String::new();
    let _ = writeln!(s, "capacity {:?}, main drops its strong address {}, protected server: {:?}", p.cap, if p.main_early { "at once" } else { "after the clients" }, p.protected.map(|x| x + 1));
    for (k, x) in p.roles.iter().enumerate() {
        let _ = writeln!(s, "thread {}: {:?}", k + 1, x);
    }
    for (n, t, e) in &r.evs {
        let _ = writeln!(s, "{n:4} t{t} {e:?}");
    }
    let _ = writeln!(s, "stuck: {:?} panics: {:?} end: {:?}", r.out.stuck, r.out.panics, r.end);
    s
}
