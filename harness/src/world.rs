//! Payloads, actor and event log shared by the sequential simulator. Everything a user of the crate
//! can observe (handler entries/exits, life-cycle hooks, drops, replies) becomes an event.
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context as Cx, Poll, Wake, Waker};

use futures_util::future::Either;
use xtra::prelude::*;
use xtra::WeakAddress;

pub type Id = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ev {
    Started(Id),
    Enter { actor: Id, id: Id, bcast: bool },
    Exit { actor: Id, id: Id, stop_self: bool },
    Interrupted { actor: Id, id: Id },
    Stopped(Id),
    ActorDrop(Id),
    MsgClone(Id),
    MsgDrop(Id),
    ReplyDrop(Id),
    StopAll { actor: Id },
    SelEnter { actor: Id, id: Id, join: bool },
    SelDone { actor: Id, id: Id, left: bool, ok: bool },
    ScopedPoll(Id),
    CargoDrop { chan: usize, what: CargoKind },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CargoKind {
    None,
    Strong,
    WeakProbe,
    Mailbox(u32),
}

#[derive(Default)]
struct Gate {
    open: bool,
    waker: Option<Waker>,
}

#[derive(Default)]
pub struct World {
    pub evs: Mutex<Vec<Ev>>,
    gates: Mutex<HashMap<(Id, u8), Gate>>,
    pub gates_free: AtomicBool,
}

impl World {
    pub fn log(&self, e: Ev) {
        self.evs.lock().unwrap().push(e);
    }
    pub fn open_gate(&self, k: (Id, u8)) {
        let w = {
            let mut g = self.gates.lock().unwrap();
            let g = g.entry(k).or_default();
            g.open = true;
            g.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
    /// Open all gates, now and in future.
    pub fn open_all(&self) {
        self.gates_free.store(true, SeqCst);
        let ws: Vec<_> = self
            .gates
            .lock()
            .unwrap()
            .values_mut()
            .filter_map(|g| {
                g.open = true;
                g.waker.take()
            })
            .collect();
        for w in ws {
            w.wake();
        }
    }
    pub fn is_open(&self, k: (Id, u8)) -> bool {
        self.gates_free.load(SeqCst) || self.gates.lock().unwrap().get(&k).map_or(false, |g| g.open)
    }
    pub fn closed_gates(&self) -> Vec<(Id, u8)> {
        let mut v: Vec<_> = self
            .gates
            .lock()
            .unwrap()
            .iter()
            .filter(|(_, g)| !g.open && g.waker.is_some())
            .map(|(k, _)| *k)
            .collect();
        v.sort();
        v
    }
}

/// Gates of this kind make their future panic when they are opened (not when all are).
pub const PANICS: u8 = 2;

/// A future that completes once its gate is opened.
pub struct GateFut {
    pub w: Arc<World>,
    pub k: (Id, u8),
}
impl Future for GateFut {
    type Output = u32;
    fn poll(self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<u32> {
        if self.w.gates_free.load(SeqCst) {
            return Poll::Ready(self.k.0 ^ 0x55);
        }
        let mut all = self.w.gates.lock().unwrap();
        let g = all.entry(self.k).or_default();
        if g.open {
            if self.k.1 == PANICS {
                drop(all);
                std::panic::panic_any(SimPanic);
            }
            return Poll::Ready(self.k.0 ^ 0x55);
        }
        g.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

/// Something a message can own.
pub enum Cargo {
    None,
    Strong(usize, Option<Address<Act>>),
    WeakProbe(usize, WeakAddress<Act>),
    Mailbox(usize, u32, Option<Mailbox<Act>>),
}

pub struct Tok {
    pub w: Arc<World>,
    pub id: Id,
    pub cargo: Cargo,
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        self.w.log(Ev::MsgClone(self.id));
        Tok { w: self.w.clone(), id: self.id, cargo: Cargo::None }
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        self.w.log(Ev::MsgDrop(self.id));
        match &mut self.cargo {
            Cargo::None => {}
            Cargo::Strong(c, a) => {
                let (c, a) = (*c, a.take());
                drop(a);
                self.w.log(Ev::CargoDrop { chan: c, what: CargoKind::Strong });
            }
            Cargo::WeakProbe(_, a) => {
                // calls back into the channel this message may be owned by
                let _ = a.len();
                let _ = a.is_connected();
                let _ = a.capacity();
                drop(a.try_upgrade());
            }
            Cargo::Mailbox(c, m, a) => {
                let (c, m, a) = (*c, *m, a.take());
                drop(a);
                self.w.log(Ev::CargoDrop { chan: c, what: CargoKind::Mailbox(m) });
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Do {
    Nothing,
    StopSelf,
    StopAll,
    Panic,
    Select { adopt: bool, panic: bool },
    Join { panic: bool },
}

#[derive(Clone, Copy, Debug)]
pub struct Script {
    pub gate: bool,
    pub act: Do,
}

pub struct Msg {
    pub id: Id,
    pub script: Script,
    pub tok: Tok,
}
#[derive(Clone)]
pub struct BMsg {
    pub id: Id,
    pub script: Script,
    pub tok: Tok,
}
pub struct Reply {
    pub id: Id,
    pub val: u32,
    pub w: Arc<World>,
}
impl Drop for Reply {
    fn drop(&mut self) {
        self.w.log(Ev::ReplyDrop(self.id));
    }
}
pub fn reply_val(id: Id, actor: Id) -> u32 {
    id.wrapping_mul(2654435761) ^ actor
}

pub struct SimPanic;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Start {
    Ok,
    Gate,
    Fail,
    GateFail,
}

pub struct Act {
    pub id: Id,
    pub w: Arc<World>,
    pub start: Start,
    /// The stopped hook waits.
    pub lingers: bool,
    /// Nobody else receives from this actor's mailbox: select and join are fine.
    pub exclusive: bool,
}
impl Drop for Act {
    fn drop(&mut self) {
        self.w.log(Ev::ActorDrop(self.id));
    }
}
impl Actor for Act {
    type Stop = (Id, bool);
    async fn started(&mut self, _: &Mailbox<Self>) -> Result<(), (Id, bool)> {
        self.w.log(Ev::Started(self.id));
        if matches!(self.start, Start::Gate | Start::GateFail) {
            GateFut { w: self.w.clone(), k: (self.id, 7) }.await;
        }
        match self.start {
            Start::Fail | Start::GateFail => Err((self.id, false)),
            _ => Ok(()),
        }
    }
    async fn stopped(self) -> (Id, bool) {
        self.w.log(Ev::Stopped(self.id));
        if self.lingers {
            GateFut { w: self.w.clone(), k: (self.id, 8) }.await;
        }
        (self.id, true)
    }
}

struct HGuard {
    w: Arc<World>,
    actor: Id,
    id: Id,
    done: bool,
}
impl Drop for HGuard {
    fn drop(&mut self) {
        if !self.done {
            self.w.log(Ev::Interrupted { actor: self.actor, id: self.id });
        }
    }
}

impl Act {
    async fn go(&mut self, id: Id, bcast: bool, script: Script, ctx: &mut Context<Self>) -> u32 {
        self.w.log(Ev::Enter { actor: self.id, id, bcast });
        let mut g = HGuard { w: self.w.clone(), actor: self.id, id, done: false };
        if script.gate {
            GateFut { w: self.w.clone(), k: (id, 0) }.await;
        }
        let mut stop_self = false;
        let act = match script.act {
            Do::Select { .. } | Do::Join { .. } if !self.exclusive => Do::Nothing,
            x => x,
        };
        match act {
            Do::Nothing => {}
            Do::StopSelf => {
                ctx.stop_self();
                stop_self = true;
            }
            Do::StopAll => {
                self.w.log(Ev::StopAll { actor: self.id });
                ctx.stop_all();
            }
            Do::Panic => std::panic::panic_any(SimPanic),
            Do::Select { adopt, panic } => {
                self.w.log(Ev::SelEnter { actor: self.id, id, join: false });
                let k = (id, if panic { PANICS } else { 1 });
                let f = GateFut { w: self.w.clone(), k };
                match xtra::select(ctx.mailbox(), self, f).await {
                    Either::Left(v) => {
                        let ok = v == (id ^ 0x55);
                        self.w.log(Ev::SelDone { actor: self.id, id, left: true, ok });
                    }
                    Either::Right(f) => {
                        let ok = f.k == k;
                        self.w.log(Ev::SelDone { actor: self.id, id, left: false, ok });
                        if adopt {
                            ctx.stop_self();
                            stop_self = true;
                        }
                    }
                }
            }
            Do::Join { panic } => {
                self.w.log(Ev::SelEnter { actor: self.id, id, join: true });
                let k = (id, if panic { PANICS } else { 1 });
                let f = GateFut { w: self.w.clone(), k };
                let v = xtra::join(ctx.mailbox(), self, f).await;
                let ok = v == (id ^ 0x55);
                self.w.log(Ev::SelDone { actor: self.id, id, left: true, ok });
            }
        }
        g.done = true;
        self.w.log(Ev::Exit { actor: self.id, id, stop_self });
        reply_val(id, self.id)
    }
}

impl Handler<Msg> for Act {
    type Return = Reply;
    async fn handle(&mut self, m: Msg, ctx: &mut Context<Self>) -> Reply {
        let val = self.go(m.id, false, m.script, ctx).await;
        let r = Reply { id: m.id, val, w: self.w.clone() };
        drop(m.tok);
        r
    }
}
impl Handler<BMsg> for Act {
    type Return = ();
    async fn handle(&mut self, m: BMsg, ctx: &mut Context<Self>) {
        self.go(m.id, true, m.script, ctx).await;
        drop(m.tok);
    }
}

/// Waker that remembers having been woken.
pub struct Flag {
    pub woken: AtomicBool,
    pub n: AtomicU32,
}
impl Flag {
    pub fn new() -> Arc<Flag> {
        Arc::new(Flag { woken: AtomicBool::new(false), n: AtomicU32::new(0) })
    }
    pub fn is_woken(&self) -> bool {
        self.woken.load(SeqCst)
    }
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.woken.store(true, SeqCst);
        self.n.fetch_add(1, SeqCst);
    }
}
