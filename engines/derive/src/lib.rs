//! Support of the generated programs: traits for their bounds, a type that meets all of them, and the
//! monitor that drives a derived actor.
use std::future::Future;
use std::marker::PhantomData;
use std::pin::Pin;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context as Cx, Poll, Wake, Waker};

pub trait Tr {
    type Assoc;
    const K: u32 = 1;
    fn tr(&self) -> u32 {
        Self::K
    }
}
pub trait Tr2<X: ?Sized> {}
pub trait Lend<'a> {
    type Out;
}
/// Meets every bound the generator uses.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Full(pub u8);
impl Tr for Full {
    type Assoc = Full;
}
impl<X: ?Sized> Tr2<X> for Full {}
impl<'a> Lend<'a> for Full {
    type Out = &'a Full;
}
impl Iterator for Full {
    type Item = Full;
    fn next(&mut self) -> Option<Full> {
        None
    }
}
impl std::fmt::Display for Full {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl From<Full> for u64 {
    fn from(f: Full) -> u64 {
        f.0 as u64
    }
}
pub trait DynOk {}
impl DynOk for Full {}

pub fn is_actor<X: xtra::Actor<Stop = ()>>() {}
pub fn ph<T: ?Sized>() -> PhantomData<T> {
    PhantomData
}

/// Counts the lives of actor values.
pub static BORN: AtomicI64 = AtomicI64::new(0);
pub static DIED: AtomicI64 = AtomicI64::new(0);
pub static HANDLED: AtomicU64 = AtomicU64::new(0);
pub struct Probe(());
impl Probe {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Probe {
        BORN.fetch_add(1, SeqCst);
        Probe(())
    }
}
impl Drop for Probe {
    fn drop(&mut self) {
        DIED.fetch_add(1, SeqCst);
    }
}

pub struct Echo(pub u64);
#[derive(Clone)]
pub struct Cast(pub u64);
pub struct Quit;

struct W;
impl Wake for W {
    fn wake(self: Arc<Self>) {}
}
type Bf<'a, T> = Pin<Box<dyn Future<Output = T> + Send + 'a>>;

/// Runs an actor through its life; what is wrong with it.
pub fn exercise<A>(name: &str, mk: impl Fn() -> A)
where
    A: xtra::Actor<Stop = ()> + xtra::Handler<Echo, Return = u64> + xtra::Handler<Cast, Return = ()> + xtra::Handler<Quit, Return = ()>,
{
    let wk: Waker = Arc::new(W).into();
    let mut cx = Cx::from_waker(&wk);
    let bad = |s: String| println!("BAD {name} {s}");
    for round in 0..4 {
        let (b0, d0, h0) = (BORN.load(SeqCst), DIED.load(SeqCst), HANDLED.load(SeqCst));
        let (addr, mb) = if round % 2 == 0 { xtra::Mailbox::<A>::unbounded() } else { xtra::Mailbox::bounded(2) };
        let two = round == 3;
        let mut runs: Vec<Option<Bf<()>>> = vec![Some(Box::pin(xtra::run(mb.clone(), mk())))];
        if two {
            runs.push(Some(Box::pin(xtra::run(mb, mk()))));
        } else {
            drop(mb);
        }
        let mut sends: Vec<(u64, Bf<Result<u64, xtra::Error>>)> = (0..5).map(|k| (k, Box::pin(addr.send(Echo(k))) as Bf<_>)).collect();
        let mut bc: Option<Bf<Result<(), xtra::Error>>> = Some(Box::pin(addr.broadcast(Cast(9))));
        for _ in 0..60 {
            for r in runs.iter_mut() {
                if let Some(f) = r {
                    if f.as_mut().poll(&mut cx).is_ready() {
                        bad(format!("round {round}: running the actor ended although an address is held and nobody asked it to stop"));
                        *r = None;
                    }
                }
            }
            sends.retain_mut(|(k, f)| match f.as_mut().poll(&mut cx) {
                Poll::Pending => true,
                Poll::Ready(r) => {
                    if r != Ok(*k + 1) {
                        bad(format!("round {round}: message {k} was answered with {r:?}"));
                    }
                    false
                }
            });
            if let Some(f) = &mut bc {
                if f.as_mut().poll(&mut cx).is_ready() {
                    bc = None;
                }
            }
        }
        if !sends.is_empty() || bc.is_some() {
            bad(format!("round {round}: {} messages were not handled", sends.len()));
        }
        drop((sends, bc));
        let mut last: Option<Bf<Result<(), xtra::Error>>> = None;
        if round == 2 {
            last = Some(Box::pin(addr.send(Quit)));
        } else {
            drop(addr);
        }
        let mut done = 0;
        for _ in 0..60 {
            if let Some(f) = &mut last {
                if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
                    if r != Ok(()) {
                        bad(format!("round {round}: the request to stop was answered with {r:?}"));
                    }
                    last = None;
                }
            }
            for r in runs.iter_mut() {
                if let Some(f) = r {
                    if let Poll::Ready(()) = f.as_mut().poll(&mut cx) {
                        *r = None;
                        done += 1;
                    }
                }
            }
        }
        if done != 1 + two as i32 {
            bad(format!("round {round}: {done} of the actors stopped"));
        }
        drop(runs);
        let (b, d, h) = (BORN.load(SeqCst) - b0, DIED.load(SeqCst) - d0, HANDLED.load(SeqCst) - h0);
        if b != d || b > 1 + two as i64 {
            bad(format!("round {round}: {b} actors created, {d} dropped"));
        }
        if h != 5 + 1 + two as u64 {
            bad(format!("round {round}: {h} messages were handled, expected {}", 6 + two as u64));
        }
    }
    println!("RAN {name}");
}
