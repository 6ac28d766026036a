//! Execution of small concurrent programs. The same program runs either under a baton-passing
//! scheduler (one thread at a time, a seeded strategy decides at every scheduling point of the
//! crate who runs next; exact deadlock and hang detection) or natively (real parallelism, used for
//! stress, ThreadSanitizer and Miri).
use std::cell::RefCell;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::thread::Thread;
use std::time::{Duration, Instant};

use crate::rng::Rng;

/// What a thread is waiting for, for the diagnosis of hangs.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Wait {
    None,
    Send(u32),
    Bcast(u32),
    Reply(u32),
    Recv(u32),
    Run(u32),
    Dispatch(u32),
    Join,
    Scoped(u32),
    Threads(Vec<usize>),
    Lock(&'static str),
    Yield,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Ready,
    Blocked(u64),
    Parked,
    /// Runs on once nobody else can.
    Quiet,
    /// Waits for something that is not a scheduling point of the crate; runs on once it has it.
    Native,
    Done,
}

#[derive(Clone, Debug)]
pub enum Strategy {
    Random,
    Sticky(usize),
    Pct(usize),
}

struct Th {
    st: St,
    woken: bool,
    wait: Wait,
    handle: Option<Thread>,
    prio: u64,
    poll: u64,
    tid: i32,
}

struct State {
    th: Vec<Th>,
    cur: usize,
    rng: Rng,
    strat: Strategy,
    change: Vec<u64>,
    steps: u64,
    progress: u64,
    hash: u64,
    switches: u64,
    stuck: Option<Stuck>,
    max_steps: u64,
    low: u64,
    /// The progress at which all blocked threads were asked to try once more.
    last_chance: u64,
}

#[derive(Clone, Debug)]
pub struct Stuck {
    pub waits: Vec<(usize, Wait)>,
    pub livelock: bool,
}

/// Nobody has the baton: it goes to the first thread that comes back from an unknown lock.
const NOBODY: usize = usize::MAX;

pub struct Sched {
    st: Mutex<State>,
    cur: AtomicUsize,
    dead: AtomicBool,
    done: AtomicBool,
    go: AtomicBool,
    main: Thread,
}

thread_local! {
    static CTX: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
    static NOISE: RefCell<Option<Rng>> = const { RefCell::new(None) };
}
fn ctx() -> Option<(Arc<Sched>, usize)> {
    CTX.try_with(|c| c.borrow().clone()).ok().flatten()
}

/// Called at every scheduling point of the crate under test.
pub fn on_point(op: &'static str, _obj: usize) -> bool {
    if let Some((s, t)) = ctx() {
        s.point(t, op);
        return true;
    }
    let _ = NOISE.try_with(|n| {
        if let Some(r) = &mut *n.borrow_mut() {
            match r.below(40) {
                0 => std::thread::yield_now(),
                1 => {
                    for _ in 0..r.below(2000) {
                        std::hint::spin_loop();
                    }
                }
                2 if r.below(50) == 0 => std::thread::sleep(Duration::from_micros(r.below(60) as u64)),
                _ => {}
            }
        }
    });
    false
}
pub fn on_blocked(op: &'static str) -> bool {
    if let Some((s, t)) = ctx() {
        s.blocked(t, op);
        return true;
    }
    false
}

impl Sched {
    fn new(seed: u64, max_steps: u64) -> Arc<Sched> {
        let mut rng = Rng::new(seed ^ 0x5c4ed);
        let strat = match rng.below(10) {
            0..=1 => Strategy::Random,
            2 => Strategy::Sticky(50),
            3..=4 => Strategy::Sticky(80),
            5 => Strategy::Sticky(93),
            6..=7 => Strategy::Pct(2),
            8 => Strategy::Pct(3),
            _ => Strategy::Pct(5),
        };
        let mut change = vec![];
        if let Strategy::Pct(d) = strat {
            let len = *rng.pick(&[60, 150, 400, 800]);
            change = (0..d - 1).map(|_| rng.below(len) as u64).collect();
        }
        Arc::new(Sched {
            st: Mutex::new(State { th: vec![], cur: 0, rng, strat, change, steps: 0, progress: 1, hash: 0, switches: 0, stuck: None, max_steps, low: 1 << 20, last_chance: 0 }),
            cur: AtomicUsize::new(0),
            dead: AtomicBool::new(false),
            done: AtomicBool::new(false),
            go: AtomicBool::new(false),
            main: std::thread::current(),
        })
    }

    /// A thread that was given up on comes back: it continues once it has the baton.
    fn regain(&self, me: usize) {
        {
            let mut s = self.st.lock().unwrap();
            if s.th[me].st != St::Native {
                return;
            }
            s.th[me].st = St::Ready;
            s.th[me].wait = Wait::None;
            s.progress += 1;
            let c = s.cur;
            if c == me || c == NOBODY || s.th[c].st == St::Done {
                s.cur = me;
                self.cur.store(me, SeqCst);
                return;
            }
        }
        self.wait_turn(me);
    }

    fn point(&self, me: usize, op: &'static str) {
        self.regain(me);
        {
            let mut s = self.st.lock().unwrap();
            s.progress += 1;
            s.hash = crate::rng::mix(s.hash ^ ((me as u64) << 32) ^ op.as_ptr() as u64 & 0xffff ^ (op.len() as u64) << 40);
        }
        self.switch(me);
    }

    fn blocked(&self, me: usize, op: &'static str) {
        self.regain(me);
        {
            let mut s = self.st.lock().unwrap();
            let p = s.progress;
            s.th[me].st = St::Blocked(p);
            s.th[me].wait = Wait::Lock(op);
        }
        self.switch(me);
        let mut s = self.st.lock().unwrap();
        s.th[me].st = St::Ready;
        s.th[me].wait = Wait::None;
    }

    /// Give the baton to whoever is next; returns once this thread has it again.
    fn switch(&self, me: usize) {
        let next = {
            let mut s = self.st.lock().unwrap();
            s.steps += 1;
            let n = s.choose(me);
            match n {
                Some(n) => {
                    if n != me {
                        s.switches += 1;
                        s.hash = crate::rng::mix(s.hash ^ n as u64 ^ 0xabcd0000);
                        s.cur = n;
                        self.cur.store(n, SeqCst);
                        let h = s.th[n].handle.clone();
                        drop(s);
                        if let Some(h) = h {
                            h.unpark();
                        }
                    }
                    n
                }
                None => {
                    // nobody can run any more
                    let waits = s.th.iter().enumerate().filter(|(_, t)| t.st != St::Done).map(|(i, t)| (i, t.wait.clone())).collect::<Vec<_>>();
                    let livelock = s.steps >= s.max_steps;
                    if s.th.iter().all(|t| t.st == St::Done) {
                        return;
                    }
                    if !livelock && s.th.iter().any(|t| t.st == St::Native) {
                        s.cur = NOBODY;
                        self.cur.store(NOBODY, SeqCst);
                        NOBODY
                    } else {
                        s.stuck = Some(Stuck { waits, livelock });
                        drop(s);
                        self.dead.store(true, SeqCst);
                        self.main.unpark();
                        // this program is abandoned, its threads stay where they are
                        loop {
                            std::thread::park();
                        }
                    }
                }
            }
        };
        if next == me {
            return;
        }
        self.wait_turn(me);
    }

    fn wait_turn(&self, me: usize) {
        while self.cur.load(SeqCst) != me {
            std::thread::park();
        }
    }
}

impl State {
    fn runnable(&self) -> Vec<usize> {
        (0..self.th.len())
            .filter(|&i| match self.th[i].st {
                St::Ready => true,
                St::Blocked(p) => p < self.progress,
                _ => false,
            })
            .collect()
    }
    fn choose(&mut self, me: usize) -> Option<usize> {
        if self.steps >= self.max_steps {
            return None;
        }
        let mut c = self.runnable();
        if c.is_empty() && self.last_chance != self.progress {
            // A lock may have been released since without anything else having happened.
            self.progress += 1;
            self.last_chance = self.progress;
            c = self.runnable();
        }
        if c.is_empty() {
            if self.th.iter().any(|t| t.st == St::Native) {
                return None;
            }
            return self.th.iter().position(|t| t.st == St::Quiet);
        }
        Some(match self.strat {
            Strategy::Random => *self.rng.pick(&c),
            Strategy::Sticky(p) => {
                if c.contains(&me) && self.rng.chance(p) {
                    me
                } else {
                    *self.rng.pick(&c)
                }
            }
            Strategy::Pct(_) => {
                let st = self.steps;
                if self.change.contains(&st) {
                    self.low -= 1;
                    let cur = *c.iter().max_by_key(|&&i| self.th[i].prio).unwrap();
                    self.th[cur].prio = self.low;
                }
                // yielding threads must not starve the others for ever
                if st % 500 == 499 {
                    self.low -= 1;
                    self.th[me].prio = self.low;
                }
                *c.iter().max_by_key(|&&i| self.th[i].prio).unwrap()
            }
        })
    }
}

/// Waker of a single poll: only the one of the latest poll counts.
struct BWaker {
    s: Arc<Sched>,
    t: usize,
    poll: u64,
}
impl Wake for BWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        let mut s = self.s.st.lock().unwrap();
        let t = &mut s.th[self.t];
        if t.poll != self.poll {
            return;
        }
        t.woken = true;
        if t.st == St::Parked {
            t.st = St::Ready;
        }
    }
}

struct NWaker {
    t: Thread,
    woken: AtomicBool,
}
impl Wake for NWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.woken.store(true, SeqCst);
        self.t.unpark();
    }
}

/// Poll once with a waker nobody listens to any more after this call, unless `block_on` follows.
pub fn poll_once<F: Future + ?Sized>(f: &mut Pin<Box<F>>) -> Option<F::Output> {
    let w: Waker = Arc::new(NWaker { t: std::thread::current(), woken: AtomicBool::new(false) }).into();
    match f.as_mut().poll(&mut Context::from_waker(&w)) {
        Poll::Ready(x) => Some(x),
        Poll::Pending => None,
    }
}

static NATIVE_WAITS: Mutex<Vec<(std::thread::ThreadId, Wait, Option<Instant>)>> = Mutex::new(Vec::new());

pub fn block_on<F: Future + ?Sized>(f: &mut Pin<Box<F>>, what: Wait) -> F::Output {
    if let Some((s, t)) = ctx() {
        loop {
            let poll = {
                let mut st = s.st.lock().unwrap();
                st.th[t].poll += 1;
                st.th[t].woken = false;
                st.th[t].poll
            };
            let w: Waker = Arc::new(BWaker { s: s.clone(), t, poll }).into();
            if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&w)) {
                return x;
            }
            s.regain(t);
            {
                let mut st = s.st.lock().unwrap();
                let spurious = st.rng.chance(4);
                if st.th[t].woken || spurious {
                    drop(st);
                    s.point(t, "poll");
                    continue;
                }
                st.th[t].st = St::Parked;
                st.th[t].wait = what.clone();
            }
            s.switch(t);
            let mut st = s.st.lock().unwrap();
            st.th[t].wait = Wait::None;
        }
    }
    loop {
        let nw = Arc::new(NWaker { t: std::thread::current(), woken: AtomicBool::new(false) });
        let w: Waker = nw.clone().into();
        if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            return x;
        }
        let id = std::thread::current().id();
        if !cfg!(miri) {
            NATIVE_WAITS.lock().unwrap().push((id, what.clone(), Some(Instant::now())));
        }
        while !nw.woken.load(SeqCst) {
            std::thread::park();
        }
        if !cfg!(miri) {
            NATIVE_WAITS.lock().unwrap().retain(|x| x.0 != id);
        }
    }
}

/// Let the others run until none of them can any more. Tells what they are waiting for (nothing when
/// there is no scheduler).
pub fn quiet() -> Option<Vec<Wait>> {
    let (s, t) = ctx()?;
    s.regain(t);
    s.st.lock().unwrap().th[t].st = St::Quiet;
    s.switch(t);
    let mut st = s.st.lock().unwrap();
    let others = st.th.iter().filter(|o| o.st == St::Parked).map(|o| o.wait.clone()).collect();
    st.th[t].st = St::Ready;
    st.progress += 1;
    Some(others)
}

/// Let others run.
pub fn step() {
    match ctx() {
        Some((s, t)) => s.point(t, "step"),
        None => std::thread::yield_now(),
    }
}

/// A future that is pending `n` times, waking itself.
pub struct YieldFut(pub u32);
impl Future for YieldFut {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        step();
        Poll::Pending
    }
}

type Job = Box<dyn FnOnce() + Send>;
pub struct Outcome {
    pub stuck: Option<Stuck>,
    pub panics: Vec<String>,
    pub hash: u64,
    pub steps: u64,
    pub switches: u64,
}

/// Run the jobs, each on a thread of its own. One more thread waits for the `clients` and then runs
/// `between`, after which all the others have to come to their end.
pub fn run_baton(seed: u64, jobs: Vec<Job>, clients: Vec<usize>, between: Job) -> Outcome {
    let n = jobs.len() + 1;
    let s = Sched::new(seed, 60_000);
    {
        let mut st = s.st.lock().unwrap();
        for _ in 0..n {
            let p = (1 << 21) + (st.rng.next() >> 20);
            st.th.push(Th { st: St::Ready, woken: false, wait: Wait::None, handle: None, prio: p, poll: 0, tid: 0 });
        }
    }
    let panics = Arc::new(Mutex::new(vec![]));
    let s3 = s.clone();
    let mut all: Vec<Job> = vec![Box::new(move || {
        wait_threads(&s3, clients);
        between();
        wait_threads(&s3, (1..n).collect());
    })];
    all.extend(jobs);
    let mut handles = vec![];
    for (t, j) in all.into_iter().enumerate().rev() {
        let (s2, panics) = (s.clone(), panics.clone());
        let h = std::thread::Builder::new()
            .stack_size(512 << 10)
            .spawn(move || {
                let s = s2;
                CTX.with(|c| *c.borrow_mut() = Some((s.clone(), t)));
                let tid = crate::drv::gettid();
                s.st.lock().unwrap().th[t].tid = tid;
                while !s.go.load(SeqCst) {
                    std::thread::park();
                }
                s.wait_turn(t);
                if let Err(p) = catch_unwind(AssertUnwindSafe(j)) {
                    if !p.is::<crate::world::SimPanic>() {
                        panics.lock().unwrap().push(crate::sim::panic_text(p));
                    }
                }
                CTX.with(|c| *c.borrow_mut() = None);
                finish(&s, t);
            })
            .unwrap();
        s.st.lock().unwrap().th[t].handle = Some(h.thread().clone());
        handles.push(h);
    }
    s.go.store(true, SeqCst);
    for h in &handles {
        h.thread().unpark();
    }
    let mut watch = Watch::default();
    while !s.dead.load(SeqCst) && !s.done.load(SeqCst) {
        std::thread::park_timeout(Duration::from_millis(60));
        watch.look(&s);
    }
    if !s.dead.load(SeqCst) {
        for h in handles {
            let _ = h.join();
        }
    }
    let st = s.st.lock().unwrap();
    let p = panics.lock().unwrap().clone();
    Outcome { stuck: st.stuck.clone(), panics: p, hash: st.hash, steps: st.steps, switches: st.switches }
}

/// How often a thread had to be left behind, blocked in something the scheduler does not know of.
pub static RESCUES: AtomicUsize = AtomicUsize::new(0);

/// Notices that the thread with the baton does not get anywhere, and lets the others go on.
#[derive(Default)]
struct Watch {
    steps: u64,
    cur: usize,
    asleep: u32,
    since: Option<Instant>,
    cpu: f64,
}
impl Watch {
    fn look(&mut self, s: &Sched) {
        if cfg!(miri) || s.dead.load(SeqCst) || s.done.load(SeqCst) {
            return;
        }
        let (steps, cur, tids) = {
            let st = s.st.lock().unwrap();
            let tids: Vec<i32> = st.th.iter().enumerate().filter(|(i, t)| *i == st.cur || st.cur == NOBODY && t.st == St::Native).map(|(_, t)| t.tid).collect();
            (st.steps, st.cur, tids)
        };
        let t: Vec<_> = tids.into_iter().filter_map(crate::drv::thread_state).collect();
        let cpu = t.iter().map(|t| t.1).sum();
        if self.since.is_none() || steps != self.steps || cur != self.cur {
            *self = Watch { steps, cur, asleep: 0, since: Some(Instant::now()), cpu };
            return;
        }
        if t.is_empty() {
            return;
        }
        self.asleep = if t.iter().all(|t| t.0 == 'S') { self.asleep + 1 } else { 0 };
        if self.asleep < if cur == NOBODY { 20 } else { 5 } && cpu - self.cpu < 3.0 {
            return;
        }
        self.since = None;
        let mut st = s.st.lock().unwrap();
        if st.steps != steps || st.cur != cur || cur != NOBODY && st.th[cur].st != St::Ready {
            return;
        }
        let next = if cur == NOBODY {
            None
        } else {
            RESCUES.fetch_add(1, SeqCst);
            st.th[cur].st = St::Native;
            st.th[cur].wait = Wait::Lock("unknown lock or endless loop");
            st.choose(cur)
        };
        match next {
            Some(n) => {
                st.cur = n;
                st.steps += 1;
                s.cur.store(n, SeqCst);
                let h = st.th[n].handle.clone();
                drop(st);
                if let Some(h) = h {
                    h.unpark();
                }
            }
            None if cur == NOBODY => {
                let waits = st.th.iter().enumerate().filter(|(_, t)| t.st != St::Done).map(|(i, t)| (i, t.wait.clone())).collect::<Vec<_>>();
                st.stuck = Some(Stuck { waits, livelock: false });
                drop(st);
                s.dead.store(true, SeqCst);
            }
            None => {
                st.cur = NOBODY;
                s.cur.store(NOBODY, SeqCst);
            }
        }
    }
}

fn finish(s: &Sched, me: usize) {
    s.regain(me);
    {
        let mut st = s.st.lock().unwrap();
        st.th[me].st = St::Done;
        st.progress += 1;
        let all = match &st.th[0].wait {
            Wait::Threads(v) => v.iter().all(|&i| st.th[i].st == St::Done),
            _ => false,
        };
        if all && st.th[0].st == St::Parked {
            st.th[0].st = St::Ready;
        }
    }
    let mut st = s.st.lock().unwrap();
    st.steps += 1;
    match st.choose(me) {
        Some(n) => {
            st.cur = n;
            s.cur.store(n, SeqCst);
            let h = st.th[n].handle.clone();
            drop(st);
            if let Some(h) = h {
                h.unpark();
            }
        }
        None => {
            if st.th.iter().all(|t| t.st == St::Done) {
                drop(st);
                s.done.store(true, SeqCst);
                s.main.unpark();
                return;
            }
            let waits = st.th.iter().enumerate().filter(|(_, t)| t.st != St::Done).map(|(i, t)| (i, t.wait.clone())).collect::<Vec<_>>();
            let livelock = st.steps >= st.max_steps;
            if !livelock && st.th.iter().any(|t| t.st == St::Native) {
                st.cur = NOBODY;
                s.cur.store(NOBODY, SeqCst);
                return;
            }
            st.stuck = Some(Stuck { waits, livelock });
            drop(st);
            s.dead.store(true, SeqCst);
            s.main.unpark();
        }
    }
}

fn wait_threads(s: &Arc<Sched>, v: Vec<usize>) {
    s.regain(0);
    {
        let mut st = s.st.lock().unwrap();
        if v.iter().all(|&i| st.th[i].st == St::Done) {
            return;
        }
        st.th[0].st = St::Parked;
        st.th[0].wait = Wait::Threads(v);
    }
    s.switch(0);
    s.st.lock().unwrap().th[0].wait = Wait::None;
}

/// The same with real threads.
pub fn run_native(seed: u64, jobs: Vec<Job>, clients: Vec<usize>, between: Job, noise: bool) -> Outcome {
    let panics = Arc::new(Mutex::new(vec![]));
    let go = Arc::new(AtomicUsize::new(0));
    let n = jobs.len();
    let mut hs: Vec<Option<std::thread::JoinHandle<()>>> = vec![];
    for (k, j) in jobs.into_iter().enumerate() {
        let (panics, go) = (panics.clone(), go.clone());
        hs.push(Some(
            std::thread::Builder::new()
                .stack_size(512 << 10)
                .spawn(move || {
                    if noise {
                        NOISE.with(|x| *x.borrow_mut() = Some(Rng::new(seed ^ (k as u64) << 17)));
                    }
                    go.fetch_add(1, SeqCst);
                    if !cfg!(miri) {
                        while go.load(SeqCst) < n {
                            std::hint::spin_loop();
                        }
                    }
                    if let Err(p) = catch_unwind(AssertUnwindSafe(j)) {
                        if !p.is::<crate::world::SimPanic>() {
                            panics.lock().unwrap().push(crate::sim::panic_text(p));
                        }
                    }
                })
                .unwrap(),
        ));
    }
    let limit = Instant::now();
    let mut stuck = None;
    let mut wait = |v: &mut dyn Iterator<Item = usize>, hs: &mut Vec<Option<std::thread::JoinHandle<()>>>| {
        for i in v {
            if let Some(h) = hs[i].take() {
                if cfg!(miri) {
                    h.join().unwrap();
                    continue;
                }
                while !h.is_finished() && stuck.is_none() {
                    let spent = limit.elapsed();
                    if spent > Duration::from_millis(5) {
                        std::thread::sleep(Duration::from_millis(1));
                    } else {
                        std::thread::yield_now();
                    }
                    if spent > Duration::from_secs(30) {
                        let w: Vec<_> = NATIVE_WAITS.lock().unwrap().iter().enumerate().map(|(i, x)| (i, x.1.clone())).collect();
                        stuck = Some(Stuck { waits: w, livelock: false });
                    }
                }
                if stuck.is_none() {
                    h.join().unwrap();
                }
            }
        }
    };
    wait(&mut clients.iter().map(|c| c - 1), &mut hs);
    between();
    wait(&mut (0..n), &mut hs);
    let p = panics.lock().unwrap().clone();
    Outcome { stuck, panics: p, hash: 0, steps: 0, switches: 0 }
}
