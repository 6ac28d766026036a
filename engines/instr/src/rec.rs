//! A recording subscriber: span parents, enters, exits, reference counts.
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::Mutex;

use tracing::span::{Attributes, Id, Record};
use tracing_core::span::Current;
use tracing::{Event, Level, Metadata, Subscriber};

#[derive(Clone, Debug)]
pub struct Sp {
    pub name: &'static str,
    pub parent: Option<u64>,
    pub refs: i64,
    pub enters: i64,
    pub fields: Vec<String>,
    pub meta: &'static Metadata<'static>,
}
#[derive(Default)]
pub struct Tab {
    pub spans: HashMap<u64, Sp>,
    pub next: u64,
    pub bad: Vec<String>,
    pub n_new: u64,
    pub n_enter: u64,
}
pub struct Rec {
    pub tab: Mutex<Tab>,
    pub max: Level,
    /// bit set of the crate's span names that are filtered out
    pub hide: u8,
}
thread_local! {
    static STACK: RefCell<HashMap<usize, Vec<u64>>> = RefCell::new(HashMap::new());
}
pub const NAMES: [&str; 3] = ["xtra_actor_request", "xtra_message_waiting_for_actor", "xtra_message_handler"];

impl Rec {
    pub fn new(max: Level, hide: u8) -> Rec {
        Rec { tab: Mutex::new(Tab { next: 1, ..Tab::default() }), max, hide }
    }
    fn key(&self) -> usize {
        self as *const _ as usize
    }
    pub fn stack(&self) -> Vec<u64> {
        STACK.with(|s| s.borrow().get(&self.key()).cloned().unwrap_or_default())
    }
    pub fn forget(&self) {
        STACK.with(|s| s.borrow_mut().remove(&self.key()));
    }
    pub fn cur(&self) -> Option<u64> {
        self.stack().last().copied()
    }
    /// ids from the current span outwards
    pub fn chain(&self, from: Option<u64>) -> Vec<(u64, &'static str)> {
        let t = self.tab.lock().unwrap();
        let mut v = vec![];
        let mut c = from;
        while let Some(i) = c {
            let Some(s) = t.spans.get(&i) else { break };
            v.push((i, s.name));
            c = s.parent;
            if v.len() > 200 {
                break;
            }
        }
        v
    }
}

pub struct Shared(pub std::sync::Arc<Rec>);
impl Subscriber for Shared {
    fn register_callsite(&self, _: &'static Metadata<'static>) -> tracing::subscriber::Interest {
        tracing::subscriber::Interest::sometimes()
    }
    fn enabled(&self, m: &Metadata<'_>) -> bool {
        if let Some(i) = NAMES.iter().position(|n| *n == m.name()) {
            if self.0.hide & (1 << i) != 0 {
                return false;
            }
        }
        m.level() <= &self.0.max
    }
    fn new_span(&self, a: &Attributes<'_>) -> Id {
        let parent = if a.is_root() {
            None
        } else if a.is_contextual() {
            self.0.cur()
        } else {
            a.parent().map(|p| p.into_u64())
        };
        struct V(Vec<String>);
        impl tracing::field::Visit for V {
            fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
                self.0.push(format!("{}={v:?}", f.name()));
            }
        }
        let mut v = V(vec![]);
        a.record(&mut v);
        let mut t = self.0.tab.lock().unwrap();
        let id = t.next;
        t.next += 1;
        t.n_new += 1;
        if let Some(p) = parent {
            if !t.spans.get(&p).is_some_and(|s| s.refs > 0) {
                t.bad.push(format!("span {id} ({}) created in span {p}, which is closed", a.metadata().name()));
            }
        }
        t.spans.insert(id, Sp { name: a.metadata().name(), parent, refs: 1, enters: 0, fields: v.0, meta: a.metadata() });
        Id::from_u64(id)
    }
    fn record(&self, i: &Id, r: &Record<'_>) {
        struct V(Vec<String>);
        impl tracing::field::Visit for V {
            fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
                self.0.push(format!("{}={v:?}", f.name()));
            }
        }
        let mut v = V(vec![]);
        r.record(&mut v);
        let mut t = self.0.tab.lock().unwrap();
        if let Some(s) = t.spans.get_mut(&i.into_u64()) {
            s.fields.extend(v.0);
        }
    }
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, _: &Event<'_>) {}
    fn enter(&self, i: &Id) {
        let i = i.into_u64();
        STACK.with(|s| s.borrow_mut().entry(self.0.key()).or_default().push(i));
        let mut t = self.0.tab.lock().unwrap();
        t.n_enter += 1;
        let ok = t.spans.get_mut(&i).map(|s| {
            s.enters += 1;
            s.refs > 0
        });
        if ok != Some(true) {
            t.bad.push(format!("span {i} entered although it is closed"));
        }
    }
    fn exit(&self, i: &Id) {
        let i = i.into_u64();
        let ok = STACK.with(|s| {
            let mut s = s.borrow_mut();
            let v = s.entry(self.0.key()).or_default();
            match v.iter().rposition(|x| *x == i) {
                Some(p) => {
                    let last = p + 1 == v.len();
                    v.remove(p);
                    last
                }
                None => false,
            }
        });
        let mut t = self.0.tab.lock().unwrap();
        if let Some(s) = t.spans.get_mut(&i) {
            s.enters -= 1;
        }
        if !ok {
            t.bad.push(format!("span {i} exited, but it is not the one entered last on this thread"));
        }
    }
    fn clone_span(&self, i: &Id) -> Id {
        let mut t = self.0.tab.lock().unwrap();
        if let Some(s) = t.spans.get_mut(&i.into_u64()) {
            s.refs += 1;
        }
        i.clone()
    }
    fn try_close(&self, i: Id) -> bool {
        let mut t = self.0.tab.lock().unwrap();
        let k = i.into_u64();
        let r = t.spans.get_mut(&k).map(|s| {
            s.refs -= 1;
            s.refs
        });
        if r.is_none_or(|r| r < 0) {
            t.bad.push(format!("span {k} closed once too often"));
        }
        r == Some(0)
    }
    fn current_span(&self) -> Current {
        match self.0.cur() {
            Some(c) => {
                let m = self.0.tab.lock().unwrap().spans[&c].meta;
                Current::new(Id::from_u64(c), m)
            }
            None => Current::none(),
        }
    }
}
