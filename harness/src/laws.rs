//! Equality, order and hash of addresses and message channels against a model (actor, strength).
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};

use xtra::prelude::*;
use xtra::refcount::{Either, RefCounter, Strong, Weak};

use crate::rng::{mix, Rng};

pub struct La;
pub struct Lb;
#[derive(Clone)]
pub struct Q(pub u32);
macro_rules! act {
    ($t:ty, $k:expr) => {
        impl Actor for $t {
            type Stop = ();
            async fn stopped(self) {}
        }
        impl Handler<Q> for $t {
            type Return = u32;
            async fn handle(&mut self, m: Q, _: &mut Context<Self>) -> u32 {
                m.0 + $k
            }
        }
    };
}
act!(La, 1);
act!(Lb, 2);

enum Ad<A> {
    S(Address<A, Strong>),
    W(Address<A, Weak>),
    E(Address<A, Either>),
}
enum Ch {
    S(MessageChannel<Q, u32, Strong>),
    W(MessageChannel<Q, u32, Weak>),
    E(MessageChannel<Q, u32, Either>),
}
/// model of a handle
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
struct Md {
    chan: usize,
    strong: bool,
}

macro_rules! on {
    ($a:expr, $x:ident, $e:expr) => {
        match $a {
            Ad::S($x) => $e,
            Ad::W($x) => $e,
            Ad::E($x) => $e,
        }
    };
}
macro_rules! onc {
    ($a:expr, $x:ident, $e:expr) => {
        match $a {
            Ch::S($x) => $e,
            Ch::W($x) => $e,
            Ch::E($x) => $e,
        }
    };
}

fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}
/// A hasher that keeps everything it is fed.
#[derive(Default)]
struct Bytes(Vec<u8>);
impl Hasher for Bytes {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push(b.len() as u8);
        self.0.extend_from_slice(b);
    }
}
fn hb<T: Hash>(t: &T) -> Vec<u8> {
    let mut s = Bytes::default();
    t.hash(&mut s);
    s.0
}

struct L {
    rng: Rng,
    viol: Vec<(Vec<&'static str>, String)>,
    log: String,
    n: u64,
    pairs: u64,
    sets: u64,
    /// order of channels as first seen
    order: HashMap<(usize, usize), Ordering>,
}

impl L {
    fn bad(&mut self, what: String) {
        if self.viol.is_empty() {
            let _ = writeln!(self.log, "VIOLATION {what}");
            self.viol.push((vec!["C18"], what));
        }
    }
    fn want<T: PartialEq + std::fmt::Debug>(&mut self, got: T, want: T, what: impl FnOnce() -> String) {
        self.n += 1;
        if got != want {
            let w = what();
            self.bad(format!("{w}: got {got:?}, expected {want:?}"));
        }
    }

    fn pair<A, R1: RefCounter, R2: RefCounter>(&mut self, a: &Address<A, R1>, ma: Md, b: &Address<A, R2>, mb: Md, base: usize) {
        self.pairs += 1;
        let n = || format!("{ma:?} ({}) vs {mb:?} ({})", short::<R1>(), short::<R2>());
        let eq = ma == mb;
        self.want(a == b, eq, || format!("== of {}", n()));
        self.want(b == a, eq, || format!("reversed == of {}", n()));
        self.want(a != b, !eq, || format!("!= of {}", n()));
        self.want(a.same_actor(b), ma.chan == mb.chan, || format!("same_actor of {}", n()));
        let o = match ma.chan.cmp(&mb.chan) {
            Ordering::Equal => ma.strong.cmp(&mb.strong),
            _ => {
                // any order of the actors will do, but it has to be the same one everywhere and always
                let k = (base + ma.chan, base + mb.chan);
                let got = a.partial_cmp(b);
                match (self.order.get(&k), got) {
                    (Some(o), _) => *o,
                    (None, Some(o)) if o != Ordering::Equal => {
                        self.order.insert(k, o);
                        self.order.insert((k.1, k.0), o.reverse());
                        o
                    }
                    (None, g) => {
                        self.bad(format!("partial_cmp of different actors is {g:?}: {}", n()));
                        return;
                    }
                }
            }
        };
        self.want(a.partial_cmp(b), Some(o), || format!("partial_cmp of {}", n()));
        self.want(b.partial_cmp(a), Some(o.reverse()), || format!("reversed partial_cmp of {}", n()));
        self.want(a < b, o == Ordering::Less, || format!("< of {}", n()));
        self.want(a <= b, o != Ordering::Greater, || format!("<= of {}", n()));
        self.want(a > b, o == Ordering::Greater, || format!("> of {}", n()));
        self.want(a >= b, o != Ordering::Less, || format!(">= of {}", n()));
        if eq {
            self.want(h(a) == h(b), true, || format!("equal addresses hash differently: {}", n()));
            self.want(hb(a) == hb(b), true, || format!("equal addresses feed different data to the hasher: {}", n()));
        }
    }

    fn same_type<A, R: RefCounter>(&mut self, v: &[(&Address<A, R>, Md)], base: usize) {
        for (a, ma) in v {
            for (b, mb) in v {
                let p = a.partial_cmp(b);
                self.want(Some(a.cmp(b)), p, || format!("cmp and partial_cmp of {ma:?} and {mb:?} ({}) disagree", short::<R>()));
                self.want(a.cmp(b) == Ordering::Equal, a == b, || format!("cmp and == of {ma:?} and {mb:?} ({}) disagree", short::<R>()));
            }
        }
        // transitivity
        for _ in 0..20 {
            if v.is_empty() {
                break;
            }
            let (x, y, z) = (*self.rng.pick(v), *self.rng.pick(v), *self.rng.pick(v));
            if x.0 <= y.0 && y.0 <= z.0 {
                self.want(x.0 <= z.0, true, || format!("order is not transitive: {:?} {:?} {:?}", x.1, y.1, z.1));
            }
        }
        // collections behave as sets
        self.sets += 1;
        let model: HashSet<Md> = v.iter().map(|x| x.1).collect();
        let mut hs = HashSet::new();
        let mut bs = BTreeSet::new();
        let mut hm: HashMap<Address<A, R>, Md> = HashMap::new();
        let mut bm: BTreeMap<Address<A, R>, Md> = BTreeMap::new();
        let mut seen: HashSet<Md> = HashSet::new();
        for (a, m) in v {
            let new = seen.insert(*m);
            self.want(hs.insert((*a).clone()), new, || format!("HashSet::insert of {m:?}"));
            self.want(bs.insert((*a).clone()), new, || format!("BTreeSet::insert of {m:?}"));
            hm.entry((*a).clone()).or_insert(*m);
            bm.entry((*a).clone()).or_insert(*m);
        }
        self.want(hs.len(), model.len(), || format!("size of HashSet of {:?}", v.iter().map(|x| x.1).collect::<Vec<_>>()));
        self.want(bs.len(), model.len(), || format!("size of BTreeSet of {:?}", v.iter().map(|x| x.1).collect::<Vec<_>>()));
        for (a, m) in v {
            self.want(hs.contains(a), true, || format!("HashSet misses {m:?}"));
            self.want(bs.contains(a), true, || format!("BTreeSet misses {m:?}"));
            self.want(hm.get(a), Some(m), || format!("HashMap of {m:?}"));
            self.want(bm.get(a), Some(m), || format!("BTreeMap of {m:?}"));
        }
        let mut s: Vec<_> = v.to_vec();
        s.sort_by(|a, b| a.0.cmp(b.0));
        for w in s.windows(2) {
            let (x, y) = (w[0], w[1]);
            let ok = if x.1.chan == y.1.chan { x.1.strong <= y.1.strong } else { self.order.get(&(base + x.1.chan, base + y.1.chan)) != Some(&Ordering::Greater) };
            self.want(ok, true, || format!("sorting puts {:?} before {:?}", x.1, y.1));
        }
        // removal
        if let Some((a, m)) = v.first() {
            self.want(hs.remove(*a), true, || format!("HashSet::remove of {m:?}"));
            self.want(bs.remove(*a), true, || format!("BTreeSet::remove of {m:?}"));
            self.want(hs.contains(*a) || bs.contains(*a), false, || format!("{m:?} is still there after removal"));
        }
    }

    fn chans<R: RefCounter>(&mut self, v: &[(&MessageChannel<Q, u32, R>, Md)]) {
        for (a, ma) in v {
            for (b, mb) in v {
                let eq = ma == mb;
                self.want(a == b, eq, || format!("== of channels {ma:?} and {mb:?} ({})", short::<R>()));
                self.want(a != b, !eq, || format!("!= of channels {ma:?} and {mb:?} ({})", short::<R>()));
                if eq {
                    self.want(h(*a) == h(*b) && hb(*a) == hb(*b), true, || format!("equal channels {ma:?} hash differently"));
                }
            }
        }
    }
}

fn short<R>() -> &'static str {
    let s = std::any::type_name::<R>();
    s.rsplit("::").next().unwrap_or(s)
}

struct Side<A> {
    chans: Vec<Option<Mailbox<A>>>,
    ads: Vec<(Ad<A>, Md)>,
    chs: Vec<(Ch, Md)>,
    base: usize,
}

impl<A: Handler<Q, Return = u32>> Side<A> {
    fn new(base: usize) -> Self {
        Side { chans: vec![], ads: vec![], chs: vec![], base }
    }
    fn step(&mut self, l: &mut L) {
        let r = l.rng.below(100);
        if self.chans.is_empty() || (r < 12 && self.chans.len() < 5) {
            let (a, m) = match l.rng.below(3) {
                0 => Mailbox::unbounded(),
                x => Mailbox::bounded(x),
            };
            let _ = writeln!(l.log, "new actor {}", self.base + self.chans.len());
            self.ads.push((Ad::S(a), Md { chan: self.chans.len(), strong: true }));
            self.chans.push(Some(m));
            return;
        }
        if r < 20 {
            let i = l.rng.below(self.chans.len());
            if let Some(m) = &self.chans[i] {
                self.ads.push((Ad::W(m.address()), Md { chan: i, strong: false }));
                if l.rng.chance(25) {
                    self.chans[i] = None;
                }
            }
            return;
        }
        if r < 30 && self.ads.len() + self.chs.len() > 8 {
            if l.rng.chance(50) && !self.ads.is_empty() {
                let i = l.rng.below(self.ads.len());
                self.ads.swap_remove(i);
            } else if !self.chs.is_empty() {
                let i = l.rng.below(self.chs.len());
                self.chs.swap_remove(i);
            }
            return;
        }
        if self.ads.len() + self.chs.len() > 18 || self.ads.is_empty() {
            return;
        }
        if r < 50 && !self.chs.is_empty() {
            let i = l.rng.below(self.chs.len());
            let (c, m) = &self.chs[i];
            let m = *m;
            let n = match (c, l.rng.below(3)) {
                (Ch::S(c), 0) => (Ch::W(c.downgrade()), Md { strong: false, ..m }),
                (Ch::S(c), 1) => (Ch::E(c.as_either()), m),
                (Ch::S(c), _) => (Ch::S(c.clone()), m),
                (Ch::W(c), 0 | 1) => (Ch::E(c.as_either()), m),
                (Ch::W(c), _) => (Ch::W(c.clone()), m),
                (Ch::E(c), 0) => (Ch::W(c.downgrade()), Md { strong: false, ..m }),
                (Ch::E(c), 1) => (Ch::E(c.as_either()), m),
                (Ch::E(c), _) => (Ch::E(c.clone()), m),
            };
            self.chs.push(n);
            return;
        }
        let i = l.rng.below(self.ads.len());
        let (a, m) = &self.ads[i];
        let m = *m;
        match (a, l.rng.below(5)) {
            (Ad::S(a), 0) => self.ads.push((Ad::W(a.downgrade()), Md { strong: false, ..m })),
            (Ad::W(a), 0) => {
                if let Some(s) = a.try_upgrade() {
                    self.ads.push((Ad::S(s), Md { strong: true, ..m }));
                }
            }
            (Ad::E(a), 0) => self.ads.push((Ad::W(a.downgrade()), Md { strong: false, ..m })),
            (a, 1) => {
                let e = on!(a, a, a.as_either());
                self.ads.push((Ad::E(e), m));
            }
            (a, 2) => {
                let c = match a {
                    Ad::S(a) => Ch::S(MessageChannel::new(a.clone())),
                    Ad::W(a) => Ch::W(a.clone().into()),
                    Ad::E(a) => Ch::E(MessageChannel::new(a.clone())),
                };
                self.chs.push((c, m));
            }
            (a, _) => {
                let c = match a {
                    Ad::S(a) => Ad::S(a.clone()),
                    Ad::W(a) => Ad::W(a.clone()),
                    Ad::E(a) => Ad::E(a.clone()),
                };
                self.ads.push((c, m));
            }
        }
    }
    fn check(&self, l: &mut L) {
        for (a, ma) in &self.ads {
            for (b, mb) in &self.ads {
                on!(a, x, on!(b, y, l.pair(x, *ma, y, *mb, self.base)));
            }
        }
        // cross-type transitivity
        for _ in 0..20 {
            if self.ads.is_empty() {
                break;
            }
            let (x, y, z) = (l.rng.below(self.ads.len()), l.rng.below(self.ads.len()), l.rng.below(self.ads.len()));
            let le = |p: usize, q: usize| on!(&self.ads[p].0, a, on!(&self.ads[q].0, b, a <= b));
            if le(x, y) && le(y, z) {
                l.want(le(x, z), true, || "order of mixed addresses is not transitive".to_string());
            }
        }
        let s: Vec<_> = self.ads.iter().filter_map(|(a, m)| if let Ad::S(a) = a { Some((a, *m)) } else { None }).collect();
        let w: Vec<_> = self.ads.iter().filter_map(|(a, m)| if let Ad::W(a) = a { Some((a, *m)) } else { None }).collect();
        let e: Vec<_> = self.ads.iter().filter_map(|(a, m)| if let Ad::E(a) = a { Some((a, *m)) } else { None }).collect();
        l.same_type(&s, self.base);
        l.same_type(&w, self.base);
        l.same_type(&e, self.base);
    }
}

pub fn episode(seed: u64, trace: bool) -> crate::drv::Report {
    let mut l = L { rng: Rng::new(seed), viol: vec![], log: String::new(), n: 0, pairs: 0, sets: 0, order: HashMap::new() };
    let mut a: Side<La> = Side::new(0);
    let mut b: Side<Lb> = Side::new(100);
    let steps = if cfg!(miri) { 10 } else { 24 };
    let mut states = vec![];
    for round in 0..3 {
        for _ in 0..steps {
            a.step(&mut l);
            if l.rng.chance(40) {
                b.step(&mut l);
            }
        }
        a.check(&mut l);
        b.check(&mut l);
        // channels of both actor types together
        let all: Vec<(&Ch, Md)> = a.chs.iter().map(|(c, m)| (c, *m)).chain(b.chs.iter().map(|(c, m)| (c, Md { chan: m.chan + 100, strong: m.strong }))).collect();
        for (x, mx) in &all {
            for (y, my) in &all {
                let got = onc!(x, x, onc!(y, y, x.same_actor(y)));
                l.want(got, mx.chan == my.chan, || format!("same_actor of channels {mx:?} and {my:?}"));
            }
        }
        let s: Vec<_> = all.iter().filter_map(|(c, m)| if let Ch::S(c) = c { Some((c, *m)) } else { None }).collect();
        let w: Vec<_> = all.iter().filter_map(|(c, m)| if let Ch::W(c) = c { Some((c, *m)) } else { None }).collect();
        let e: Vec<_> = all.iter().filter_map(|(c, m)| if let Ch::E(c) = c { Some((c, *m)) } else { None }).collect();
        l.chans(&s);
        l.chans(&w);
        l.chans(&e);
        let mut k: Vec<u64> = a.ads.iter().map(|(x, m)| mix((m.chan * 8 + m.strong as usize * 4 + match x { Ad::S(_) => 0, Ad::W(_) => 1, Ad::E(_) => 2 }) as u64)).collect();
        k.sort();
        states.push(k.iter().fold(all.len() as u64, |h, x| mix(h ^ x)));
        // the last actors may go away between the rounds; what is left of them has to compare as before
        if round == 1 {
            for c in a.chans.iter_mut().chain([]) {
                if l.rng.chance(50) {
                    *c = None;
                }
            }
        }
        if !l.viol.is_empty() {
            break;
        }
    }
    let text = if trace || !l.viol.is_empty() { std::mem::take(&mut l.log) } else { String::new() };
    crate::drv::Report { viol: l.viol, trace: text, stats: vec![("comparisons", l.n), ("pairs", l.pairs), ("collections", l.sets)], states, sched: None }
}
