"""C23: the same random programs under Miri, ThreadSanitizer and AddressSanitizer/LeakSanitizer, and probes of what the safe API lets through the compiler."""
import json, os, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor

TRIPLE = "x86_64-unknown-linux-gnu"
SIGNS = [("ThreadSanitizer: data race", "a data race (ThreadSanitizer)"), ("WARNING: ThreadSanitizer: heap-use-after-free", "use after free (ThreadSanitizer)"),
         ("AddressSanitizer:", "a memory error (AddressSanitizer)"), ("LeakSanitizer: detected memory leaks", "memory was leaked (LeakSanitizer)"),
         ("error: Undefined Behavior", "undefined behaviour (Miri)"), ("error: memory leaked", "memory was leaked (Miri)"), ("Data race detected", "a data race (Miri)")]


def verdict(rc, err):
    for s, t in SIGNS:
        if s in err:
            i = err.index(s)
            return t, err[max(0, i - 300):i + 6000]
    if isinstance(rc, int) and rc in (-11, -6, -7, -4, -8):
        return f"the process was killed by signal {-rc}", err[-3000:]
    return None, None


def sanitizer(m, a, kind, secs, workers=2, procs=4):
    if kind == "tsan":
        rc, td, err = m.build("engines/mem", "mem-tsan", "-Zsanitizer=thread", "+nightly", extra=("-Zbuild-std", "--target", TRIPLE))
        opt = {"TSAN_OPTIONS": "halt_on_error=1 exitcode=66"}
        selftests = ["race"]
    else:
        rc, td, err = m.build("engines/mem", "mem-asan", "-Zsanitizer=address", "+nightly", extra=("--target", TRIPLE))
        opt = {"ASAN_OPTIONS": "detect_leaks=1 exitcode=67", "LSAN_OPTIONS": "exitcode=67"}
        selftests = ["uaf", "leak"]
    if rc != 0:
        a.notes.append(f"{kind}: build failed: {err[-500:]}")
        return
    exe = os.path.join(td, TRIPLE, "debug", "xmem")
    for s in selftests:
        rc, so, se, dt = m.run([exe, "--selftest", s], 60, opt)
        if verdict(rc, se)[0] is None:
            if s == "leak" and "ptrace" in se:
                a.notes.append("LeakSanitizer cannot run here: " + se[-200:])
                opt["ASAN_OPTIONS"] = "detect_leaks=0 exitcode=67"
                continue
            a.notes.append(f"{kind} does not see a deliberate {s} ({rc}): {se[-300:]}")
            return
    a.stat(f"{kind}.deliberate_faults_seen", len(selftests))

    def one(i):
        out = os.path.join(m.EVID, f".{a.prop}-{kind}-{i}.json")
        if os.path.exists(out):
            os.remove(out)
        cmd = [exe, "--seed", str(m.SEED), "--first", str(i * 10_000_000), "--secs", str(secs), "--workers", str(workers), "--out", out]
        rc, so, se, dt = m.run(cmd, secs + 120, opt)
        return cmd, rc, se, out

    with ThreadPoolExecutor(procs) as ex:
        res = list(ex.map(one, range(procs)))
    collect(m, a, kind, res)


def collect(m, a, kind, res):
    eps = 0
    for cmd, rc, se, out in res:
        d = None
        if out and os.path.exists(out):
            try:
                d = json.load(open(out))
            except ValueError:
                pass
        if d:
            eps += d["episodes"]
            a.evaluations += d["episodes"]
            a.distinct += d["states"]
            for k, v in d["stats"].items():
                a.stat(f"{kind}.{k}", v)
            for v in d["violations"]:
                if a.prop in v["props"]:
                    a.viol.append(dict(seed=v["seed"], props=["C23"], what=v["what"], trace=v["trace"], engine=kind, replay=" ".join(cmd)))
                else:
                    a.other["+".join(v["props"])] = a.other.get("+".join(v["props"]), 0) + 1
        w, t = verdict(rc, se)
        if w:
            a.viol.append(dict(seed=m.SEED, props=["C23"], what=w + ": " + next((l.strip() for l in t.split("\n") if any(s[0] in l for s in SIGNS)), "")[:300], trace=t, engine=kind, replay=" ".join(cmd)))
        elif rc not in (0, 1):
            a.notes.append(f"{kind} ended with {rc}: {se[-300:]}")
    a.stages.append(dict(stage=kind, episodes=eps))


MIRI_FLAGS = ["", "-Zmiri-preemption-rate=0.05", "-Zmiri-preemption-rate=0.2", "-Zmiri-tree-borrows -Zmiri-preemption-rate=0.1", "-Zmiri-preemption-rate=0.01 -Zmiri-compare-exchange-weak-failure-rate=0.5",
              "-Zmiri-tree-borrows", "-Zmiri-preemption-rate=0.4", "-Zmiri-address-reuse-rate=0.9 -Zmiri-address-reuse-cross-thread-rate=0.5 -Zmiri-preemption-rate=0.1"]


def miri(m, a, secs, procs=8, crate="engines/mem", exe_args=()):
    td = m.target_dir("mem-miri")
    base = ["cargo", "+nightly", "miri", "run", "--offline", "--target-dir", td, "--manifest-path", os.path.join(m.HERE, crate, "Cargo.toml"), "-q", "--"]

    def go(args, flags, timeout):
        return m.run(base + args, timeout, {"MIRIFLAGS": "-Zmiri-disable-isolation " + flags, "RUSTFLAGS": ""}, os.path.join(m.HERE, crate))

    ok = 0
    for s in ("race", "leak"):
        rc, so, se, dt = go(["--selftest", s], "", 400)
        w, _ = verdict(rc, se)
        if w is None:
            a.notes.append(f"Miri does not see a deliberate {s} ({rc}): {se[-800:]}")
        else:
            ok += 1
    if ok < 2:
        return
    a.stat("miri.deliberate_faults_seen", ok)
    t0 = time.time()

    def one(i):
        out = os.path.join(m.EVID, f".{a.prop}-miri-{i}.json")
        if os.path.exists(out):
            os.remove(out)
        flags = MIRI_FLAGS[i % len(MIRI_FLAGS)] + f" -Zmiri-seed={m.SEED * 1000 + i}"
        args = ["--seed", str(m.SEED), "--first", str(500_000_000 + i * 1_000_000), "--secs", str(secs), "--workers", "1", "--out", out, "--say"]
        rc, so, se, dt = go(args, flags, secs * 3 + 120)
        return [f"MIRIFLAGS='{flags}'"] + base + args, rc, se, out

    with ThreadPoolExecutor(procs) as ex:
        res = list(ex.map(one, range(procs)))
    collect(m, a, "miri", res)


HEAD = """#![allow(warnings)]
use std::rc::Rc; use std::cell::Cell; use std::sync::Arc;
use xtra::prelude::*; use xtra::{Address, WeakAddress, Mailbox, Error};
use xtra::refcount::{Strong, Weak, Either};
struct A; impl xtra::Actor for A { type Stop = (); async fn stopped(self) {} }
struct M(u8); impl Handler<M> for A { type Return = u8; async fn handle(&mut self, m: M, _: &mut Context<Self>) -> u8 { m.0 } }
#[derive(Clone)] struct Bc; impl Handler<Bc> for A { type Return = (); async fn handle(&mut self, _: Bc, _: &mut Context<Self>) {} }
fn send<T: ::core::marker::Send>() {} fn sync<T: ::core::marker::Sync>() {} fn stat<T: 'static>() {}
fn sendv<T: ::core::marker::Send>(_: &T) {}
"""
# (name, code, accepted?)
PROBES = [
    ("address_send_sync", "fn p() { send::<Address<A>>(); sync::<Address<A>>(); send::<WeakAddress<A>>(); sync::<WeakAddress<A>>(); send::<Address<A, Either>>(); stat::<Address<A>>(); }", True),
    ("channel_send_sync", "fn p() { send::<MessageChannel<M, u8>>(); sync::<MessageChannel<M, u8>>(); send::<MessageChannel<M, u8, Weak>>(); }", True),
    ("mailbox_send_sync", "fn p() { send::<Mailbox<A>>(); sync::<Mailbox<A>>(); }", True),
    ("send_future_send", "fn p(a: Address<A>) { sendv(&a.send(M(1))); sendv(&a.send(M(1)).detach()); sendv(&a.broadcast(Bc)); sendv(&a.join()); }", True),
    ("receive_future_send", "fn p(m: Mailbox<A>) { sendv(&m.next()); let r = xtra::run(m, A); sendv(&r); }", True),
    ("dispatch_send", "async fn q(m: Mailbox<A>) { let mut a = A; let d = m.next().await.dispatch_to(&mut a); sendv(&d); } fn p(m: Mailbox<A>) { sendv(&q(m)) }", True),
    ("not_send_actor", "struct N(Rc<u8>); impl xtra::Actor for N { type Stop = (); async fn stopped(self) {} }", False),
    ("not_static_actor", "struct N<'a>(&'a u8); impl<'a> xtra::Actor for N<'a> { type Stop = (); async fn stopped(self) {} }", False),
    ("not_send_stop", "struct N; impl xtra::Actor for N { type Stop = Rc<u8>; async fn stopped(self) -> Rc<u8> { Rc::new(1) } }", False),
    ("not_send_message", "struct Bad(Rc<u8>); impl Handler<Bad> for A { type Return = (); async fn handle(&mut self, m: Bad, _: &mut Context<Self>) { } } fn p(a: Address<A>) { let _ = a.send(Bad(Rc::new(1))); }", False),
    ("not_send_message_sync_handler", "struct Bad(Rc<u8>); impl Handler<Bad> for A { type Return = (); fn handle(&mut self, m: Bad, _: &mut Context<Self>) -> impl std::future::Future<Output = ()> + ::core::marker::Send { drop(m); std::future::ready(()) } } fn p(a: Address<A>) { let _ = a.send(Bad(Rc::new(1))); }", False),
    ("not_static_message", "struct Bad<'a>(&'a u8); impl<'a> Handler<Bad<'a>> for A { type Return = (); async fn handle(&mut self, m: Bad<'a>, _: &mut Context<Self>) { } } fn p<'a>(a: Address<A>, x: &'a u8) { let _ = a.send(Bad(x)); }", False),
    ("not_send_return", "struct Ms; impl Handler<Ms> for A { type Return = Rc<u8>; async fn handle(&mut self, m: Ms, _: &mut Context<Self>) -> Rc<u8> { Rc::new(1) } } fn p(a: Address<A>) { let _ = a.send(Ms); }", False),
    ("handler_holds_rc", "struct Ms; impl Handler<Ms> for A { type Return = (); async fn handle(&mut self, m: Ms, _: &mut Context<Self>) { let r = Rc::new(1); std::future::ready(()).await; drop(r); } }", False),
    ("broadcast_not_clone", "struct Ms; impl Handler<Ms> for A { type Return = (); async fn handle(&mut self, m: Ms, _: &mut Context<Self>) { } } fn p(a: Address<A>) { let _ = a.broadcast(Ms); }", False),
    ("broadcast_not_sync", "#[derive(Clone)] struct Ms(Cell<u8>); impl Handler<Ms> for A { type Return = (); async fn handle(&mut self, m: Ms, _: &mut Context<Self>) { } } fn p(a: Address<A>) { let _ = a.broadcast(Ms(Cell::new(1))); }", False),
    ("send_not_sync_ok", "struct Ms(Cell<u8>); impl Handler<Ms> for A { type Return = Cell<u8>; async fn handle(&mut self, m: Ms, _: &mut Context<Self>) -> Cell<u8> { m.0 } } fn p(a: Address<A>) { let f = a.send(Ms(Cell::new(1))); sendv(&f); }", True),
    ("not_sync_actor_ok", "struct N(Cell<u8>); impl xtra::Actor for N { type Stop = (); async fn stopped(self) {} } fn p() { send::<Address<N>>(); sync::<Address<N>>(); send::<Mailbox<N>>(); }", True),
    ("dispatch_borrows_actor", "async fn p(m: Mailbox<A>) { let mut a = A; let d = m.next().await.dispatch_to(&mut a); drop(a); d.await; }", False),
    ("dispatch_outlives_actor", "async fn p(m: Mailbox<A>) { let d = { let mut a = A; m.next().await.dispatch_to(&mut a) }; d.await; }", False),
    ("dispatch_two_at_once", "async fn p(m: Mailbox<A>) { let mut a = A; let d = m.next().await.dispatch_to(&mut a); let e = m.next().await.dispatch_to(&mut a); d.await; e.await; }", False),
    ("message_once", "async fn p(m: Mailbox<A>) { let mut a = A; let d = m.next().await; d.dispatch_to(&mut a).await; d.dispatch_to(&mut a).await; }", False),
    ("detached_receiver_send", "async fn q(a: Address<A>) { let r = a.send(M(1)).detach().await.unwrap(); sendv(&r); } ", True),
    ("scoped_keeps_bounds", "fn p(a: Address<A>) { let r = Rc::new(1); let f = xtra::scoped(&a, async move { drop(r) }); sendv(&f); }", False),
    ("scoped_borrows_ok", "async fn p(a: Address<A>) { let x = 5u8; let y = &x; let _ = xtra::scoped(&a, async move { *y }).await; }", True),
    ("select_actor_exclusive", "async fn p(m: Mailbox<A>) { let mut a = A; let f = xtra::join(&m, &mut a, std::future::ready(())); drop(a); f.await; }", False),
    ("join_not_send_future", "fn p(m: &Mailbox<A>, a: &mut A) { let r = Rc::new(1); sendv(&xtra::join(m, a, async move { drop(r) })); }", False),
    ("sink_send", "fn p(a: Address<A>) { let s = MessageChannel::<M, u8>::new(a); sendv(&s); }", True),
    ("channel_needs_handler", "fn p(a: Address<A>) { let s = MessageChannel::<String, u8>::new(a); }", False),
    ("channel_needs_return", "fn p(a: Address<A>) { let s = MessageChannel::<M, u16>::new(a); }", False),
]


def probes(m, a):
    import derive
    rc, td, err = m.build("engines/derive", "derive", "", "+stable")
    if rc != 0:
        a.notes.append("probes: the support crate does not build")
        return
    d = tempfile.mkdtemp(prefix="xprobe-")
    try:
        rx = derive.Rustc(os.path.join(td, "debug", "deps"), d)
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda p: rx.compile("p_" + p[0], HEAD + p[1] + "\n"), PROBES))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    n = 0
    base = next(r for p, r in zip(PROBES, res) if p[0] == "send_not_sync_ok")
    for (name, code, want), (ok, errs, text) in zip(PROBES, res):
        if want and not ok:
            a.notes.append(f"probe {name} is not accepted: {text[:300]}")     # stricter than expected: not unsound
            continue
        if not want and ok:
            a.viol.append(dict(seed=m.SEED, props=["C23"], what=f"the compiler accepts an unsound use of the safe API: {name}", trace=HEAD + code, engine="probes", replay="compile the program below against /repo/xtra"))
        n += 1
    a.stat("probes.as_expected", n)
    a.stages.append(dict(stage="probes", episodes=n))


def stage(m, a, quick):
    q = dict(asan=12, tsan=20, miri=45) if quick else dict(asan=100, tsan=180, miri=330)
    probes(m, a)
    if not a.viol:
        sanitizer(m, a, "asan", q["asan"])
    if not a.viol:
        miri(m, a, q["miri"])
    if not a.viol:
        sanitizer(m, a, "tsan", q["tsan"])
    if not a.viol and not any(a.stats.get(f"{k}.operations") for k in ("asan", "tsan", "miri")):
        raise m.NoVerdict("nothing was observed: " + "; ".join(a.notes)[-1500:])
    a.samples.append(dict(engine="mem", flags=MIRI_FLAGS, note="random programs of 2 to 4 threads; episode seed = seed * 1e9 + number; replay with xmem --seed <episode seed> --trace under the tool"))
