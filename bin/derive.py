"""Generated programs for derive(Actor): types, their hand-written twins, and the probes of their bounds."""
import glob, json, os, random, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor

BOUNDS = ["Clone", "Default", "::std::fmt::Debug", "Copy", "Tr", "Tr2<u8>", "Tr2<str>", "::core::marker::Sync", "Iterator<Item = Full>", "Into<u64>", "for<'q> Lend<'q>", "Tr<Assoc = Full>",
          "'static", "::core::marker::Send", "PartialEq<Self0>", "DynOk", "Sized", "Unpin"]
NAMES = ["T", "U", "V", "A", "M", "Stop", "Msg", "r#type", "Fut", "Send", "Actor", "S0", "Größe", "Output", "Static"]
ACTORS = ["X", "MyActor", "r#struct", "Zähler", "Actor", "Send", "Stop", "Future", "Static"]


class Ty:
    pass


def gen(r, k):
    """A random type; everything is valid with a hand-written implementation."""
    t = Ty()
    t.k = k
    n_ty = r.choice([0, 1, 1, 2, 2, 3, 4, r.randrange(5, 10)])
    n_const = r.choice([0, 0, 0, 1, 1, 2, 4])
    names = r.sample(NAMES, n_ty)
    plain = [x for x in NAMES if x not in ("Send", "Actor")]
    if r.random() < 0.75:
        names = r.sample(plain, n_ty)
    t.name = r.choice(ACTORS[:4] if r.random() < 0.7 else ACTORS)
    if t.name in names:
        t.name = "X"
    if "Send" in names or t.name == "Send":
        send_shadow = True
    else:
        send_shadow = False
    t.send_shadow = send_shadow
    params = [["ty", n] for n in names] + [["const", f"N{i}"] for i in range(n_const)]
    r.shuffle(params)
    consts = {}
    t.params = []
    defaults_on = r.random() < 0.3
    for i, (kind, n) in enumerate(params):
        p = Ty()
        p.kind, p.n = kind, n
        p.sized = True
        p.bounds = []
        if kind == "ty":
            if r.random() < 0.15:
                p.sized = False
                p.bounds = ["?Sized"] + (["DynOk"] if r.random() < 0.3 else [])
                p.conc = "dyn DynOk + ::core::marker::Send + ::core::marker::Sync" if "DynOk" in p.bounds or r.random() < 0.3 else r.choice(["str", "[u8]"])
            else:
                p.bounds = [b for b in r.sample(BOUNDS, r.choice([0, 0, 0, 1, 1, 2, 3])) if b != "PartialEq<Self0>"]
                p.conc = "Full" if p.bounds else r.choice(["Full", "u8", "String", "Vec<u32>", "fn() -> u8", "::std::sync::Arc<str>", "()", "[u8; 3]", "&'static str", "Box<dyn Fn() -> u8 + ::core::marker::Send>"])
            p.default = p.conc if defaults_on and i >= len(params) // 2 else None
        else:
            p.ct = r.choice(["usize", "u8", "bool", "char", "i32"])
            p.conc = {"usize": str(r.randrange(1, 5)), "u8": "3", "bool": "true", "char": "'x'", "i32": "{ -4 }"}[p.ct]
            p.default = p.conc if defaults_on and i >= len(params) // 2 else None
        t.params.append(p)
    # defaults have to be trailing
    seen = False
    for p in t.params:
        if seen and p.default is None:
            p.default = p.conc
        seen = seen or p.default is not None
    tys = [p for p in t.params if p.kind == "ty"]
    # where clause
    t.where = []
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        c = r.random()
        full = [p for p in tys if p.sized and p.conc == "Full"]
        if full and c < 0.5:
            p = r.choice(full)
            t.where.append(r.choice([f"{p.n}: Clone", f"{p.n}: Tr", f"Vec<{p.n}>: ::std::fmt::Debug", f"{p.n}: Iterator, <{p.n} as Iterator>::Item: Clone", f"for<'w> {p.n}: Lend<'w>",
                                     f"Option<{p.n}>: Default", f"{p.n}: Tr, {p.n}::Assoc: Copy", f"[{p.n}; 2]: Sized", f"{p.n}: Tr2<[{p.n}]> + Clone", f"{p.n}:", f"(): Tr2<{p.n}>" if False else f"{p.n}: 'static"]))
        elif tys and c < 0.6:
            t.where.append(f"{r.choice(tys).n}: " + r.choice(["'static", "::core::marker::Send", ""]))
        elif c < 0.8:
            t.where.append(r.choice(["Full: Clone", "(): Sized", "String: Clone", "[u8]: 'static"]))
    t.where_style = r.choice(["plain", "trailing", "trailing", "empty"]) if not t.where else r.choice(["plain", "trailing"])
    t.probe = r.random() < 0.5
    # fields
    t.fields = []
    for p in tys:
        opts = [f"::std::marker::PhantomData<fn({'&' if not p.sized else ''}{p.n})>", f"::std::marker::PhantomData<{p.n}>"]
        if p.sized:
            opts += [f"Option<{p.n}>", f"Vec<{p.n}>", f"::std::sync::Arc<::std::sync::Mutex<Option<{p.n}>>>", f"[Option<{p.n}>; 2]", f"Result<u8, {p.n}>"]
        else:
            opts += [f"Option<Box<{p.n}>>"]
        # where the bounds on the type are probed, the type has to be Send on its own
        t.fields.append([p, r.choice(opts[:1] if r.random() < 0.5 else opts)])
    t.kind = r.choice(["named", "tuple", "enum", "enum2"]) if t.fields or t.probe else r.choice(["unit", "named", "tuple", "enum", "enum2", "unitenum"])
    t.vis = r.choice(["pub ", "", "pub(crate) ", "pub(super) "])
    t.attrs = r.choice(["", "#[allow(dead_code)]\n", "/// documented\n", "#[must_use]\n#[doc(hidden)]\n", "#[cfg(all())]\n"])
    t.order = r.random() < 0.5
    t.macro = r.random() < 0.12
    t.hostile = []
    if r.random() < 0.25:
        cand = ["trait Send {}", "struct Future;", "mod std {}", "struct Result0;", "type Stop = u8;", "mod core {}", "trait Actor {}", "enum Never {}"]
        t.hostile = [h for h in r.sample(cand, r.choice([1, 2])) if h.split()[1].rstrip(";") != t.name and h.split()[1] not in names]
        if any("trait Send" in h for h in t.hostile):
            t.send_shadow = True
    return t


def decl_params(t, extra=None, defaults=False):
    o = []
    for p in t.params:
        if p.kind == "ty":
            b = list(p.bounds) + (extra.get(p.n, []) if extra else [])
            o.append(p.n + (": " + " + ".join(b) if b else "") + (f" = {p.default}" if defaults and p.default else ""))
        else:
            o.append(f"const {p.n}: {p.ct}" + (f" = {p.default}" if defaults and p.default else ""))
    return "<" + ", ".join(o) + ">" if o else ""


def use_params(t):
    return "<" + ", ".join(p.n for p in t.params) + ">" if t.params else ""


def conc_params(t):
    return "<" + ", ".join(p.conc for p in t.params) + ">" if t.params else ""


def where_text(t, more=(), force=False):
    c = list(t.where) + list(more)
    if not c:
        return " where" if force and t.where_style == "empty" else ""
    return " where " + ", ".join(c) + ("," if t.where_style == "trailing" else "")


SEND = "::core::marker::Send"


def init(f):
    p, ty = f
    if "PhantomData" in ty:
        return "xderive::ph()"
    if ty.startswith("Option"):
        return "None"
    if ty.startswith("Vec"):
        return "Vec::new()"
    if ty.startswith("::std::sync::Arc"):
        return "::std::sync::Arc::new(::std::sync::Mutex::new(None))"
    if ty.startswith("["):
        return "[None, None]"
    if ty.startswith("Result"):
        return "Ok(7)"
    raise ValueError(ty)


def type_def(t, derived):
    f = [(f"f{i}", x[1], init(x)) for i, x in enumerate(t.fields)]
    if t.probe:
        f.insert(0, ("probe", "xderive::Probe", "xderive::Probe::new()"))
    head = (t.attrs if t.order else "") + ("#[derive(xtra_macros::Actor)]\n" if derived else "") + ("" if t.order else t.attrs)
    g, w = decl_params(t, defaults=True), where_text(t, force=True)
    n = t.name
    if t.kind == "unit":
        return head + f"{t.vis}struct {n}{g}{w};", n, head
    if t.kind == "named":
        return head + f"{t.vis}struct {n}{g}{w} {{ " + ", ".join(f"{a}: {b}" for a, b, _ in f) + " }", f"{n} {{ " + ", ".join(f"{a}: {c}" for a, _, c in f) + " }", head
    if t.kind == "tuple":
        return head + f"{t.vis}struct {n}{g}(" + ", ".join(b for _, b, _ in f) + f"){w};", f"{n}(" + ", ".join(c for _, _, c in f) + ")", head
    if t.kind == "enum":
        return head + f"{t.vis}enum {n}{g}{w} {{ One(" + ", ".join(b for _, b, _ in f) + "), Two }", f"{n}::One(" + ", ".join(c for _, _, c in f) + ")", head
    if t.kind == "enum2":
        return head + f"{t.vis}enum {n}{g}{w} {{ Two(u8), One {{ " + ", ".join(f"{a}: {b}" for a, b, _ in f) + " } }", f"{n}::One {{ " + ", ".join(f"{a}: {c}" for a, _, c in f) + " }", head
    return head + f"{t.vis}enum {n}{g}{w} {{ One, Two, }}", f"{n}::One", head


PRELUDE = "#[allow(unused_imports)] use xderive::{Full, Tr, Tr2, Lend, DynOk};\n"


def module(t, derived, what):
    """what: run | ok | nosend | nostatic | none"""
    d, mk, _ = type_def(t, derived)
    o = [f"mod d{t.k} {{", PRELUDE]
    o += t.hostile
    if t.macro:
        o.append(f"macro_rules! make {{ ($($t:tt)*) => {{ $($t)* }} }}\nmake! {{\n{d}\n}}")
    else:
        o.append(d)
    tys = [p.n for p in t.params if p.kind == "ty"]
    if not derived:
        more = [f"{n}: {SEND} + 'static" for n in tys]
        o.append(f"impl{decl_params(t)} ::xtra::Actor for {t.name}{use_params(t)}{where_text(t, more)} {{ type Stop = (); async fn stopped(self) {{}} }}")
    c = f"{t.name}{conc_params(t)}"
    if what == "run":
        for msg, ret, body in (("Echo", "u64", "::xderive::HANDLED.fetch_add(1, ::std::sync::atomic::Ordering::SeqCst); m.0 + 1"),
                               ("Cast", "()", "let _ = m.0; ::xderive::HANDLED.fetch_add(1, ::std::sync::atomic::Ordering::SeqCst);"), ("Quit", "()", "let _ = m; x.stop_self();")):
            o.append(f"impl ::xtra::Handler<xderive::{msg}> for {c} {{ type Return = {ret}; #[allow(unused_variables)] async fn handle(&mut self, m: xderive::{msg}, x: &mut ::xtra::Context<Self>) -> {ret} {{ {body} }} }}")
        o.append(f"pub fn go() {{ xderive::exercise::<{c}>(\"d{t.k}\", || {{ let x: {c} = {mk}; x }}) }}")
    probes = []
    if what == "ok":
        probes.append((None, {n: [SEND, "'static"] for n in tys}))
    elif what in ("nosend", "nostatic"):
        for n in tys:
            ex = {m: [SEND, "'static"] for m in tys}
            ex[n] = ["'static"] if what == "nosend" else [SEND]
            probes.append((n, ex))
    for i, (n, ex) in enumerate(probes):
        o.append(f"#[allow(dead_code)] fn probe_{what}_{i}{decl_params(t, ex)}(){where_text(t)} {{ xderive::is_actor::<{t.name}{use_params(t)}>() }}")
    o.append("}")
    return "\n".join(o)


def has_own(t, n, b):
    """does the type itself demand the bound, so that leaving it out of a probe shows nothing?"""
    p = next(p for p in t.params if p.n == n)
    if b == "send":
        return any("Send" in x for x in p.bounds) or any(w.startswith(n + ":") and "Send" in w for w in t.where)
    if b == "static":
        return "'static" in p.bounds or any(w.startswith(n + ":") and "'static" in w for w in t.where)


HEAD = "#![allow(warnings)]\n#![allow(non_camel_case_types, mixed_script_confusables)]\n"


class Rustc:
    def __init__(self, deps, dirname):
        self.args = ["rustc", "+stable", "--edition", "2021", "-L", f"dependency={deps}"]
        for name, pat in (("xtra", "libxtra-*.rlib"), ("xtra_macros", "libxtra_macros-*.so"), ("xderive", "libxderive-*.rlib")):
            f = glob.glob(os.path.join(deps, pat))
            if len(f) != 1:
                raise RuntimeError(f"{pat}: {f}")
            self.args += ["--extern", f"{name}={f[0]}"]
        self.dir = dirname

    def compile(self, name, src, emit_bin=False):
        """-> (ok, [(line, message)], rendered)"""
        p = os.path.join(self.dir, name + ".rs")
        open(p, "w").write(src)
        out = os.path.join(self.dir, name)
        a = self.args + ["--crate-name", name, "--error-format=json", p] + (["--crate-type", "bin", "-o", out, "-C", "debuginfo=0"] if emit_bin else ["--crate-type", "lib", "--emit=metadata", "-o", out + ".rmeta"])
        r = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=300)
        errs, text = [], []
        for l in r.stderr.split("\n"):
            if l.startswith("{"):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get("level") == "error":
                    text.append(d.get("rendered") or d["message"])
                    for s in d["spans"]:
                        if s["is_primary"]:
                            errs.append((s["line_start"], d["message"]))
        if r.returncode != 0 and not text:
            text = [r.stderr[-2000:]]
        return r.returncode == 0, errs, "\n".join(text)[:4000]


def batch(rc, seed, size, violations, stats):
    r = random.Random(seed)
    ts = [gen(r, k) for k in range(size)]
    nm = f"b{seed}"

    def add(k, n=1):
        stats[k] = stats.get(k, 0) + n

    def whole(kind, derived, tl, emit=False):
        src = HEAD + "\n".join(module(t, derived, kind) for t in tl)
        if kind == "run":
            src += "\nfn main() { " + " ".join(f"d{t.k}::go();" for t in tl) + " }\n"
        return rc.compile(f"{nm}_{kind}_{int(derived)}", src, emit), src

    def single_bad(kind, derived, t):
        src = HEAD + module(t, derived, kind) + ("\nfn main() { d%d::go() }" % t.k if kind == "run" else "")
        ok, errs, text = rc.compile(f"{nm}_s{t.k}_{kind}_{int(derived)}", src)
        return (not ok), text, src

    # 1. what compiles with a hand-written implementation compiles derived; bounds are not stronger
    for kind in ("run", "ok"):
        (ok, errs, text), src = whole(kind, True, ts, kind == "run")
        if not ok:
            good = []
            for t in ts:
                bad, text1, src1 = single_bad(kind, True, t)
                if not bad:
                    good.append(t)
                    continue
                bad2, text2, _ = single_bad(kind, False, t)
                if bad2:
                    add("generator_rejects")      # not a valid program in the first place
                    continue
                what = "the derived implementation does not compile where a hand-written one does" if kind == "run" else "the derived implementation demands more than Send + 'static of the type parameters (or has another stop value)"
                violations.append((seed, f"{what} (type d{t.k})", src1 + "\n\n" + text1))
                return
            ts = good
            if not ts:
                return
            (ok, errs, text), src = whole(kind, True, ts, kind == "run")
            if not ok:
                add("batch_unusable")
                return
        add("compiled_" + kind, len(ts))
        if kind == "run":
            try:
                p = subprocess.run([os.path.join(rc.dir, f"{nm}_run_1")], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=60)
            except subprocess.TimeoutExpired:
                violations.append((seed, "a derived actor does not come to an end", src))
                return
            ran = [l for l in p.stdout.split("\n") if l.startswith("RAN ")]
            bad = [l for l in p.stdout.split("\n") if l.startswith("BAD ")]
            add("actors_run", 4 * len(ran))
            if bad or p.returncode != 0 or len(ran) != len(ts):
                violations.append((seed, "a derived actor behaves wrongly: " + (bad[0] if bad else f"exit {p.returncode}: {p.stderr[-500:]}"), src + "\n\n" + p.stdout[-3000:]))
                return
    # 2. bounds are not weaker: every probe has to be rejected, as it is for the hand-written twin
    for kind, key in (("nosend", "send"), ("nostatic", "static")):
        hits = {}
        for derived in (True, False):
            (ok, errs, text), src = whole(kind, derived, ts)
            lines = src.split("\n")
            mod = None
            at = {}
            for i, l in enumerate(lines, 1):
                if l.startswith("mod d"):
                    mod = l.split()[1]
                if "fn probe_" in l:
                    at[i] = (mod, l.split("fn probe_")[1].split("<")[0].split("(")[0])
            hits[derived] = ({at[l] for l, _ in errs if l in at}, set(at.values()), [e for e in errs if e[0] not in at], text, src)
        dh, all_, stray, text, src = hits[True]
        hh = hits[False][0]
        if hits[False][2]:
            add("batch_unusable")
            continue
        add("probes_" + kind, len(all_))
        for pr in sorted(all_):
            t = next(t for t in ts if f"d{t.k}" == pr[0])
            tys = [p.n for p in t.params if p.kind == "ty"]
            n = tys[int(pr[1].split("_")[1])]
            if pr in hh and pr not in dh and not stray and not has_own(t, n, key):
                violations.append((seed, f"type {t.name} (d{t.k}) is an actor although its parameter {n} is not known to be {'Send' if key == 'send' else 'static'}", module(t, True, kind)))
                return
            if pr in dh and pr in hh:
                add("probes_rejected")
            elif pr in dh and pr not in hh:
                violations.append((seed, f"derived {t.name} (d{t.k}) is no actor where the hand-written one is", module(t, True, kind) + "\n" + text))
                return
    add("types", len(ts))
    for t in ts:
        stats.setdefault("_shapes", set()).add((t.kind, tuple((p.kind, tuple(sorted(p.bounds)), p.default is not None) for p in t.params), tuple(sorted(w.split(":")[1] if ":" in w else w for w in t.where)), t.where_style))


def stage(m, a, secs, size=14):
    if "derive" not in a.__dict__:
        a.derive = True
    rc, td, err = m.build("engines/derive", "derive", "", "+stable")
    if rc != 0:
        # the support crate is hand-written; only the crates under test can be at fault
        raise m.NoVerdict("the support crate does not build against the tree:\n" + err[-3000:])
    d = tempfile.mkdtemp(prefix="xderive-")
    t0 = time.time()
    stats, viol = {}, []
    n = 0
    try:
        rcx = Rustc(os.path.join(td, "debug", "deps"), d)
        with ThreadPoolExecutor(8) as ex:
            def work(i):
                nonlocal n
                if time.time() - t0 > secs and i >= 8 or viol:
                    return
                st = {}
                v = []
                batch(rcx, m.SEED * 100000 + i, size, v, st)
                for k, x in st.items():
                    if k == "_shapes":
                        stats.setdefault(k, set()).update(x)
                    else:
                        stats[k] = stats.get(k, 0) + x
                viol.extend(v)
                n += 1
            list(ex.map(work, range(100000 if secs > 1000 else 4000)))
        r = random.Random(m.SEED * 100000)
        t = gen(r, 0)
        a.samples.append(dict(engine="derive", program=module(t, True, "run").split("\n")[:40]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    sh = stats.pop("_shapes", set())
    a.evaluations += stats.get("types", 0)
    a.distinct += len(sh)
    for k, v in stats.items():
        a.stat("derive." + k, v)
    a.stages.append(dict(stage="derive", episodes=n, seconds=round(time.time() - t0, 1)))
    for s, what, src in viol:
        a.viol.append(dict(seed=s, props=["C25"], what=what, trace=src, engine="derive", replay="compile the program below against /repo/xtra, /repo/macros and /verif/engines/derive"))
