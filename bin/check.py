#!/usr/bin/env python3
"""Runner of all checks:  check.py <property id>   (VERIF_SEED, VERIF_TIER=quick|thorough)

exit 0  the property held on everything observed
exit 1  VIOLATION property=<id> replay=<path>
exit 2  no verdict (build failed, nothing observed, harness error)
"""
import hashlib, json, os, shutil, subprocess, sys, time, fcntl, signal

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("XTRA_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "bin"))

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
EVID = os.path.join(HERE, "evidence")


class NoVerdict(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ building
def source_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "xtra"), os.path.join(REPO, "macros"), os.path.join(REPO, "Cargo.toml")]
    for d in ("harness", "engines"):
        roots.append(os.path.join(HERE, d))
    for r in roots:
        if os.path.isfile(r):
            h.update(open(r, "rb").read())
            continue
        for d, sub, files in os.walk(r):
            sub[:] = sorted(x for x in sub if x not in ("target", ".git") and not x.startswith("target"))
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode())
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
    return h.hexdigest()[:16]


def target_dir(kind):
    """One directory per kind of build and state of the sources; cargo's own freshness test goes by
    modification times, which say nothing after a patch has been applied and taken back."""
    base = os.path.join(HERE, "target-run")
    os.makedirs(base, exist_ok=True)
    name = f"{kind}-{source_hash()}"
    for d in os.listdir(base):
        if d.startswith(kind + "-") and d != name and not d.endswith(".lock"):
            shutil.rmtree(os.path.join(base, d), ignore_errors=True)
    return os.path.join(base, name)


def run(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    e["CARGO_NET_OFFLINE"] = "true"
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        rc = "timeout"
    return rc, out, err, time.time() - t0


_built = {}


def build(crate, kind, rustflags="", toolchain="+nightly", extra=(), binary=None, cmd="build", env=None, timeout=600, features=()):
    key = (crate, kind)
    if key in _built:
        return _built[key]
    td = target_dir(kind)
    e = dict(env or {})
    e["RUSTFLAGS"] = rustflags
    c = ["cargo", toolchain, cmd, "--offline", "--target-dir", td, "--manifest-path", os.path.join(HERE, crate, "Cargo.toml"), *extra]
    if features:
        c += ["--features", ",".join(features)]
    rc, out, err, dt = run(c, timeout, e, cwd=os.path.join(HERE, crate))
    _built[key] = (rc, td, err)
    log(f"[build {kind}: {'ok' if rc == 0 else 'FAILED'} in {dt:.0f} s]")
    return _built[key]


def xh():
    """The harness with the scheduling hooks on; without them if that does not build."""
    if "xh" in _built:
        return _built["xh"]
    rc, td, err = build("harness", "hook", "--cfg xtra_verif")
    hooked = True
    if rc != 0:
        log("[build with hooks failed, trying without]\n" + err[-1500:])
        rc, td, err = build("harness", "plain")
        hooked = False
        if rc != 0:
            raise NoVerdict("the harness does not build against the tree:\n" + err[-3000:])
    _built["xh"] = (os.path.join(td, "debug", "xh"), hooked)
    return _built["xh"]


# ------------------------------------------------------------------ stages
class Acc:
    """What the stages of one check observed."""

    def __init__(self, prop):
        self.prop = prop
        self.evaluations = 0
        self.distinct = 0
        self.stats = {}
        self.samples = []
        self.viol = []
        self.other = {}
        self.notes = []
        self.stages = []

    def stat(self, k, v):
        self.stats[k] = self.stats.get(k, 0) + v


def stage_xh(a, engine, secs, prop=None, max_eps=None, extra=(), env=None, sample=True):
    exe, hooked = xh()
    if engine == "conc" and not hooked:
        engine = "stress"
    out = os.path.join(EVID, f".{a.prop}-{engine}.json")
    deadline = time.time() + secs
    seed = SEED
    eps0 = 0
    tries = 0
    st = dict(stage=engine, episodes=0, seconds=0.0)
    while True:
        left = deadline - time.time()
        if left < 1 and tries:
            break
        if os.path.exists(out):
            os.remove(out)
        cmd = [exe, engine, "--seed", str(seed), "--secs", f"{max(left, 1):.1f}", "--prop", prop or a.prop, "--out", out, "--workers", "8", *extra]
        if max_eps:
            cmd += ["--max", str(max_eps)]
        rc, so, se, dt = run(cmd, max(left, 1) + 150, env)
        tries += 1
        d = None
        if os.path.exists(out):
            try:
                d = json.load(open(out))
            except ValueError:
                pass
        if d:
            st["episodes"] += d["episodes"]
            st["seconds"] += d["seconds"]
            a.evaluations += d["episodes"]
            a.distinct += max(d["states"], d["schedules"])
            for k, v in d["stats"].items():
                a.stat(f"{engine}.{k}", v)
            for k, v in d["other"].items():
                a.other[k] = a.other.get(k, 0) + v
            for v in d["violations"]:
                v["replay"] = f"{exe} {engine} --seed {v['seed']} --max 1 --trace {' '.join(extra)} --prop {prop or a.prop}"
                v["engine"] = engine
                a.viol.append(v)
        if a.viol or rc in (0, 1):
            break
        a.notes.append(f"{engine} (seed {seed}) ended with {rc}: {se[-300:]}")
        if isinstance(rc, int) and rc < 0 and a.prop in ("C16", "C17", "C23", "C26"):
            a.viol.append(dict(seed=seed, props=[a.prop], what=f"the process running the workload was killed by signal {-rc}: {se[-500:]}", trace=se[-4000:], replay=" ".join(cmd), engine=engine))
            break
        if tries > 6:
            break
        seed = SEED + 1000 * tries   # the interrupted episode belongs to another property: go on elsewhere
    if st["episodes"] == 0 and not a.viol:
        raise NoVerdict(f"{engine} observed nothing: {a.notes[-1:] if a.notes else ''}")
    if sample and not a.viol and len(a.samples) < 3:
        rc, so, se, dt = run([exe, engine, "--seed", str(SEED * 1_000_000_000), "--max", "1", "--trace", "--prop", prop or a.prop, *extra], 60, env)
        lines = so.split("\n")
        a.samples.append(dict(engine=engine, episode_seed=SEED * 1_000_000_000, trace=[x for x in lines if x][:30]))
    st["seconds"] = round(st["seconds"], 1)
    a.stages.append(st)


def stage_ext(a, crate, exe_name, secs, toolchain="+stable", extra=(), env=None):
    """An engine in a crate of its own (it needs features or dependencies the harness does not have)."""
    rc, td, err = build(crate, os.path.basename(crate), "", toolchain)
    if rc != 0:
        raise NoVerdict(f"{crate} does not build against the tree:\n" + err[-3000:])
    exe = os.path.join(td, "debug", exe_name)
    out = os.path.join(EVID, f".{a.prop}-{exe_name}.json")
    st = dict(stage=exe_name, episodes=0, seconds=0.0)
    deadline = time.time() + secs
    for tries in range(6):
        left = deadline - time.time()
        if left < 1 and tries:
            break
        if os.path.exists(out):
            os.remove(out)
        seed = SEED + 1000 * tries
        cmd = [exe, "--seed", str(seed), "--secs", f"{max(left, 1):.1f}", "--out", out, *extra]
        rc, so, se, dt = run(cmd, max(left, 1) + 120, env)
        d = None
        if os.path.exists(out):
            try:
                d = json.load(open(out))
            except ValueError:
                pass
        if d:
            st["episodes"] += d["episodes"]
            st["seconds"] = round(st["seconds"] + d["seconds"], 1)
            a.evaluations += d["episodes"]
            a.distinct += max(d["states"], d["schedules"])
            for k, v in d["stats"].items():
                a.stat(f"{d['engine']}.{k}", v)
            for v in d["violations"]:
                if a.prop in v["props"]:
                    v["replay"] = f"{exe} --seed {v['seed']} --trace {' '.join(extra)}"
                    v["engine"] = d["engine"]
                    a.viol.append(v)
                else:
                    k = "+".join(v["props"])
                    a.other[k] = a.other.get(k, 0) + 1
        if a.viol or rc in (0, 1):
            break
        a.notes.append(f"{exe_name} (seed {seed}) ended with {rc}: {se[-300:]}")
    if st["episodes"] == 0 and not a.viol:
        raise NoVerdict(f"{exe_name} observed nothing: {a.notes[-1:]}")
    if not a.viol and len(a.samples) < 3:
        rc, so, se, dt = run([exe, "--seed", str(SEED * 1_000_000_000), "--trace", *extra], 60, env)
        a.samples.append(dict(engine=exe_name, episode_seed=SEED * 1_000_000_000, trace=[x for x in so.split("\n") if x][:30]))
    a.stages.append(st)


def stage_differential(a, n):
    """The same seeds with and without the crate's instrumentation; every observation has to be the same."""
    exe, hooked = xh()
    rc, td, err = build("harness", "instr-diff", "--cfg xtra_verif" if hooked else "", features=["instr"])
    if rc != 0:
        raise NoVerdict("the harness does not build with the instrumentation feature:\n" + err[-3000:])
    exes = dict(without=exe, **{"with": os.path.join(td, "debug", "xh")})
    obs = {}
    for k, x in exes.items():
        for rep in (0, 1):
            out = os.path.join(EVID, f".{a.prop}-obs.json")
            for f in (out, out + ".obs"):
                if os.path.exists(f):
                    os.remove(f)
            rc, so, se, dt = run([x, "obs", "--seed", str(SEED), "--max", str(n), "--secs", "200", "--out", out], 300)
            if not os.path.exists(out + ".obs"):
                a.notes.append(f"obs ({k}) ended with {rc}: {se[-300:]}")
                continue
            obs[k, rep] = dict(l.split() for l in open(out + ".obs"))
            d = json.load(open(out))
            a.evaluations += d["episodes"]
            if k == "with":
                a.stat("obs.observations", d["stats"].get("observations", 0))
    if len(obs) < 4:
        return
    same = 0
    for s, h in obs["without", 0].items():
        v = [o.get(s) for o in obs.values()]
        if None in v or obs["without", 0][s] != obs["without", 1][s] or obs["with", 0][s] != obs["with", 1][s]:
            continue    # not reproducible: says nothing
        same += 1
        if obs["with", 0][s] != h:
            tr = [run([x, "obs", "--seed", s, "--max", "1", "--trace"], 60)[1].split("\n") for x in exes.values()]
            i = next((i for i, (x, y) in enumerate(zip(*tr)) if x != y), 0)
            a.viol.append(dict(seed=int(s), props=["C21"], engine="obs", what="the same operations have a different observable effect once instrumentation is enabled",
                               trace="without:\n" + "\n".join(tr[0][max(0, i - 30):i + 5]) + "\nwith:\n" + "\n".join(tr[1][max(0, i - 3):i + 5]),
                               replay=f"{exes['with']} obs --seed {s} --max 1 --trace  (and the same with {exe})"))
            break
    a.distinct += same
    a.stat("obs.compared", same)
    a.stages.append(dict(stage="differential", episodes=same))


def main():
    import stages
    if len(sys.argv) < 2 or sys.argv[1] not in stages.CHECKS:
        log("usage: check.py <property id>")
        sys.exit(2)
    prop = sys.argv[1]
    spec = stages.CHECKS[prop]
    os.makedirs(EVID, exist_ok=True)
    t0 = time.time()
    a = Acc(prop)
    err = None
    try:
        for st in spec["stages"]:
            st(a)
            if a.viol:
                break
    except NoVerdict as e:
        err = str(e)
    for k in spec.get("need", []):
        if not err and not a.viol and not a.stats.get(k):
            err = f"nothing relevant was observed ({k} is 0)"
    wall = round(time.time() - t0, 1)
    ev = dict(property=prop, tier=TIER, seed=SEED, level="exploration",
              coverage=dict(evaluations=a.evaluations, distinct_nontrivial=a.distinct, rule=spec["rule"], samples=a.samples or [dict(note="none recorded")],
                            stages=a.stages, observed={k: v for k, v in sorted(a.stats.items()) if v},
                            other_properties_reported=a.other, notes=a.notes),
              assumptions=spec.get("assumptions", []), wall_s=wall, violations=len(a.viol))
    if a.viol:
        v = a.viol[0]
        rp = os.path.join(EVID, f"replay-{prop}.txt")
        with open(rp, "w") as f:
            f.write(f"property {prop}\nengine {v.get('engine')}\nseed {v.get('seed')}\nproperties {v.get('props')}\nreplay {v.get('replay')}\n\n{v['what']}\n\n{v.get('trace', '')}\n")
        ev["coverage"]["samples"] = [dict(violation=v["what"], seed=v.get("seed"), trace=v.get("trace", "").split("\n")[-60:])]
    json.dump(ev, open(os.path.join(EVID, f"{prop}.json"), "w"), indent=1)
    if a.viol:
        log(a.viol[0]["what"])
        log(f"VIOLATION property={prop} replay={rp}")
        sys.exit(1)
    for l in open(os.path.join(HERE, "known_findings.txt")):
        if l.startswith("KNOWN-FINDING:") and f"property={prop} " in l:
            log(l.strip())
    if err:
        log(f"INCONCLUSIVE property={prop}: {err}")
        sys.exit(2)
    log(f"OK property={prop}: {a.evaluations} executions, {a.distinct} distinct, {wall} s, {TIER}")


if __name__ == "__main__":
    main()
