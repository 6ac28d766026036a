"""Which stages decide which property."""
import sys
m = sys.modules["__main__"]
Q = m.TIER == "quick"


def X(engine, quick, thorough, **kw):
    def f(a):
        m.stage_xh(a, engine, quick if Q else thorough, **kw)
    return f


def EXT(crate, exe, quick, thorough, **kw):
    def f(a):
        m.stage_ext(a, crate, exe, quick if Q else thorough, **kw)
    return f


def DERIVE(quick, thorough):
    def f(a):
        import derive
        derive.stage(m, a, quick if Q else thorough)
    return f


def MEM(a):
    import memstage
    memstage.stage(m, a, Q)


def DIFF(quick, thorough):
    def f(a):
        m.stage_differential(a, quick if Q else thorough)
    return f


SIM = ("sequential histories: random API calls (sends, broadcasts, receives, polls, drops, conversions, actors, gates) on one thread, each step judged by a reference model; "
       "distinct = abstract model states reached")
CONC = ("concurrent programs: random multi-thread programs over the real crate, driven through seeded interleavings of its lock, counter and event operations, "
        "every client-side event logged and the log judged offline; distinct = different (program, schedule) pairs")
SEQ_PROPS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C20", "C26"]
CHECKS = {}
for p in SEQ_PROPS:
    CHECKS[p] = dict(stages=[X("sim", 14, 300), X("conc", 18, 400)] + ([] if Q else [X("stress", 0, 120)]), rule=SIM + ". " + CONC, need=["sim.ops"],
                     technique="runtime monitoring: online model monitor over sequential histories; offline log checker over scheduler-driven concurrent executions")
for p in ("C09", "C16"):
    CHECKS[p]["stages"].insert(1, X("residue", 8, 120))
    CHECKS[p]["technique"] += "; heap accounting of repeated operations"
for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C13", "C15", "C16", "C20"):
    CHECKS[p]["stages"].insert(1, X("scale", 6, 120))
    CHECKS[p]["rule"] += (". scale: histories with thousands of messages, waiting senders, idle and abandoned receives, mailboxes and handles against an exact model")
CHECKS["C19"] = dict(stages=[X("twin", 20, 400)], rule="twin executions of the same random program through addresses and through message channels, observations compared step by step; distinct = abstract model states reached",
                     need=["twin.twin_observations"], technique="runtime monitoring: differential monitor (twin executions)")
CHECKS["C18"] = dict(stages=[X("laws", 12, 200)], rule="random families of addresses and channels (strong, weak, either; several actors of two types), all pairs and collections compared with the model (actor, strength); distinct = different families",
                     need=["laws.pairs"], technique="runtime monitoring: law monitor over random families of handles")
CHECKS["C22"] = dict(stages=[X("sink", 15, 300)], rule="random histories of sinks, competing senders, actors, stops and drops, every poll judged; distinct = different histories of handler progress",
                     need=["sink.ready_ok", "sink.ready_err", "sink.pending"], technique="runtime monitoring: online monitor of sink polls against the handler log")
CHECKS["C21"] = dict(stages=[EXT("engines/instr", "xinstr", 12, 300), DIFF(12000, 200000)],
                     rule="random histories under a recording subscriber (levels, filtered spans, nested user spans): the spans around every handler, their number and their closing judged; and the same seeds of the sequential simulator with and without "
                          "the feature, observations compared; distinct = different histories", need=["instr.handler_checks", "obs.compared"],
                     technique="runtime monitoring: online monitor of span events; differential monitor with and without the feature")
CHECKS["C24"] = dict(stages=[EXT("engines/spawn", "xspawn", 15, 240)],
                     rule="random programs on the real runtimes (tokio multi-thread and current-thread, smol, async-std): actors spawned with the helpers, run, stopped in every way, their hooks, messages and addresses judged; distinct = different programs",
                     need=["spawn.messages"], technique="runtime monitoring: end-to-end monitor on the real runtimes")
CHECKS["C25"] = dict(stages=[DERIVE(25, 400)],
                     rule="random types (struct, enum, type and const parameters, defaults, bounds, where clauses, hostile names, macros) with derive(Actor): each is compiled, run as an actor under a monitor, and its bounds are probed in both directions; "
                          "a hand-written twin decides whether the program is valid; distinct = different shapes of generics", need=["derive.actors_run", "derive.probes_rejected"],
                     technique="runtime monitoring: the macro and the actors it derives are run on generated types, compiler verdicts and behaviour compared with a hand-written twin")
CHECKS["C23"] = dict(stages=[MEM],
                     rule="random programs of two to four threads over the whole safe API (payloads, replies and actors are plain memory), run under Miri (several preemption rates, both aliasing models, weak memory emulation, leak check), ThreadSanitizer and "
                          "AddressSanitizer with LeakSanitizer, each shown to see a deliberate fault first; and probes of what the types let through; distinct = different sequences of operations", need=["probes.as_expected"],
                     technique="sanitizers: Miri, ThreadSanitizer, AddressSanitizer and LeakSanitizer over random concurrent programs; payload monitors")
