//! Offline checkers over the log of one execution of a concurrent program.
use std::collections::HashMap;

use crate::conc::{Bad, Id, Plan, Role, RunOut, Style, E};
use crate::rt::Wait;

type V = Vec<(Vec<&'static str>, String)>;

#[derive(Clone, Default, Debug)]
struct M {
    call: u64,
    hid: Option<u32>,
    attached: bool,
    polled: Option<u64>,
    res: Option<(u64, bool)>,
    reply: Option<(u64, Result<u32, Bad>)>,
    abandon: Option<u64>,
    enters: Vec<(u64, u32)>,
    exits: Vec<(u64, u32)>,
    intr: Vec<(u64, u32)>,
    drops: Vec<u64>,
    clones: usize,
    replies_dropped: usize,
}
impl M {
    fn first(&self) -> Option<u64> {
        [self.polled, self.res.map(|r| r.0), self.reply.map(|r| r.0)].into_iter().flatten().min()
    }
    fn entered_before(&self, t: u64) -> bool {
        self.enters.first().map_or(false, |e| e.0 < t)
    }
}

#[derive(Clone, Default, Debug)]
struct Srv {
    exists: bool,
    late: bool,
    dropper: bool,
    born: u64,
    born_call: u64,
    recv: Vec<u64>, // events after which the next message has to be asked for
    enters: Vec<(u64, Id)>,
    started: Vec<u64>,
    stopped: Vec<u64>,
    told: Option<u64>,
    returned: Option<(u64, u32, bool)>,
    ended: Option<u64>,
    leave: Option<u64>,
    kill: Option<u64>,
    panic: Option<u64>,
    stop_self: Option<u64>,
    actor_drops: usize,
    handlers: Vec<(u64, u64, bool)>, // enter, exit, nested
    fail_start: bool,
    plain_run: bool,
}

pub fn judge(p: &Plan, r: &RunOut, stats: &mut HashMap<&'static str, u64>) -> V {
    let mut v: V = vec![];
    let inf = u64::MAX;
    let mut ms: Vec<M> = vec![M::default(); p.msgs.len()];
    let nt = p.roles.len() + 1;
    let mut sv: Vec<Srv> = vec![Srv::default(); nt];
    let mut strong: HashMap<u32, (u64, u64, u64)> = HashMap::new();
    // the most generous view of the same handles: when each may first have existed and when it was
    // surely gone, including those which a passing upgrade may have made
    let mut may: Vec<(u32, u64, u64)> = vec![];
    let mut bump = |k: &'static str, n: u64| *stats.entry(k).or_default() += n;
    for (k, role) in p.roles.iter().enumerate() {
        let s = &mut sv[k + 1];
        let style = match role {
            Role::Server(x) => Some(x),
            Role::Late { style, .. } => {
                s.late = true;
                s.born = inf;
                s.born_call = inf;
                Some(style)
            }
            Role::Dropper { .. } => {
                s.dropper = true;
                None
            }
            _ => continue,
        };
        s.exists = true;
        s.fail_start = matches!(style, Some(Style::Run(crate::conc::StartK::Fail)));
        s.plain_run = matches!(style, Some(Style::Run(_)));
    }
    let mut cancels: Vec<u64> = vec![];
    let mut stopall: Vec<(u64, u64, u32)> = vec![];
    let mut conns: Vec<(u64, u64, bool)> = vec![];
    let mut ups: Vec<(u64, u64, bool)> = vec![];
    let mut joins: Vec<(u64, u64, Option<u32>, bool)> = vec![];
    let mut open: Vec<HashMap<&'static str, u64>> = vec![HashMap::new(); nt];
    let mut stack: Vec<Vec<Id>> = vec![vec![]; nt];
    let mut sel_depth: Vec<Vec<Id>> = vec![vec![]; nt];
    let mut cargo_used = false;
    bump("events", r.evs.len() as u64);
    let ms_bcast = |id: Id| p.msgs[id as usize].1;
    // neither broadcasts nor stop notices, which count towards the length
    let plain = !p.msgs.iter().any(|m| m.1 || m.2) && !p.odd;
    for &(n, t, e) in &r.evs {
        match e {
            E::SendCall { id, hid, attached } => {
                let m = &mut ms[id as usize];
                m.call = n;
                m.hid = hid;
                m.attached = attached;
                bump("sends", 1);
            }
            E::BcCall { id, hid } => {
                let m = &mut ms[id as usize];
                m.call = n;
                m.hid = hid;
                bump("broadcasts", 1);
            }
            E::Polled { id } => ms[id as usize].polled = Some(n),
            E::Res { id, ok } => {
                if ms[id as usize].res.is_some() {
                    v.push((vec!["C02"], format!("the send of {id} resolved twice")));
                }
                ms[id as usize].res = Some((n, ok))
            }
            E::Reply { id, r } => {
                ms[id as usize].reply = Some((n, r));
                bump("replies", 1);
            }
            E::Abandon { id } => {
                ms[id as usize].abandon = Some(n);
                bump("abandoned", 1);
            }
            E::Recv { srv } => sv[srv as usize].recv.push(n),
            E::Cancel { srv } => {
                sv[srv as usize].recv.push(n);
                cancels.push(n);
                bump("cancelled_receives", 1);
            }
            E::Started { srv } => {
                sv[srv as usize].started.push(n);
                sv[srv as usize].recv.push(n);
            }
            E::Enter { srv, id } => {
                bump("handled", 1);
                let k = srv as usize;
                ms[id as usize].enters.push((n, srv));
                sv[k].enters.push((n, id));
                if let Some(outer) = stack[k].last() {
                    if sel_depth[k].last() != Some(outer) {
                        v.push((vec!["C12"], format!("actor {srv} entered the handler of {id} while handling {outer}")));
                    }
                }
                if sv[k].plain_run && (sv[k].started.len() != 1 || sv[k].fail_start) {
                    v.push((vec!["C12"], format!("actor {srv} handled {id} although started {} times (failing: {})", sv[k].started.len(), sv[k].fail_start)));
                }
                if !sv[k].stopped.is_empty() || sv[k].told.is_some() || sv[k].returned.is_some() {
                    v.push((vec!["C12"], format!("actor {srv} handled {id} after it had stopped")));
                }
                if sv[k].stop_self.is_some() && stack[k].is_empty() {
                    v.push((vec!["C12", "C15"], format!("actor {srv} handled {id} after stop_self")));
                }
                stack[k].push(id);
            }
            E::Exit { srv, id, stop } => {
                let k = srv as usize;
                ms[id as usize].exits.push((n, srv));
                let nested = stack[k].len() > 1;
                if stack[k].pop() != Some(id) {
                    v.push((vec!["C12"], format!("handlers of actor {srv} overlap at the end of {id}")));
                }
                let e = ms[id as usize].enters.iter().rev().find(|e| e.1 == srv).map_or(0, |e| e.0);
                sv[k].handlers.push((e, n, nested));
                sv[k].recv.push(n);
                if stop {
                    sv[k].stop_self.get_or_insert(n);
                    bump("stop_self", 1);
                }
            }
            E::Intr { srv, id, why } => {
                let k = srv as usize;
                if !why {
                    let b = if p.msgs[id as usize].1 { "C06" } else { "C01" };
                    let sel = !sel_depth[k].is_empty() || matches!(p.roles[k - 1], Role::Server(Style::Sel) | Role::Late { style: Style::Sel, .. });
                    v.push((if sel { vec![b, "C12", "C15"] } else { vec![b, "C12"] }, format!("actor {srv} abandoned the handler of {id}")));
                }
                ms[id as usize].intr.push((n, srv));
                stack[k].retain(|x| *x != id);
                sel_depth[k].retain(|x| *x != id);
                sv[k].recv.push(n);
                bump("interrupted", 1);
            }
            E::SelEnter { srv, id } => {
                sel_depth[srv as usize].push(id);
                sv[srv as usize].recv.push(n);
                bump("selects", 1);
            }
            E::SelDone { srv, id, ok, .. } => {
                sel_depth[srv as usize].retain(|x| *x != id);
                sv[srv as usize].recv.push(n);
                cancels.push(n);
                if !ok {
                    v.push((vec!["C15"], format!("select or join in the handler of {id} gave back a wrong value or future")));
                }
            }
            E::StopAllCall { srv } => stopall.push((n, inf, srv)),
            E::StopAllRet { srv } => {
                if let Some(x) = stopall.iter_mut().rev().find(|x| x.2 == srv && x.1 == inf) {
                    x.1 = n;
                }
                bump("stop_all", 1);
            }
            E::Stopped { srv } => {
                sv[srv as usize].stopped.push(n);
                if sv[srv as usize].told.is_none() {
                    sv[srv as usize].told = Some(n);
                }
            }
            E::Told { srv } => sv[srv as usize].told = Some(n),
            E::Returned { srv, who, stopped } => sv[srv as usize].returned = Some((n, who, stopped)),
            E::ActorDrop { srv } => sv[srv as usize].actor_drops += 1,
            E::Quiet { srv, len, send, idle } => {
                bump("quiet", 1);
                if let (Some(id), Some(cap)) = (send, p.cap) {
                    bump("quiet_waiting", 1);
                    if cap > 0 && len < cap {
                        v.push((vec!["C08"], format!("nobody else can run, {id} waits for space, and only {len} messages and broadcasts are there (capacity {cap}, seen by {srv})")));
                    }
                    if idle.is_some() && !ms_bcast(id) {
                        v.push((vec!["C08", "C09"], format!("nobody else can run, {id} waits for space although actor {idle:?} is idle")));
                    }
                }
                if plain {
                    if let (Some(k), true) = (idle, len > 0) {
                        v.push((vec!["C09"], format!("nobody else can run, {len} messages are there, and actor {k} sits idle")));
                    }
                    let left = |m: &&M| m.first().is_some() && m.enters.is_empty() && m.reply.is_none();
                    let hi = ms.iter().filter(left).count();
                    let lo = ms.iter().filter(left).filter(|m| matches!(m.res, Some((_, true)))).count();
                    bump("quiet_len", 1);
                    if len < lo || len > hi {
                        v.push((vec!["C20"], format!("nobody else can run, the length is {len}, between {lo} and {hi} messages are accepted and not taken")));
                    }
                }
            }
            E::Leave { srv } => sv[srv as usize].leave = Some(n),
            E::Kill { srv } => sv[srv as usize].kill = Some(n),
            E::Panicking { srv } => {
                sv[srv as usize].panic = Some(n);
                bump("panics", 1);
            }
            E::End { srv } => sv[srv as usize].ended = Some(n),
            E::MbNew { srv } => sv[srv as usize].born_call = n,
            E::MbBorn { srv } => sv[srv as usize].born = n,
            E::TokDrop { id } => ms[id as usize].drops.push(n),
            E::TokClone { id } => ms[id as usize].clones += 1,
            E::ReplyDrop { id } => ms[id as usize].replies_dropped += 1,
            E::CargoDrop { hid } => {
                if let Some(s) = strong.get_mut(&hid) {
                    s.2 = n;
                }
                if let Some(s) = may.iter_mut().rev().find(|s| s.0 == hid && s.2 == inf) {
                    s.2 = n;
                }
            }
            E::StrongMay { hid } => may.push((hid, n, inf)),
            E::StrongNew { hid } => {
                if !may.iter().any(|s| s.0 == hid && s.2 == inf) {
                    may.push((hid, n, inf));
                }
                strong.insert(hid, (n, inf, inf));
                cargo_used = true;
            }
            E::StrongDrop { hid } => {
                if let Some(s) = strong.get_mut(&hid) {
                    s.1 = n;
                }
            }
            E::UpgradeCall => {
                open[t].insert("up", n);
            }
            E::Upgrade { some } => ups.push((open[t].remove("up").unwrap_or(0), n, some)),
            E::ConnCall => {
                open[t].insert("conn", n);
            }
            E::Conn { r, cap } => {
                conns.push((open[t].remove("conn").unwrap_or(0), n, r));
                if cap != p.cap {
                    v.push((vec!["C20"], format!("capacity reported as {cap:?} instead of {:?}", p.cap)));
                }
            }
            E::JoinCall { scoped } => {
                open[t].insert("join", n);
                let _ = scoped;
            }
            E::JoinRes { r, scoped } => {
                joins.push((open[t].get("join").copied().unwrap_or(0), n, r, scoped));
                open[t].insert("joined", n);
            }
            E::ScopedPoll => {
                if open[t].contains_key("joined") {
                    v.push((vec!["C14"], "a scoped task was polled after the scoped future had resolved".into()));
                }
            }
        }
    }
    let _ = cargo_used;

    for x in &r.out.panics {
        v.push((vec!["ANY"], format!("a thread panicked: {x}")));
    }

    // ---------------------------------------------------------------- hangs
    if let Some(st) = &r.out.stuck {
        bump("stuck", 1);
        let mut tags: Vec<&'static str> = vec![];
        let mut add = |x: &[&'static str]| {
            for t in x {
                if !tags.contains(t) {
                    tags.push(t)
                }
            }
        };
        let mailbox_left = sv.iter().any(|s| s.exists && s.ended.is_none());
        let mut only_recv = true;
        let mut only_watch = true;
        for (_, w) in &st.waits {
            match w {
                Wait::Lock(_) => {
                    add(&["C17"]);
                    only_recv = false;
                    only_watch = false;
                }
                Wait::Send(id) | Wait::Bcast(id) => {
                    add(&["C03"]);
                    add(if mailbox_left { &["C08"] } else { &["C13"] });
                    if matches!(w, Wait::Bcast(_)) {
                        add(&["C06"]);
                    }
                    let _ = id;
                    only_recv = false;
                    only_watch = false;
                }
                Wait::Reply(id) => {
                    let m = &ms[*id as usize];
                    if m.exits.is_empty() && m.intr.is_empty() && m.enters.is_empty() {
                        add(&["C03"]);
                        if mailbox_left {
                            add(&["C01", "C08"]);
                            if !cancels.is_empty() {
                                add(&["C09"]);
                            }
                        }
                    } else {
                        add(&["C02", "C03"]);
                    }
                    only_recv = false;
                    only_watch = false;
                }
                Wait::Join | Wait::Scoped(_) => only_recv = false,
                Wait::Recv(_) | Wait::Run(_) => only_watch = false,
                Wait::Threads(_) => {}
                _ => {
                    only_watch = false;
                }
            }
        }
        let some_recv = st.waits.iter().any(|w| matches!(w.1, Wait::Recv(_) | Wait::Run(_) | Wait::Dispatch(_)));
        let clients_wait = st.waits.iter().any(|w| matches!(w.1, Wait::Send(_) | Wait::Bcast(_) | Wait::Reply(_)));
        if some_recv && !clients_wait {
            if stopall.is_empty() {
                add(&["C10"]);
            } else {
                add(&["C11", "C10"]);
            }
            if !cancels.is_empty() {
                add(&["C09"]);
            }
            if p.msgs.iter().any(|m| m.1) {
                add(&["C06"]);
            }
        }
        let _ = only_recv;
        if only_watch {
            add(&["C14"]);
        }
        if st.livelock {
            add(&["C17"]);
        }
        if ms.iter().any(|m| !m.intr.is_empty()) {
            add(&["C26"]);
        }
        v.push((tags, format!("{}: {:?}", if st.livelock { "the program makes no progress" } else { "nothing can run any more, these threads wait for ever" }, st.waits)));
        return v;
    }

    // ---------------------------------------------------------------- who was alive when
    // a strong handle exists throughout [a, b]: there is one after b, and once there is none there
    // never is one again
    let covered = |_a: u64, b: u64| strong.values().any(|s| s.1 > b);
    let handle_covers = |hid: Option<u32>, a: u64, b: u64| hid.and_then(|h| strong.get(&h)).map_or(false, |s| s.0 < a && s.1 > b);
    // last moment the mailbox of a server certainly exists
    let alive_until = |s: &Srv| -> u64 {
        if s.dropper {
            return s.leave.unwrap_or(inf).saturating_sub(1);
        }
        s.enters.last().map_or(0, |e| e.0).max(s.recv.iter().copied().filter(|r| s.told.map_or(true, |t| *r < t) && s.stop_self.is_none()).max().unwrap_or(0).min(s.enters.last().map_or(0, |e| e.0)))
    };
    let mb_covered = |a: u64, b: u64| sv.iter().any(|s| s.exists && !s.late && alive_until(s) > b && s.born < a);
    let all_gone = sv.iter().filter(|s| s.exists).map(|s| s.ended.unwrap_or(inf)).max().unwrap_or(0);
    let others = |srv: u32| sv.iter().enumerate().filter(|(k, s)| s.exists && !s.dropper && *k != srv as usize).count();
    let accepted_at = |m: &M| -> Option<u64> {
        if let Some((t, true)) = m.res {
            return Some(t);
        }
        if p.cap.is_none() {
            return m.polled.filter(|_| m.reply.map_or(true, |r| r.1 != Err(Bad::Disconnected)));
        }
        None
    };

    let protected = p.protected.map(|k| k + 1);
    let no_stopall = stopall.is_empty();
    let faulty = |s: &Srv| s.leave.is_some() || s.kill.is_some() || s.panic.is_some() || s.stop_self.is_some() || s.fail_start;
    let strict = no_stopall && protected.is_some() && sv.iter().all(|s| !s.exists || s.dropper || !faulty(s)) && sv.iter().all(|s| !s.late);
    let semi = no_stopall && protected.is_some();

    // ---------------------------------------------------------------- every message
    for (id, m) in ms.iter().enumerate() {
        let (prio, bcast, sub) = p.msgs[id];
        let _ = prio;
        if m.call == 0 && m.enters.is_empty() {
            continue;
        }
        bump("messages", 1);
        if !bcast {
            if m.enters.len() > 1 {
                v.push((vec!["C01"], format!("message {id} was handled {} times", m.enters.len())));
            }
            if let Some((_, false)) = m.res {
                if !m.enters.is_empty() {
                    v.push((vec!["C01", "C02"], format!("message {id} was handled although its send reported Disconnected")));
                }
            }
        } else {
            let mut per: HashMap<u32, usize> = HashMap::new();
            for e in &m.enters {
                *per.entry(e.1).or_default() += 1;
            }
            if let Some((s, n)) = per.iter().find(|x| *x.1 > 1) {
                v.push((vec!["C06"], format!("broadcast {id} was handled {n} times by actor {s}")));
            }
            if let Some((_, false)) = m.res {
                if !m.enters.is_empty() {
                    v.push((vec!["C06"], format!("broadcast {id} was handled although it reported Disconnected")));
                }
            }
        }
        if m.polled.is_none() && m.res.is_none() && m.reply.is_none() && m.abandon.is_some() && !m.enters.is_empty() && !sub {
            v.push((vec!["C01"], format!("message {id} was handled although its future was never polled")));
        }
        // outcome
        if let Some((t, rep)) = m.reply {
            bump("rule_outcome", 1);
            match rep {
                Ok(x) => {
                    let ok = m.exits.iter().any(|e| e.0 < t && crate::conc::value(id as Id, e.1) == x);
                    if !ok {
                        v.push((vec!["C02"], format!("the sender of {id} received a value that is not the one its handler returned ({x})")));
                    }
                }
                Err(Bad::Interrupted) => {
                    if !m.exits.is_empty() && m.exits[0].0 < t {
                        v.push((vec!["C02"], format!("the sender of {id} was told Interrupted although its handler completed")));
                    }
                    let _ = m.attached;
                }
                Err(Bad::Disconnected) => {
                    if !m.enters.is_empty() {
                        v.push((vec!["C02"], format!("the sender of {id} was told Disconnected although the message was handled")));
                    }
                    if m.res.is_some() {
                        v.push((vec!["C02"], format!("the reply of {id}, which was accepted, is Disconnected")));
                    }
                }
                #[allow(unreachable_patterns)]
                _ => {}
            }
        }
        // tokens
        if !m.drops.is_empty() || m.call != 0 {
            let expect = 1 + m.clones;
            if m.drops.len() != expect && m.call != 0 {
                v.push((vec!["C16"], format!("message {id} existed {expect} times but was dropped {} times", m.drops.len())));
            }
            bump("rule_released", 1);
        }
        if m.replies_dropped != if bcast { 0 } else { m.exits.len() } {
            v.push((vec!["C16"], format!("the reply to {id} was dropped {} times, {} made", m.replies_dropped, m.exits.len())));
        }
        // discarded at once when the last mailbox goes
        if let Some(t) = accepted_at(m) {
            if m.enters.is_empty() && !bcast && t < all_gone {
                bump("rule_discarded", 1);
                if m.drops.last().map_or(true, |d| *d > all_gone) {
                    v.push((vec!["C16", "C03"], format!("message {id} was still not released when the last mailbox had gone ({all_gone})")));
                }
            }
        }
        // what must have been accepted and handled
        let end_call = m.first().unwrap_or(inf);
        let fin = m.reply.map(|x| x.0).or(m.res.map(|x| x.0)).unwrap_or(end_call);
        let refused = matches!(m.res, Some((_, false))) || matches!(m.reply, Some((_, Err(Bad::Disconnected))));
        if refused && semi && handle_covers(m.hid, m.call, fin) {
            v.push((vec!["C13", "C03", "C10"], format!("the send of {id} was refused although a strong address and a served mailbox existed")));
        }
        if semi && handle_covers(m.hid, m.call, fin) {
            bump("rule_must_accept", 1);
            if let Some((_, Err(Bad::Interrupted))) = m.reply {
                if m.enters.is_empty() {
                    let mut tags = vec!["C01", "C02"];
                    if !cancels.is_empty() {
                        tags.push("C09");
                    }
                    if ms.iter().any(|m| !m.intr.is_empty()) {
                        tags.push("C26");
                    }
                    v.push((tags, format!("message {id} was discarded although an actor kept serving the address")));
                } else if m.intr.is_empty() {
                    v.push((vec!["C02"], format!("message {id} is Interrupted, but its handler was not")));
                }
            }
        }
        if strict && !bcast {
            if let Some(t) = accepted_at(m) {
                if covered(m.call, t) && m.abandon.is_none() {
                    bump("rule_must_handle", 1);
                    if m.enters.is_empty() {
                        let mut tags = vec!["C01", "C10"];
                        if !cancels.is_empty() {
                            tags.push("C09");
                        }
                        v.push((tags, format!("message {id} was accepted but never handled, although the actors ran until they were told to stop")));
                    }
                }
            }
        }
        // broadcasts: who has to see it
        if bcast {
            if let Some((t1, true)) = m.res {
                for (k, s) in sv.iter().enumerate() {
                    if !s.exists || s.dropper {
                        continue;
                    }
                    let got = m.enters.iter().any(|e| e.1 == k as u32);
                    if s.born_call > t1 && got && s.late {
                        v.push((vec!["C06"], format!("broadcast {id} was handled by actor {k}, whose mailbox was created after it had been accepted")));
                    }
                    if s.born < m.call && no_stopall && !faulty(s) && s.told.is_some() && covered(m.call, t1) {
                        bump("rule_bcast_recipients", 1);
                        if !got {
                            let mut tags = vec!["C06", "C10"];
                            if !cancels.is_empty() {
                                tags.push("C09");
                            }
                            v.push((tags, format!("broadcast {id} never reached actor {k}, which was served until it was told to stop")));
                        }
                    }
                }
            }
        }
        // connectivity decides the fate
        if m.hid.is_some() || true {
            if let Some(f) = m.first() {
                let first_is_refusal = refused && m.polled.is_none();
                if first_is_refusal && covered(m.call, f) && mb_covered(m.call, f) {
                    v.push((vec!["C13"], format!("the send of {id} was refused although the address was connected")));
                }
                if m.call > all_gone && !refused && m.abandon.is_none() {
                    v.push((vec!["C13", "C03"], format!("the send of {id}, begun after the last mailbox was gone, was not refused")));
                }
                bump("rule_connectivity_fate", 1);
            }
        }
    }

    // ---------------------------------------------------------------- order of takes
    for (k, s) in sv.iter().enumerate() {
        for &(e, id) in &s.enters {
            let m2 = &ms[id as usize];
            let (p2, b2, _) = p.msgs[id as usize];
            let rcv = s.recv.iter().copied().filter(|x| *x < e).max();
            // C05
            if let Some(rc) = rcv {
                let mut missed = vec![];
                for (id1, m1) in ms.iter().enumerate() {
                    let (p1, b1, _) = p.msgs[id1];
                    if p1 <= p2 || id1 == id as usize {
                        continue;
                    }
                    if b1 {
                        if let Some((t, true)) = m1.res {
                            if t < rc && s.born < m1.call && !m1.enters.iter().any(|x| x.1 == k as u32 && x.0 < e) {
                                v.push((vec!["C05", "C06"], format!("actor {k} took {id} (priority {p2}) although broadcast {id1} (priority {p1}) was available to it")));
                            }
                        }
                    } else if let Some(t) = accepted_at(m1) {
                        if t < rc && !m1.entered_before(e) && m1.drops.first().map_or(true, |d| *d > e) {
                            missed.push(id1);
                        }
                    }
                }
                bump("rule_priority", 1);
                if missed.len() > others(k as u32) {
                    v.push((vec!["C05"], format!("actor {k} took {id} (priority {p2}) although messages {missed:?} of higher priority were available")));
                }
            }
            // C04
            if p2 == 0 && !b2 {
                let slack = others(k as u32) + cancels.iter().filter(|c| **c < e).count();
                let mut over = vec![];
                for (id1, m1) in ms.iter().enumerate() {
                    let (p1, b1, _) = p.msgs[id1];
                    if b1 || p1 != 0 || id1 == id as usize || m1.abandon.is_some() {
                        continue;
                    }
                    let Some(f) = m1.first() else { continue };
                    let refused = matches!(m1.res, Some((_, false))) || matches!(m1.reply, Some((_, Err(Bad::Disconnected))));
                    if f < m2.call && !refused && !m1.entered_before(e) {
                        over.push(id1);
                    }
                }
                bump("rule_fifo", 1);
                if over.len() > slack {
                    v.push((vec!["C04"], format!("message {id} was handled before messages {over:?}, which were sent earlier")));
                }
            }
        }
    }

    // ---------------------------------------------------------------- capacity
    if let Some(c) = p.cap {
        let servers = sv.iter().filter(|s| s.exists && !s.dropper).count();
        for (id, m) in ms.iter().enumerate() {
            let Some((t, true)) = m.res else { continue };
            let bcast = p.msgs[id].1;
            if !bcast {
                let n = ms
                    .iter()
                    .enumerate()
                    .filter(|(i, x)| !p.msgs[*i].1 && matches!(x.res, Some((a, true)) if a <= t) && !x.entered_before(t) && x.drops.first().map_or(true, |d| *d > t))
                    .count();
                let lim = c + servers + cancels.iter().filter(|x| **x < t).count();
                bump("rule_capacity", 1);
                if n > lim {
                    v.push((vec!["C07"], format!("{n} messages are accepted and untaken at {t} with capacity {c} and {servers} actors")));
                }
            } else {
                for (k, s) in sv.iter().enumerate() {
                    if !s.exists || s.late || alive_until(s) < t {
                        continue;
                    }
                    let n = ms
                        .iter()
                        .enumerate()
                        .filter(|(i, x)| p.msgs[*i].1 && matches!(x.res, Some((a, true)) if a <= t) && !x.enters.iter().any(|e| e.1 == k as u32 && e.0 < t))
                        .count();
                    bump("rule_capacity_bcast", 1);
                    if n > c + !s.dropper as usize {
                        v.push((vec!["C07"], format!("{n} broadcasts are outstanding for mailbox {k} at {t} with capacity {c}")));
                    }
                }
            }
        }
    }

    // ---------------------------------------------------------------- stop_all
    for &(_, t, by) in &stopall {
        if t == inf {
            continue;
        }
        for (k, s) in sv.iter().enumerate() {
            if !s.exists || s.dropper || s.late {
                continue;
            }
            bump("rule_stop_all", 1);
            let after: Vec<Id> = s.enters.iter().filter(|e| e.0 > t).map(|e| e.1).collect();
            let in_handler = s.handlers.iter().any(|h| h.0 < t && t < h.1);
            let nested = s.handlers.iter().any(|h| h.0 < t && t < h.1 && h.2) || r.evs.iter().any(|e| matches!(e.2, E::SelEnter { srv, .. } if srv == k as u32));
            let lim = if in_handler && !nested { 0 } else { 1 };
            if after.len() > lim {
                v.push((vec!["C11"], format!("actor {k} handled {after:?} after stop_all (called by actor {by}, returned at {t})")));
            }
        }
    }

    // ---------------------------------------------------------------- life cycle and stops
    for (k, s) in sv.iter().enumerate() {
        if !s.exists || s.dropper {
            continue;
        }
        if s.started.len() > 1 || s.stopped.len() > 1 {
            v.push((vec!["C12"], format!("actor {k} was started {} and stopped {} times", s.started.len(), s.stopped.len())));
        }
        bump("rule_lifecycle", 1);
        if s.actor_drops != 1 {
            v.push((vec!["C16", "C12"], format!("actor {k} was dropped {} times", s.actor_drops)));
        }
        if let Some((_, who, stopped)) = s.returned {
            if who != k as u32 || stopped == s.fail_start || (stopped && s.stopped.len() != 1) || (!stopped && !s.stopped.is_empty()) {
                v.push((vec!["C12"], format!("running actor {k} returned {who}/{stopped} after {} calls of stopped", s.stopped.len())));
            }
        } else if s.plain_run && s.panic.is_none() && s.intr_unwound(&ms, k as u32) {
            v.push((vec!["C12"], format!("running actor {k} did not return")));
        }
        if let Some(told) = s.told {
            let last = s.recv.iter().copied().filter(|x| *x < told).max().unwrap_or(0);
            let asked = s.stop_self.is_some() || stopall.iter().any(|x| x.0 < told);
            bump("rule_no_premature_stop", 1);
            if !asked && covered(last.max(1), told) {
                let other_self = sv.iter().any(|o| o.stop_self.map_or(false, |t| t < told));
                v.push((if other_self { vec!["C10", "C12"] } else { vec!["C10"] }, format!("actor {k} was told to stop (between {last} and {told}) while a strong address existed and nobody had asked for it")));
            }
        }
        if let Some(ss) = s.stop_self {
            if s.plain_run && s.stopped.is_empty() && s.panic.is_none() {
                v.push((vec!["C12"], format!("actor {k} did not stop after stop_self at {ss}")));
            }
        }
    }

    // ---------------------------------------------------------------- connectivity
    let mut first_gone: u64 = inf; // the earliest moment someone saw the address disconnected
    for &(_, b, r) in &conns {
        if !r {
            first_gone = first_gone.min(b);
        }
    }
    for m in &ms {
        if let Some((t, false)) = m.res {
            first_gone = first_gone.min(t);
        }
        if let Some((t, Err(Bad::Disconnected))) = m.reply {
            first_gone = first_gone.min(t);
        }
    }
    for &(a, b, r) in &conns {
        bump("rule_connected", 1);
        if r && a > first_gone {
            v.push((vec!["C13"], format!("connected at {a}..{b} although it was seen disconnected before {first_gone}")));
        }
        if !r && covered(a, b) && mb_covered(a, b) {
            v.push((vec!["C13"], format!("is_connected was false at {a}..{b} although a strong address and a mailbox existed")));
        }
        if r && a > all_gone {
            v.push((vec!["C13"], format!("is_connected was true at {a}..{b} after the last mailbox had gone")));
        }
        if r && may.iter().all(|s| s.2 < a || s.1 > b) {
            v.push((vec!["C13"], format!("is_connected was true at {a}..{b} without any strong address")));
        }
    }
    for (id, m) in ms.iter().enumerate() {
        if let (Some((t, true)), true) = (m.res, m.call > first_gone) {
            v.push((vec!["C13"], format!("the send of {id} (begun at {}) was accepted at {t} although the address was seen disconnected before {first_gone}", m.call)));
        }
    }
    for &(a, b, some) in &ups {
        bump("rule_upgrade", 1);
        if !some && covered(a, b) {
            v.push((vec!["C10"], format!("try_upgrade failed at {a}..{b} although a strong address existed")));
        }
        if some && may.iter().all(|s| s.2 < a || s.1 > a) {
            v.push((vec!["C10"], format!("try_upgrade succeeded at {a}..{b} although no strong address existed")));
        }
    }
    for &(a, b, r, scoped) in &joins {
        bump("rule_join", 1);
        if r.is_none() && covered(a, b) && mb_covered(a, b) {
            v.push((vec!["C14"], format!("{} resolved at {b} while the address was still connected", if scoped { "a scoped task" } else { "a join handle" })));
        }
        if scoped && r.is_some() && r != Some(4711) {
            v.push((vec!["C14"], "a scoped task gave a wrong value".into()));
        }
    }

    // ---------------------------------------------------------------- the end
    let (conn, len, dbg) = &r.end;
    if *conn {
        v.push((vec!["C13"], "the address is connected although nothing is left".into()));
    }
    if *len != 0 {
        v.push((vec!["C20", "C16"], format!("length {len} after everything is gone")));
    }
    let (a, m) = crate::sim::parse_debug(dbg);
    if a != Some(0) || m != Some(0) {
        v.push((vec!["C20"], format!("debug output {dbg} after everything is gone")));
    }
    v
}

impl Srv {
    fn intr_unwound(&self, ms: &[M], k: u32) -> bool {
        // a panic elsewhere (there is none) would unwind the handler
        self.ended.is_some() && !ms.iter().any(|m| m.intr.iter().any(|i| i.1 == k))
    }
}
