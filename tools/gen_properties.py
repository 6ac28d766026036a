#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))
CH="xtra/src/chan.rs"; PTR="xtra/src/chan/ptr.rs"; WR="xtra/src/chan/waiting_receiver.rs"; WS="xtra/src/chan/waiting_sender.rs"
SF="xtra/src/send_future.rs"; RF="xtra/src/recv_future.rs"; DF="xtra/src/dispatch_future.rs"; ENV="xtra/src/envelope.rs"
AD="xtra/src/address.rs"; MB="xtra/src/mailbox.rs"; LIB="xtra/src/lib.rs"; CX="xtra/src/context.rs"; ST="xtra/src/scoped_task.rs"
MC="xtra/src/message_channel.rs"; PR="xtra/src/chan/priority.rs"; INS="xtra/src/instrumentation/tracing.rs"; SP="xtra/src/spawn.rs"; MAC="macros/src/lib.rs"
HK="cfg(xtra_verif): scheduling points at the channel lock, the reference counters, the shutdown event and the receiver side of the hand-over cell, so a seeded scheduler can drive real threads through chosen interleavings"

p("C01","Accepted unicast messages are handled exactly once",
  "While at least one mailbox of an address stays alive and is served, every message whose send was accepted is handled exactly once, by exactly one of the actors on that address. A message whose send reported Disconnected, or whose send future was dropped before the message was accepted, is never handled. Handling never depends on whether anybody still holds the sender's future.",
  ["schedules","histories"],"every history of sends, receives, cancellations and actor starts/stops, for every number of senders and actors and every thread interleaving, bounded and unbounded",
  "The tests send a handful of messages from one task to one actor; loss or duplication depends on the interleaving of hand-over, cancellation, back-pressure and shutdown.",
  [CH,WR,RF,SF],[("single locked queue plus direct hand-over to the longest-waiting receiver","Chan::try_send_to_one, Inner::try_fulfill_receiver"),("re-queue on cancellation","Waiting::drop, Chan::requeue_message")],
  [("unicast_queue","accepted, untaken messages","chan.rs Inner"),("waiting_receivers_handles","idle receivers in arrival order","chan.rs Inner")],
  ["send result at the client","handler entry"],HK)
p("C02","A sender observes exactly the outcome of its own message",
  "The value a sender receives is the value returned by the handler invocation for that very message. Interrupted is reported only when the message was accepted but its handler did not run to completion; Disconnected is reported only when the message was never accepted. Dropping, detaching or re-polling from another task never changes which outcome is reported.",
  ["schedules","histories","inputs"],"every assignment of messages to actors, every mix of attached/detached sends, handler completions, interruptions, panics and shutdowns",
  "Tests check single replies and one Interrupted case; mix-ups and wrong error kinds need several in-flight messages and shutdown at awkward moments.",
  [ENV,SF,DF,CH],[("one-shot reply cell owned by the envelope","ReturningEnvelope::new/handle"),("state machine of the send future","Sending::poll, SendFuture::poll")],
  [("result_sender","reply half carried by the message","envelope.rs")],["value resolved by the send future / receiver"],HK)
p("C03","No sender is left pending once its message's fate is decided",
  "A send, broadcast or reply future whose fate is decided (accepted, handled, interrupted, discarded, or refused because no mailbox is left) is woken and resolves. In particular, no interleaving of sends with the disappearance of the last mailbox leaves a send, broadcast or reply pending forever, even while addresses are still held.",
  ["schedules","histories"],"every interleaving of sends (waiting or accepted) with handling, interruption and the drop of the last mailbox",
  "A missed wake-up or a message parked in a dead mailbox shows only in a narrow race window or after a particular order of drops.",
  [CH,WS,SF,ENV],[("closing of waiting senders and clearing of queues when the last receiver goes","Chan::on_receiver_dropped, shutdown_waiting_senders"),("connectivity test before queuing","Chan::try_send_to_one/all"),("Drop of the waiting-sender handle","waiting_sender::Handle")],
  [("waiting_send_to_one/all","senders waiting for space","chan.rs Inner")],["wakers and results of send/reply futures"],HK)
p("C04","Default-priority messages are handled in send order",
  "Unicast messages sent with the default priority are handled in the order in which they were sent, for any number of messages, from one or many senders, whether or not the mailbox is bounded and senders had to wait for space. The only exception is a message that had already been handed to a receive future which was then dropped.",
  ["histories","schedules","inputs"],"every sequence of default-priority sends, interleaved with prioritised sends, broadcasts, waits for capacity and handling",
  "The only ordering tests use distinct priorities; none sends several default-priority messages and looks at their order.",
  [CH,PR],[("ordering of equal-priority queue entries and of equal-priority waiting senders","Inner::unicast_queue, find_remove_highest_priority")],
  [("unicast_queue","queued unicast messages","chan.rs Inner")],["order of first poll of sends vs. order of handler entries"],HK)
p("C05","A free actor always takes the most urgent message available to it",
  "When an actor asks for its next message and messages are already available to it, it gets one of the highest priority among all of them (shared messages and its own broadcasts alike; a pending stop-all outranks everything). An actor that was already waiting may first handle the one message it was woken for; the one after that obeys the rule again.",
  ["histories","inputs"],"every mix of priorities over unicast and broadcast queues, all capacities, any number of actors",
  "One test checks one fixed list of eight messages on one actor.",
  [CH,PR,WR],[("comparison of the two queue heads","Chan::try_recv"),("max-heaps by priority","priority.rs"),("highest-priority waiting sender first","find_remove_highest_priority")],
  [],["message taken by a fresh receive vs. messages accepted and untaken"],None)
p("C06","A broadcast reaches every mailbox alive at acceptance exactly once",
  "An accepted broadcast is handled exactly once by the actor behind each mailbox that exists at the moment of acceptance and keeps being served; mailboxes created later never see it, and slow, idle or departing mailboxes never cause another mailbox to miss or repeat it.",
  ["schedules","histories"],"every set of mailboxes (cloned and dropped at any time), every order of serving them, every priority and capacity",
  "Tests use two actors and fixed orders; per-mailbox delivery under cloning, dropping, cancelled receives and concurrent receives is not exercised.",
  [CH,MB,WR],[("one broadcast queue per mailbox, pushed under the channel lock","Inner::send_broadcast, Chan::new_broadcast_mailbox"),("wake-up of all waiting receivers","waiting_receiver::Handle::notify_new_broadcast")],
  [("broadcast_queues","queue of each live mailbox","chan.rs Inner")],["handler entries per mailbox"],HK)
p("C07","A bounded mailbox never accepts more than its capacity",
  "With capacity c, at most c unicast messages are accepted and waiting to be taken at any time (not counting a message handed to an actor that was already waiting, or put back by a dropped receive), and at most c broadcasts are outstanding for the slowest living mailbox; further sends stay pending. Each limit applies separately to unicast and broadcast; unbounded mailboxes never make a sender wait.",
  ["schedules","histories","configurations"],"every capacity >= 1, every mix of sends, broadcasts, priorities, cancellations and concurrent senders",
  "Tests use capacity 1 and 2 with one or two sends.",
  [CH],[("fullness tests under the lock","Inner::is_unicast_full, is_broadcast_full")],
  [("broadcast_tail","length of the longest broadcast queue","chan.rs Inner")],["whether a send completes or stays pending"],HK)
p("C08","Freed space goes to the right waiting sender at once",
  "For mailboxes of capacity one or more: a sender waits only while the mailbox is really full: as soon as space is freed - by a message being taken, or for broadcasts by the slowest mailbox catching up or ceasing to exist - a waiting sender is admitted and woken. The admitted sender is one of the most urgent still waiting (the longest-waiting at default priority), abandoned senders are skipped, and no sender keeps waiting while an actor of the address sits idle.",
  ["schedules","histories","configurations"],"every sequence of waits, cancellations, takes, mailbox drops and stops, for every capacity",
  "Tests cover two waiting senders of different priority; not cancellations, departing mailboxes, several freed slots, or fairness.",
  [CH,WS],[("hand-over of a freed slot","Inner::pop_unicast, pop_broadcast, try_take_waiting_*"),("selection of the waiting sender","find_remove_highest_priority"),("tail of the slowest mailbox","Inner::longest_broadcast_queue")],
  [("broadcast_tail","length of the longest live broadcast queue","chan.rs Inner")],["wakers and results of waiting sends"],HK)
p("C09","Dropping a receive future never loses a message",
  "A receive future may be dropped at any moment, including while a message is being handed to it: no unicast message, broadcast or stop notice is lost or duplicated, and other waiting actors get it. A receive future that has something to return returns it in a single poll, counts as terminated (FusedFuture) from then on and not before, and abandoned receives leave nothing behind, however many there are.",
  ["schedules","histories"],"every drop point of a receive future relative to concurrent sends, broadcasts, stop-all and last-address drops; any number of repetitions",
  "The race between cancelling and being handed a message needs two threads and a window of a few instructions; tests only poll from one thread.",
  [RF,WR,CH],[("cancel and re-queue in Drop","recv_future::Waiting::drop, WaitingReceiver::cancel, Chan::requeue_message")],
  [("waiting_receivers_handles","idle receivers","chan.rs Inner")],["handled set after the drop"],HK)
p("C10","Strong addresses keep an actor running; weak ones never do",
  "As long as a strong address (or strong channel) exists and nobody requests a stop, an actor is never told to stop. Once the last strong one is gone, every actor of the address first handles every message already accepted that it is entitled to and is then told to stop, idle actors being woken. Weak addresses never prevent this, and a weak address can be upgraded exactly while a strong one exists.",
  ["schedules","histories"],"every sequence and interleaving of cloning, downgrading, converting, upgrading and dropping strong/weak/either addresses and channels with sends and receives",
  "Tests drop one address in one fixed order; the counter races (upgrade against last drop, register against last drop) are never exercised.",
  [PTR,CH,AD,MC,CX],[("sender reference count","Chan::on_sender_created/on_sender_dropped, TxStrong::try_new"),("check under lock before waiting","Chan::try_recv"),("notification of idle receivers","Chan::shutdown_waiting_receivers")],
  [("sender_count","number of strong handles","chan.rs Chan")],["stop notices delivered to actors; try_upgrade results"],HK)
p("C11","stop_all stops every actor on the address as its next action",
  "After stop_all, every actor whose mailbox exists at that time stops as its next action once it has finished its current message - at the latest after one message it had already been handed - ahead of all queued messages and regardless of priority, capacity or lagging actors; idle actors are woken. Actors on mailboxes created later, and actors on other addresses, are unaffected, and unhandled messages stay available to remaining actors.",
  ["schedules","histories","configurations"],"every state of the queues and actors at the time of the call, any number of actors, any capacity",
  "Tests call stop_all with one or two actors and nearly empty queues.",
  [CX,CH,ENV],[("shutdown broadcast with the greatest priority","Chan::shutdown_all_receivers, Priority::Shutdown"),("bypass of capacity","Inner::send_broadcast")],
  [],["messages handled by each actor after the call"],HK)
p("C12","Actor lifecycle: started once, one at a time, stopped exactly once",
  "An actor run by the event loop is started exactly once before its first message, handles one message at a time, each handler running to its end unless it panics or the actor itself is dropped, and after stop_self, stop_all or loss of the last strong address runs its stopped hook exactly once, after which it handles nothing and its stop value is what running it returns. If starting fails, it handles nothing, the stopped hook is not called and the start error is returned. stop_self stops only the calling actor; messages it did not handle stay available to the other actors of the address.",
  ["schedules","histories"],"every stop cause at every position in a message history, with one or several actors per address",
  "Tests check that actors end, not the order and count of life-cycle events or what happens to other actors.",
  [LIB,CX,ENV,DF],[("event loop","xtra::run, yield_once"),("running flag of the context","Context::stop_self, ReturningEnvelope::handle")],
  [],["life-cycle hooks and handler entries/exits"],None)
p("C13","Connectivity is exact, final, and decides the fate of sends",
  "An address reports connected exactly while at least one strong address and at least one mailbox exist, and once disconnected it never becomes connected again. Every send or broadcast first attempted after disconnection resolves immediately to Disconnected, and every one attempted while connected does not.",
  ["schedules","histories"],"every sequence and interleaving of creating, converting and dropping addresses, channels and mailboxes with sends",
  "Tests check is_connected at a few fixed points.",
  [CH,PTR,AD,MB,RF],[("sender and receiver counts","Chan::is_connected, Ptr clone/drop")],
  [("receiver_count","mailboxes and receives in progress","chan.rs Chan"),("sender_count","strong handles","chan.rs Chan")],["is_connected and immediate send results"],HK)
p("C14","join handles and scoped tasks end exactly when the actor does",
  "A join future never resolves while its address stays connected; it is woken and resolves once the last mailbox is gone (an actor run by the event loop has its mailbox until its stopped hook is over), and is immediately ready if obtained after disconnection. A scoped task yields its inner result if that completes first and otherwise yields None once the actor has gone, from which point the inner future is never polled again.",
  ["schedules","histories"],"every order and interleaving of creating, polling and dropping any number of join handles / scoped tasks with the drop of the last mailbox",
  "The register-then-check race with the last mailbox drop needs two threads; tests are sequential.",
  [CH,AD,ST],[("listener registered before the connectivity check","Chan::disconnect_listener"),("notification when the last receiver goes","Chan::shutdown_waiting_senders"),("join polled before the inner future","ScopedTask::poll")],
  [("on_shutdown","event notified when the last mailbox goes","chan.rs Chan")],["wakers and results of join/scoped futures"],HK)
p("C15","select and join serve the mailbox without losing anything",
  "While select or join runs, incoming messages are handled as usual and the given future makes progress, however busy the mailbox is; join always returns the future's own result, select returns it if it finishes first and hands the unfinished future back intact if the actor is stopped first. No message and no stop request that arrives around the moment of completion is lost: a stop consumed inside is either reported by select or takes effect as the actor's next action.",
  ["schedules","histories"],"every timing of the inner future's completion relative to arriving messages and stop requests, nested or at top level",
  "The doc examples cover a ready future, a pending future and one stop message; not the coincidence of completion with messages or stops.",
  [LIB,RF],[("final poll of the receive","xtra::select"),("completion after stop","xtra::join")],[],["handled set, results, and the actor's next action afterwards"],None)
p("C16","Every message is released exactly once and promptly",
  "Every message, reply and actor value is dropped exactly once. When the last mailbox of an address goes away all messages still queued or waiting are released at once, even while addresses are still held; when all handles are gone everything is freed, and repeatedly abandoned sends, receives, mailboxes and addresses do not make memory grow.",
  ["schedules","histories"],"every history, including messages that contain addresses of their own actor, abandoned futures, and concurrent shutdown",
  "Tests never observe drops or memory; leaks and late releases leave results unchanged.",
  [CH,WS,WR,RF,ENV],[("clearing on last receiver","Chan::shutdown_waiting_senders"),("ownership of the message by the waiting sender","waiting_sender.rs"),("pruning of inactive handles and dead mailboxes","Inner::send_broadcast, find_remove_highest_priority")],
  [],["drop counters of payloads; live heap bytes"],HK)
p("C17","No call on an actor's handles can deadlock",
  "Every operation on addresses, channels, mailboxes, futures and contexts - including dropping them, and dropping messages that themselves own addresses, mailboxes, channels or futures of the same actor - returns without blocking forever, whatever other threads do at the same time.",
  ["schedules","histories","inputs"],"every message content (in particular re-entrant destructors), every operation, every interleaving",
  "Tests use plain messages; a lock held while user destructors run needs a message that owns a handle of its own actor at the moment the mailbox dies.",
  [CH,WS,PTR,RF],[("lock scope of shutdown and of queue operations","Chan::shutdown_waiting_senders, shutdown_waiting_receivers")],
  [],["completion of every call; lock wait-for state in the hooked build"],HK)
p("C18","Address equality, order and hash obey their laws",
  "Two addresses compare equal exactly when they refer to the same actor mailbox and have the same strength, with Either counting as what it wraps; equality, hashing, the total order and the partial order are mutually consistent for every mix of actors and strengths, so that hash and tree collections of addresses behave as sets. Message channels follow the same equality and hashing, and same_actor ignores strength.",
  ["inputs","histories"],"every collection of strong/weak/either addresses and channels over any number of actors",
  "One test compares three addresses of fixed strength and never compares Either addresses or uses Ord.",
  [AD,MC,PTR],[("comparison of channel pointer and strength","PartialEq/Ord/Hash impls")],[],["comparison results; set and map contents"],None)
p("C19","A message channel behaves exactly like the address it was made from",
  "For every operation available on both - send with any priority, detach, connectivity, length, capacity, join, downgrade, conversion, cloning, dropping, strength - a message channel has the same observable effect on actor and sender as the address it was created from, and keeps the same strength.",
  ["histories","configurations"],"every program over addresses, with any subset of handles replaced by message channels, over strong, weak and either strengths",
  "Tests send a few messages through one strong channel.",
  [MC,SF],[("delegation to Address","MessageChannelTrait impl"),("type-erased sending","SendFuture::sending_erased, ActorErasedSending")],[],["traces of twin executions"],None)
p("C20","Reported length, capacity and handle counts are accurate",
  "len is the number of unicast messages accepted but not yet taken plus the number of broadcasts still outstanding for the slowest living mailbox, is_empty is len being zero, and capacity is the configured one. The debug output counts the existing strong handles and the existing mailboxes and receives in progress, and names actor, message and strength.",
  ["histories","configurations"],"every history of accepted, waiting, abandoned, taken and discarded messages, and of handle creation and destruction",
  "Length is never asserted by the tests and the debug output is checked for one state.",
  [CH,AD,MC,PTR],[("tail plus queue length","Chan::len"),("reference counts","Ptr::sender_count, receiver_count")],[],["len/is_empty/capacity/Debug after every operation"],None)
p("C21","Instrumentation records the right spans and changes nothing else",
  "With instrumentation enabled, the handler of every message and every copy of a broadcast runs inside a span that descends from the span the sender was in when it sent that message, each request having exactly one request span and each handling one handler span, and all spans close once message and futures are gone. The span of a dispatch is its handler span, which can take note of an interruption. If the request span is disabled by level, the handler still runs as a child of the sender's span. Enabling the feature changes no other observable behaviour.",
  ["histories","schedules","configurations"],"every interleaving of senders in different spans, waits for capacity, priorities, broadcasts, cancellations, and filter levels",
  "Two tests check one message each.",
  [INS,ENV,DF],[("span creation at send","Instrumentation::started"),("span of the handler","Instrumentation::apply, DispatchFuture")],[],["a recording subscriber: span parents, enters, closes"],None)
p("C22","A sink delivers every item in order, one at a time",
  "A sink made from an address or message channel handles every item fed to it exactly once, in order and without interleaving its own items; it accepts the next item only when the previous one has been handled, flush and close complete only when everything has been handled, and it reports Disconnected or Interrupted when an item was not. The sink keeps the actor alive exactly if made from a strong handle.",
  ["histories","configurations"],"every item sequence, capacity, actor speed, competing senders, actor stop point",
  "No test uses sinks.",
  [AD,MC],[("unfold over send","Address::into_sink, MessageChannel::into_sink")],[],["readiness/flush results vs. handler log"],None)
p("C23","All use of the safe API is free of data races and undefined behaviour",
  "No sequence of public API calls, from any number of threads in any interleaving allowed by the memory model, causes a data race, undefined behaviour, or a leak of memory that is no longer reachable.",
  ["schedules","histories"],"every multi-threaded use of addresses, channels, mailboxes, futures, join handles and scoped tasks",
  "Plain test runs cannot observe undefined behaviour or races and run few interleavings.",
  [CH,PTR,WR,WS,SF,RF],[("no unsafe code in the crate","lib.rs deny(unsafe_code)"),("lock and atomics of the channel","chan.rs, ptr.rs")],[],["Miri and ThreadSanitizer reports over the same workloads"],None)
p("C24","Spawn helpers run the actor to completion and hand back its address",
  "Each runtime's spawn helper starts the actor on that runtime, returns the very address it was given without keeping another strong one alive, and the spawned task runs the full event loop to its end, for bounded and unbounded mailboxes, also when several actors are spawned on clones of one mailbox.",
  ["configurations","histories"],"every runtime feature (tokio, smol, async-std), capacity, number of actors and message history",
  "The tests use spawn_tokio for a few messages; smol only in doc tests, async-std not at all.",
  [SP,LIB],[("spawning xtra::run","spawn_tokio/spawn_smol/spawn_async_std")],[],["life-cycle and handler events of spawned actors; join"],None)
p("C25","derive(Actor) yields a conforming actor for every generic type",
  "For every struct or enum with any type, const and where-clause generics (no lifetimes), the derived implementation compiles with exactly the additional bounds that the type parameters are Send and 'static, has () as stop value, and the resulting actor starts, handles messages and stops like a hand-written one.",
  ["programs"],"every type definition without lifetime parameters",
  "The tests compile four fixed type definitions, against the published copy of the macro rather than the one in the repository.",
  [MAC],[("generated where clause and impl","actor_derive, send_and_static_bounds")],[],["compilation and life-cycle log of generated programs"],None)
p("C26","An interrupted or panicking handler affects only its own message",
  "If a handler is interrupted (its dispatch dropped) or panics, only the sender of that message observes Interrupted; every other message stays intact and is handled exactly once by whoever serves the address next, no handle of the address panics or blocks because of it, and if the actor's mailbox is dropped by the panic the address disconnects exactly as on a normal stop.",
  ["fault_sequences","histories","schedules"],"every point at which a handler can be dropped or panic, with any number of queued messages, waiting senders and actors",
  "One test interrupts one handler by timeout; no test lets a handler panic.",
  [DF,ENV,CH,LIB],[("reply cell dropped with the handler future","ReturningEnvelope::handle"),("no user code under the channel lock","chan.rs"),("tolerance of a poisoned lock in Drop paths","Chan::shutdown_waiting_*")],[],["outcomes of all other messages after the fault"],None)
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
