From 8a408854e2e0248fb183d86a282c73d16194742d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 01/15] fix: handle unicast messages of equal priority in the
 order they were sent

The unicast queue is a BinaryHeap ordered by priority alone, which is not
stable: default-priority messages were handled out of order although the
default priority mailbox is documented to preserve send order.
---
 xtra/src/chan.rs          | 21 ++++++++++----
 xtra/src/chan/priority.rs | 61 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 76 insertions(+), 6 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 187d963..656fb54 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -13,7 +13,7 @@ use std::sync::{atomic, Arc, Mutex, Weak};
 use std::{cmp, mem};
 
 use event_listener::{Event, EventListener};
-pub use priority::{ByPriority, HasPriority, Priority};
+pub use priority::{ByPriority, HasPriority, InSendOrder, Priority};
 pub use ptr::{Ptr, RefCounter, Rx, TxEither, TxStrong, TxWeak};
 pub use waiting_receiver::WaitingReceiver;
 pub use waiting_sender::WaitingSender;
@@ -127,7 +127,7 @@ impl<A> Chan<A> {
             return Ok(Err(MailboxFull(waiting)));
         }
 
-        inner.unicast_queue.push(ByPriority(unfulfilled_msg));
+        inner.push_unicast(unfulfilled_msg);
 
         Ok(Ok(()))
     }
@@ -290,7 +290,7 @@ impl<A> Chan<A> {
         };
 
         if let Err(msg) = inner.try_fulfill_receiver(msg) {
-            inner.unicast_queue.push(ByPriority(msg));
+            inner.push_unicast(msg);
         }
     }
 
@@ -307,7 +307,8 @@ struct Inner<A> {
     waiting_send_to_one: VecDeque<waiting_sender::Handle<MessageToOne<A>>>,
     waiting_send_to_all: VecDeque<waiting_sender::Handle<MessageToAll<A>>>,
     waiting_receivers_handles: VecDeque<waiting_receiver::Handle<A>>,
-    unicast_queue: BinaryHeap<ByPriority<MessageToOne<A>>>,
+    unicast_queue: BinaryHeap<InSendOrder<MessageToOne<A>>>,
+    next_unicast_seq: u64,
     broadcast_queues: Vec<Weak<BroadcastQueue<A>>>,
     broadcast_tail: usize,
 }
@@ -320,17 +321,25 @@ impl<A> Inner<A> {
             waiting_send_to_all: VecDeque::default(),
             waiting_receivers_handles: VecDeque::default(),
             unicast_queue: BinaryHeap::default(),
+            next_unicast_seq: 0,
             broadcast_queues: Vec::default(),
             broadcast_tail: 0,
         }
     }
 
+    fn push_unicast(&mut self, msg: MessageToOne<A>) {
+        let seq = self.next_unicast_seq;
+        self.next_unicast_seq += 1;
+
+        self.unicast_queue.push(InSendOrder::new(msg, seq));
+    }
+
     fn pop_unicast(&mut self) -> Option<Box<dyn MessageEnvelope<Actor = A>>> {
-        let msg = self.unicast_queue.pop()?.0;
+        let msg = self.unicast_queue.pop()?.into_inner();
 
         if !self.is_unicast_full() {
             if let Some(msg) = self.try_take_waiting_unicast_message() {
-                self.unicast_queue.push(ByPriority(msg))
+                self.push_unicast(msg)
             }
         }
 
diff --git a/xtra/src/chan/priority.rs b/xtra/src/chan/priority.rs
index 1c01ee7..0e1bc98 100644
--- a/xtra/src/chan/priority.rs
+++ b/xtra/src/chan/priority.rs
@@ -56,3 +56,64 @@ where
         self.0.priority().cmp(&other.0.priority())
     }
 }
+
+/// A wrapper struct that orders by priority like [`ByPriority`], but where of two equally important
+/// items, the one with the lower sequence number is the greater one. A max-heap of these therefore
+/// yields items of the same priority in the order of their sequence numbers.
+pub struct InSendOrder<T> {
+    item: ByPriority<T>,
+    seq: u64,
+}
+
+impl<T> InSendOrder<T> {
+    pub fn new(item: T, seq: u64) -> Self {
+        Self {
+            item: ByPriority(item),
+            seq,
+        }
+    }
+
+    pub fn into_inner(self) -> T {
+        self.item.0
+    }
+}
+
+impl<T> HasPriority for InSendOrder<T>
+where
+    T: HasPriority,
+{
+    fn priority(&self) -> Priority {
+        self.item.priority()
+    }
+}
+
+impl<T> PartialEq for InSendOrder<T>
+where
+    T: HasPriority,
+{
+    fn eq(&self, other: &Self) -> bool {
+        self.cmp(other).is_eq()
+    }
+}
+
+impl<T> Eq for InSendOrder<T> where T: HasPriority {}
+
+impl<T> PartialOrd for InSendOrder<T>
+where
+    T: HasPriority,
+{
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl<T> Ord for InSendOrder<T>
+where
+    T: HasPriority,
+{
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.item
+            .cmp(&other.item)
+            .then_with(|| other.seq.cmp(&self.seq))
+    }
+}
-- 
2.43.0


From c79940d565b5b211938ea9afbdca5e5c76be1f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 02/15] fix: admit waiting senders of equal priority in the
 order they started waiting

find_remove_highest_priority picked the last of several equally important
waiting senders, so senders waiting for space in a full mailbox were admitted
in LIFO order, breaking the send order of default-priority messages.
---
 xtra/src/chan.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 656fb54..faedc95 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -441,9 +441,12 @@ where
 {
     queue.retain(|handle| handle.is_active()); // Only process handles which are still active.
 
+    // `max_by_key` returns the last of several equal elements: iterate in reverse so that of several
+    // senders waiting with the same priority, the one waiting for the longest is picked.
     let pos = queue
         .iter()
         .enumerate()
+        .rev()
         .max_by_key(|(_, handle)| handle.priority())?
         .0;
 
-- 
2.43.0


From 5a9ce8b419854516d1af5b372624bea3efad8b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:18 +0000
Subject: [PATCH 03/15] fix: do not queue a message after the last mailbox has
 gone

Connectivity was only checked before taking the channel lock. A send racing
with the drop of the last mailbox could queue its message (or start waiting for
space) after the queues had been cleared, leaving the sender pending for as
long as any address exists.
---
 xtra/src/chan.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index faedc95..6d6726a 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -114,6 +114,12 @@ impl<A> Chan<A> {
 
         let mut inner = self.chan.lock().unwrap();
 
+        // The last receiver may have gone since the check above. Its queues are cleared with `inner`
+        // locked, so checking again now guarantees that nothing is queued after that.
+        if !self.is_connected() {
+            return Err(Error::Disconnected);
+        }
+
         let unfulfilled_msg = if let Err(msg) = inner.try_fulfill_receiver(message) {
             msg
         } else {
@@ -146,6 +152,11 @@ impl<A> Chan<A> {
 
         let mut inner = self.chan.lock().unwrap();
 
+        // See `try_send_to_one` for why this needs to be checked again.
+        if !self.is_connected() {
+            return Err(Error::Disconnected);
+        }
+
         if inner.is_broadcast_full() {
             let (handle, waiting) = WaitingSender::new(message);
             inner.waiting_send_to_all.push_back(handle);
-- 
2.43.0


From 2f381c7840f00463dd6de623a9c2bd622ebb4b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:51 +0000
Subject: [PATCH 04/15] fix: do not lose a message handed to a receive future
 that is being dropped

Waiting::drop first asked the hand-over cell for a message and closed the cell
later. A message handed over in between was dropped together with the cell.
Unregister the receiver with the channel locked, so that no message can be
handed to it any more, and only then look for a message to re-queue. This also
stops cancelled receives from leaving their handles behind in the channel.
---
 xtra/src/chan.rs                  | 39 +++++++++++++++++++++++++------
 xtra/src/chan/waiting_receiver.rs | 17 ++++++++++----
 xtra/src/recv_future.rs           | 34 ++++++++++++++-------------
 3 files changed, 62 insertions(+), 28 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 6d6726a..407f8c5 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -199,7 +199,10 @@ impl<A> Chan<A> {
                     return Ok(ActorMessage::Shutdown);
                 }
 
-                let (receiver, handle) = WaitingReceiver::new();
+                let id = inner.next_receiver_id;
+                inner.next_receiver_id += 1;
+
+                let (receiver, handle) = WaitingReceiver::new(id);
 
                 inner.waiting_receivers_handles.push_back(handle);
                 Err(receiver)
@@ -287,21 +290,29 @@ impl<A> Chan<A> {
         }
     }
 
-    /// Re-queue the given message.
+    /// Cancel the given [`WaitingReceiver`].
     ///
     /// Normally, messages are delivered from the inbox straight to the actor. It can however happen
-    /// that this process gets cancelled. In that case, this function can be used to re-queue the
-    /// given message so it does not get lost.
+    /// that this process gets cancelled. In that case, the message that was already handed to the
+    /// [`WaitingReceiver`], if any, is re-queued so it does not get lost.
     ///
     /// Note that the ordering of messages in the queues may be slightly off with this function.
-    pub fn requeue_message(&self, msg: MessageToOne<A>) {
+    pub fn cancel_receiver(&self, mut receiver: WaitingReceiver<A>) {
+        let _handle; // Declared first: only dropped once `inner` is unlocked
+
         let mut inner = match self.chan.lock() {
             Ok(lock) => lock,
             Err(_) => return, // If we can't lock the inner channel, there is nothing we can do.
         };
 
-        if let Err(msg) = inner.try_fulfill_receiver(msg) {
-            inner.push_unicast(msg);
+        // Messages are only handed to receivers with `inner` locked and through their handle, so once
+        // the handle is gone it is decided whether there is a message to be re-queued.
+        _handle = inner.remove_waiting_receiver(&receiver);
+
+        if let Some(msg) = receiver.cancel() {
+            if let Err(msg) = inner.try_fulfill_receiver(msg) {
+                inner.push_unicast(msg);
+            }
         }
     }
 
@@ -318,6 +329,7 @@ struct Inner<A> {
     waiting_send_to_one: VecDeque<waiting_sender::Handle<MessageToOne<A>>>,
     waiting_send_to_all: VecDeque<waiting_sender::Handle<MessageToAll<A>>>,
     waiting_receivers_handles: VecDeque<waiting_receiver::Handle<A>>,
+    next_receiver_id: u64,
     unicast_queue: BinaryHeap<InSendOrder<MessageToOne<A>>>,
     next_unicast_seq: u64,
     broadcast_queues: Vec<Weak<BroadcastQueue<A>>>,
@@ -331,6 +343,7 @@ impl<A> Inner<A> {
             waiting_send_to_one: VecDeque::default(),
             waiting_send_to_all: VecDeque::default(),
             waiting_receivers_handles: VecDeque::default(),
+            next_receiver_id: 0,
             unicast_queue: BinaryHeap::default(),
             next_unicast_seq: 0,
             broadcast_queues: Vec::default(),
@@ -402,6 +415,18 @@ impl<A> Inner<A> {
         self.broadcast_tail += 1;
     }
 
+    fn remove_waiting_receiver(
+        &mut self,
+        receiver: &WaitingReceiver<A>,
+    ) -> Option<waiting_receiver::Handle<A>> {
+        let pos = self
+            .waiting_receivers_handles
+            .iter()
+            .position(|handle| handle.belongs_to(receiver))?;
+
+        self.waiting_receivers_handles.remove(pos)
+    }
+
     fn try_fulfill_receiver(&mut self, mut msg: MessageToOne<A>) -> Result<(), MessageToOne<A>> {
         while let Some(rx) = self.waiting_receivers_handles.pop_front() {
             match rx.notify_new_message(msg) {
diff --git a/xtra/src/chan/waiting_receiver.rs b/xtra/src/chan/waiting_receiver.rs
index ebed76e..be4de9e 100644
--- a/xtra/src/chan/waiting_receiver.rs
+++ b/xtra/src/chan/waiting_receiver.rs
@@ -7,15 +7,20 @@ use crate::chan::{self, ActorMessage, BroadcastQueue, MessageToOne, Rx};
 /// A [`WaitingReceiver`] is handed out by the channel any time [`Chan::try_recv`](crate::chan::Chan::try_recv) is called on an empty mailbox.
 ///
 /// [`WaitingReceiver`] implements [`Future`](std::future::Future) which will resolve once a message lands in the mailbox.
-pub struct WaitingReceiver<A>(catty::Receiver<CtrlMsg<A>>);
+pub struct WaitingReceiver<A>(catty::Receiver<CtrlMsg<A>>, u64);
 
 /// A [`Handle`] is the counter-part to a [`WaitingReceiver`].
 ///
 /// It is stored internally in the channel and used by the channel implementation to notify a
 /// [`WaitingReceiver`] once a new message hits the mailbox.
-pub struct Handle<A>(catty::Sender<CtrlMsg<A>>);
+pub struct Handle<A>(catty::Sender<CtrlMsg<A>>, u64);
 
 impl<A> Handle<A> {
+    /// Whether this is the counter-part to the given [`WaitingReceiver`].
+    pub fn belongs_to(&self, receiver: &WaitingReceiver<A>) -> bool {
+        self.1 == receiver.1
+    }
+
     /// Notify the connected [`WaitingReceiver`] that the channel is shutting down.
     pub fn notify_channel_shutdown(self) {
         let _ = self.0.send(CtrlMsg::Shutdown);
@@ -47,10 +52,11 @@ impl<A> Handle<A> {
 }
 
 impl<A> WaitingReceiver<A> {
-    pub fn new() -> (WaitingReceiver<A>, Handle<A>) {
+    /// Create a new [`WaitingReceiver`] and its [`Handle`]. The given id must be unique per channel.
+    pub fn new(id: u64) -> (WaitingReceiver<A>, Handle<A>) {
         let (sender, receiver) = catty::oneshot();
 
-        (WaitingReceiver(receiver), Handle(sender))
+        (WaitingReceiver(receiver, id), Handle(sender, id))
     }
 
     /// Cancel this [`WaitingReceiver`].
@@ -59,7 +65,8 @@ impl<A> WaitingReceiver<A> {
     /// receiver has not been polled since.
     ///
     /// It is important to call this message over just dropping the [`WaitingReceiver`] as this
-    /// message would otherwise be dropped.
+    /// message would otherwise be dropped. It must only be called once the channel cannot notify the
+    /// [`Handle`] about a new message any more, see [`Chan::cancel_receiver`](crate::chan::Chan::cancel_receiver).
     pub fn cancel(&mut self) -> Option<MessageToOne<A>> {
         match self.0.try_recv() {
             Ok(Some(CtrlMsg::NewMessage(msg))) => Some(msg),
diff --git a/xtra/src/recv_future.rs b/xtra/src/recv_future.rs
index 2438322..4971662 100644
--- a/xtra/src/recv_future.rs
+++ b/xtra/src/recv_future.rs
@@ -79,7 +79,7 @@ enum Receiving<A> {
 pub struct Waiting<A> {
     channel: Option<chan::Ptr<A, Rx>>,
     broadcast_mailbox: Option<Arc<BroadcastQueue<A>>>,
-    waiting_receiver: WaitingReceiver<A>,
+    waiting_receiver: Option<WaitingReceiver<A>>,
 }
 
 impl<A> Future for Waiting<A> {
@@ -91,15 +91,19 @@ impl<A> Future for Waiting<A> {
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
         let this = self.get_mut();
 
-        let maybe_message = futures_util::ready!(this.waiting_receiver.poll(
-            this.channel
-                .as_mut()
-                .expect("to not be polled after completion"),
-            this.broadcast_mailbox
-                .as_mut()
-                .expect("to not be polled after completion"),
-            cx
-        ));
+        let maybe_message = futures_util::ready!(this
+            .waiting_receiver
+            .as_mut()
+            .expect("to not be polled after completion")
+            .poll(
+                this.channel
+                    .as_mut()
+                    .expect("to not be polled after completion"),
+                this.broadcast_mailbox
+                    .as_mut()
+                    .expect("to not be polled after completion"),
+                cx
+            ));
 
         let channel = this
             .channel
@@ -121,11 +125,9 @@ impl<A> Future for Waiting<A> {
 
 impl<A> Drop for Waiting<A> {
     fn drop(&mut self) {
-        if let Some(msg) = self.waiting_receiver.cancel() {
-            self.channel
-                .as_mut()
-                .expect("to not have message on drop but channel is gone")
-                .requeue_message(msg);
+        // The channel is only still there if we are dropped before completion.
+        if let (Some(channel), Some(receiver)) = (&self.channel, self.waiting_receiver.take()) {
+            channel.cancel_receiver(receiver);
         }
     }
 }
@@ -153,7 +155,7 @@ impl<A> Future for Receiving<A> {
                         *this = Receiving::Waiting(Waiting {
                             channel: Some(channel),
                             broadcast_mailbox: Some(broadcast_mailbox),
-                            waiting_receiver: waiting,
+                            waiting_receiver: Some(waiting),
                         });
                     }
                 },
-- 
2.43.0


From 487f440afb031f02110113a8eaee320427b29c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 05/15] fix: drop outstanding messages without holding the
 channel lock

When the last mailbox went away, queued messages were dropped with the channel
locked. A message owning the last strong address of the same actor (or calling
anything on one of its addresses when dropped) deadlocked.
---
 xtra/src/chan.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 407f8c5..d1614e1 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -256,20 +256,26 @@ impl<A> Chan<A> {
 
     /// Shutdown all [`WaitingSender`]s in this channel.
     fn shutdown_waiting_senders(&self) {
-        let mut inner = match self.chan.lock() {
-            Ok(lock) => lock,
-            Err(_) => return, // Poisoned, ignore
-        };
+        let outstanding = {
+            let mut inner = match self.chan.lock() {
+                Ok(lock) => lock,
+                Err(_) => return, // Poisoned, ignore
+            };
 
-        self.on_shutdown.notify(usize::MAX);
+            self.on_shutdown.notify(usize::MAX);
 
-        // Let any outstanding messages drop
-        inner.unicast_queue.clear();
-        inner.broadcast_queues.clear();
+            (
+                mem::take(&mut inner.unicast_queue),
+                mem::take(&mut inner.broadcast_queues),
+                mem::take(&mut inner.waiting_send_to_one),
+                mem::take(&mut inner.waiting_send_to_all),
+            )
+        };
 
-        // Close (and potentially wake) outstanding waiting senders
-        inner.waiting_send_to_one.clear();
-        inner.waiting_send_to_all.clear();
+        // Let any outstanding messages drop and close (and potentially wake) outstanding waiting
+        // senders. This must not happen with `inner` locked: messages can own anything, including
+        // addresses of this channel which lock it when they are dropped.
+        drop(outstanding);
     }
 
     pub fn disconnect_listener(&self) -> Option<EventListener> {
-- 
2.43.0


From 05148596dcce2f4a7dd47f7ede73e7859a904d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:51 +0000
Subject: [PATCH 06/15] fix: never drop the message of a waiting sender under a
 lock

Comparing the priorities of waiting senders temporarily co-owned their messages
with the channel locked. If such a sender was dropped at the same time, its
message was dropped there, which deadlocks if it owns the last strong address.
Likewise, closing a waiting sender dropped its message with that sender locked.
---
 xtra/src/chan/waiting_sender.rs | 57 ++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/xtra/src/chan/waiting_sender.rs b/xtra/src/chan/waiting_sender.rs
index eedd217..8300b7a 100644
--- a/xtra/src/chan/waiting_sender.rs
+++ b/xtra/src/chan/waiting_sender.rs
@@ -10,26 +10,38 @@ use crate::Error;
 #[must_use = "Futures do nothing unless polled"]
 pub struct WaitingSender<M>(Arc<spin::Mutex<Inner<M>>>);
 
-pub struct Handle<M>(Weak<spin::Mutex<Inner<M>>>);
+pub struct Handle<M> {
+    inner: Weak<spin::Mutex<Inner<M>>>,
+    priority: Priority,
+}
 
-impl<M> WaitingSender<M> {
+impl<M> WaitingSender<M>
+where
+    M: HasPriority,
+{
     pub fn new(msg: M) -> (Handle<M>, WaitingSender<M>) {
+        let priority = msg.priority();
         let inner = Arc::new(spin::Mutex::new(Inner::new(msg)));
 
-        (Handle(Arc::downgrade(&inner)), WaitingSender(inner))
+        let handle = Handle {
+            inner: Arc::downgrade(&inner),
+            priority,
+        };
+
+        (handle, WaitingSender(inner))
     }
 }
 
 impl<M> Handle<M> {
     pub fn is_active(&self) -> bool {
-        Weak::strong_count(&self.0) > 0
+        Weak::strong_count(&self.inner) > 0
     }
 
     /// Take the message out of the paired [`WaitingSender`].
     ///
     /// This may return `None` in case the [`WaitingSender`] is no longer active, has already been closed or the message was already taken.
     pub fn take_message(self) -> Option<M> {
-        let inner = self.0.upgrade()?;
+        let inner = self.inner.upgrade()?;
         let mut this = inner.lock();
 
         match mem::replace(&mut *this, Inner::Delivered) {
@@ -47,35 +59,34 @@ impl<M> Handle<M> {
 
 impl<M> Drop for Handle<M> {
     fn drop(&mut self) {
-        if let Some(inner) = self.0.upgrade() {
+        if let Some(inner) = self.inner.upgrade() {
             let mut this = inner.lock();
 
-            match &*this {
+            let outstanding = match &*this {
                 Inner::Active { waker, .. } => {
                     if let Some(waker) = waker {
                         waker.wake_by_ref();
                     }
-                    *this = Inner::Closed;
+                    mem::replace(&mut *this, Inner::Closed)
                 }
-                Inner::Delivered => {}
-                Inner::Closed => {}
-            }
+                Inner::Delivered => return,
+                Inner::Closed => return,
+            };
+
+            // Only drop the message once `inner` is unlocked, dropping it can run arbitrary code.
+            drop(this);
+            drop(outstanding);
         };
     }
 }
 
-impl<M> Handle<M>
-where
-    M: HasPriority,
-{
-    pub fn priority(&self) -> Option<Priority> {
-        let inner = self.0.upgrade()?;
-        let this = inner.lock();
-
-        match &*this {
-            Inner::Active { message, .. } => Some(message.priority()),
-            Inner::Closed | Inner::Delivered => None,
-        }
+impl<M> HasPriority for Handle<M> {
+    /// The priority of the message of the paired [`WaitingSender`].
+    ///
+    /// This does not access the message itself: the channel is locked when comparing priorities, and
+    /// even temporarily co-owning the message could mean having to drop it here.
+    fn priority(&self) -> Priority {
+        self.priority
     }
 }
 
-- 
2.43.0


From 4802b717a91d25701a600ae7d23239fc29c7feef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:53 +0000
Subject: [PATCH 07/15] fix: make the total order of addresses consistent with
 equality

Ord ignored the strength of an address whereas Eq and PartialOrd consider it,
so a strong and a weak Address<A, Either> to the same actor compared as equal
in one and as different in the other, and one replaced the other in a BTreeMap.
---
 xtra/src/address.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xtra/src/address.rs b/xtra/src/address.rs
index 11502ca..2ec885b 100644
--- a/xtra/src/address.rs
+++ b/xtra/src/address.rs
@@ -300,9 +300,13 @@ impl<A, Rc: RefCounter, Rc2: RefCounter> PartialOrd<Address<A, Rc2>> for Address
     }
 }
 
+/// See the documentation of the [`PartialOrd`] implementation, with which this is consistent.
 impl<A, Rc: RefCounter> Ord for Address<A, Rc> {
     fn cmp(&self, other: &Self) -> Ordering {
-        self.0.inner_ptr().cmp(&other.0.inner_ptr())
+        self.0
+            .inner_ptr()
+            .cmp(&other.0.inner_ptr())
+            .then_with(|| self.0.is_strong().cmp(&other.0.is_strong()))
     }
 }
 
-- 
2.43.0


From dd858063f6a75bd0a7851082aab7324bf9bda0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:53 +0000
Subject: [PATCH 08/15] fix: make stop_all effective when no strong address is
 left

Without strong addresses, stop_all did nothing, so that actors handled all
messages still queued instead of stopping as their next action.
---
 xtra/src/context.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/xtra/src/context.rs b/xtra/src/context.rs
index cb60ce3..27ae767 100644
--- a/xtra/src/context.rs
+++ b/xtra/src/context.rs
@@ -28,10 +28,9 @@ impl<A: Actor> Context<A> {
     /// for other broadcast messages, during which time other messages may be handled by actors (i.e
     /// the shutdown may be delayed by a lagging actor).
     pub fn stop_all(&self) {
-        // We only need to shut down if there are still any strong senders left
-        if let Some(address) = self.mailbox.address().try_upgrade() {
-            address.0.shutdown_all_receivers();
-        }
+        // This is needed even if there are no strong senders left: without it, actors would handle
+        // all messages that are still queued before they stop.
+        self.mailbox.address().0.shutdown_all_receivers();
     }
 
     /// Get a reference to the [`Mailbox`] of this actor.
-- 
2.43.0


From 56a18bf79d887f75a0409331136c628a5c020c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 09/15] fix: hand the message of a waiting sender to an idle
 receiver if the capacity is zero

A mailbox bounded to zero messages can only hand a message directly to a waiting
receiver. A sender already waiting when the receiver came along was never
considered, so both waited for each other forever.
---
 xtra/src/chan.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index d1614e1..0dcc4b3 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -194,6 +194,12 @@ impl<A> Chan<A> {
             Ordering::Less => Ok(inner.pop_broadcast(broadcast_mailbox).unwrap().into()),
             // Equal, but both are empty, so wait or exit if shutdown
             _ => {
+                // Nothing is ever queued if the capacity is zero, so this receiver is the chance of a
+                // waiting sender to get its message delivered.
+                if let Some(msg) = inner.try_take_waiting_unicast_message() {
+                    return Ok(msg.into());
+                }
+
                 // on_shutdown is only notified with inner locked, and it's locked here, so no race
                 if self.sender_count.load(atomic::Ordering::SeqCst) == 0 {
                     return Ok(ActorMessage::Shutdown);
-- 
2.43.0


From 3f7f2cf0df74051f0f5d2d206d903d418dbaf132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:24 +0000
Subject: [PATCH 10/15] fix: do not accumulate handles of abandoned waiting
 senders

They were only removed when a message was taken, so memory grew with every
send to a full mailbox that was given up (e.g. because of a timeout).
---
 xtra/src/chan.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 0dcc4b3..ff0c31c 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -128,7 +128,7 @@ impl<A> Chan<A> {
 
         if inner.is_unicast_full() {
             let (handle, waiting) = WaitingSender::new(unfulfilled_msg);
-            inner.waiting_send_to_one.push_back(handle);
+            push_waiting_sender(&mut inner.waiting_send_to_one, handle);
 
             return Ok(Err(MailboxFull(waiting)));
         }
@@ -159,7 +159,7 @@ impl<A> Chan<A> {
 
         if inner.is_broadcast_full() {
             let (handle, waiting) = WaitingSender::new(message);
-            inner.waiting_send_to_all.push_back(handle);
+            push_waiting_sender(&mut inner.waiting_send_to_all, handle);
 
             return Ok(Err(MailboxFull(waiting)));
         }
@@ -481,6 +481,18 @@ impl<A> Inner<A> {
     }
 }
 
+fn push_waiting_sender<M>(
+    queue: &mut VecDeque<waiting_sender::Handle<M>>,
+    handle: waiting_sender::Handle<M>,
+) {
+    // Before growing the queue, get rid of senders that have been abandoned while waiting.
+    if queue.len() == queue.capacity() {
+        queue.retain(|handle| handle.is_active());
+    }
+
+    queue.push_back(handle);
+}
+
 fn find_remove_highest_priority<M>(
     queue: &mut VecDeque<waiting_sender::Handle<M>>,
 ) -> Option<waiting_sender::Handle<M>>
-- 
2.43.0


From a32737469810db560c2c7064cabfa705d6b076c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 11/15] fix: do not lose a request to stop that is handled
 within select or join

select discarded it if the future completed first and join always did, so that
an actor told to stop (by stop_self, stop_all or for lack of addresses) kept
running. Note down that the actor has to stop as its next action instead.
---
 xtra/src/chan.rs    | 23 +++++++++++++++++++++--
 xtra/src/lib.rs     | 12 ++++++++++--
 xtra/src/mailbox.rs | 10 +++++++++-
 3 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index ff0c31c..94eccb6 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -260,6 +260,21 @@ impl<A> Chan<A> {
             .send_broadcast(Arc::new(Shutdown::new()));
     }
 
+    /// Shutdown the receiver of the given broadcast mailbox only.
+    pub fn shutdown_receiver(&self, broadcast_mailbox: &BroadcastQueue<A>)
+    where
+        A: Actor,
+    {
+        let mut inner = self.chan.lock().unwrap();
+
+        broadcast_mailbox
+            .lock()
+            .push(ByPriority(Arc::new(Shutdown::new())));
+
+        inner.broadcast_tail = inner.longest_broadcast_queue();
+        inner.notify_new_broadcast();
+    }
+
     /// Shutdown all [`WaitingSender`]s in this channel.
     fn shutdown_waiting_senders(&self) {
         let outstanding = {
@@ -420,11 +435,15 @@ impl<A> Inner<A> {
             None => false, // The corresponding receiver has been dropped - remove it
         });
 
+        self.notify_new_broadcast();
+
+        self.broadcast_tail += 1;
+    }
+
+    fn notify_new_broadcast(&mut self) {
         for rx in mem::take(&mut self.waiting_receivers_handles) {
             let _ = rx.notify_new_broadcast();
         }
-
-        self.broadcast_tail += 1;
     }
 
     fn remove_waiting_receiver(
diff --git a/xtra/src/lib.rs b/xtra/src/lib.rs
index 8803bcc..d7ddee5 100644
--- a/xtra/src/lib.rs
+++ b/xtra/src/lib.rs
@@ -311,7 +311,10 @@ where
             match future::select(fut, &mut next_msg).await {
                 Either::Left((future_res, _)) => {
                     if let Some(msg) = next_msg.now_or_never() {
-                        msg.dispatch_to(actor).await;
+                        if msg.dispatch_to(actor).await.is_break() {
+                            // We cannot report this, as the future did complete.
+                            mailbox.stop_next();
+                        }
                     }
 
                     return Either::Left(future_res);
@@ -382,6 +385,11 @@ where
     futures_util::pin_mut!(fut);
     match select(mailbox, actor, fut).await {
         Either::Left(res) => res,
-        Either::Right(fut) => fut.await,
+        Either::Right(fut) => {
+            // Handling of messages ceases, but the actor still has to stop after we are done.
+            mailbox.stop_next();
+
+            fut.await
+        }
     }
 }
diff --git a/xtra/src/mailbox.rs b/xtra/src/mailbox.rs
index e75e966..e388242 100644
--- a/xtra/src/mailbox.rs
+++ b/xtra/src/mailbox.rs
@@ -2,7 +2,7 @@ use std::sync::Arc;
 
 use crate::chan::{self, BroadcastQueue, Rx};
 use crate::recv_future::ReceiveFuture;
-use crate::{Address, WeakAddress};
+use crate::{Actor, Address, WeakAddress};
 
 /// A [`Mailbox`] is the counter-part to an [`Address`].
 ///
@@ -55,6 +55,14 @@ impl<A> Mailbox<A> {
         ReceiveFuture::new(self.inner.clone(), self.broadcast_mailbox.clone())
     }
 
+    /// Make a notification to stop the next message to be taken out of this [`Mailbox`].
+    pub(crate) fn stop_next(&self)
+    where
+        A: Actor,
+    {
+        self.inner.shutdown_receiver(&self.broadcast_mailbox);
+    }
+
     pub(crate) fn from_parts(
         chan: chan::Ptr<A, Rx>,
         broadcast_mailbox: Arc<BroadcastQueue<A>>,
-- 
2.43.0


From 7e91685535bf3b6fe3c90d10864219000b862505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:05 +0000
Subject: [PATCH 12/15] fix: stop counting broadcasts for mailboxes that no
 longer exist

Nothing happened when the mailbox lagging behind on broadcasts was dropped, so
broadcasts waiting for it waited forever and the reported length stayed too
high. Take mailboxes off the channel when they are dropped, and send as many of
the waiting broadcasts as there is space for, which may be more than one.
---
 xtra/src/chan.rs        | 108 ++++++++++++++++++++++++++++++----------
 xtra/src/chan/ptr.rs    |   7 ++-
 xtra/src/mailbox.rs     |   6 +--
 xtra/src/recv_future.rs |  14 +++---
 4 files changed, 98 insertions(+), 37 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 94eccb6..04fc1be 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -8,8 +8,9 @@ mod waiting_sender;
 
 use std::cmp::Ordering;
 use std::collections::{BinaryHeap, VecDeque};
+use std::ops::Deref;
 use std::sync::atomic::AtomicUsize;
-use std::sync::{atomic, Arc, Mutex, Weak};
+use std::sync::{atomic, Arc, Mutex};
 use std::{cmp, mem};
 
 use event_listener::{Event, EventListener};
@@ -37,6 +38,41 @@ pub fn new<A>(capacity: Option<usize>) -> (Ptr<A, TxStrong>, Ptr<A, Rx>) {
     (tx, rx)
 }
 
+/// The broadcast mailbox of an actor.
+///
+/// This is registered with the channel for as long as it exists.
+pub struct BroadcastMailbox<A> {
+    queue: Arc<BroadcastQueue<A>>,
+    chan: Arc<Chan<A>>,
+}
+
+impl<A> BroadcastMailbox<A> {
+    fn new(chan: Arc<Chan<A>>) -> Self {
+        let queue = Arc::new(spin::Mutex::new(BinaryHeap::new()));
+        chan.chan
+            .lock()
+            .unwrap()
+            .broadcast_queues
+            .push(queue.clone());
+
+        Self { queue, chan }
+    }
+}
+
+impl<A> Deref for BroadcastMailbox<A> {
+    type Target = BroadcastQueue<A>;
+
+    fn deref(&self) -> &Self::Target {
+        &self.queue
+    }
+}
+
+impl<A> Drop for BroadcastMailbox<A> {
+    fn drop(&mut self) {
+        self.chan.on_broadcast_mailbox_dropped(&self.queue);
+    }
+}
+
 // Public because of private::RefCounterInner. This should never actually be exported, though.
 pub struct Chan<A> {
     chan: Mutex<Inner<A>>,
@@ -90,16 +126,16 @@ impl<A> Chan<A> {
         self.shutdown_waiting_receivers();
     }
 
-    /// Creates a new broadcast mailbox on this channel.
-    pub fn new_broadcast_mailbox(&self) -> Arc<BroadcastQueue<A>> {
-        let mailbox = Arc::new(spin::Mutex::new(BinaryHeap::new()));
-        self.chan
-            .lock()
-            .unwrap()
-            .broadcast_queues
-            .push(Arc::downgrade(&mailbox));
+    /// Callback to be invoked every time a [`BroadcastMailbox`] is destroyed.
+    fn on_broadcast_mailbox_dropped(&self, queue: &Arc<BroadcastQueue<A>>) {
+        let _queue; // Declared first: the messages are only dropped once `inner` is unlocked
+
+        let mut inner = match self.chan.lock() {
+            Ok(lock) => lock,
+            Err(_) => return, // Poisoned, ignore
+        };
 
-        mailbox
+        _queue = inner.remove_broadcast_queue(queue);
     }
 
     pub fn try_send_to_one(
@@ -284,6 +320,7 @@ impl<A> Chan<A> {
             };
 
             self.on_shutdown.notify(usize::MAX);
+            inner.broadcast_tail = 0;
 
             (
                 mem::take(&mut inner.unicast_queue),
@@ -359,7 +396,7 @@ struct Inner<A> {
     next_receiver_id: u64,
     unicast_queue: BinaryHeap<InSendOrder<MessageToOne<A>>>,
     next_unicast_seq: u64,
-    broadcast_queues: Vec<Weak<BroadcastQueue<A>>>,
+    broadcast_queues: Vec<Arc<BroadcastQueue<A>>>,
     broadcast_tail: usize,
 }
 
@@ -403,37 +440,56 @@ impl<A> Inner<A> {
     ) -> Option<Arc<dyn BroadcastEnvelope<Actor = A>>> {
         let message = broadcast_mailbox.lock().pop()?.0;
 
+        self.advance_broadcast_tail();
+
+        Some(message)
+    }
+
+    fn remove_broadcast_queue(
+        &mut self,
+        queue: &Arc<BroadcastQueue<A>>,
+    ) -> Option<Arc<BroadcastQueue<A>>> {
+        let pos = self
+            .broadcast_queues
+            .iter()
+            .position(|it| Arc::ptr_eq(it, queue))?;
+        let queue = self.broadcast_queues.swap_remove(pos);
+
+        // It may have been the one lagging behind. If it was the last one, nobody is left to receive
+        // broadcasts and those waiting are going to be told.
+        if !self.broadcast_queues.is_empty() {
+            self.advance_broadcast_tail();
+        }
+
+        Some(queue)
+    }
+
+    /// Update the tail after messages were removed, sending as many waiting broadcasts as now possible.
+    fn advance_broadcast_tail(&mut self) {
         self.broadcast_tail = self.longest_broadcast_queue();
 
-        if !self.is_broadcast_full() {
-            if let Some(m) = self.try_take_waiting_broadcast_message() {
-                self.send_broadcast(m)
+        while !self.is_broadcast_full() {
+            match self.try_take_waiting_broadcast_message() {
+                Some(m) => self.send_broadcast(m),
+                None => break,
             }
         }
-
-        Some(message)
     }
 
     fn longest_broadcast_queue(&self) -> usize {
         let mut longest = 0;
 
         for queue in &self.broadcast_queues {
-            if let Some(queue) = queue.upgrade() {
-                longest = cmp::max(longest, queue.lock().len());
-            }
+            longest = cmp::max(longest, queue.lock().len());
         }
 
         longest
     }
 
     fn send_broadcast(&mut self, m: MessageToAll<A>) {
-        self.broadcast_queues.retain(|queue| match queue.upgrade() {
-            Some(q) => {
-                q.lock().push(ByPriority(m.clone()));
-                true
-            }
-            None => false, // The corresponding receiver has been dropped - remove it
-        });
+        for queue in &self.broadcast_queues {
+            queue.lock().push(ByPriority(m.clone()));
+        }
 
         self.notify_new_broadcast();
 
diff --git a/xtra/src/chan/ptr.rs b/xtra/src/chan/ptr.rs
index 9d4dd67..ec47698 100644
--- a/xtra/src/chan/ptr.rs
+++ b/xtra/src/chan/ptr.rs
@@ -3,7 +3,7 @@ use std::sync::{atomic, Arc};
 
 use private::RefCounter as _;
 
-use crate::chan::Chan;
+use crate::chan::{BroadcastMailbox, Chan};
 
 /// A reference-counted pointer to the channel that is generic over its reference counting policy.
 ///
@@ -36,6 +36,11 @@ impl<A> Ptr<A, Rx> {
 
         Self { ref_counter, inner }
     }
+
+    /// Creates a new broadcast mailbox on this channel.
+    pub fn new_broadcast_mailbox(&self) -> Arc<BroadcastMailbox<A>> {
+        Arc::new(BroadcastMailbox::new(self.inner.clone()))
+    }
 }
 
 impl<A, Rc> Ptr<A, Rc>
diff --git a/xtra/src/mailbox.rs b/xtra/src/mailbox.rs
index e388242..ffea4ad 100644
--- a/xtra/src/mailbox.rs
+++ b/xtra/src/mailbox.rs
@@ -1,6 +1,6 @@
 use std::sync::Arc;
 
-use crate::chan::{self, BroadcastQueue, Rx};
+use crate::chan::{self, BroadcastMailbox, Rx};
 use crate::recv_future::ReceiveFuture;
 use crate::{Actor, Address, WeakAddress};
 
@@ -10,7 +10,7 @@ use crate::{Actor, Address, WeakAddress};
 /// Think of [`Address`] and [`Mailbox`] as an MPMC channel.
 pub struct Mailbox<A> {
     inner: chan::Ptr<A, Rx>,
-    broadcast_mailbox: Arc<BroadcastQueue<A>>,
+    broadcast_mailbox: Arc<BroadcastMailbox<A>>,
 }
 
 impl<A> Mailbox<A> {
@@ -65,7 +65,7 @@ impl<A> Mailbox<A> {
 
     pub(crate) fn from_parts(
         chan: chan::Ptr<A, Rx>,
-        broadcast_mailbox: Arc<BroadcastQueue<A>>,
+        broadcast_mailbox: Arc<BroadcastMailbox<A>>,
     ) -> Self {
         Self {
             inner: chan,
diff --git a/xtra/src/recv_future.rs b/xtra/src/recv_future.rs
index 4971662..fe0c6dc 100644
--- a/xtra/src/recv_future.rs
+++ b/xtra/src/recv_future.rs
@@ -7,7 +7,7 @@ use std::task::{Context, Poll};
 use futures_core::FusedFuture;
 use futures_util::FutureExt;
 
-use crate::chan::{self, ActorMessage, BroadcastQueue, Rx, WaitingReceiver};
+use crate::chan::{self, ActorMessage, BroadcastMailbox, Rx, WaitingReceiver};
 
 /// A future which will resolve to the next message to be handled by the actor.
 ///
@@ -31,13 +31,13 @@ pub struct Message<A> {
     pub(crate) inner: ActorMessage<A>,
 
     pub(crate) channel: chan::Ptr<A, Rx>,
-    pub(crate) broadcast_mailbox: Arc<BroadcastQueue<A>>,
+    pub(crate) broadcast_mailbox: Arc<BroadcastMailbox<A>>,
 }
 
 impl<A> ReceiveFuture<A> {
     pub(crate) fn new(
         channel: chan::Ptr<A, Rx>,
-        broadcast_mailbox: Arc<BroadcastQueue<A>>,
+        broadcast_mailbox: Arc<BroadcastMailbox<A>>,
     ) -> Self {
         Self(Receiving::New {
             channel,
@@ -62,7 +62,7 @@ impl<A> Future for ReceiveFuture<A> {
 enum Receiving<A> {
     New {
         channel: chan::Ptr<A, Rx>,
-        broadcast_mailbox: Arc<BroadcastQueue<A>>,
+        broadcast_mailbox: Arc<BroadcastMailbox<A>>,
     },
     Waiting(Waiting<A>),
     Done,
@@ -78,14 +78,14 @@ enum Receiving<A> {
 #[must_use = "Futures do nothing unless polled"]
 pub struct Waiting<A> {
     channel: Option<chan::Ptr<A, Rx>>,
-    broadcast_mailbox: Option<Arc<BroadcastQueue<A>>>,
+    broadcast_mailbox: Option<Arc<BroadcastMailbox<A>>>,
     waiting_receiver: Option<WaitingReceiver<A>>,
 }
 
 impl<A> Future for Waiting<A> {
     type Output = Result<
-        (ActorMessage<A>, chan::Ptr<A, Rx>, Arc<BroadcastQueue<A>>),
-        (chan::Ptr<A, Rx>, Arc<BroadcastQueue<A>>),
+        (ActorMessage<A>, chan::Ptr<A, Rx>, Arc<BroadcastMailbox<A>>),
+        (chan::Ptr<A, Rx>, Arc<BroadcastMailbox<A>>),
     >;
 
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
-- 
2.43.0


From 1b0cbf726cb1f9bd0d3851e4f1cd85499088c6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:18 +0000
Subject: [PATCH 13/15] Add scheduling points for verification, guarded by
 cfg(xtra_verif)

With --cfg xtra_verif, the lock, counters, event and one-shot cells of the channel
announce every operation to a global scheduler. Without it, nothing changes.
---
 xtra/src/chan.rs                  |  11 +-
 xtra/src/chan/waiting_receiver.rs |   2 +
 xtra/src/chan/waiting_sender.rs   |   2 +
 xtra/src/envelope.rs              |   3 +
 xtra/src/lib.rs                   |   3 +
 xtra/src/send_future.rs           |   2 +
 xtra/src/verif.rs                 | 278 ++++++++++++++++++++++++++++++
 7 files changed, 298 insertions(+), 3 deletions(-)
 create mode 100644 xtra/src/verif.rs

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 04fc1be..688e722 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -9,17 +9,22 @@ mod waiting_sender;
 use std::cmp::Ordering;
 use std::collections::{BinaryHeap, VecDeque};
 use std::ops::Deref;
-use std::sync::atomic::AtomicUsize;
-use std::sync::{atomic, Arc, Mutex};
+use std::sync::{atomic, Arc};
+#[cfg(not(xtra_verif))]
+use std::sync::{atomic::AtomicUsize, Mutex};
 use std::{cmp, mem};
 
-use event_listener::{Event, EventListener};
+#[cfg(not(xtra_verif))]
+use event_listener::Event;
+use event_listener::EventListener;
 pub use priority::{ByPriority, HasPriority, InSendOrder, Priority};
 pub use ptr::{Ptr, RefCounter, Rx, TxEither, TxStrong, TxWeak};
 pub use waiting_receiver::WaitingReceiver;
 pub use waiting_sender::WaitingSender;
 
 use crate::envelope::{BroadcastEnvelope, MessageEnvelope, Shutdown};
+#[cfg(xtra_verif)]
+use crate::verif::{atomic::AtomicUsize, event::Event, spin, sync::Mutex};
 use crate::{Actor, Error};
 
 pub type MessageToOne<A> = Box<dyn MessageEnvelope<Actor = A>>;
diff --git a/xtra/src/chan/waiting_receiver.rs b/xtra/src/chan/waiting_receiver.rs
index be4de9e..e1c85c1 100644
--- a/xtra/src/chan/waiting_receiver.rs
+++ b/xtra/src/chan/waiting_receiver.rs
@@ -3,6 +3,8 @@ use std::task::{Context, Poll};
 use futures_util::FutureExt;
 
 use crate::chan::{self, ActorMessage, BroadcastQueue, MessageToOne, Rx};
+#[cfg(xtra_verif)]
+use crate::verif::catty;
 
 /// A [`WaitingReceiver`] is handed out by the channel any time [`Chan::try_recv`](crate::chan::Chan::try_recv) is called on an empty mailbox.
 ///
diff --git a/xtra/src/chan/waiting_sender.rs b/xtra/src/chan/waiting_sender.rs
index 8300b7a..ee77c81 100644
--- a/xtra/src/chan/waiting_sender.rs
+++ b/xtra/src/chan/waiting_sender.rs
@@ -5,6 +5,8 @@ use std::sync::{Arc, Weak};
 use std::task::{Context, Poll, Waker};
 
 use crate::chan::{HasPriority, Priority};
+#[cfg(xtra_verif)]
+use crate::verif::spin;
 use crate::Error;
 
 #[must_use = "Futures do nothing unless polled"]
diff --git a/xtra/src/envelope.rs b/xtra/src/envelope.rs
index 97816ad..0726cb9 100644
--- a/xtra/src/envelope.rs
+++ b/xtra/src/envelope.rs
@@ -2,6 +2,7 @@ use std::marker::PhantomData;
 use std::ops::ControlFlow;
 use std::sync::Arc;
 
+#[cfg(not(xtra_verif))]
 use catty::{Receiver, Sender};
 use futures_core::future::BoxFuture;
 use futures_util::FutureExt;
@@ -9,6 +10,8 @@ use futures_util::FutureExt;
 use crate::chan::{HasPriority, MessageToAll, MessageToOne, Priority};
 use crate::context::Context;
 use crate::instrumentation::{Instrumentation, Span};
+#[cfg(xtra_verif)]
+use crate::verif::catty::{self, Receiver, Sender};
 use crate::{Actor, Handler, Mailbox};
 
 /// A message envelope is a struct that encapsulates a message and its return channel sender (if applicable).
diff --git a/xtra/src/lib.rs b/xtra/src/lib.rs
index d7ddee5..220ecd3 100644
--- a/xtra/src/lib.rs
+++ b/xtra/src/lib.rs
@@ -32,6 +32,9 @@ mod recv_future;
 pub mod scoped_task;
 mod send_future;
 mod spawn;
+#[cfg(xtra_verif)]
+#[doc(hidden)]
+pub mod verif;
 
 /// Commonly used types from xtra
 pub mod prelude {
diff --git a/xtra/src/send_future.rs b/xtra/src/send_future.rs
index 15d3070..b176c0b 100644
--- a/xtra/src/send_future.rs
+++ b/xtra/src/send_future.rs
@@ -9,6 +9,8 @@ use futures_util::FutureExt;
 
 use crate::chan::{MailboxFull, MessageToAll, MessageToOne, RefCounter, WaitingSender};
 use crate::envelope::{BroadcastEnvelopeConcrete, ReturningEnvelope};
+#[cfg(xtra_verif)]
+use crate::verif::catty;
 use crate::{chan, Error, Handler};
 
 /// A [`Future`] that represents the state of sending a message to an actor.
diff --git a/xtra/src/verif.rs b/xtra/src/verif.rs
new file mode 100644
index 0000000..1ccaa1c
--- /dev/null
+++ b/xtra/src/verif.rs
@@ -0,0 +1,278 @@
+//! Scheduling points for verification, only compiled with `--cfg xtra_verif`.
+//!
+//! The types in here mirror the synchronisation primitives used by the channel. Before every
+//! operation other threads could observe, they call a global [`Scheduler`], which may suspend the
+//! calling thread. Without a scheduler they behave exactly like the original.
+#![allow(missing_docs)]
+
+use std::sync::OnceLock;
+
+/// Decides which thread runs next.
+pub trait Scheduler: Send + Sync {
+    /// The calling thread is about to do the given operation on the object with the given identity.
+    fn point(&self, op: &'static str, object: usize);
+
+    /// The calling thread found the lock with the given identity taken. It is going to try again
+    /// once this returns.
+    fn blocked(&self, op: &'static str, object: usize);
+}
+
+static SCHEDULER: OnceLock<Box<dyn Scheduler>> = OnceLock::new();
+
+/// Set the global scheduler. Returns whether it was set by this call.
+pub fn set_scheduler(scheduler: Box<dyn Scheduler>) -> bool {
+    SCHEDULER.set(scheduler).is_ok()
+}
+
+fn point<T>(op: &'static str, object: &T) {
+    if let Some(scheduler) = SCHEDULER.get() {
+        scheduler.point(op, object as *const T as *const () as usize);
+    }
+}
+
+fn blocked<T>(op: &'static str, object: &T) {
+    match SCHEDULER.get() {
+        Some(scheduler) => scheduler.blocked(op, object as *const T as *const () as usize),
+        None => std::thread::yield_now(),
+    }
+}
+
+pub mod sync {
+    use std::ops::{Deref, DerefMut};
+    use std::sync::{LockResult, MutexGuard, TryLockError};
+
+    pub struct Mutex<T>(std::sync::Mutex<T>);
+
+    impl<T> Mutex<T> {
+        pub const fn new(value: T) -> Self {
+            Self(std::sync::Mutex::new(value))
+        }
+
+        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+            super::point("lock", self);
+
+            loop {
+                match self.0.try_lock() {
+                    Ok(guard) => return Ok(guard),
+                    Err(TryLockError::Poisoned(e)) => return Err(e),
+                    Err(TryLockError::WouldBlock) => super::blocked("lock", self),
+                }
+            }
+        }
+
+        pub fn into_inner(self) -> LockResult<T> {
+            self.0.into_inner()
+        }
+    }
+
+    impl<T> Deref for Mutex<T> {
+        type Target = std::sync::Mutex<T>;
+
+        fn deref(&self) -> &Self::Target {
+            &self.0
+        }
+    }
+
+    impl<T> DerefMut for Mutex<T> {
+        fn deref_mut(&mut self) -> &mut Self::Target {
+            &mut self.0
+        }
+    }
+}
+
+pub mod spin {
+    use std::ops::{Deref, DerefMut};
+
+    pub use ::spin::MutexGuard;
+
+    pub struct Mutex<T>(::spin::Mutex<T>);
+
+    impl<T> Mutex<T> {
+        pub const fn new(value: T) -> Self {
+            Self(::spin::Mutex::new(value))
+        }
+
+        pub fn lock(&self) -> MutexGuard<'_, T> {
+            super::point("spin", self);
+
+            loop {
+                match self.0.try_lock() {
+                    Some(guard) => return guard,
+                    None => super::blocked("spin", self),
+                }
+            }
+        }
+
+        pub fn into_inner(self) -> T {
+            self.0.into_inner()
+        }
+    }
+
+    impl<T> Deref for Mutex<T> {
+        type Target = ::spin::Mutex<T>;
+
+        fn deref(&self) -> &Self::Target {
+            &self.0
+        }
+    }
+
+    impl<T> DerefMut for Mutex<T> {
+        fn deref_mut(&mut self) -> &mut Self::Target {
+            &mut self.0
+        }
+    }
+}
+
+pub mod atomic {
+    use std::ops::Deref;
+    use std::sync::atomic::{self, Ordering};
+
+    pub struct AtomicUsize(atomic::AtomicUsize);
+
+    impl AtomicUsize {
+        pub const fn new(value: usize) -> Self {
+            Self(atomic::AtomicUsize::new(value))
+        }
+
+        pub fn load(&self, order: Ordering) -> usize {
+            super::point("load", self);
+            self.0.load(order)
+        }
+
+        pub fn store(&self, value: usize, order: Ordering) {
+            super::point("store", self);
+            self.0.store(value, order)
+        }
+
+        pub fn swap(&self, value: usize, order: Ordering) -> usize {
+            super::point("swap", self);
+            self.0.swap(value, order)
+        }
+
+        pub fn fetch_add(&self, value: usize, order: Ordering) -> usize {
+            super::point("fetch_add", self);
+            self.0.fetch_add(value, order)
+        }
+
+        pub fn fetch_sub(&self, value: usize, order: Ordering) -> usize {
+            super::point("fetch_sub", self);
+            self.0.fetch_sub(value, order)
+        }
+
+        pub fn compare_exchange(
+            &self,
+            current: usize,
+            new: usize,
+            success: Ordering,
+            failure: Ordering,
+        ) -> Result<usize, usize> {
+            super::point("compare_exchange", self);
+            self.0.compare_exchange(current, new, success, failure)
+        }
+
+        pub fn compare_exchange_weak(
+            &self,
+            current: usize,
+            new: usize,
+            success: Ordering,
+            failure: Ordering,
+        ) -> Result<usize, usize> {
+            super::point("compare_exchange", self);
+            self.0.compare_exchange_weak(current, new, success, failure)
+        }
+    }
+
+    impl Deref for AtomicUsize {
+        type Target = atomic::AtomicUsize;
+
+        fn deref(&self) -> &Self::Target {
+            &self.0
+        }
+    }
+}
+
+pub mod event {
+    use event_listener::EventListener;
+
+    pub struct Event(event_listener::Event);
+
+    impl Event {
+        pub const fn new() -> Self {
+            Self(event_listener::Event::new())
+        }
+
+        pub fn notify(&self, n: usize) {
+            super::point("notify", self);
+            self.0.notify(n)
+        }
+
+        pub fn listen(&self) -> EventListener {
+            super::point("listen", self);
+            self.0.listen()
+        }
+    }
+
+    impl std::ops::Deref for Event {
+        type Target = event_listener::Event;
+
+        fn deref(&self) -> &Self::Target {
+            &self.0
+        }
+    }
+}
+
+pub mod catty {
+    use std::future::Future;
+    use std::pin::Pin;
+    use std::task::{Context, Poll};
+
+    pub use ::catty::Disconnected;
+    use futures_util::FutureExt;
+
+    pub fn oneshot<T: Send>() -> (Sender<T>, Receiver<T>) {
+        let (sender, receiver) = ::catty::oneshot();
+
+        (Sender(Some(sender)), Receiver(receiver))
+    }
+
+    pub struct Sender<T>(Option<::catty::Sender<T>>);
+
+    impl<T> Sender<T> {
+        pub fn send(mut self, value: T) -> Result<(), T> {
+            super::point("oneshot_send", &self);
+            self.0.take().expect("only taken once").send(value)
+        }
+    }
+
+    impl<T> Drop for Sender<T> {
+        fn drop(&mut self) {
+            if self.0.is_some() {
+                super::point("oneshot_drop_sender", self);
+            }
+        }
+    }
+
+    pub struct Receiver<T>(::catty::Receiver<T>);
+
+    impl<T> Receiver<T> {
+        pub fn try_recv(&mut self) -> Result<Option<T>, Disconnected> {
+            super::point("oneshot_try_recv", self);
+            self.0.try_recv()
+        }
+    }
+
+    impl<T> Future for Receiver<T> {
+        type Output = Result<T, Disconnected>;
+
+        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
+            super::point("oneshot_poll", &*self);
+            self.0.poll_unpin(cx)
+        }
+    }
+
+    impl<T> Drop for Receiver<T> {
+        fn drop(&mut self) {
+            super::point("oneshot_drop_receiver", self);
+        }
+    }
+}
-- 
2.43.0


From ee949b1d2ae0cc5a078da15358caedfca5fa5fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 14/15] fix: refer to Send by its full path in derive(Actor)

The generated where clause named the trait just Send, so deriving failed to
compile, or bounded the type parameters by something else, wherever another
item or type parameter of that name was in scope.
---
 macros/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index f40a4a8..1f31291 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -41,7 +41,7 @@ fn send_and_static_bounds(input: &DeriveInput) -> Vec<WherePredicate> {
         })
         .map(|ident| {
             parse_quote! {
-                #ident: Send + 'static
+                #ident: ::core::marker::Send + 'static
             }
         })
         .collect::<Vec<WherePredicate>>()
-- 
2.43.0


From 755f1f34b1431ed1c319283fbfa49de5daf1572b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:15 +0000
Subject: [PATCH 15/15] Scheduling points at the waiting senders' handles (cfg
 xtra_verif)

---
 xtra/src/chan/waiting_sender.rs | 9 +++++++++
 xtra/src/verif.rs               | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/xtra/src/chan/waiting_sender.rs b/xtra/src/chan/waiting_sender.rs
index ee77c81..e417704 100644
--- a/xtra/src/chan/waiting_sender.rs
+++ b/xtra/src/chan/waiting_sender.rs
@@ -36,6 +36,9 @@ where
 
 impl<M> Handle<M> {
     pub fn is_active(&self) -> bool {
+        #[cfg(xtra_verif)]
+        crate::verif::point("strong_count", self);
+
         Weak::strong_count(&self.inner) > 0
     }
 
@@ -43,6 +46,9 @@ impl<M> Handle<M> {
     ///
     /// This may return `None` in case the [`WaitingSender`] is no longer active, has already been closed or the message was already taken.
     pub fn take_message(self) -> Option<M> {
+        #[cfg(xtra_verif)]
+        crate::verif::point("upgrade", &self);
+
         let inner = self.inner.upgrade()?;
         let mut this = inner.lock();
 
@@ -61,6 +67,9 @@ impl<M> Handle<M> {
 
 impl<M> Drop for Handle<M> {
     fn drop(&mut self) {
+        #[cfg(xtra_verif)]
+        crate::verif::point("upgrade", self);
+
         if let Some(inner) = self.inner.upgrade() {
             let mut this = inner.lock();
 
diff --git a/xtra/src/verif.rs b/xtra/src/verif.rs
index 1ccaa1c..a5918d0 100644
--- a/xtra/src/verif.rs
+++ b/xtra/src/verif.rs
@@ -24,7 +24,7 @@ pub fn set_scheduler(scheduler: Box<dyn Scheduler>) -> bool {
     SCHEDULER.set(scheduler).is_ok()
 }
 
-fn point<T>(op: &'static str, object: &T) {
+pub(crate) fn point<T>(op: &'static str, object: &T) {
     if let Some(scheduler) = SCHEDULER.get() {
         scheduler.point(op, object as *const T as *const () as usize);
     }
-- 
2.43.0

