"""Small deliberate faults, for measuring what the engines see (not a check).  (file under xtra/src, old, new)"""
M = [
# --- chan.rs
("chan.rs", "            Ordering::Greater | Ordering::Equal if shared_priority.is_some() => {", "            Ordering::Greater if shared_priority.is_some() => {"),
("chan.rs", "        let shared_priority: Option<Priority> = inner.unicast_queue.peek().map(|it| it.priority());", "        let shared_priority: Option<Priority> = inner.unicast_queue.peek().map(|it| it.priority()).map(|p| if inner.unicast_queue.len() > 3 { cmp::max(p, Priority::Valued(1)) } else { p });"),
("chan.rs", "        if !self.is_unicast_full() {\n            if let Some(msg)", "        if self.unicast_queue.is_empty() {\n            if let Some(msg)"),
("chan.rs", "        while !self.is_broadcast_full() {\n            match", "        if !self.is_broadcast_full() {\n            match"),
("chan.rs", "        for queue in &self.broadcast_queues {\n            longest = cmp::max(longest, queue.lock().len());", "        for queue in self.broadcast_queues.iter().take(3) {\n            longest = cmp::max(longest, queue.lock().len());"),
("chan.rs", "        self.notify_new_broadcast();\n\n        self.broadcast_tail += 1;", "        if let Some(rx) = self.waiting_receivers_handles.pop_front() {\n            let _ = rx.notify_new_broadcast();\n        }\n\n        self.broadcast_tail += 1;"),
("chan.rs", "            if let Err(msg) = inner.try_fulfill_receiver(msg) {\n                inner.push_unicast(msg);", "            if let Err(msg) = Err(msg) {\n                inner.push_unicast(msg);"),
("chan.rs", "        _handle = inner.remove_waiting_receiver(&receiver);\n", "        _handle = None::<waiting_receiver::Handle<A>>;\n"),
("chan.rs", "                if let Some(msg) = inner.try_take_waiting_unicast_message() {\n                    return Ok(msg.into());\n                }\n", ""),
("chan.rs", "        if !self.is_connected() {\n            return Err(Error::Disconnected);\n        }\n\n        let unfulfilled_msg", "        let unfulfilled_msg"),
("chan.rs", "        // See `try_send_to_one` for why this needs to be checked again.\n        if !self.is_connected() {\n            return Err(Error::Disconnected);\n        }\n", ""),
("chan.rs", "            self.on_shutdown.notify(usize::MAX);\n", "            self.on_shutdown.notify(1);\n"),
("chan.rs", "            inner.broadcast_tail = 0;\n", ""),
("chan.rs", "                mem::take(&mut inner.waiting_send_to_all),\n", "                0,\n"),
("chan.rs", "                mem::take(&mut inner.broadcast_queues),\n", "                0,\n"),
("chan.rs", "        let listener = self.on_shutdown.listen();\n\n        if self.is_connected() {\n            Some(listener)", "        if self.is_connected() {\n            let listener = self.on_shutdown.listen();\n            Some(listener)"),
("chan.rs", "        inner.broadcast_tail = inner.longest_broadcast_queue();\n        inner.notify_new_broadcast();", "        inner.notify_new_broadcast();"),
("chan.rs", "        inner.broadcast_tail = inner.longest_broadcast_queue();\n        inner.notify_new_broadcast();", "        inner.broadcast_tail = inner.longest_broadcast_queue();"),
("chan.rs", "            // Receivers will be woken with the fulfills below", "            inner.next_receiver_id += 0;\n            // Receivers will be woken with the fulfills below"),
("chan.rs", "        for rx in waiting_rx {\n            rx.notify_channel_shutdown();", "        for rx in waiting_rx.into_iter().take(1) {\n            rx.notify_channel_shutdown();"),
("chan.rs", "        while let Some(rx) = self.waiting_receivers_handles.pop_front() {", "        while let Some(rx) = self.waiting_receivers_handles.pop_back() {"),
("chan.rs", "        while let Some(rx) = self.waiting_receivers_handles.pop_front() {\n            match", "        if let Some(rx) = self.waiting_receivers_handles.pop_front() {\n            match"),
("chan.rs", "        .rev()\n", ""),
("chan.rs", "        if queue.len() == queue.capacity() {", "        if false {"),
("chan.rs", "    queue.retain(|handle| handle.is_active()); // Only process handles which are still active.\n", ""),
("chan.rs", ".map_or(false, |cap| self.broadcast_tail >= cap)", ".map_or(false, |cap| self.broadcast_tail > cap)"),
("chan.rs", ".map_or(false, |cap| self.unicast_queue.len() >= cap)", ".map_or(false, |cap| self.unicast_queue.len() > cap)"),
("chan.rs", ".map_or(false, |cap| self.unicast_queue.len() >= cap)", ".map_or(false, |cap| self.unicast_queue.len() + self.broadcast_tail >= cap)"),
("chan.rs", "        self.receiver_count.load(atomic::Ordering::SeqCst) > 0\n            && ", "        true && "),
("chan.rs", "            && self.sender_count.load(atomic::Ordering::SeqCst) > 0", ""),
("chan.rs", "        inner.broadcast_tail + inner.unicast_queue.len()", "        inner.broadcast_tail + inner.unicast_queue.len() + inner.waiting_send_to_one.len()"),
("chan.rs", "        inner.broadcast_tail + inner.unicast_queue.len()", "        cmp::max(inner.broadcast_tail, inner.unicast_queue.len())"),
("chan.rs", "        if !self.broadcast_queues.is_empty() {\n            self.advance_broadcast_tail();\n        }", "        if !self.broadcast_queues.is_empty() {\n            self.broadcast_tail = self.longest_broadcast_queue();\n        }"),
("chan.rs", "        if !self.broadcast_queues.is_empty() {\n            self.advance_broadcast_tail();\n        }", ""),
("chan.rs", "        let queue = self.broadcast_queues.swap_remove(pos);", "        let queue = self.broadcast_queues[pos].clone();"),
("chan.rs", "        self.next_unicast_seq += 1;", "        self.next_unicast_seq = self.next_unicast_seq.wrapping_add(1) % 64;"),
("chan.rs", "        self.shutdown_waiting_senders();\n    }", "        if self.sender_count.load(atomic::Ordering::SeqCst) > 0 {\n            self.shutdown_waiting_senders();\n        }\n    }"),
("chan.rs", "        drop(outstanding);", "        if self.sender_count.load(atomic::Ordering::SeqCst) > 2 {\n            mem::forget(outstanding.0)\n        }"),
# --- priority
("chan/priority.rs", "            .then_with(|| other.seq.cmp(&self.seq))", ""),
("chan/priority.rs", "            .then_with(|| other.seq.cmp(&self.seq))", "            .then_with(|| (other.seq as u8).cmp(&(self.seq as u8)))"),
("chan/priority.rs", "#[derive(Eq, PartialEq, Ord, PartialOrd, Copy, Clone)]\npub enum Priority {\n    Valued(u32),\n    Shutdown,", "#[derive(Eq, PartialEq, Ord, PartialOrd, Copy, Clone)]\npub enum Priority {\n    Shutdown,\n    Valued(u32),"),
# --- waiting receiver
("chan/waiting_receiver.rs", "            Ok(Some(CtrlMsg::NewMessage(msg))) => Some(msg),\n", "            Ok(Some(CtrlMsg::NewMessage(msg))) if msg.priority() > crate::chan::Priority::default() => Some(msg),\n"),
("chan/waiting_receiver.rs", "                None => return Poll::Ready(None),\n            },", "                None => return Poll::Pending,\n            },"),
("chan/waiting_receiver.rs", "            Err(_) => return Poll::Ready(None), // TODO", "            Err(_) => return Poll::Pending, // TODO"),
# --- waiting sender
("chan/waiting_sender.rs", "                if let Some(waker) = waker.take() {\n                    waker.wake();\n                }\n", "                let _ = waker.take();\n"),
("chan/waiting_sender.rs", "                    if let Some(waker) = waker {\n                        waker.wake_by_ref();\n                    }\n", "                    let _ = waker;\n"),
("chan/waiting_sender.rs", "                *waker = Some(cx.waker().clone());\n", "                if waker.is_none() {\n                    *waker = Some(cx.waker().clone());\n                }\n"),
("chan/waiting_sender.rs", "            Inner::Closed => Poll::Ready(Err(Error::Disconnected)),", "            Inner::Closed => Poll::Ready(Ok(())),"),
("chan/waiting_sender.rs", "        let priority = msg.priority();\n", "        let priority = Priority::default();\n"),
("chan/waiting_sender.rs", "            drop(this);\n            drop(outstanding);", "            drop(outstanding);\n            drop(this);"),
# --- ptr
("chan/ptr.rs", "            ref_counter: self.ref_counter.make_new(&self.inner).into(),", "            ref_counter: self.ref_counter.make_new(&self.inner).into(),", ),
("recv_future.rs", "            channel.cancel_receiver(receiver);", "            drop((channel, receiver));"),
("recv_future.rs", "                        *this = Receiving::New {\n                            channel,\n                            broadcast_mailbox,\n                        };\n                    }\n                    Poll::Pending", "                        *this = Receiving::New {\n                            channel,\n                            broadcast_mailbox,\n                        };\n                        cx.waker().wake_by_ref();\n                        return Poll::Pending;\n                    }\n                    Poll::Pending"),
("scoped_task.rs", "        match this.join_handle.poll_unpin(cx) {\n            Poll::Ready(()) => Poll::Ready(None),\n            Poll::Pending => match this.fut.poll(cx) {\n                Poll::Ready(v) => Poll::Ready(Some(v)),\n                Poll::Pending => Poll::Pending,\n            },\n        }", "        match this.fut.poll(cx) {\n            Poll::Ready(v) => Poll::Ready(Some(v)),\n            Poll::Pending => this.join_handle.poll_unpin(cx).map(|()| None),\n        }"),
("context.rs", "        self.running = false;\n", "        self.running = false;\n        self.mailbox.address().0.shutdown_all_receivers();\n"),
("lib.rs", "                    if let Some(msg) = next_msg.now_or_never() {\n", "                    if let Some(msg) = None::<Message<A>> {\n"),
("lib.rs", "                            mailbox.stop_next();\n                        }\n                    }\n\n                    return", "                        }\n                    }\n\n                    return"),
("lib.rs", "            mailbox.stop_next();\n\n            fut.await", "            fut.await"),
("lib.rs", "    if let Err(stop) = actor.started(&mailbox).await {\n        return stop;", "    if let Err(_stop) = actor.started(&mailbox).await {\n        return actor.stopped().await;"),
("mailbox.rs", "        Mailbox {\n            inner: self.inner.clone(),\n            broadcast_mailbox: self.inner.new_broadcast_mailbox(),", "        Mailbox {\n            inner: self.inner.clone(),\n            broadcast_mailbox: self.broadcast_mailbox.clone(),"),
("send_future.rs", "                    return match waiting.poll_unpin(cx)? {\n                        Poll::Ready(()) => Poll::Ready(Ok(())),\n                        Poll::Pending => {\n                            *this = Sending::WaitingToSend(waiting);\n                            Poll::Pending\n                        }\n                    };\n                }\n                Sending::Done => panic!(\"Polled after completion\"),\n            }\n        }\n    }\n}\n\nimpl<A, Rc> Future for Sending<A, MessageToAll<A>, Rc>", "                    return match waiting.poll_unpin(cx) {\n                        Poll::Ready(_) => Poll::Ready(Ok(())),\n                        Poll::Pending => {\n                            *this = Sending::WaitingToSend(waiting);\n                            Poll::Pending\n                        }\n                    };\n                }\n                Sending::Done => panic!(\"Polled after completion\"),\n            }\n        }\n    }\n}\n\nimpl<A, Rc> Future for Sending<A, MessageToAll<A>, Rc>"),
("send_future.rs", "            .map_err(|_| Error::Interrupted)", "            .map_err(|_| Error::Disconnected)"),
("send_future.rs", "            state: self.state.resolve_to_receiver(),\n", "            state: self.state.resolve_to_receiver(),\n", ),
("address.rs", "        (self.same_actor(other)) && (self.0.is_strong() == other.0.is_strong())", "        self.same_actor(other)"),
("address.rs", "        state.write_u8(self.0.is_strong() as u8);\n", ""),
("address.rs", "            .then_with(|| self.0.is_strong().cmp(&other.0.is_strong()))", ""),
("address.rs", "            Ordering::Equal => self.0.is_strong().cmp(&other.0.is_strong()),\n", "            Ordering::Equal => other.0.is_strong().cmp(&self.0.is_strong()),\n"),
("envelope.rs", "            // We don't actually care if the receiver is listening\n            let _ = result_sender.send(r);\n            flow", "            if result_sender.send(r).is_err() {\n                return ControlFlow::Break(());\n            }\n            flow"),
]
