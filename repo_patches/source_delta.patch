From ad3923cd9c4dcce5fc92dbae5cf5fdfd0ee0a3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:03 +0000
Subject: [PATCH 01/16] verification hook: derive Clone and Debug on internal
 state under cfg(foca_verif)

---
 src/broadcast.rs | 1 +
 src/lib.rs       | 6 ++++++
 src/member.rs    | 1 +
 src/probe.rs     | 1 +
 4 files changed, 9 insertions(+)

diff --git a/src/broadcast.rs b/src/broadcast.rs
index f4ebac6..1c4590a 100644
--- a/src/broadcast.rs
+++ b/src/broadcast.rs
@@ -104,6 +104,7 @@ impl Invalidates for &[u8] {
     }
 }
 
+#[cfg_attr(foca_verif, derive(Clone, Debug))]
 pub(crate) struct Broadcasts<V> {
     flip: alloc::collections::BinaryHeap<Entry<V>>,
     flop: alloc::collections::BinaryHeap<Entry<V>>,
diff --git a/src/lib.rs b/src/lib.rs
index 4243788..926ac6d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -42,6 +42,7 @@
 //!   easy to plug it in an evented runtime as it is to go old-school.
 //!
 #![forbid(unsafe_code)]
+#![allow(unexpected_cfgs)]
 #![no_std]
 #![deny(missing_docs, unreachable_pub)]
 #![deny(rustdoc::broken_intra_doc_links)]
@@ -174,6 +175,9 @@ type Result<T> = core::result::Result<T, Error>;
 /// operation inside out (think callbacks, or an out parameter like
 /// `void* out`). This allows Foca to avoid deciding anything related
 /// to how it interacts with the operating system.
+// Verification hook: lets an external explorer snapshot and fork an instance
+#[cfg_attr(foca_verif, derive(Clone))]
+#[cfg_attr(all(foca_verif, not(feature = "tracing")), derive(Debug))]
 pub struct Foca<T: Identity, C, RNG, B: BroadcastHandler<T>> {
     identity: T,
     codec: C,
@@ -1674,6 +1678,7 @@ enum ConnectionState {
 /// A Broadcast Handler that rejects any form of custom broadcast.
 ///
 /// Used by Foca when constructed via [`Foca::new()`].
+#[cfg_attr(foca_verif, derive(Clone, Debug))]
 pub struct NoCustomBroadcast;
 
 /// Error emitted by [`NoCustomBroadcast`] when any trailing byte is
@@ -1702,6 +1707,7 @@ impl<T> BroadcastHandler<T> for NoCustomBroadcast {
     }
 }
 
+#[cfg_attr(foca_verif, derive(Clone, Debug))]
 struct Addr<T>(T);
 
 impl<T: PartialEq> Invalidates for Addr<T> {
diff --git a/src/member.rs b/src/member.rs
index 3c0daa1..7a91a2b 100644
--- a/src/member.rs
+++ b/src/member.rs
@@ -132,6 +132,7 @@ impl<T> Member<T> {
     }
 }
 
+#[cfg_attr(foca_verif, derive(Clone, Debug))]
 pub(crate) struct Members<T> {
     pub(crate) inner: Vec<Member<T>>,
     cursor: usize,
diff --git a/src/probe.rs b/src/probe.rs
index 7854215..56449ab 100644
--- a/src/probe.rs
+++ b/src/probe.rs
@@ -6,6 +6,7 @@ use alloc::vec::Vec;
 
 use crate::{member::Member, ProbeNumber};
 
+#[cfg_attr(foca_verif, derive(Clone, Debug))]
 pub(crate) struct Probe<T> {
     direct: Option<Member<T>>,
     indirect: Vec<T>,
-- 
2.43.0


From 48d19aeed08197a8a948588145329e62732f440b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:27 +0000
Subject: [PATCH 02/16] fix: never announce to down members bearing our own
 address

A previous identity of this instance is kept as a Down member so that its
death is gossiped. The periodic announce to down members could choose it,
sending an Announce to ourselves.
---
 src/lib.rs    | 10 ++++++++--
 src/member.rs | 17 ++++++++++++++++-
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 926ac6d..ae833fa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -497,8 +497,14 @@ where
 
     fn announce_to_down(&mut self, num_members: usize, mut runtime: impl Runtime<T>) -> Result<()> {
         self.choice_buf.clear();
-        self.members
-            .choose_down_members(num_members, &mut self.choice_buf, &mut self.rng);
+        // Our own previous identities may be among the Down members: there
+        // is no point in announcing to ourselves
+        self.members.choose_down_members_if(
+            num_members,
+            &mut self.choice_buf,
+            &mut self.rng,
+            |candidate| candidate.addr() != self.identity.addr(),
+        );
 
         while let Some(chosen) = self.choice_buf.pop() {
             self.send_message(chosen.into_identity(), Message::Announce, &mut runtime)?;
diff --git a/src/member.rs b/src/member.rs
index 7a91a2b..ab0738d 100644
--- a/src/member.rs
+++ b/src/member.rs
@@ -241,13 +241,28 @@ where
         }
     }
 
+    #[cfg(test)]
     pub(crate) fn choose_down_members(
         &self,
         wanted: usize,
         output: &mut Vec<Member<T>>,
         rng: impl Rng,
     ) {
-        self.choose_members(wanted, output, rng, |member| !member.is_active());
+        self.choose_down_members_if(wanted, output, rng, |_| true);
+    }
+
+    pub(crate) fn choose_down_members_if<F>(
+        &self,
+        wanted: usize,
+        output: &mut Vec<Member<T>>,
+        rng: impl Rng,
+        picker: F,
+    ) where
+        F: Fn(&T) -> bool,
+    {
+        self.choose_members(wanted, output, rng, |member| {
+            !member.is_active() && picker(member.id())
+        });
     }
 
     pub(crate) fn choose_active_members<F>(
-- 
2.43.0


From aecf948581ba4edae467fec552f75d0b2f55f45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:39 +0000
Subject: [PATCH 03/16] fix: ignore stale suspicions when already at the
 highest incarnation

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ae833fa..7d13e29 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1609,7 +1609,9 @@ where
 
                 // We need to rejoin the cluster when this situation happens
                 // because it will be impossible to refute suspicion
-                if incarnation == Incarnation::MAX {
+                // (a suspicion about an old incarnation is already refuted
+                // by our current one, even if it's the highest possible)
+                if increase_incarnation && incarnation == Incarnation::MAX {
                     if !self.attempt_rejoin(&mut runtime)? {
                         #[cfg(feature = "tracing")]
                         tracing::debug!("Inactive: reached Incarnation::MAX",);
-- 
2.43.0


From 42df00d090dbdb4be7e6cd7d386bdfc3c388460e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 04/16] fix: defunct instances don't refute suspicions

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 7d13e29..de097f3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1625,6 +1625,13 @@ where
                     self.incarnation = incarnation.saturating_add(1);
                 }
 
+                // There's nothing to refute if we know we're down: spreading
+                // our (new) incarnation would only make members that have not
+                // learned about it yet believe that we're alive
+                if self.connection_state == ConnectionState::Undead {
+                    return Ok(());
+                }
+
                 // We do NOT add ourselves as Alive to the updates buffer
                 // because it's unnecessary: by bumping our incarnation *any*
                 // message we send will be interpreted as a broadcast update
-- 
2.43.0


From 3bc506dceb0e51394ca97c1452bd1ec1c5ed6911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 05/16] fix: cancelled suspicion timeouts have no effect

---
 src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index de097f3..4773753 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -719,11 +719,16 @@ where
                         .members
                         // Down is terminal, so before doing that we ensure the member
                         // is still under suspicion.
-                        // Checking only incarnation is sufficient because to refute
-                        // suspicion the member must increment its own incarnation
+                        // Checking only the incarnation (of the identity we suspected)
+                        // is sufficient because to refute suspicion the member must
+                        // increment its own incarnation
                         .apply_existing_if(as_down.clone(), |member| {
-                            member.incarnation() == incarnation
+                            member.id() == &member_id && member.incarnation() == incarnation
                         })
+                        // The suspicion may have been refuted already or the member
+                        // may be known as Down by other means, then there's nothing
+                        // to do
+                        .filter(|summary| summary.apply_successful)
                     {
                         self.handle_apply_summary(summary, as_down, true, &mut runtime)?;
                         // Member went down we might need to adjust our internal state
-- 
2.43.0


From 5f17c7c88e5d915719b9beb89aefd38f1fa1b591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:52 +0000
Subject: [PATCH 06/16] fix: failed probes only cast suspicion on the probed
 identity

---
 src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4773753..fc4f1b7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1180,9 +1180,13 @@ where
             let as_suspect = Member::new(failed.id().clone(), failed.incarnation(), State::Suspect);
             if let Some(summary) = self
                 .members
-                .apply_existing_if(as_suspect.clone(), |_member| true)
+                // The identity we probed may have been forgotten in the meantime
+                // in favor of another one with the same address. That one hasn't
+                // failed any probe
+                .apply_existing_if(as_suspect.clone(), |member| member.id() == failed.id())
             {
-                let is_active_now = summary.is_active_now;
+                let is_active_now =
+                    summary.is_active_now && summary.conflict == member::ConflictResult::NoConflict;
                 #[cfg_attr(not(feature = "tracing"), expect(unused_variables))]
                 let apply_successful = summary.apply_successful;
                 self.handle_apply_summary(summary, as_suspect, true, &mut runtime)?;
-- 
2.43.0


From d822fb45aca819470b8830a1f1f1a87ebb1a4b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:31 +0000
Subject: [PATCH 07/16] fix: don't bounce TurnUndead between members that can't
 rejoin

---
 src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index fc4f1b7..0a6525d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -980,7 +980,16 @@ where
             // spamming each other with this message until enough time passes
             // that foca forgets the down member (`Config::remove_down_after`)
             if message == Message::TurnUndead {
+                let already_undead = self.connection_state == ConnectionState::Undead;
                 self.handle_self_update(Incarnation::default(), State::Down, &mut runtime)?;
+
+                // Nothing new to tell the sender: it already knows (or
+                // has just been told) that it's down and our identity
+                // hasn't changed. Replying here would make two members
+                // that can't rejoin bounce this message back and forth
+                if already_undead && self.connection_state == ConnectionState::Undead {
+                    return Ok(());
+                }
             }
 
             if self.config.notify_down_members {
-- 
2.43.0


From 57b2134ce2ebd1e8987ff5a0a277eb5eba767f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:43 +0000
Subject: [PATCH 08/16] fix: don't rejoin after leaving the cluster

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 0a6525d..4b696d3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1675,6 +1675,12 @@ where
     }
 
     fn attempt_rejoin(&mut self, mut runtime: impl Runtime<T>) -> Result<bool> {
+        // Being told that we're down after leaving the cluster isn't a
+        // reason to come back: that's up to whoever decided to leave
+        if self.connection_state == ConnectionState::Undead {
+            return Ok(false);
+        }
+
         if let Some(new_identity) = self.identity.renew() {
             if self.identity == new_identity {
                 #[cfg(feature = "tracing")]
-- 
2.43.0


From d6d8c7c7916fb8d7d9f057cec027e79ac6e2582f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:24 +0000
Subject: [PATCH 09/16] fix: changing max_packet_size doesn't trip a debug
 assertion

set_config() accepts a different max_packet_size, but the buffer was
allocated with the original one, so the next message sent would panic
when debug assertions were enabled. The buffer grows on demand.
---
 src/lib.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4b696d3..debd96e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1472,11 +1472,6 @@ where
         //     This must be done for every return point in send_message
         self.send_buf.clear();
         let mut buf = mem::take(&mut self.send_buf).limit(self.config.max_packet_size.get());
-        debug_assert_eq!(
-            buf.get_ref().capacity(),
-            self.config.max_packet_size.get(),
-            "send_buf lost capacity, would trigger unnecessary allocs"
-        );
 
         if let Err(err) = self
             .codec
-- 
2.43.0


From 47f137148b4050863fe7d0d9ed0962639726636c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:24 +0000
Subject: [PATCH 10/16] fix: don't allocate upfront what the configuration
 merely allows

Very large values for max_packet_size or num_indirect_probes (say:
NonZeroUsize::MAX for no limit) would panic or abort when creating the
instance. Both buffers grow on demand and are reused afterwards.
---
 src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index debd96e..fda24e5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -256,8 +256,6 @@ where
         codec: C,
         broadcast_handler: B,
     ) -> Self {
-        let max_indirect_probes = config.num_indirect_probes.get();
-        let max_bytes = config.max_packet_size.get();
         Self {
             identity,
             config,
@@ -266,12 +264,12 @@ where
             incarnation: Incarnation::default(),
             timer_token: TimerToken::default(),
             members: Members::new(Vec::new()),
-            probe: Probe::new(Vec::with_capacity(max_indirect_probes)),
+            probe: Probe::new(Vec::new()),
             updates_buf: Vec::new(),
             choice_buf: Vec::new(),
             connection_state: ConnectionState::Disconnected,
             updates: Broadcasts::new(),
-            send_buf: Vec::with_capacity(max_bytes),
+            send_buf: Vec::new(),
             custom_broadcasts: Broadcasts::new(),
             broadcast_handler,
         }
-- 
2.43.0


From 49773c3c11696582aa6f354659d50490d40d1fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:24 +0000
Subject: [PATCH 11/16] fix: never feed more members than the 16-bit count can
 tell

With packets large enough for more than 65535 members the counter
overflowed: a panic when overflow checks are enabled, a malformed
datagram otherwise.
---
 src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index fda24e5..2496295 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1492,7 +1492,7 @@ where
             // with the actual total
             buf.put_u16(0);
 
-            let mut num_items = 0;
+            let mut num_items: u16 = 0;
 
             if header.message.piggyback_only_active() {
                 self.choice_buf.clear();
@@ -1506,7 +1506,10 @@ where
                     |member| member != &dst,
                 );
 
-                while let Some(chosen) = self.choice_buf.pop() {
+                while num_items < u16::MAX {
+                    let Some(chosen) = self.choice_buf.pop() else {
+                        break;
+                    };
                     let pos = buf.get_ref().len();
                     if let Err(_ignored) = self.codec.encode_member(&chosen, &mut buf) {
                         // encoding the member might have advanced the cursor
-- 
2.43.0


From 308ec5304e57c8d1576ce4133f13f04c8fc7ee91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:24 +0000
Subject: [PATCH 12/16] fix: reject custom broadcasts that don't fit the length
 prefix

With max_packet_size larger than 64KiB an item of more than u16::MAX
bytes was accepted but its length got truncated when sending: a panic
when debug assertions are enabled, a malformed datagram otherwise.
---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2496295..d1ac05e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -601,8 +601,9 @@ where
             return Err(Error::MalformedPacket);
         }
 
-        // Not considering the whole header
-        if data.len() > self.config.max_packet_size.get() {
+        // Not considering the whole header. Items are sent prefixed by
+        // their length as a 16-bit integer
+        if data.len() > self.config.max_packet_size.get() || u16::try_from(data.len()).is_err() {
             return Err(Error::DataTooBig);
         }
 
-- 
2.43.0


From 46c35f0173af1001d6a32ac9b47afcf464211bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:52 +0000
Subject: [PATCH 13/16] fix: keep probing after failing to encode a message

An error while sending the ping (say, because of a temporarily too small
max_packet_size) used to end the probe loop for good: the timer for the
next round wasn't submitted. Now the next round is always scheduled.
---
 src/lib.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d1ac05e..fc067e5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -759,7 +759,15 @@ where
                         // may reach here via manually crafted Timer::
                         Err(Error::NotConnected)
                     } else {
-                        self.probe_random_member(runtime)
+                        let result = self.probe_random_member(&mut runtime);
+                        // Whatever the outcome, the next probe round must
+                        // be scheduled: the probe loop can't be restarted
+                        // by any other means
+                        runtime.submit_after(
+                            Timer::ProbeRandomMember(self.timer_token),
+                            self.config.probe_period,
+                        );
+                        result
                     }
                 } else {
                     // Invalid token, may happen whenever we go offline after
@@ -1147,11 +1155,6 @@ where
     }
 
     fn probe_random_member(&mut self, mut runtime: impl Runtime<T>) -> Result<()> {
-        // NEEDSWORK: A codec error may leave us in a weird state where
-        //            foca talks to the cluster normally but never
-        //            probes their peers. It's, however, unlikely to
-        //            happen as there are many attempts at
-        //            encoding/decoding members before we start probing
         debug_assert_eq!(self.connection_state, ConnectionState::Connected);
 
         let probe_was_incomplete = !self.probe.validate();
@@ -1234,7 +1237,15 @@ where
             #[cfg(feature = "tracing")]
             tracing::debug!(member_id = tracing::field::debug(&member_id), "Probe start");
 
-            self.send_message(member_id.clone(), Message::Ping(probe_number), &mut runtime)?;
+            if let Err(err) = self.send_message(
+                member_id.clone(),
+                Message::Ping(probe_number),
+                &mut runtime,
+            ) {
+                // Nothing was sent, so there's no reply to expect
+                self.probe.clear();
+                return Err(err);
+            }
 
             runtime.submit_after(
                 Timer::SendIndirectProbe {
@@ -1250,11 +1261,6 @@ where
             tracing::debug!("Expected to find an active member to probe");
         }
 
-        runtime.submit_after(
-            Timer::ProbeRandomMember(self.timer_token),
-            self.config.probe_period,
-        );
-
         if probe_was_incomplete {
             Err(Error::IncompleteProbeCycle)
         } else {
-- 
2.43.0


From 086bfde2b36105bd4d2aebf12c4aa91e929baa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:17 +0000
Subject: [PATCH 14/16] fix: notify Rejoin even when announcing the new
 identity fails

When renewing, an error while gossiping the change (a header that
doesn't fit in max_packet_size, for example) was propagated before
Rejoin got notified, although the new identity was already in use.
---
 src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index fc067e5..74c863c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1698,11 +1698,13 @@ where
                 );
                 Ok(false)
             } else {
-                self.change_identity(new_identity.clone(), &mut runtime)?;
+                let result = self.change_identity(new_identity.clone(), &mut runtime);
 
+                // From here on the new identity is in use, even if we
+                // couldn't tell anyone about it yet
                 runtime.notify(Notification::Rejoin(&new_identity));
 
-                Ok(true)
+                result.map(|()| true)
             }
         } else {
             Ok(false)
-- 
2.43.0


From 2ea3777f04c61fe80725a3b0c28c2e4402d3610e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:53 +0000
Subject: [PATCH 15/16] fix: go defunct when leaving the cluster even if
 gossiping it fails

---
 src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 74c863c..5698d7a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -584,13 +584,15 @@ where
         self.updates
             .add_or_replace(addr, data, self.config.max_transmissions.get().into());
 
-        self.gossip(&mut runtime)?;
+        let result = self.gossip(&mut runtime);
 
         // We could try to be smart here and only go defunct if there
         // are active members, but I'd rather have consistent behaviour.
+        // Same thing if telling the others has failed: our identity is
+        // going to be gossiped as Down from here on.
         self.become_undead(&mut runtime);
 
-        Ok(())
+        result
     }
 
     /// Register some data to be broadcast along with Foca messages.
-- 
2.43.0


From a05860ddffd07ab72aad4c2162145767cf1db7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:07 +0000
Subject: [PATCH 16/16] fix: reconnect after rejoining in response to
 TurnUndead

When handle_data reacts to a TurnUndead by switching to a renewed identity,
change_identity leaves the instance disconnected. Unlike when learning about
it through an update (apply_many), the connection state wasn't adjusted
afterwards, so an instance with active members stayed silent until someone
addressed its new identity. If the few members picked for the gossip had
crashed or were changing identity at the same time no one ever did: every
instance would wait for the others and the cluster would never converge.
---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5698d7a..754d818 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -991,6 +991,8 @@ where
             if message == Message::TurnUndead {
                 let already_undead = self.connection_state == ConnectionState::Undead;
                 self.handle_self_update(Incarnation::default(), State::Down, &mut runtime)?;
+                // We may have rejoined under a new identity
+                self.adjust_connection_state(&mut runtime);
 
                 // Nothing new to tell the sender: it already knows (or
                 // has just been told) that it's down and our identity
@@ -1125,7 +1127,9 @@ where
                 #[cfg(feature = "tracing")]
                 tracing::debug!("The cluster thinks we're down");
 
-                self.handle_self_update(Incarnation::default(), State::Down, runtime)?;
+                self.handle_self_update(Incarnation::default(), State::Down, &mut runtime)?;
+                // We may have rejoined under a new identity
+                self.adjust_connection_state(runtime);
             }
             // Nothing to do. These messages do not expect any reply
             Message::Gossip | Message::Feed | Message::Broadcast => {}
-- 
2.43.0

