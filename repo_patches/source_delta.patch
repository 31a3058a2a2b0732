From 580ba9bcf5b53dcd017469fb7ce48b198273f191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:35 +0000
Subject: [PATCH 01/11] fix: suspicion timeout must not touch another identity

ChangeSuspectToDown only compared incarnations, so if the suspected
identity had been forgotten and its address was since registered under an
older identity, the stale timer replaced that record and declared it down.
---
 src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4243788..9993286 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -709,10 +709,12 @@ where
                         .members
                         // Down is terminal, so before doing that we ensure the member
                         // is still under suspicion.
-                        // Checking only incarnation is sufficient because to refute
-                        // suspicion the member must increment its own incarnation
+                        // Checking incarnation is sufficient because to refute
+                        // suspicion the member must increment its own incarnation;
+                        // And the identity may have been forgotten meanwhile, with
+                        // its address now being used by another one
                         .apply_existing_if(as_down.clone(), |member| {
-                            member.incarnation() == incarnation
+                            member.id() == &member_id && member.incarnation() == incarnation
                         })
                     {
                         self.handle_apply_summary(summary, as_down, true, &mut runtime)?;
-- 
2.43.0


From 963d27d3e3896401beee0b5710813e9949ce7cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:35 +0000
Subject: [PATCH 02/11] fix: cancelled suspicion timeout must not send
 TurnUndead

When the suspicion was refuted (or the identity was superseded) before the
timer fired, the member was still told that it had been declared down.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9993286..7767874 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -717,11 +717,12 @@ where
                             member.id() == &member_id && member.incarnation() == incarnation
                         })
                     {
+                        let declared_down = summary.apply_successful;
                         self.handle_apply_summary(summary, as_down, true, &mut runtime)?;
                         // Member went down we might need to adjust our internal state
                         self.adjust_connection_state(&mut runtime);
 
-                        if self.config.notify_down_members {
+                        if declared_down && self.config.notify_down_members {
                             // As a courtesy, we send a lightweight message to the member
                             // we're declaring down so that if it manages to receive it,
                             // it can react accordingly
-- 
2.43.0


From 1849c3efa768d8d79b3afd5d380c4e82bd5bff8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:35 +0000
Subject: [PATCH 03/11] fix: failed probe must not replace another identity's
 record

If the probed identity was forgotten during the round and its address got
registered under an older identity, marking the probe as failed brought the
forgotten identity back.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7767874..0855d55 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1168,7 +1168,7 @@ where
             let as_suspect = Member::new(failed.id().clone(), failed.incarnation(), State::Suspect);
             if let Some(summary) = self
                 .members
-                .apply_existing_if(as_suspect.clone(), |_member| true)
+                .apply_existing_if(as_suspect.clone(), |member| member.id() == failed.id())
             {
                 let is_active_now = summary.is_active_now;
                 #[cfg_attr(not(feature = "tracing"), expect(unused_variables))]
-- 
2.43.0


From 668a9ee6469c0342e18ee0bbd03f0b275b0d81a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:35 +0000
Subject: [PATCH 04/11] fix: do not answer TurnUndead with TurnUndead when
 undead

Two members that couldn't renew their identities and considered each other
down would bounce TurnUndead back and forth forever.
---
 src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0855d55..904d490 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -967,11 +967,16 @@ where
             // So we handle TurnUndead here, otherwise the nodes will be
             // spamming each other with this message until enough time passes
             // that foca forgets the down member (`Config::remove_down_after`)
-            if message == Message::TurnUndead {
+            let told_we_are_down = message == Message::TurnUndead;
+            if told_we_are_down {
                 self.handle_self_update(Incarnation::default(), State::Down, &mut runtime)?;
             }
 
-            if self.config.notify_down_members {
+            // If we couldn't rejoin, answering TurnUndead with TurnUndead would
+            // make two members that consider each other down do so forever
+            let is_bounce = told_we_are_down && self.connection_state == ConnectionState::Undead;
+
+            if self.config.notify_down_members && !is_bounce {
                 self.send_message(src, Message::TurnUndead, runtime)?;
             }
 
-- 
2.43.0


From a6c476e9d1e7d2759b70b7ff2a5112b806f13981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:35 +0000
Subject: [PATCH 05/11] fix: do not announce to our own address

Down records bearing our own address (previous identities) were eligible
targets of the periodic announce to down members.
---
 src/lib.rs    | 10 ++++++++--
 src/member.rs |  3 ++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 904d490..677966d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -493,8 +493,14 @@ where
 
     fn announce_to_down(&mut self, num_members: usize, mut runtime: impl Runtime<T>) -> Result<()> {
         self.choice_buf.clear();
-        self.members
-            .choose_down_members(num_members, &mut self.choice_buf, &mut self.rng);
+        // A previous identity of ours may be among the Down members
+        let own_addr = self.identity.addr();
+        self.members.choose_members(
+            num_members,
+            &mut self.choice_buf,
+            &mut self.rng,
+            |member| !member.is_active() && member.id().addr() != own_addr,
+        );
 
         while let Some(chosen) = self.choice_buf.pop() {
             self.send_message(chosen.into_identity(), Message::Announce, &mut runtime)?;
diff --git a/src/member.rs b/src/member.rs
index 3c0daa1..33a52e8 100644
--- a/src/member.rs
+++ b/src/member.rs
@@ -209,7 +209,7 @@ where
         }
     }
 
-    fn choose_members<F>(
+    pub(crate) fn choose_members<F>(
         &self,
         wanted: usize,
         output: &mut Vec<Member<T>>,
@@ -240,6 +240,7 @@ where
         }
     }
 
+    #[cfg(test)]
     pub(crate) fn choose_down_members(
         &self,
         wanted: usize,
-- 
2.43.0


From bf4bed2ba38bab6f70c178727e567739807325d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:35 +0000
Subject: [PATCH 06/11] fix: any packet size is a valid configuration

Very large values of max_packet_size or num_indirect_probes overflowed the
capacity of the buffers allocated upfront and changing max_packet_size via
set_config made the next send fail a debug assertion about buffer capacity.
---
 src/lib.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 677966d..c9d6042 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -163,6 +163,9 @@ pub use crate::codec::bincode_impl::BincodeCodec;
 
 type Result<T> = core::result::Result<T, Error>;
 
+// Upper bound for the buffers we allocate upfront
+const MAX_PREALLOC: usize = u16::MAX as usize;
+
 /// Foca is the main interaction point of this crate.
 ///
 /// It manages the cluster members and executes the SWIM protocol. It's
@@ -252,8 +255,9 @@ where
         codec: C,
         broadcast_handler: B,
     ) -> Self {
-        let max_indirect_probes = config.num_indirect_probes.get();
-        let max_bytes = config.max_packet_size.get();
+        // Just a hint: both grow as needed and any size is valid
+        let max_indirect_probes = config.num_indirect_probes.get().min(MAX_PREALLOC);
+        let max_bytes = config.max_packet_size.get().min(MAX_PREALLOC);
         Self {
             identity,
             config,
@@ -1458,11 +1462,6 @@ where
         //     This must be done for every return point in send_message
         self.send_buf.clear();
         let mut buf = mem::take(&mut self.send_buf).limit(self.config.max_packet_size.get());
-        debug_assert_eq!(
-            buf.get_ref().capacity(),
-            self.config.max_packet_size.get(),
-            "send_buf lost capacity, would trigger unnecessary allocs"
-        );
 
         if let Err(err) = self
             .codec
-- 
2.43.0


From 422564420f1d9c249a369ee9761c49a2f94ef50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:35 +0000
Subject: [PATCH 07/11] fix: refuse custom broadcasts that don't fit the length
 prefix

With packet sizes above 64KiB an item longer than u16::MAX was accepted and
then transmitted with a truncated length prefix.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c9d6042..7b71311 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -604,7 +604,8 @@ where
         }
 
         // Not considering the whole header
-        if data.len() > self.config.max_packet_size.get() {
+        // and its length prefix is a u16
+        if data.len() > self.config.max_packet_size.get() || data.len() > usize::from(u16::MAX) {
             return Err(Error::DataTooBig);
         }
 
-- 
2.43.0


From af8437eac3cfb376f24324073fbeda190629326c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:35 +0000
Subject: [PATCH 08/11] fix: feed must not list more members than its count can
 hold

With large packets and clusters the u16 number of items overflowed.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7b71311..3031af2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1433,7 +1433,8 @@ where
         // so header_len / 2 is good enough for identity_len
         let identity_len = { self.config.max_packet_size.get().saturating_sub(remaining) / 2 };
         // and we always answer at least 5, in case the estimation is bonkers
-        usize::max(remaining / identity_len, 5)
+        // and never more than what the u16 count of items can represent
+        usize::max(remaining / identity_len, 5).min(u16::MAX.into())
     }
 
     fn send_message(
-- 
2.43.0


From 34675fbd1b13bea2ee918104537bb28c63825e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:12 +0000
Subject: [PATCH 09/11] fix: a send error must not end the probe loop

probe_random_member only re-armed itself after everything else succeeded, so
a codec error while sending left the instance connected but never probing.
---
 src/lib.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3031af2..74b4323 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1143,13 +1143,15 @@ where
     }
 
     fn probe_random_member(&mut self, mut runtime: impl Runtime<T>) -> Result<()> {
-        // NEEDSWORK: A codec error may leave us in a weird state where
-        //            foca talks to the cluster normally but never
-        //            probes their peers. It's, however, unlikely to
-        //            happen as there are many attempts at
-        //            encoding/decoding members before we start probing
         debug_assert_eq!(self.connection_state, ConnectionState::Connected);
 
+        // Sending can fail, so this comes first: otherwise a codec error would
+        // leave us talking to the cluster normally but never probing it again
+        runtime.submit_after(
+            Timer::ProbeRandomMember(self.timer_token),
+            self.config.probe_period,
+        );
+
         let probe_was_incomplete = !self.probe.validate();
         if probe_was_incomplete {
             #[cfg(feature = "tracing")]
@@ -1242,11 +1244,6 @@ where
             tracing::debug!("Expected to find an active member to probe");
         }
 
-        runtime.submit_after(
-            Timer::ProbeRandomMember(self.timer_token),
-            self.config.probe_period,
-        );
-
         if probe_was_incomplete {
             Err(Error::IncompleteProbeCycle)
         } else {
-- 
2.43.0


From d273aa3ffa0a784880fef4a922e8a3fd0d4df33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:12 +0000
Subject: [PATCH 10/11] fix: stale suspicion at the maximum incarnation needs
 no refutation

An instance at Incarnation::MAX would rejoin or become defunct when hearing
about a suspicion it had already refuted.
---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 74b4323..26348f3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1610,8 +1610,9 @@ where
                 let incarnation = Incarnation::max(incarnation, self.incarnation);
 
                 // We need to rejoin the cluster when this situation happens
-                // because it will be impossible to refute suspicion
-                if incarnation == Incarnation::MAX {
+                // because it will be impossible to refute suspicion. Unless it
+                // is about an old incarnation: that's been refuted already
+                if increase_incarnation && incarnation == Incarnation::MAX {
                     if !self.attempt_rejoin(&mut runtime)? {
                         #[cfg(feature = "tracing")]
                         tracing::debug!("Inactive: reached Incarnation::MAX",);
-- 
2.43.0


From fe4ed6692c9b450f9e5f9733ce5fabf34eddb425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:00 +0000
Subject: [PATCH 11/11] fix: own address must not stay listed as an active
 member

Changing to an identity whose address was known to belong to an active
member left our own address in the member list, so it would be probed,
gossiped to and included in feeds.
---
 src/lib.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 26348f3..a59eb56 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -318,7 +318,7 @@ where
     ///
     /// Intended to be used when identities carry metadata that occasionally
     /// changes.
-    pub fn change_identity(&mut self, new_id: T, runtime: impl Runtime<T>) -> Result<()> {
+    pub fn change_identity(&mut self, new_id: T, mut runtime: impl Runtime<T>) -> Result<()> {
         if self.identity == new_id {
             Err(Error::SameIdentity)
         } else {
@@ -343,6 +343,19 @@ where
                     .add_or_replace(addr, data, self.config.max_transmissions.get().into());
             }
 
+            // When we've moved to an address that used to be of somebody else
+            // they can't be there anymore: our own address is never active
+            let replaced = self
+                .members
+                .iter_active()
+                .find(|member| member.id().addr() == self.identity.addr())
+                .map(|member| Member::new(member.id().clone(), member.incarnation(), State::Down));
+            if let Some(replaced) = replaced {
+                let is_other = replaced.id() != &self.identity;
+                let summary = self.members.apply(replaced.clone(), &mut self.rng);
+                self.handle_apply_summary(summary, replaced, is_other, &mut runtime)?;
+            }
+
             self.gossip(runtime)?;
 
             Ok(())
-- 
2.43.0

