From bf6f7d6aee2b46b21e165c9ad85d43d451be93c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 1/5] fix: Timer::set_at() and set_after() emit a single event
 after an interval

Setting an interval timer to a single instant kept the old period, so the
timer went on firing periodically.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index f771098..bd9078e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -369,8 +369,9 @@ impl Timer {
     pub fn set_at(&mut self, instant: Instant) {
         self.clear();
 
-        // Update the timeout.
+        // Update the timeout. The event is emitted only once.
         self.when = Some(instant);
+        self.period = Duration::MAX;
 
         if let Some((id, waker)) = self.id_and_waker.as_mut() {
             // Re-register the timer with the new timeout.
-- 
2.43.0


From 1cdbec6e576fa1ffb1e00a2a8111c26a48b279fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 2/5] fix: remember the waker of a timer polled while it is not
 set

A timer that was polled when it would never fire did not store the waker, so
setting it afterwards woke nobody (or the task that had polled it earlier).
---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index bd9078e..1a83fad 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -514,6 +514,13 @@ impl Stream for Timer {
                     Some(_) => {}
                 }
             }
+        } else {
+            // Nothing is registered in the reactor while the timer is not set (the ID is unused),
+            // but remember the latest waker in case the timer gets set later.
+            match &this.id_and_waker {
+                Some((_, w)) if w.will_wake(cx.waker()) => {}
+                _ => this.id_and_waker = Some((0, cx.waker().clone())),
+            }
         }
 
         Poll::Pending
-- 
2.43.0


From 0777005ff559eed68014a50f1c8b5e7b46f4ecef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:21 +0000
Subject: [PATCH 3/5] fix: forget the waker if registering interest in an I/O
 handle fails

The waker stayed behind, so later polls took the interest to be registered
already and waited for an event that never came.
---
 src/reactor.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index 474c62a..29ffafe 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -471,7 +471,12 @@ impl Source {
             };
 
             // Register interest in it.
-            self.registration.modify(&Reactor::get().poller, event)?;
+            if let Err(err) = self.registration.modify(&Reactor::get().poller, event) {
+                // Forget the waker so that a later poll tries to register interest again.
+                state[dir].waker = None;
+                state[dir].ticks = None;
+                return Poll::Ready(Err(err));
+            }
         }
 
         Poll::Pending
@@ -647,11 +652,16 @@ impl<H: Borrow<crate::Async<T>> + Clone, T> Future for Ready<H, T> {
             };
 
             // Indicate that we are interested in this event.
-            handle
+            if let Err(err) = handle
                 .borrow()
                 .source
                 .registration
-                .modify(&Reactor::get().poller, event)?;
+                .modify(&Reactor::get().poller, event)
+            {
+                // Forget the waker so that a later poll tries to register interest again.
+                state[*dir].wakers[i] = None;
+                return Poll::Ready(Err(err));
+            }
         }
 
         Poll::Pending
-- 
2.43.0


From 0001c29c1df6600e5beaa2a17aa6ef22bcbdb9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 4/5] fix: keep delivering wake-ups when re-registering
 interest fails

An error from modifying one source made react() return at once, dropping the
wakers that it had already collected for other tasks and expired timers.
---
 src/reactor.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index 29ffafe..93d5199 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -308,6 +308,8 @@ impl ReactorLock<'_> {
 
             // At least one I/O event occurred.
             Ok(_) => {
+                let mut res = Ok(());
+
                 // Iterate over sources in the event list.
                 let sources = self.reactor.sources.lock().unwrap();
 
@@ -337,12 +339,20 @@ impl ReactorLock<'_> {
                             };
 
                             // Register interest in this event.
-                            source.registration.modify(&self.reactor.poller, event)?;
+                            if let Err(err) =
+                                source.registration.modify(&self.reactor.poller, event)
+                            {
+                                // Wake the remaining tasks: they try again when polled next, and
+                                // report the error if it persists.
+                                state[WRITE].drain_into(&mut wakers);
+                                state[READ].drain_into(&mut wakers);
+                                res = res.and(Err(err));
+                            }
                         }
                     }
                 }
 
-                Ok(())
+                res
             }
 
             // The syscall was interrupted.
-- 
2.43.0


From a5966f536f7cea8d4e62bcc131bd92a8735158fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:32 +0000
Subject: [PATCH 5/5] fix: read the clock before applying queued timer
 operations

If the deadline of a timer passed after the operations had been applied but
before the clock was read, a timer dropped, rescheduled or polled with another
waker before that deadline was considered ready, and its old waker was woken.
---
 src/reactor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index 93d5199..5e6e0d9 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -208,9 +208,11 @@ impl Reactor {
         let _enter = span.enter();
 
         let mut timers = self.timers.lock().unwrap();
-        self.process_timer_ops(&mut timers);
 
+        // Read the clock before applying the queued operations: a timer that is removed before its
+        // deadline must not be considered ready because the deadline passes in between.
         let now = Instant::now();
+        self.process_timer_ops(&mut timers);
 
         // Split timers into ready and pending timers.
         //
-- 
2.43.0

