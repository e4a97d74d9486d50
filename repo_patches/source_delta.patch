From daccec109c15a46b3ed173e6c104306748dee525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:15 +0000
Subject: [PATCH 01/16] fix: do not spin on immediate timeouts when the next
 deadline is more than i32::MAX ms away

---
 src/timer/global.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/timer/global.rs b/src/timer/global.rs
index 5e183de..5aa3b76 100644
--- a/src/timer/global.rs
+++ b/src/timer/global.rs
@@ -27,6 +27,10 @@ pub(crate) fn run() -> TimerHandle {
 /// Calls `Window::setTimeout` with the given `Duration`. The callback wakes up the timer and
 /// processes everything.
 fn schedule_callback(timer: Arc<Mutex<Timer>>, when: Duration) {
+    // A host timeout is at most `i32::MAX` milliseconds. For anything later the callback will
+    // find that nothing is due yet, and schedule itself again.
+    let when = when.min(Duration::from_millis(i32::MAX as u64));
+
     let cb = move || {
         let mut timer_lock = timer.lock();
 
-- 
2.43.0


From f431855b56fd05d62e356ac8696a4e417abf2e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:00 +0000
Subject: [PATCH 02/16] fix: do not drop the wake-up for the next deadline when
 many callbacks are outstanding

With more than 20 references to the timer a callback did not schedule the
next one, although those outstanding may all be due much later.
---
 src/timer/global.rs | 60 +++++++++++++++++++++++++++++++++------------
 1 file changed, 45 insertions(+), 15 deletions(-)

diff --git a/src/timer/global.rs b/src/timer/global.rs
index 5aa3b76..a02f3e3 100644
--- a/src/timer/global.rs
+++ b/src/timer/global.rs
@@ -20,25 +20,45 @@ use crate::timer::{Timer, TimerHandle};
 pub(crate) fn run() -> TimerHandle {
     let timer = Timer::new();
     let handle = timer.handle();
-    schedule_callback(Arc::new(Mutex::new(timer)), Duration::new(0, 0));
+    let driver = Driver {
+        timer: Mutex::new(timer),
+        outstanding: Mutex::new(Vec::new()),
+    };
+    schedule_callback(Arc::new(driver), Duration::new(0, 0));
     handle
 }
 
+struct Driver {
+    timer: Mutex<Timer>,
+
+    /// When (by the host's clock) the callbacks that have not run yet are due.
+    outstanding: Mutex<Vec<Instant>>,
+}
+
 /// Calls `Window::setTimeout` with the given `Duration`. The callback wakes up the timer and
 /// processes everything.
-fn schedule_callback(timer: Arc<Mutex<Timer>>, when: Duration) {
+fn schedule_callback(driver: Arc<Driver>, when: Duration) {
     // A host timeout is at most `i32::MAX` milliseconds. For anything later the callback will
     // find that nothing is due yet, and schedule itself again.
     let when = when.min(Duration::from_millis(i32::MAX as u64));
 
+    let due = Instant::now_js() + when;
+    driver.outstanding.lock().push(due);
+
     let cb = move || {
-        let mut timer_lock = timer.lock();
+        let mut timer_lock = driver.timer.lock();
+
+        let mut outstanding = driver.outstanding.lock();
+        if let Some(index) = outstanding.iter().position(|d| *d == due) {
+            outstanding.swap_remove(index);
+        }
+        drop(outstanding);
 
         // We start by polling the timer. If any new `Delay` is created, the waker will be used
         // to wake up this task pre-emptively. As such, we pass a `Waker` that calls
         // `schedule_callback` with a delay of `0`.
         let waker = task::waker(Arc::new(Waker {
-            timer: timer.clone(),
+            driver: driver.clone(),
         }));
         let _ = Future::poll(Pin::new(&mut *timer_lock), &mut Context::from_waker(&waker));
 
@@ -46,14 +66,6 @@ fn schedule_callback(timer: Arc<Mutex<Timer>>, when: Duration) {
         let now = Instant::now();
         timer_lock.advance_to(now);
 
-        // Each call to `schedule_callback` calls `schedule_callback` again, but also leaves
-        // the possibility for `schedule_callback` to be called in parallel. Since we don't
-        // want too many useless callbacks, we...
-        // TODO: ugh, that's a hack
-        if Arc::strong_count(&timer) > 20 {
-            return;
-        }
-
         // We call `schedule_callback` again for the next event.
         let sleep_dur = timer_lock
             .next_event()
@@ -67,7 +79,25 @@ fn schedule_callback(timer: Arc<Mutex<Timer>>, when: Duration) {
             .unwrap_or(Duration::from_secs(5));
         drop(timer_lock);
 
-        schedule_callback(timer, sleep_dur);
+        // While the clock is paused no time passes: `advance` and `resume` wake up the timer.
+        #[cfg(feature = "tokio-test-util")]
+        if super::clock::clock().paused() {
+            return;
+        }
+
+        // Each call to `schedule_callback` calls `schedule_callback` again, but also leaves
+        // the possibility for `schedule_callback` to be called in parallel. Since we don't
+        // want too many useless callbacks, we rely on one that is still to come if it comes
+        // early enough, to the precision of the host's timeouts.
+        let next = Instant::now_js()
+            .checked_add(sleep_dur)
+            .and_then(|next| next.checked_add(Duration::from_millis(1)));
+        let in_time = |d: &Instant| next.map_or(true, |next| *d <= next);
+        if driver.outstanding.lock().iter().any(in_time) {
+            return;
+        }
+
+        schedule_callback(driver, sleep_dur);
     };
 
     #[cfg(feature = "tokio-test-util")]
@@ -90,11 +120,11 @@ fn schedule_callback(timer: Arc<Mutex<Timer>>, when: Duration) {
 }
 
 struct Waker {
-    timer: Arc<Mutex<Timer>>,
+    driver: Arc<Driver>,
 }
 
 impl ArcWake for Waker {
     fn wake_by_ref(arc_self: &Arc<Self>) {
-        schedule_callback(arc_self.timer.clone(), Duration::new(0, 0));
+        schedule_callback(arc_self.driver.clone(), Duration::new(0, 0));
     }
 }
-- 
2.43.0


From 937406900727910cf1bfa945426b949e7d642c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:57 +0000
Subject: [PATCH 03/16] fix: accept sleep durations and interval periods too
 long for an Instant

They panicked with an overflow when the deadline was computed.
---
 src/std.rs            |  6 ++++++
 src/tokio/interval.rs | 16 +++++++++++-----
 src/tokio/sleep.rs    |  3 ++-
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/std.rs b/src/std.rs
index c63b8c4..38858f5 100644
--- a/src/std.rs
+++ b/src/std.rs
@@ -66,6 +66,12 @@ impl Instant {
         Instant(Duration::from_micros(val))
     }
 
+    /// A deadline that is never reached, for timers whose duration does not fit an `Instant`.
+    #[cfg(feature = "tokio")]
+    pub(crate) fn far_future() -> Instant {
+        Instant::now() + Duration::from_secs(86400 * 365 * 30)
+    }
+
     pub fn duration_since(&self, earlier: Instant) -> Duration {
         self.checked_duration_since(earlier).unwrap_or_default()
     }
diff --git a/src/tokio/interval.rs b/src/tokio/interval.rs
index d872e39..c0e110d 100644
--- a/src/tokio/interval.rs
+++ b/src/tokio/interval.rs
@@ -67,7 +67,7 @@ impl Interval {
             self.missed_tick_behavior
                 .next_timeout(timeout, now, self.interval)
         } else {
-            timeout + self.interval
+            after(timeout, self.interval)
         };
 
         Pin::new(&mut self.sleep).reset(next);
@@ -75,7 +75,7 @@ impl Interval {
     }
 
     pub fn reset(&mut self) {
-        Pin::new(&mut self.sleep).reset(Instant::now() + self.interval);
+        Pin::new(&mut self.sleep).reset(after(Instant::now(), self.interval));
     }
 
     /// Returns the [`MissedTickBehavior`] strategy currently being used.
@@ -106,10 +106,10 @@ impl MissedTickBehavior {
     /// If a tick is missed, this method is called to determine when the next tick should happen.
     fn next_timeout(&self, timeout: Instant, now: Instant, period: Duration) -> Instant {
         match self {
-            Self::Burst => timeout + period,
-            Self::Delay => now + period,
+            Self::Burst => after(timeout, period),
+            Self::Delay => after(now, period),
             Self::Skip => {
-                now + period
+                after(now, period)
                     - Duration::from_nanos(
                         ((now - timeout).as_nanos() % period.as_nanos())
                             .try_into()
@@ -129,6 +129,12 @@ impl MissedTickBehavior {
     }
 }
 
+/// The instant one period after `from`, however long the period.
+fn after(from: Instant, period: Duration) -> Instant {
+    from.checked_add(period)
+        .unwrap_or_else(Instant::far_future)
+}
+
 pub fn interval(period: Duration) -> Interval {
     Interval::new(period)
 }
diff --git a/src/tokio/sleep.rs b/src/tokio/sleep.rs
index a54a039..216f39c 100644
--- a/src/tokio/sleep.rs
+++ b/src/tokio/sleep.rs
@@ -23,7 +23,8 @@ impl Sleep {
     /// The default timer will be spun up in a helper thread on first use.
     #[inline]
     pub(crate) fn new(dur: Duration) -> Sleep {
-        Sleep::new_at(Instant::now() + dur)
+        let at = Instant::now().checked_add(dur);
+        Sleep::new_at(at.unwrap_or_else(Instant::far_future))
     }
 
     /// Creates a new future which will fire at the time specified by `at`.
-- 
2.43.0


From eb713cc83eb525ab180f224c723b31e893b87ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:30 +0000
Subject: [PATCH 04/16] fix: report the end of an empty delay queue instead of
 waiting for a stale delay

---
 src/tokio_util/delay_queue.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index cb680a5..109a8f7 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -461,6 +461,12 @@ impl<T> DelayQueue<T> {
             return Poll::Ready(expired);
         }
 
+        // The delay may outlive the entries it was armed for.
+        if self.slab.is_empty() {
+            self.delay = None;
+            return Poll::Ready(None);
+        }
+
         loop {
             if let Some(ref mut delay) = self.delay {
                 if !delay.is_elapsed() {
-- 
2.43.0


From bb9df09d0356eaf62a8299416fdb10d62f9d3844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:30 +0000
Subject: [PATCH 05/16] fix: wake the delay queue's task when an entry is reset
 to an elapsed deadline

---
 src/tokio_util/delay_queue.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index 109a8f7..ca14b0b 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -403,6 +403,13 @@ impl<T> DelayQueue<T> {
             // This should awaken us if necessary (ie, if already expired)
             delay.as_mut().reset(deadline);
         }
+
+        // An already expired entry is not in the wheel, so no delay covers it
+        if self.slab[*key].expired {
+            if let Some(waker) = self.waker.take() {
+                waker.wake();
+            }
+        }
     }
 
     pub fn shrink_to_fit(&mut self) {
-- 
2.43.0


From 433189b4e2fc2f4c11f59ddd5b757e6ba36b2d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:10 +0000
Subject: [PATCH 06/16] fix: arm the delay queue's delay when an entry is reset
 while none is armed

---
 src/tokio_util/delay_queue.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index ca14b0b..24b1a25 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -399,9 +399,11 @@ impl<T> DelayQueue<T> {
         self.insert_idx(when, *key);
 
         let next_deadline = self.next_deadline();
-        if let (Some(ref mut delay), Some(deadline)) = (&mut self.delay, next_deadline) {
+        match (&mut self.delay, next_deadline) {
             // This should awaken us if necessary (ie, if already expired)
-            delay.as_mut().reset(deadline);
+            (Some(delay), Some(deadline)) => delay.as_mut().reset(deadline),
+            (None, Some(deadline)) => self.delay = Some(Box::pin(sleep_until(deadline))),
+            (_, None) => {}
         }
 
         // An already expired entry is not in the wheel, so no delay covers it
-- 
2.43.0


From 2d62f60d6cda1cf547da1c2c757d954aa9ff71dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:12 +0000
Subject: [PATCH 07/16] fix: do not overflow a 32-bit usize when looking for
 the next occupied slot

---
 src/tokio_util/wheel/level.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokio_util/wheel/level.rs b/src/tokio_util/wheel/level.rs
index 6427440..5147d30 100644
--- a/src/tokio_util/wheel/level.rs
+++ b/src/tokio_util/wheel/level.rs
@@ -165,7 +165,7 @@ impl<T: Stack> Level<T> {
         }
 
         // Get the slot for now using Maths
-        let now_slot = (now / slot_range(self.level)) as usize;
+        let now_slot = ((now / slot_range(self.level)) % LEVEL_MULT as u64) as usize;
         let occupied = self.occupied.rotate_right(now_slot as u32);
         let zeros = occupied.trailing_zeros() as usize;
         let slot = (zeros + now_slot) % 64;
-- 
2.43.0


From f6a539c945806f1e59055d5f990c57cd54fc95dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:17 +0000
Subject: [PATCH 08/16] fix: keep delay queues working when their age crosses
 the range of the timer wheel

---
 src/tokio_util/wheel/level.rs | 17 ++++++++++++++---
 src/tokio_util/wheel/mod.rs   |  5 ++++-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/tokio_util/wheel/level.rs b/src/tokio_util/wheel/level.rs
index 5147d30..89efd56 100644
--- a/src/tokio_util/wheel/level.rs
+++ b/src/tokio_util/wheel/level.rs
@@ -140,7 +140,14 @@ impl<T: Stack> Level<T> {
 
         // TODO: This can probably be simplified w/ power of 2 math
         let level_start = now - (now % level_range);
-        let deadline = level_start + slot as u64 * slot_range;
+        let mut deadline = level_start + slot as u64 * slot_range;
+
+        if deadline < now {
+            // The top level is used as a ring: a slot behind the current time
+            // holds entries of the next rotation.
+            debug_assert_eq!(self.level, super::NUM_LEVELS - 1);
+            deadline += level_range;
+        }
 
         debug_assert!(
             deadline >= now,
@@ -166,9 +173,13 @@ impl<T: Stack> Level<T> {
 
         // Get the slot for now using Maths
         let now_slot = ((now / slot_range(self.level)) % LEVEL_MULT as u64) as usize;
-        let occupied = self.occupied.rotate_right(now_slot as u32);
+        // Once its start has passed, the current slot can only hold entries of the
+        // next rotation, which come after those of all other slots
+        let passed = now % slot_range(self.level) != 0;
+        let first_slot = now_slot + passed as usize;
+        let occupied = self.occupied.rotate_right(first_slot as u32);
         let zeros = occupied.trailing_zeros() as usize;
-        let slot = (zeros + now_slot) % 64;
+        let slot = (zeros + first_slot) % 64;
 
         Some(slot)
     }
diff --git a/src/tokio_util/wheel/mod.rs b/src/tokio_util/wheel/mod.rs
index 82f59c4..c288c3c 100644
--- a/src/tokio_util/wheel/mod.rs
+++ b/src/tokio_util/wheel/mod.rs
@@ -6,6 +6,7 @@ mod stack;
 pub(crate) use self::stack::Stack;
 
 use std::borrow::Borrow;
+use std::cmp;
 use std::fmt::Debug;
 
 #[derive(Debug)]
@@ -197,7 +198,9 @@ fn level_for(elapsed: u64, when: u64) -> usize {
 
     let leading_zeros = masked.leading_zeros() as usize;
     let significant = 63 - leading_zeros;
-    significant / 6
+    // Entries beyond the current rotation of the top level go to the top level,
+    // which is used as a ring
+    cmp::min(significant / 6, NUM_LEVELS - 1)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 8fa046e3e90c0b49abbcc714a38d381cd3fd3cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:49 +0000
Subject: [PATCH 09/16] fix: do not yield delay queue entries one millisecond
 early with the test utilities

---
 src/tokio_util/delay_queue.rs | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index 24b1a25..c3d13ae 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -484,18 +484,7 @@ impl<T> DelayQueue<T> {
 
                 let now = super::ms(delay.deadline() - self.start, super::Round::Down);
 
-                #[cfg(feature = "tokio-test-util")]
-                {
-                    // +1 here is a tricky way to avoid infinite loop
-                    // in tokio the auto advance feature will always advances time to next time
-                    // event and prevent the infinite loop. But this crate doesn't support auto
-                    // advancing and it will lead this loop to run till infinity.
-                    self.wheel_now = now + 1;
-                }
-                #[cfg(not(feature = "tokio-test-util"))]
-                {
-                    self.wheel_now = now;
-                }
+                self.wheel_now = now;
             }
 
             // We poll the wheel to get the next value out before finding the next deadline.
-- 
2.43.0


From 1bbaa9f0d419531bd5d723a8b6dab91a8708498f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:38 +0000
Subject: [PATCH 10/16] fix: do not lock the running timer again when a waker
 uses timers while the clock is paused

---
 src/timer/global.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/timer/global.rs b/src/timer/global.rs
index a02f3e3..9a55c1e 100644
--- a/src/timer/global.rs
+++ b/src/timer/global.rs
@@ -45,6 +45,11 @@ fn schedule_callback(driver: Arc<Driver>, when: Duration) {
     let due = Instant::now_js() + when;
     driver.outstanding.lock().push(due);
 
+    // While the clock is paused no host timeout is waited for, except by what a task's waker does
+    // with timers while the timer itself is running.
+    #[cfg(feature = "tokio-test-util")]
+    let run_now = super::clock::clock().paused() && !driver.timer.is_locked();
+
     let cb = move || {
         let mut timer_lock = driver.timer.lock();
 
@@ -101,7 +106,7 @@ fn schedule_callback(driver: Arc<Driver>, when: Duration) {
     };
 
     #[cfg(feature = "tokio-test-util")]
-    if super::clock::clock().paused() {
+    if run_now {
         cb();
     } else {
         let _ = set_timeout(
-- 
2.43.0


From 661c8de7d386fb06980f575bc6b52eb8ec3ca91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:23 +0000
Subject: [PATCH 11/16] fix: never pair a sleep's superseded deadline with its
 new generation

---
 src/timer/mod.rs   | 8 +++++---
 src/tokio/sleep.rs | 3 ++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/timer/mod.rs b/src/timer/mod.rs
index f2a3f30..55bbf60 100644
--- a/src/timer/mod.rs
+++ b/src/timer/mod.rs
@@ -374,11 +374,10 @@ impl Timer {
 
     /// Either updates the timer at slot `idx` to fire at `at`, or adds a new
     /// timer at `idx` and sets it to fire at `at`.
-    fn update_or_add(&mut self, at: Instant, node: Arc<Node<ScheduledTimer>>) {
+    fn update_or_add(&mut self, at: Instant, gen: usize, node: Arc<Node<ScheduledTimer>>) {
         // TODO: avoid remove + push and instead just do one sift of the heap?
         // In theory we could update it in place and then do the percolation
         // as necessary
-        let gen = node.state.load(SeqCst) >> 2;
         let mut slot = node.slot.lock().unwrap();
         if let Some(heap_slot) = slot.take() {
             self.timer_heap.remove(heap_slot);
@@ -414,9 +413,12 @@ impl Future for Timer {
         Pin::new(&mut self.inner).waker.register(cx.waker());
         let mut list = self.inner.list.take();
         while let Some(node) = list.pop() {
+            // A reset on another thread stores the deadline before it moves on to the next
+            // generation. In this order a new generation never comes with an old deadline.
+            let gen = node.state.load(SeqCst) >> 2;
             let at = *node.at.lock().unwrap();
             match at {
-                Some(at) => self.update_or_add(at, node),
+                Some(at) => self.update_or_add(at, gen, node),
                 None => self.remove(node),
             }
         }
diff --git a/src/tokio/sleep.rs b/src/tokio/sleep.rs
index 216f39c..b904fca 100644
--- a/src/tokio/sleep.rs
+++ b/src/tokio/sleep.rs
@@ -121,6 +121,8 @@ impl Sleep {
             None => return Err(()),
         };
         if let Some(timeouts) = state.inner.upgrade() {
+            // The deadline goes first: see where the timer processes its updates.
+            *state.at.lock().unwrap() = Some(at);
             let mut bits = state.state.load(Ordering::SeqCst);
             loop {
                 // If we've been invalidated, cancel this reset
@@ -136,7 +138,6 @@ impl Sleep {
                     Err(s) => bits = s,
                 }
             }
-            *state.at.lock().unwrap() = Some(at);
             // If we fail to push our node then we've become an inert timer, so
             // we'll want to clear our `state` field accordingly
             timeouts.list.push(state)?;
-- 
2.43.0


From 01d5efbe02b984494410003163dd2e764f7958b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:56 +0000
Subject: [PATCH 12/16] fix: do not panic when threads race for the first use
 of the mock clock

---
 src/timer/clock.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/timer/clock.rs b/src/timer/clock.rs
index 91f5bad..f0154fc 100644
--- a/src/timer/clock.rs
+++ b/src/timer/clock.rs
@@ -10,10 +10,14 @@ pub(crate) fn clock() -> Clock {
     let mut clock = CLOCK.load(std::sync::atomic::Ordering::SeqCst);
 
     if clock == EMPTY_CLOCK {
-        let clock_new = Clock::new(false);
-        CLOCK
-            .compare_exchange(EMPTY_CLOCK, clock_new.into_raw(), SeqCst, SeqCst)
-            .unwrap();
+        let clock_new = Clock::new(false).into_raw();
+        if CLOCK
+            .compare_exchange(EMPTY_CLOCK, clock_new, SeqCst, SeqCst)
+            .is_err()
+        {
+            // Another thread was first.
+            drop(unsafe { Clock::from_raw(clock_new) });
+        }
         clock = CLOCK.load(SeqCst);
     }
 
-- 
2.43.0


From d4de9b657d067af38194936dfd350da5156ac658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 13/16] fix: wake the delay queue's task when removals or clear
 leave the queue empty

---
 src/tokio_util/delay_queue.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index c3d13ae..73aef49 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -371,6 +371,8 @@ impl<T> DelayQueue<T> {
             }
         }
 
+        self.wake_if_empty();
+
         Expired {
             key: Key::new(key.index),
             data: data.inner,
@@ -438,6 +440,16 @@ impl<T> DelayQueue<T> {
         self.expired = Stack::default();
         self.wheel = Wheel::new();
         self.delay = None;
+        self.wake_if_empty();
+    }
+
+    /// A task that waits for an entry finds the end of the stream instead.
+    fn wake_if_empty(&mut self) {
+        if self.slab.is_empty() {
+            if let Some(waker) = self.waker.take() {
+                waker.wake();
+            }
+        }
     }
 
     pub fn capacity(&self) -> usize {
-- 
2.43.0


From 523720cc4583f6a0b622d981cd31bff93be9df35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:40 +0000
Subject: [PATCH 14/16] fix: timers made just before the clock is paused fire
 with the first advance

With tokio-test-util, waking the driver took its waker until the scheduled
callback had run. A pause or an advance before that found no waker, and the
timers that had become due were not fired by the time the advance returned.
The driver now stays registered for the wake-ups until its callback runs.
---
 src/timer/global.rs | 56 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 6 deletions(-)

diff --git a/src/timer/global.rs b/src/timer/global.rs
index 9a55c1e..61c0add 100644
--- a/src/timer/global.rs
+++ b/src/timer/global.rs
@@ -3,6 +3,8 @@ use parking_lot::Mutex;
 use std::convert::TryFrom;
 use std::future::Future;
 use std::pin::Pin;
+#[cfg(feature = "tokio-test-util")]
+use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
 use std::sync::Arc;
 use std::task::Context;
 use std::time::Duration;
@@ -20,11 +22,17 @@ use crate::timer::{Timer, TimerHandle};
 pub(crate) fn run() -> TimerHandle {
     let timer = Timer::new();
     let handle = timer.handle();
-    let driver = Driver {
+    let driver = Arc::new(Driver {
         timer: Mutex::new(timer),
         outstanding: Mutex::new(Vec::new()),
-    };
-    schedule_callback(Arc::new(driver), Duration::new(0, 0));
+        #[cfg(feature = "tokio-test-util")]
+        handle: handle.clone(),
+        #[cfg(feature = "tokio-test-util")]
+        woken: AtomicBool::new(true),
+    });
+    #[cfg(feature = "tokio-test-util")]
+    driver.keep_waker();
+    schedule_callback(driver, Duration::new(0, 0));
     handle
 }
 
@@ -33,6 +41,32 @@ struct Driver {
 
     /// When (by the host's clock) the callbacks that have not run yet are due.
     outstanding: Mutex<Vec<Instant>>,
+
+    #[cfg(feature = "tokio-test-util")]
+    handle: TimerHandle,
+
+    /// Whether a callback is still to come for a wake-up that has happened.
+    #[cfg(feature = "tokio-test-util")]
+    woken: AtomicBool,
+}
+
+#[cfg(feature = "tokio-test-util")]
+impl Driver {
+    /// Has the timer wake up the driver again before its callback has run: when the clock is
+    /// paused or moved in the meantime, the callback is not waited for.
+    fn keep_waker(self: &Arc<Self>) {
+        if let Some(inner) = self.handle.inner.upgrade() {
+            inner.waker.register(&task::waker(Arc::new(Waker {
+                driver: self.clone(),
+            })));
+        }
+    }
+
+    /// While the clock is paused no host timeout is waited for, except by what a task's waker
+    /// does with timers while the timer itself is running.
+    fn run_now(&self) -> bool {
+        super::clock::clock().paused() && !self.timer.is_locked()
+    }
 }
 
 /// Calls `Window::setTimeout` with the given `Duration`. The callback wakes up the timer and
@@ -45,10 +79,8 @@ fn schedule_callback(driver: Arc<Driver>, when: Duration) {
     let due = Instant::now_js() + when;
     driver.outstanding.lock().push(due);
 
-    // While the clock is paused no host timeout is waited for, except by what a task's waker does
-    // with timers while the timer itself is running.
     #[cfg(feature = "tokio-test-util")]
-    let run_now = super::clock::clock().paused() && !driver.timer.is_locked();
+    let run_now = driver.run_now();
 
     let cb = move || {
         let mut timer_lock = driver.timer.lock();
@@ -59,6 +91,9 @@ fn schedule_callback(driver: Arc<Driver>, when: Duration) {
         }
         drop(outstanding);
 
+        #[cfg(feature = "tokio-test-util")]
+        driver.woken.store(false, SeqCst);
+
         // We start by polling the timer. If any new `Delay` is created, the waker will be used
         // to wake up this task pre-emptively. As such, we pass a `Waker` that calls
         // `schedule_callback` with a delay of `0`.
@@ -130,6 +165,15 @@ struct Waker {
 
 impl ArcWake for Waker {
     fn wake_by_ref(arc_self: &Arc<Self>) {
+        #[cfg(feature = "tokio-test-util")]
+        {
+            let driver = &arc_self.driver;
+            driver.keep_waker();
+            if !driver.run_now() && driver.woken.swap(true, SeqCst) {
+                return;
+            }
+        }
+
         schedule_callback(arc_self.driver.clone(), Duration::new(0, 0));
     }
 }
-- 
2.43.0


From 722ca328aba940400fcf166c63e9e2d3b178e431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:49 +0000
Subject: [PATCH 15/16] fix: do not divide by zero when an interval without a
 period skips missed ticks

---
 src/tokio/interval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokio/interval.rs b/src/tokio/interval.rs
index c0e110d..b04da4c 100644
--- a/src/tokio/interval.rs
+++ b/src/tokio/interval.rs
@@ -111,7 +111,7 @@ impl MissedTickBehavior {
             Self::Skip => {
                 after(now, period)
                     - Duration::from_nanos(
-                        ((now - timeout).as_nanos() % period.as_nanos())
+                        ((now - timeout).as_nanos() % period.as_nanos().max(1))
                             .try_into()
                             // This operation is practically guaranteed not to
                             // fail, as in order for it to fail, `period` would
-- 
2.43.0


From 9ff64eade1d4a2aebfefcbe7e06957444650d89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:22 +0000
Subject: [PATCH 16/16] fix: wake the delay queue's task when an item is
 inserted that is already due

---
 src/tokio_util/delay_queue.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index 73aef49..4f68e85 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -282,11 +282,15 @@ impl<T> DelayQueue<T> {
             true
         };
 
-        if should_set_delay {
+        // An expired item is there for the next poll. The delay is not relied on for it, as it
+        // may be set to the next deadline before it elapses
+        if should_set_delay || self.slab[key].expired {
             if let Some(waker) = self.waker.take() {
                 waker.wake();
             }
+        }
 
+        if should_set_delay {
             let delay_time = self.start + Duration::from_millis(when);
             if let Some(ref mut delay) = &mut self.delay {
                 delay.as_mut().reset(delay_time);
-- 
2.43.0

