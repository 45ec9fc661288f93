From 266ad3c0af0c99a1c614509a23cf62624474b481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:34 +0000
Subject: [PATCH 01/18] fix: wake the other handles when a shared future panics

If the inner future of a Shared panicked in poll, the handle that polled it
propagated the panic and marked the future as poisoned, but handles already
waiting for it were never woken and hung forever.
---
 futures-util/src/future/future/shared.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/futures-util/src/future/future/shared.rs b/futures-util/src/future/future/shared.rs
index 6d1b7c5..f570d32 100644
--- a/futures-util/src/future/future/shared.rs
+++ b/futures-util/src/future/future/shared.rs
@@ -313,19 +313,22 @@ where
         let mut cx = Context::from_waker(&waker);
 
         struct Reset<'a> {
-            state: &'a AtomicUsize,
+            notifier: &'a Arc<Notifier>,
             did_not_panic: bool,
         }
 
         impl Drop for Reset<'_> {
             fn drop(&mut self) {
                 if !self.did_not_panic {
-                    self.state.store(POISONED, SeqCst);
+                    self.notifier.state.store(POISONED, SeqCst);
+                    // The inner future will never wake the other handles now, so
+                    // let them find out that it panicked.
+                    ArcWake::wake_by_ref(self.notifier);
                 }
             }
         }
 
-        let mut reset = Reset { state: &inner.notifier.state, did_not_panic: false };
+        let mut reset = Reset { notifier: &inner.notifier, did_not_panic: false };
 
         let output = {
             let future = unsafe {
-- 
2.43.0


From 676e0c604cb97b6bf913eee1f07d60b7fbf82159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:34 +0000
Subject: [PATCH 02/18] fix: don't strand handles of a shared future when a
 notified handle is dropped

If the inner future is woken while handle A is polling it, A's waker is taken
and A is expected to poll again. Handle B that registers its waker after that
wake-up, but while A is still polling, returns Pending without polling. If A is
then dropped instead of being polled again, nobody polls the inner future
although it was woken, and B hangs.
---
 futures-util/src/future/future/shared.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/futures-util/src/future/future/shared.rs b/futures-util/src/future/future/shared.rs
index f570d32..174d2c1 100644
--- a/futures-util/src/future/future/shared.rs
+++ b/futures-util/src/future/future/shared.rs
@@ -398,15 +398,19 @@ where
     fn drop(&mut self) {
         if self.waker_key != NULL_WAKER_KEY {
             if let Some(ref inner) = self.inner {
+                // If our waker is gone, the inner future was woken after we last
+                // polled, and we were supposed to poll it again. A handle that
+                // registered since then (while we were polling) relies on us for
+                // that, so pass the notification on.
                 #[cfg(feature = "std")]
-                if let Ok(mut wakers) = inner.notifier.wakers.lock() {
-                    if let Some(wakers) = wakers.as_mut() {
-                        wakers.remove(self.waker_key);
-                    }
-                }
+                let was_notified = inner.notifier.wakers.lock().is_ok_and(|mut wakers| {
+                    wakers.as_mut().is_some_and(|wakers| wakers.remove(self.waker_key).is_none())
+                });
                 #[cfg(not(feature = "std"))]
-                if let Some(wakers) = inner.notifier.wakers.lock().as_mut() {
-                    wakers.remove(self.waker_key);
+                let was_notified = (inner.notifier.wakers.lock().as_mut())
+                    .is_some_and(|wakers| wakers.remove(self.waker_key).is_none());
+                if was_notified {
+                    ArcWake::wake_by_ref(&inner.notifier);
                 }
             }
         }
-- 
2.43.0


From 51b42376f949f6d7cd715b25cc73420341388081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:51 +0000
Subject: [PATCH 03/18] fix: don't miss ready futures while a waker is being
 enqueued

When another thread had swapped the head of the ready-to-run queue but not
linked its task yet, dequeue reported the queue as empty, even if further
tasks had been enqueued behind it. LocalPool::run_until_stalled and
try_run_one then returned without polling tasks that were ready to run.
---
 .../src/stream/futures_unordered/mod.rs         | 17 ++++++++---------
 .../futures_unordered/ready_to_run_queue.rs     |  6 ++++++
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/futures-util/src/stream/futures_unordered/mod.rs b/futures-util/src/stream/futures_unordered/mod.rs
index b40b894..6714e7d 100644
--- a/futures-util/src/stream/futures_unordered/mod.rs
+++ b/futures-util/src/stream/futures_unordered/mod.rs
@@ -426,16 +426,15 @@ impl<Fut: Future> Stream for FuturesUnordered<Fut> {
             // Safety: &mut self guarantees the mutual exclusion `dequeue`
             // expects
             let task = match unsafe { self.ready_to_run_queue.dequeue() } {
-                Dequeue::Empty => {
-                    if self.is_empty() {
-                        // We can only consider ourselves terminated once we
-                        // have yielded a `None`
-                        *self.is_terminated.get_mut() = true;
-                        return Poll::Ready(None);
-                    } else {
-                        return Poll::Pending;
-                    }
+                // Whatever a waker is still enqueueing has no future anymore if
+                // the set is empty.
+                Dequeue::Empty | Dequeue::Inconsistent if self.is_empty() => {
+                    // We can only consider ourselves terminated once we
+                    // have yielded a `None`
+                    *self.is_terminated.get_mut() = true;
+                    return Poll::Ready(None);
                 }
+                Dequeue::Empty => return Poll::Pending,
                 Dequeue::Inconsistent => {
                     // At this point, it may be worth yielding the thread &
                     // spinning a few times... but for now, just yield using the
diff --git a/futures-util/src/stream/futures_unordered/ready_to_run_queue.rs b/futures-util/src/stream/futures_unordered/ready_to_run_queue.rs
index cfd3965..3aa822b 100644
--- a/futures-util/src/stream/futures_unordered/ready_to_run_queue.rs
+++ b/futures-util/src/stream/futures_unordered/ready_to_run_queue.rs
@@ -58,6 +58,12 @@ impl<Fut> ReadyToRunQueue<Fut> {
 
             if tail == self.stub() {
                 if next.is_null() {
+                    // An enqueuer that has swapped the head but not linked its
+                    // task yet hides every task enqueued after it, so the queue
+                    // is only empty if the stub is the head as well.
+                    if !core::ptr::eq(self.head.load(Acquire), tail) {
+                        return Dequeue::Inconsistent;
+                    }
                     return Dequeue::Empty;
                 }
 
-- 
2.43.0


From 6b787cbac9195a7933b98b30ae95b2ba87dff9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:41 +0000
Subject: [PATCH 04/18] fix: keep thread pool workers alive when a task panics

A panicking task unwound its worker thread, so that the pool lost a thread
for good and, once all were gone, never ran any other task again.
---
 futures-executor/src/thread_pool.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/futures-executor/src/thread_pool.rs b/futures-executor/src/thread_pool.rs
index b9cfd92..606282b 100644
--- a/futures-executor/src/thread_pool.rs
+++ b/futures-executor/src/thread_pool.rs
@@ -5,6 +5,7 @@ use core::{
 };
 use std::{
     io,
+    panic::{self, AssertUnwindSafe},
     sync::{Mutex, mpsc},
     thread,
 };
@@ -158,7 +159,10 @@ impl PoolState {
         loop {
             let msg = self.rx.lock().unwrap().recv().unwrap();
             match msg {
-                Message::Run(task) => task.run(),
+                // A task that panics is done, but this thread has other tasks to run.
+                Message::Run(task) => {
+                    let _ = panic::catch_unwind(AssertUnwindSafe(|| task.run()));
+                }
                 Message::Close => break,
             }
         }
-- 
2.43.0


From 83b06f8c26d9f2740e357b05a74324d53b9afe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:27 +0000
Subject: [PATCH 05/18] fix: make thread pool notifications that coincide
 visible to the repoll

A notification that found its task already marked for polling, or that was
cleared by start_poll, did not synchronize with the following poll, which
could therefore miss the event it announced and wait forever.
---
 futures-executor/src/unpark_mutex.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/futures-executor/src/unpark_mutex.rs b/futures-executor/src/unpark_mutex.rs
index ffe79d2..8fb5350 100644
--- a/futures-executor/src/unpark_mutex.rs
+++ b/futures-executor/src/unpark_mutex.rs
@@ -78,14 +78,17 @@ impl<D> UnparkMutex<D> {
                 }
 
                 // The task is being polled, so we need to record that it should
-                // be *repolled* when complete.
-                POLLING => match self.status.compare_exchange(POLLING, REPOLL, SeqCst, SeqCst) {
-                    Ok(_) => return Err(()),
-                    Err(cur) => status = cur,
-                },
-
-                // The task is already scheduled for polling, or is complete, so
-                // we've got nothing to do.
+                // be *repolled* when complete. If that is recorded already,
+                // write it again, so that the repoll sees everything that
+                // happened before this notification too.
+                POLLING | REPOLL => {
+                    match self.status.compare_exchange(status, REPOLL, SeqCst, SeqCst) {
+                        Ok(_) => return Err(()),
+                        Err(cur) => status = cur,
+                    }
+                }
+
+                // The task is complete, so we've got nothing to do.
                 _ => return Err(()),
             }
         }
@@ -99,7 +102,9 @@ impl<D> UnparkMutex<D> {
     /// Callable only from the `POLLING`/`REPOLL` states, i.e. between
     /// successful calls to `notify` and `wait`/`complete`.
     pub(crate) unsafe fn start_poll(&self) {
-        self.status.store(POLLING, SeqCst);
+        // A swap rather than a store, to synchronize with the notifications
+        // that are cleared.
+        self.status.swap(POLLING, SeqCst);
     }
 
     /// Alert the mutex that polling completed with `Pending`.
@@ -119,7 +124,7 @@ impl<D> UnparkMutex<D> {
             // state and run again.
             Err(status) => {
                 assert_eq!(status, REPOLL);
-                self.status.store(POLLING, SeqCst);
+                self.status.swap(POLLING, SeqCst);
                 Err(unsafe { (*self.inner.get()).take().unwrap() })
             }
         }
-- 
2.43.0


From 787019ac59d72fde945cf3ecd00dc3ed7019fa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:29 +0000
Subject: [PATCH 06/18] fix: don't overstate the size hint of scan

The closure may end the stream before the input does, so there is no lower
bound, and the item a pending future was made from may still be yielded.
---
 futures-util/src/stream/stream/scan.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/stream/stream/scan.rs b/futures-util/src/stream/stream/scan.rs
index b3623b7..b459302 100644
--- a/futures-util/src/stream/stream/scan.rs
+++ b/futures-util/src/stream/stream/scan.rs
@@ -100,7 +100,14 @@ where
         if self.is_done_taking() {
             (0, Some(0))
         } else {
-            self.stream.size_hint() // can't know a lower bound, due to the predicate
+            // The item the pending future was made from may still be yielded.
+            let pending_len = usize::from(self.state.is_future());
+            let (_, upper) = self.stream.size_hint();
+            let upper = match upper {
+                Some(x) => x.checked_add(pending_len),
+                None => None,
+            };
+            (0, upper) // can't know a lower bound, due to the predicate
         }
     }
 }
-- 
2.43.0


From 08ec0ab6e9eda09fcfd38e8a741fc4038de15675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:58 +0000
Subject: [PATCH 07/18] fix: drop the item whose predicate failed in
 try_take_while and try_skip_while

It was kept until the next item arrived, so at the end of the input the
stream still reported that it had not terminated.
---
 futures-util/src/stream/try_stream/try_skip_while.rs | 2 +-
 futures-util/src/stream/try_stream/try_take_while.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/futures-util/src/stream/try_stream/try_skip_while.rs b/futures-util/src/stream/try_stream/try_skip_while.rs
index 2eea2e7..f9a059f 100644
--- a/futures-util/src/stream/try_stream/try_skip_while.rs
+++ b/futures-util/src/stream/try_stream/try_skip_while.rs
@@ -73,8 +73,8 @@ where
             if let Some(fut) = this.pending_fut.as_mut().as_pin_mut() {
                 let res = ready!(fut.try_poll(cx));
                 this.pending_fut.set(None);
-                let skipped = res?;
                 let item = this.pending_item.take();
+                let skipped = res?;
                 if !skipped {
                     *this.done_skipping = true;
                     break item.map(Ok);
diff --git a/futures-util/src/stream/try_stream/try_take_while.rs b/futures-util/src/stream/try_stream/try_take_while.rs
index e2da18a..4222f84 100644
--- a/futures-util/src/stream/try_stream/try_take_while.rs
+++ b/futures-util/src/stream/try_stream/try_take_while.rs
@@ -76,8 +76,8 @@ where
             if let Some(fut) = this.pending_fut.as_mut().as_pin_mut() {
                 let res = ready!(fut.try_poll(cx));
                 this.pending_fut.set(None);
-                let take = res?;
                 let item = this.pending_item.take();
+                let take = res?;
                 if take {
                     break item.map(Ok);
                 } else {
-- 
2.43.0


From d0d040ffad5796ca03cc911f29cd5164022df9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:29 +0000
Subject: [PATCH 08/18] fix: report a zipped stream as terminated once it has
 ended

It ends as soon as one of the two streams does, but reported termination
only after both had ended, which may be never.
---
 futures-util/src/stream/stream/zip.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/stream/stream/zip.rs b/futures-util/src/stream/stream/zip.rs
index 9f074ee..e7a33ff 100644
--- a/futures-util/src/stream/stream/zip.rs
+++ b/futures-util/src/stream/stream/zip.rs
@@ -67,7 +67,9 @@ where
     St2: Stream,
 {
     fn is_terminated(&self) -> bool {
-        self.stream1.is_terminated() && self.stream2.is_terminated()
+        // No more pairs can be made once either stream has ended: a stream that
+        // has an item queued isn't polled and thus can't be found to have ended.
+        self.stream1.is_terminated() || self.stream2.is_terminated()
     }
 }
 
-- 
2.43.0


From 49ece30131d9836b7b8d9b50e0123665f461fa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:36 +0000
Subject: [PATCH 09/18] fix: don't poll ended streams again in stream_select!

When one stream ended and another yielded an item in the same poll, the end
of the former was forgotten.
---
 futures-macro/src/stream_select.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/futures-macro/src/stream_select.rs b/futures-macro/src/stream_select.rs
index a5d6498..69e2ce5 100644
--- a/futures-macro/src/stream_select.rs
+++ b/futures-macro/src/stream_select.rs
@@ -54,6 +54,7 @@ pub(crate) fn stream_select(input: TokenStream) -> Result<TokenStream, syn::Erro
                         let mut #field_idents_2 = false;
                     )*
                     let mut any_pending = false;
+                    let mut item = None;
                     {
                         let mut stream_array = [#(#field_idents.as_mut().map(|f| StreamEnum::#generic_idents(f)).unwrap_or(StreamEnum::None)),*];
                         __futures_crate::async_await::shuffle(&mut stream_array);
@@ -63,8 +64,9 @@ pub(crate) fn stream_select(input: TokenStream) -> Result<TokenStream, syn::Erro
                                 continue;
                             } else {
                                 match __futures_crate::stream::Stream::poll_next(::std::pin::Pin::new(&mut s), cx) {
-                                    r @ __futures_crate::task::Poll::Ready(Some(_)) => {
-                                        return r;
+                                    __futures_crate::task::Poll::Ready(Some(i)) => {
+                                        item = Some(i);
+                                        break;
                                     },
                                     __futures_crate::task::Poll::Pending => {
                                         any_pending = true;
@@ -86,7 +88,9 @@ pub(crate) fn stream_select(input: TokenStream) -> Result<TokenStream, syn::Erro
                             *#field_idents = None;
                         }
                     )*
-                    if any_pending {
+                    if item.is_some() {
+                        __futures_crate::task::Poll::Ready(item)
+                    } else if any_pending {
                         __futures_crate::task::Poll::Pending
                     } else {
                         __futures_crate::task::Poll::Ready(None)
-- 
2.43.0


From fb6ffeb22e67b11102633c79e772d9b70ae87f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:16 +0000
Subject: [PATCH 10/18] fix: make coinciding wake-ups of flatten_unordered
 visible to the poll

A wake-up that found its flag already set did not write to the shared state,
so the poll that consumed the flag was not ordered after it and could miss
the event it announced; on weakly ordered memory the stream then waited
forever.
---
 futures-util/src/stream/stream/flatten_unordered.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/stream/stream/flatten_unordered.rs b/futures-util/src/stream/stream/flatten_unordered.rs
index f15cf69..05b9d46 100644
--- a/futures-util/src/stream/stream/flatten_unordered.rs
+++ b/futures-util/src/stream/stream/flatten_unordered.rs
@@ -91,7 +91,9 @@ impl SharedPollState {
                     next_value |= WAKING;
                 }
 
-                if next_value != value { Some(next_value) } else { None }
+                // Always write, even if nothing changes: what happened before this wake-up
+                // has to be visible to the poll that the earlier wake-up leads to.
+                Some(next_value)
             })
             .ok()?;
 
-- 
2.43.0


From f47bbc38f95adca0070078222a73f80d9d56b3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:18 +0000
Subject: [PATCH 11/18] fix: make try_join_all of many futures fail as soon as
 one of them does

---
 futures-util/src/future/try_join_all.rs | 68 ++++++++++++++++++++++---
 1 file changed, 61 insertions(+), 7 deletions(-)

diff --git a/futures-util/src/future/try_join_all.rs b/futures-util/src/future/try_join_all.rs
index a998c38..bf4a4c0 100644
--- a/futures-util/src/future/try_join_all.rs
+++ b/futures-util/src/future/try_join_all.rs
@@ -11,10 +11,15 @@ use core::{
     task::{Context, Poll},
 };
 
+#[cfg(target_has_atomic = "ptr")]
+use futures_core::ready;
+#[cfg(target_has_atomic = "ptr")]
+use pin_project_lite::pin_project;
+
 use super::{IntoFuture, TryFuture, TryMaybeDone, assert_future, join_all};
 use crate::TryFutureExt;
 #[cfg(target_has_atomic = "ptr")]
-use crate::stream::{FuturesOrdered, TryCollect, TryStreamExt};
+use crate::stream::{FuturesUnordered, StreamExt};
 
 enum FinalState<E = ()> {
     Pending,
@@ -40,10 +45,37 @@ where
     },
     #[cfg(target_has_atomic = "ptr")]
     Big {
-        fut: TryCollect<FuturesOrdered<IntoFuture<F>>, Vec<F::Ok>>,
+        // Not `FuturesOrdered`, which would hold back an error until all futures
+        // before the failed one have completed.
+        futs: FuturesUnordered<Indexed<IntoFuture<F>>>,
+        outputs: Vec<Option<F::Ok>>,
     },
 }
 
+#[cfg(target_has_atomic = "ptr")]
+pin_project! {
+    struct Indexed<Fut> {
+        #[pin]
+        fut: Fut,
+        index: usize,
+    }
+}
+
+#[cfg(target_has_atomic = "ptr")]
+impl<Fut: Future> Future for Indexed<Fut> {
+    type Output = (usize, Fut::Output);
+
+    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
+        let this = self.project();
+        let index = *this.index;
+        this.fut.poll(cx).map(|output| (index, output))
+    }
+}
+
+// The futures are never moved (they are boxed or in a `FuturesUnordered`), and
+// nothing else is ever pinned.
+impl<F: TryFuture> Unpin for TryJoinAll<F> {}
+
 impl<F> fmt::Debug for TryJoinAll<F>
 where
     F: TryFuture + fmt::Debug,
@@ -57,7 +89,11 @@ where
                 f.debug_struct("TryJoinAll").field("elems", elems).finish()
             }
             #[cfg(target_has_atomic = "ptr")]
-            TryJoinAllKind::Big { ref fut, .. } => fmt::Debug::fmt(fut, f),
+            TryJoinAllKind::Big { ref futs, ref outputs } => f
+                .debug_struct("TryJoinAll")
+                .field("futs", futs)
+                .field("outputs", outputs)
+                .finish(),
         }
     }
 }
@@ -79,9 +115,9 @@ where
 ///
 /// # See Also
 ///
-/// `try_join_all` will switch to the more powerful [`FuturesOrdered`] for performance
+/// `try_join_all` will switch to the more powerful [`FuturesUnordered`] for performance
 /// reasons if the number of futures is large. You may want to look into using it or
-/// it's counterpart [`FuturesUnordered`][crate::stream::FuturesUnordered] directly.
+/// it's counterpart [`FuturesOrdered`][crate::stream::FuturesOrdered] directly.
 ///
 /// Some examples for additional functionality provided by these are:
 ///
@@ -138,7 +174,12 @@ where
             Some(max) if max <= join_all::SMALL => TryJoinAllKind::Small {
                 elems: iter.map(TryMaybeDone::Future).collect::<Box<[_]>>().into(),
             },
-            _ => TryJoinAllKind::Big { fut: iter.collect::<FuturesOrdered<_>>().try_collect() },
+            _ => {
+                let futs: FuturesUnordered<_> =
+                    iter.enumerate().map(|(index, fut)| Indexed { fut, index }).collect();
+                let outputs = (0..futs.len()).map(|_| None).collect();
+                TryJoinAllKind::Big { futs, outputs }
+            }
         };
 
         assert_future::<Result<Vec<<I::Item as TryFuture>::Ok>, <I::Item as TryFuture>::Error>, _>(
@@ -185,7 +226,20 @@ where
                 }
             }
             #[cfg(target_has_atomic = "ptr")]
-            TryJoinAllKind::Big { fut } => Pin::new(fut).poll(cx),
+            TryJoinAllKind::Big { futs, outputs } => loop {
+                match ready!(futs.poll_next_unpin(cx)) {
+                    Some((index, Ok(output))) => outputs[index] = Some(output),
+                    Some((_, Err(e))) => {
+                        drop(mem::take(futs));
+                        outputs.clear();
+                        return Poll::Ready(Err(e));
+                    }
+                    None => {
+                        let outputs = mem::take(outputs);
+                        return Poll::Ready(Ok(outputs.into_iter().map(|o| o.unwrap()).collect()));
+                    }
+                }
+            },
         }
     }
 }
-- 
2.43.0


From ba4d7bf20382727795054c0489153073963398d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:12 +0000
Subject: [PATCH 12/18] fix: don't let a line interrupted by an error reappear
 in a later line

---
 futures-util/src/io/lines.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/io/lines.rs b/futures-util/src/io/lines.rs
index 3e89f9e..fd0d3c1 100644
--- a/futures-util/src/io/lines.rs
+++ b/futures-util/src/io/lines.rs
@@ -36,7 +36,14 @@ impl<R: AsyncBufRead> Stream for Lines<R> {
 
     fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
         let this = self.project();
-        let n = ready!(read_line_internal(this.reader, cx, this.buf, this.bytes, this.read))?;
+        let n = match ready!(read_line_internal(this.reader, cx, this.buf, this.bytes, this.read)) {
+            Ok(n) => n,
+            Err(e) => {
+                // Don't let what was read of this line end up in a later one.
+                this.buf.clear();
+                return Poll::Ready(Some(Err(e)));
+            }
+        };
         *this.read = 0;
         if n == 0 && this.buf.is_empty() {
             return Poll::Ready(None);
-- 
2.43.0


From d7bfed48024c5017170fd5551929f0f47b0371ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:12 +0000
Subject: [PATCH 13/18] fix: report a writer that accepts nothing in into_sink

---
 futures-util/src/io/into_sink.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/futures-util/src/io/into_sink.rs b/futures-util/src/io/into_sink.rs
index 9fa2def..ae70c1c 100644
--- a/futures-util/src/io/into_sink.rs
+++ b/futures-util/src/io/into_sink.rs
@@ -46,6 +46,9 @@ impl<W: AsyncWrite, Item: AsRef<[u8]>> IntoSink<W, Item> {
             loop {
                 let bytes = buffer.bytes.as_ref();
                 let written = ready!(this.writer.as_mut().poll_write(cx, &bytes[buffer.offset..]))?;
+                if written == 0 && buffer.offset < bytes.len() {
+                    return Poll::Ready(Err(io::ErrorKind::WriteZero.into()));
+                }
                 buffer.offset += written;
                 if buffer.offset == bytes.len() {
                     break;
-- 
2.43.0


From e9a5a85c76f98edbb8100b1f9b63e508ee6b3807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:51 +0000
Subject: [PATCH 14/18] fix: With drops a mapping future that failed instead of
 polling it again

---
 futures-util/src/sink/with.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/futures-util/src/sink/with.rs b/futures-util/src/sink/with.rs
index 8ec9e44..e90e6d9 100644
--- a/futures-util/src/sink/with.rs
+++ b/futures-util/src/sink/with.rs
@@ -101,10 +101,10 @@ where
 
         let item = match this.state.as_mut().as_pin_mut() {
             None => return Poll::Ready(Ok(())),
-            Some(fut) => ready!(fut.poll(cx))?,
+            Some(fut) => ready!(fut.poll(cx)),
         };
         this.state.set(None);
-        this.sink.start_send(item)?;
+        this.sink.start_send(item?)?;
         Poll::Ready(Ok(()))
     }
 }
-- 
2.43.0


From 58c6fe9224c4bd745ee0d46c1e5e49380b9a03bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:51 +0000
Subject: [PATCH 15/18] fix: Buffer does not ask a closing sink for readiness
 when nothing is buffered

---
 futures-util/src/sink/buffer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/futures-util/src/sink/buffer.rs b/futures-util/src/sink/buffer.rs
index d022c23..33b1316 100644
--- a/futures-util/src/sink/buffer.rs
+++ b/futures-util/src/sink/buffer.rs
@@ -91,13 +91,19 @@ impl<Si: Sink<Item>, Item> Sink<Item> for Buffer<Si, Item> {
     }
 
     fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
-        ready!(self.as_mut().try_empty_buffer(cx))?;
+        // Without buffered items the sink need not be ready to be flushed or closed.
+        if !self.buf.is_empty() {
+            ready!(self.as_mut().try_empty_buffer(cx))?;
+        }
         debug_assert!(self.buf.is_empty());
         self.project().sink.poll_flush(cx)
     }
 
     fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
-        ready!(self.as_mut().try_empty_buffer(cx))?;
+        // Without buffered items the sink need not be ready to be flushed or closed.
+        if !self.buf.is_empty() {
+            ready!(self.as_mut().try_empty_buffer(cx))?;
+        }
         debug_assert!(self.buf.is_empty());
         self.project().sink.poll_close(cx)
     }
-- 
2.43.0


From bd54f971896c65264fb303a7e3f040c3ef58cf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:21 +0000
Subject: [PATCH 16/18] fix: keep the message count of a bounded channel when a
 sender's waker panics

---
 futures-channel/src/mpsc/mod.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/futures-channel/src/mpsc/mod.rs b/futures-channel/src/mpsc/mod.rs
index c3e03e3..145120b 100644
--- a/futures-channel/src/mpsc/mod.rs
+++ b/futures-channel/src/mpsc/mod.rs
@@ -361,12 +361,15 @@ impl SenderTask {
     }
 
     fn notify(&mut self) {
-        self.is_parked = false;
-
-        if let Some(task) = self.task.take() {
+        if let Some(task) = self.unpark() {
             task.wake();
         }
     }
+
+    fn unpark(&mut self) -> Option<Waker> {
+        self.is_parked = false;
+        self.task.take()
+    }
 }
 
 /// Creates a bounded mpsc channel for communicating between asynchronous tasks.
@@ -1064,11 +1067,16 @@ impl<T> Receiver<T> {
             Some(msg) => {
                 // If there are any parked task handles in the parked queue,
                 // pop one and unpark it.
-                self.unpark_one();
+                let task = self.unpark_one();
 
                 // Decrement number of messages
                 self.dec_num_messages();
 
+                // Wake the task last: its waker may panic
+                if let Some(task) = task {
+                    task.wake();
+                }
+
                 Poll::Ready(Some(msg))
             }
             None => {
@@ -1093,12 +1101,11 @@ impl<T> Receiver<T> {
     }
 
     // Unpark a single task handle if there is one pending in the parked queue
-    fn unpark_one(&mut self) {
-        if let Some(inner) = &mut self.inner {
-            if let Some(task) = unsafe { inner.parked_queue.pop_spin() } {
-                task.lock().unwrap().notify();
-            }
-        }
+    fn unpark_one(&mut self) -> Option<Waker> {
+        let inner = self.inner.as_mut()?;
+        let task = unsafe { inner.parked_queue.pop_spin() }?;
+        let task = task.lock().unwrap().unpark();
+        task
     }
 
     fn dec_num_messages(&self) {
-- 
2.43.0


From 4ff7875f7c1eb1c28fa8b8050d40413dcd2a1e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:24 +0000
Subject: [PATCH 17/18] fix: wake mutex waiters after unlocking the waiter list

Waking a task can drop it (when its waker was the last thing that kept it
alive), and with it a lock future, which needs the waiter list itself: the
waking thread deadlocked.
---
 futures-util/src/lock/mutex.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/futures-util/src/lock/mutex.rs b/futures-util/src/lock/mutex.rs
index 9b1ccfa..69083fe 100644
--- a/futures-util/src/lock/mutex.rs
+++ b/futures-util/src/lock/mutex.rs
@@ -65,10 +65,13 @@ impl Waiter {
         }
     }
 
-    fn wake(&mut self) {
+    /// Marks this waiter as woken and returns its waker. The waker must be woken
+    /// only after unlocking the waiters, as that may drop the waiting task.
+    #[must_use]
+    fn set_woken(&mut self) -> Option<Waker> {
         match mem::replace(self, Self::Woken) {
-            Self::Waiting(waker) => waker.wake(),
-            Self::Woken => {}
+            Self::Waiting(waker) => Some(waker),
+            Self::Woken => None,
         }
     }
 }
@@ -165,6 +168,7 @@ impl<T: ?Sized> Mutex<T> {
             let mut waiters = self.waiters.lock().unwrap();
 
             let removed_waker = waiters.remove(wait_key);
+            let mut next_waker = None;
 
             match removed_waker {
                 Waiter::Waiting(_) => {}
@@ -174,7 +178,7 @@ impl<T: ?Sized> Mutex<T> {
                     // waiter.
                     if wake_another {
                         if let Some((_i, waiter)) = waiters.iter_mut().next() {
-                            waiter.wake();
+                            next_waker = waiter.set_woken();
                         }
                     }
                 }
@@ -182,6 +186,10 @@ impl<T: ?Sized> Mutex<T> {
             if waiters.is_empty() {
                 self.state.fetch_and(!HAS_WAITERS, Ordering::Relaxed); // released by mutex unlock
             }
+            drop(waiters);
+            if let Some(waker) = next_waker {
+                waker.wake();
+            }
         }
     }
 
@@ -191,8 +199,10 @@ impl<T: ?Sized> Mutex<T> {
         let old_state = self.state.fetch_and(!IS_LOCKED, Ordering::AcqRel);
         if (old_state & HAS_WAITERS) != 0 {
             let mut waiters = self.waiters.lock().unwrap();
-            if let Some((_i, waiter)) = waiters.iter_mut().next() {
-                waiter.wake();
+            let waker = waiters.iter_mut().next().and_then(|(_i, waiter)| waiter.set_woken());
+            drop(waiters);
+            if let Some(waker) = waker {
+                waker.wake();
             }
         }
     }
-- 
2.43.0


From 2237cdcc19d8d71a8c0ecb975e7d760cb17d45b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:24 +0000
Subject: [PATCH 18/18] fix: wake Shared handles after unlocking the waker list

Waking a task can drop it (when its waker was the last thing that kept it
alive), and with it a handle, which needs the waker list itself: the waking
thread deadlocked.
---
 futures-util/src/future/future/shared.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/futures-util/src/future/future/shared.rs b/futures-util/src/future/future/shared.rs
index 174d2c1..1c9dfdb 100644
--- a/futures-util/src/future/future/shared.rs
+++ b/futures-util/src/future/future/shared.rs
@@ -1,4 +1,5 @@
 use alloc::sync::{Arc, Weak};
+use alloc::vec::Vec;
 use core::{
     cell::UnsafeCell,
     fmt,
@@ -370,12 +371,13 @@ where
         let mut wakers_guard = inner.notifier.wakers.lock();
 
         let mut wakers = wakers_guard.take().unwrap();
+        // Waking a task may drop it, and with it another handle.
+        drop(wakers_guard);
         for waker in wakers.drain().flatten() {
             waker.wake();
         }
 
         drop(reset); // Make borrow checker happy
-        drop(wakers_guard);
 
         // Safety: We're in the COMPLETE state
         unsafe { Poll::Ready(inner.take_or_clone_output()) }
@@ -420,16 +422,19 @@ where
 impl ArcWake for Notifier {
     fn wake_by_ref(arc_self: &Arc<Self>) {
         #[cfg(feature = "std")]
-        let wakers = &mut *arc_self.wakers.lock().unwrap();
+        let mut wakers_guard = arc_self.wakers.lock().unwrap();
         #[cfg(not(feature = "std"))]
-        let wakers = &mut *arc_self.wakers.lock();
+        let mut wakers_guard = arc_self.wakers.lock();
 
-        if let Some(wakers) = wakers.as_mut() {
-            for (_key, opt_waker) in wakers {
-                if let Some(waker) = opt_waker.take() {
-                    waker.wake();
-                }
-            }
+        let wakers: Vec<Waker> = match wakers_guard.as_mut() {
+            Some(wakers) => wakers.iter_mut().filter_map(|(_key, waker)| waker.take()).collect(),
+            None => return,
+        };
+
+        // Waking a task may drop it, and with it a handle.
+        drop(wakers_guard);
+        for waker in wakers {
+            waker.wake();
         }
     }
 }
-- 
2.43.0

