//! Abortable futures and streams.
use crate::ex::th;
use crate::rt::*;
use futures::future::{abortable, AbortHandle, Abortable, FutureExt};
use futures::io::{copy_buf_abortable, AsyncBufRead, AsyncRead, AsyncWrite};
use futures::stream::{Stream, StreamExt};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::thread;

#[derive(Default)]
struct H {
    start: Option<Stamp>,
    end: Option<Stamp>,
    inner_done: bool,
    in_outer: bool,
    must_abort: bool,
    drops: u32,
}
type O = &'static Ora<H>;
struct In {
    leaf: th::Leaf,
    never: bool,
    n: u32,
    i: u32,
    max: usize,
    keep: Option<std::task::Waker>,
    o: O,
    _t: Tracked,
}
impl In {
    fn go(&mut self, cx: &mut Context<'_>) -> bool {
        self.o.with(|o| {
            ensure!(!o.must_abort, "abort-polled", "polled into after the abort");
            ensure!(!o.inner_done, "abort-polled-done", "polled after completion");
        });
        if chance(30) {
            yield_now();
        }
        if self.never {
            // no wake-up of its own will ever come
            self.keep = Some(cx.waker().clone());
            return false;
        }
        self.leaf.poll(cx)
    }
}
impl Drop for In {
    fn drop(&mut self) {
        self.o.with(|o| o.drops += 1);
    }
}
impl Future for In {
    type Output = Tracked;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Tracked> {
        if self.go(cx) {
            self.o.with(|o| o.inner_done = true);
            Poll::Ready(Tracked::new(3))
        } else {
            Poll::Pending
        }
    }
}
impl Stream for In {
    type Item = Tracked;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Tracked>> {
        if !self.go(cx) {
            return Poll::Pending;
        }
        let m = self.max;
        self.leaf.rearm(m);
        if self.i < self.n {
            self.i += 1;
            Poll::Ready(Some(Tracked::new(self.i - 1)))
        } else {
            self.o.with(|o| o.inner_done = true);
            Poll::Ready(None)
        }
    }
}
fn aborter(hs: Vec<AbortHandle>, o: O, act: bool) {
    for h in hs {
        th::dawdle(4);
        if chance(40) {
            let must = o.with(|o| o.end.seen());
            let a = h.is_aborted();
            ensure!(a || !must, "abort-flag", "is_aborted is false after abort");
            ensure!(!a || o.with(|o| o.start.is_some()), "abort-flag", "is_aborted is true without an abort");
        }
        if act {
            o.with(|o| {
                o.start.get_or_insert(stamp());
            });
            h.abort();
            o.with(|o| {
                o.end.get_or_insert(stamp());
            });
            ensure!(h.is_aborted(), "abort-flag", "is_aborted is false right after abort");
        }
    }
}
fn poll_outer<F: Unpin, T>(a: &mut Abortable<F>, o: O, cx: &mut Context<'_>, f: impl FnOnce(&mut Abortable<F>, &mut Context<'_>) -> Poll<T>, aborted: impl Fn(&T) -> bool) -> Poll<T> {
    let must = o.with(|o| {
        o.must_abort = o.end.seen();
        o.must_abort
    });
    let r = f(a, cx);
    if let Poll::Ready(v) = &r {
        let ab = aborted(v);
        ensure!(!must || ab, "abort-ignored", "produced a result although it had been aborted before the poll");
        ensure!(!ab || o.with(|o| o.start.is_some()), "abort-false", "reported as aborted without an abort");
        if ab {
            ensure!(a.is_aborted(), "abort-flag", "aborted result but is_aborted is false");
        }
    } else {
        ensure!(!must, "abort-ignored", "pending although it had been aborted before the poll");
    }
    r
}
pub fn run() {
    let o = ora(H::default);
    let (al, aj) = th::Alarm::start();
    let never = chance(40);
    let act = never || chance(70);
    let max = choose(3);
    let n = choose(4) as u32;
    let inner = In { leaf: th::Leaf::new(&al, max), never, n, i: 0, max, keep: None, o, _t: Tracked::new(1) };
    let stream = chance(50);
    let nth = 1 + choose(2);
    let cancel = !never && chance(15);
    let mk = |h: AbortHandle| {
        let mut js = vec![];
        for _ in 0..nth {
            let hs = (0..1 + choose(2)).map(|_| h.clone()).collect::<Vec<_>>();
            js.push(thread::spawn(move || aborter(hs, o, act)));
        }
        js
    };
    let js;
    let mut t = th::Task::new(th::faults());
    if stream {
        let (mut a, h) = futures::stream::abortable(inner);
        js = mk(h);
        let mut got = 0;
        loop {
            let r = t.block_on_with(|cx| {
                poll_outer(&mut a, o, cx, |a, cx| a.poll_next_unpin(cx), |v: &Option<Tracked>| v.is_none() && !o.with(|o| o.inner_done))
            });
            match r {
                Some(v) => {
                    ensure!(v.get() == got, "abort-items", "item {} instead of {got}", v.get());
                    got += 1;
                }
                None => break,
            }
            if cancel {
                break;
            }
        }
        if !cancel {
            ensure!(a.is_aborted() || got == n, "abort-items", "ended after {got} of {n} without an abort");
            if a.is_aborted() && !o.with(|o| o.inner_done) {
                // stays aborted
                let r = t.poll(|cx| a.poll_next_unpin(cx));
                ensure!(matches!(r, Poll::Ready(None)), "abort-reverts", "an aborted stream went on");
            }
        }
    } else {
        let (mut a, h) = if chance(50) {
            abortable(inner)
        } else {
            let (h, r) = AbortHandle::new_pair();
            let h2 = if chance(50) { r.handle() } else { h };
            (Abortable::new(inner, r), h2)
        };
        js = mk(h);
        if cancel {
            count(F_CANCEL);
            let _ = t.poll_n(1, |cx| a.poll_unpin(cx));
        } else {
            let r = t.block_on_with(|cx| poll_outer(&mut a, o, cx, |a, cx| a.poll_unpin(cx), |v: &Result<Tracked, _>| v.is_err()));
            match r {
                Ok(v) => ensure!(v.get() == 3, "abort-value", "wrong value"),
                Err(_) => {
                    ensure!(!o.with(|o| o.inner_done), "abort-lost-result", "reported aborted although the inner future completed");
                    let r = t.poll(|cx| a.poll_unpin(cx));
                    ensure!(matches!(r, Poll::Ready(Err(_))), "abort-reverts", "an aborted future went on");
                }
            }
        }
    }
    for j in js {
        j.join().unwrap();
    }
    al.stop();
    aj.join().unwrap();
    ensure!(o.with(|o| o.drops) == 1, "abort-drop", "the wrapped object was dropped {} times", o.with(|o| o.drops));
    check_leaks("abortable");
}

/// One end of an abortable copy; either end may be the one that waits.
struct End {
    leaf: th::Leaf,
    never: bool,
    max: usize,
    data: Vec<u8>,
    keep: Option<std::task::Waker>,
    flushed: usize,
    o: O,
    _t: Tracked,
}
impl End {
    fn go(&mut self, cx: &mut Context<'_>) -> bool {
        self.o.with(|o| ensure!(!o.must_abort, "abort-polled", "polled into after the abort"));
        if self.never {
            self.keep = Some(cx.waker().clone());
            return false;
        }
        self.leaf.poll(cx)
    }
}
impl AsyncRead for End {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut [u8]) -> Poll<std::io::Result<usize>> {
        unreachable!()
    }
}
impl AsyncBufRead for End {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<&[u8]>> {
        let t = self.get_mut();
        if !t.go(cx) {
            return Poll::Pending;
        }
        let n = t.data.len().min(3);
        Poll::Ready(Ok(&t.data[..n]))
    }
    fn consume(mut self: Pin<&mut Self>, n: usize) {
        ensure!(n <= self.data.len().min(3), "abort-consume", "more consumed than was offered");
        self.data.drain(..n);
        let m = self.max;
        self.leaf.rearm(m);
    }
}
impl AsyncWrite for End {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        if !self.go(cx) {
            return Poll::Pending;
        }
        let m = self.max;
        self.leaf.rearm(m);
        let n = 1 + choose(b.len());
        self.data.extend_from_slice(&b[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        if !self.go(cx) {
            return Poll::Pending;
        }
        self.flushed = self.data.len();
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        unreachable!()
    }
}
pub fn copy() {
    let o = ora(H::default);
    let (al, aj) = th::Alarm::start();
    let stuck = [0, 0, 1, 2][choose(4)];
    let act = stuck > 0 || chance(70);
    let max = choose(3);
    let all: Vec<u8> = (0..choose(7) as u8).collect();
    let mk = |never, data| End { leaf: th::Leaf::new(&al, max), never, max, data, keep: None, flushed: 0, o, _t: Tracked::new(1) };
    let mut src = mk(stuck == 1, all.clone());
    let mut dst = mk(stuck == 2, vec![]);
    let (fut, h) = copy_buf_abortable(&mut src, &mut dst);
    let js: Vec<_> = (0..1 + choose(2))
        .map(|_| {
            let hs = (0..1 + choose(2)).map(|_| h.clone()).collect::<Vec<_>>();
            thread::spawn(move || aborter(hs, o, act))
        })
        .collect();
    let mut t = th::Task::new(th::faults());
    let mut fut = Box::pin(fut);
    let poll = |cx: &mut Context<'_>| {
        let must = o.with(|o| {
            o.must_abort = o.end.seen();
            o.must_abort
        });
        let r = fut.as_mut().poll(cx);
        match &r {
            Poll::Pending => ensure!(!must, "abort-ignored", "pending although it had been aborted before the poll"),
            Poll::Ready(r) => {
                let ab = matches!(r, Ok(Err(_)));
                ensure!(ab || !must, "abort-ignored", "produced a result although it had been aborted before the poll");
                ensure!(!ab || o.with(|o| o.start.is_some()), "abort-false", "reported as aborted without an abort");
            }
        }
        r
    };
    let r = if stuck == 0 && chance(15) {
        count(F_CANCEL);
        let mut poll = poll;
        t.poll_n(1, |cx| poll(cx))
    } else {
        Some(t.block_on_with(poll))
    };
    let_go(fut);
    let moved = dst.data.len();
    ensure!(all.starts_with(&dst.data) && src.data[..] == all[moved..], "abort-copy", "{moved} bytes written, {} of {} left in the source", src.data.len(), all.len());
    match r {
        None | Some(Ok(Err(_))) => {}
        Some(Ok(Ok(n))) => ensure!(n == all.len() as u64 && moved == all.len() && dst.flushed == moved, "abort-copy", "copying reported {n} bytes; {moved} of {} written, {} flushed", all.len(), dst.flushed),
        Some(Err(e)) => fail("abort-copy", &format!("copying failed: {e}")),
    }
    for j in js {
        j.join().unwrap();
    }
    al.stop();
    aj.join().unwrap();
    drop((src, dst));
    check_leaks("abortable copy");
}

/// A future without wake-ups of its own that can be copied.
#[derive(Clone)]
struct Idle;
impl Future for Idle {
    type Output = u32;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<u32> {
        Poll::Pending
    }
}
/// Copies of an abortable share the abort: each of them resolves, and those that wait are woken.
pub fn copies() {
    use crate::ex::sg;
    sg::begin();
    let (a, h) = abortable(Idle);
    let n = 1 + choose(3);
    let mut fs: Vec<_> = (0..n).map(|_| (a.clone(), sg::Task::quiet(), false)).collect();
    drop(a);
    let mut last = None;
    for _ in 0..choose(5) {
        let i = choose(n);
        let (f, t, p) = &mut fs[i];
        ensure!(t.poll(|cx| f.poll_unpin(cx)).is_pending(), "abort-false", "a copy resolved without an abort");
        *p = true;
        last = Some(i);
    }
    ensure!(fs.iter().all(|f| !f.0.is_aborted()) && !h.is_aborted(), "abort-flag", "aborted without an abort");
    h.abort();
    ensure!(fs.iter().all(|f| f.0.is_aborted()) && h.is_aborted(), "abort-flag", "not aborted after an abort");
    if let Some(i) = last {
        ensure!(fs[i].1.woken(), "abort-not-woken", "the copy that was polled last was not woken by the abort");
    }
    let slept = fs.iter().any(|(_, t, p)| *p && !t.woken());
    for (f, t, _) in &mut fs {
        let r = t.poll(|cx| f.poll_unpin(cx));
        ensure!(matches!(r, Poll::Ready(Err(_))), "abort-ignored", "a copy did not resolve as aborted after the abort");
    }
    ensure!(!slept, "abort-copy-not-woken", "an abort woke only the copy of an abortable that was polled last");
}
