//! Termination reports of futures and of merging streams.
use crate::ex::sg::*;
use crate::leaf::*;
use crate::rt::*;
use futures::future::{self, FusedFuture, FutureExt, TryFutureExt};
use futures::sink::{Sink, SinkExt};
use futures::stream::{self, FusedStream, Stream, StreamExt, TryStreamExt};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

fn src(max: usize) -> Src<V> {
    Src::new(tags(max).into_iter().map(v))
}
fn fut() -> Fut<V> {
    Fut::new(v(choose(8) as u32))
}
fn res(x: u32, e: u32) -> Result<V, V> {
    if x == e {
        Err(v(x))
    } else {
        Ok(v(x))
    }
}
fn tfut() -> Fut<Result<V, V>> {
    Fut::new(res(choose(4) as u32, 1))
}
/// Polls to completion; the report has to be false before and true after.
/// `again`: the future promises to stay pending when polled after completion.
fn drive<F: FusedFuture>(name: &str, f: F, again: bool) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let mut t = Task::new();
    let cancel = if chance(10) { 1 + choose(3) } else { usize::MAX };
    let mut n = 0;
    loop {
        ensure!(!f.is_terminated(), "terminated-early", "{name}: reports termination before it completed");
        match t.poll(|cx| f.as_mut().poll(cx)) {
            Poll::Ready(x) => {
                ensure!(f.is_terminated(), "not-terminated", "{name}: completed but does not report termination");
                if again {
                    for _ in 0..choose(3) {
                        let r = t.poll(|cx| f.as_mut().poll(cx));
                        ensure!(r.is_pending(), "fuse", "{name}: completed twice");
                        ensure!(f.is_terminated(), "unterminated", "{name}: takes back its termination");
                    }
                }
                return Some(x);
            }
            Poll::Pending => {
                n += 1;
                if n >= cancel {
                    count(F_CANCEL);
                    return None;
                }
                t.wait();
            }
        }
    }
}
/// One operation at a time on a stream: it reports termination exactly when the
/// stream does.
fn follow<S: FusedStream + Unpin>(mut s: S, f: impl Fn(&mut S, &mut Context<'_>) -> (bool, Poll<bool>)) {
    let mut t = Task::new();
    loop {
        let was = s.is_terminated();
        if was {
            break;
        }
        let mut rep = false;
        let r = t.poll(|cx| {
            let (a, r) = f(&mut s, cx);
            rep = a;
            r
        });
        ensure!(rep == was, "terminated-early", "an operation on a stream reports termination {rep} but the stream {was}");
        match r {
            Poll::Ready(true) => {}
            Poll::Ready(false) => {
                ensure!(s.is_terminated(), "not-terminated", "the stream ended but does not report termination");
                break;
            }
            // an operation that skips the end stays pending after it
            Poll::Pending if s.is_terminated() => break,
            Poll::Pending => t.wait(),
        }
    }
}
/// A sink whose readiness the environment decides.
struct Snk(Gate, Gate);
impl Unpin for Snk {}
impl<T> Sink<T> for Snk {
    type Error = V;
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), V>> {
        if self.0.poll(cx) {
            Poll::Ready(Ok(()))
        } else {
            Poll::Pending
        }
    }
    fn start_send(self: Pin<&mut Self>, _: T) -> Result<(), V> {
        self.0.rearm();
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), V>> {
        if self.1.poll(cx) {
            Poll::Ready(Ok(()))
        } else {
            Poll::Pending
        }
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), V>> {
        if self.1.poll(cx) {
            Poll::Ready(Ok(()))
        } else {
            Poll::Pending
        }
    }
}

pub fn futures_() {
    begin();
    futures_in();
    check_leaks("futures");
}
fn futures_in() {
    let q = choose(4) as u32;
    let bad = move |x: u32| x % 4 == q;
    match choose(66) {
        0 => drop(drive("map", fut().map(|x| x), false)),
        1 => drop(drive("then", fut().then(|_| fut()), false)),
        2 => drop(drive("flatten", fut().map(|_| fut()).flatten(), false)),
        3 | 4 => drop(drive("fuse", fut().fuse(), true)),
        5 => drop(drive("fuse of fuse", fut().map(|x| x).fuse().fuse(), true)),
        6 => drop(drive("shared", fut().map(|x| x.get()).shared(), false)),
        7 => drop(drive("into_stream.into_future", fut().into_stream().into_future().map(|(a, _)| a), false)),
        8 => drop(drive("inspect", fut().inspect(|_| {}), false)),
        9 => drop(drive("map_ok", tfut().map_ok(|x| x), false)),
        10 => drop(drive("map_err", tfut().map_err(|x| x), false)),
        11 => drop(drive("and_then", tfut().and_then(|_| tfut()), false)),
        12 => drop(drive("or_else", tfut().or_else(|_| tfut()), false)),
        13 => drop(drive("unwrap_or_else", tfut().unwrap_or_else(|e| e), false)),
        14 => drop(drive("try_flatten", tfut().map_ok(|_| tfut()).try_flatten(), false)),
        15 => drop(drive("map_ok_or_else", tfut().map_ok_or_else(|e| e, |o| o), false)),
        16 => drop(drive("join", future::join(fut(), fut()), false)),
        17 => drop(drive("join of joins", future::join(future::join(fut(), fut()), fut()), false)),
        18 => drop(drive("select", future::select(fut(), fut()), false)),
        19 => drop(drive("either", if q < 2 { future::Either::Left(fut()) } else { future::Either::Right(fut()) }, false)),
        20 => drop(drive("lazy", future::lazy(|_| 3), false)),
        21 => drop(drive("ready", future::ready(v(1)), false)),
        22 => drop(drive("option", future::OptionFuture::from(Some(fut())), false)),
        23 => drop(drive("maybe_done", future::maybe_done(fut()), false)),
        24 => {
            // may be asked again as long as the answer was "not yet"
            let mut f = Box::pin(future::poll_immediate(fut()));
            let mut t = Task::new();
            loop {
                ensure!(!f.is_terminated(), "terminated-early", "poll_immediate: reports termination before it completed");
                match t.poll(|cx| f.as_mut().poll(cx)) {
                    Poll::Ready(Some(_)) => break,
                    Poll::Ready(None) => t.wait(),
                    Poll::Pending => fail("pending", "poll_immediate returned Pending"),
                }
            }
            ensure!(f.is_terminated(), "not-terminated", "poll_immediate: completed but does not report termination");
        }
        25 => drop(drive("into_future", src(3).into_future().map(|(a, _)| a), false)),
        26 => drop(drive("collect", src(3).collect::<Vec<V>>(), false)),
        27 => drop(drive("count", src(3).count(), false)),
        28 => drop(drive("concat", src(3).map(|x| vec![x]).concat(), false)),
        29 => drop(drive("unzip", src(3).map(|x| (x.get(), x)).unzip::<u32, V, Vec<u32>, Vec<V>>(), false)),
        30 => drop(drive("fold", src(3).fold(0, |a, x| Fut::new(a + x.get())), false)),
        31 => drop(drive("for_each", src(3).for_each(|_| Fut::new(())), false)),
        32 => drop(drive("for_each_concurrent", src(4).for_each_concurrent(choose(3), |_| Fut::new(())), false)),
        33 => drop(drive("all", src(3).all(move |x| Fut::new(!bad(x.get()))), false)),
        34 => drop(drive("any", src(3).any(move |x| Fut::new(bad(x.get()))), false)),
        35 => drop(drive("try_fold", src(3).try_fold(0, move |a, x| Fut::new(if bad(x.get()) { Err(v(3)) } else { Ok(a + x.get()) })), false)),
        36 => drop(drive("try_for_each_concurrent", src(4).try_for_each_concurrent(choose(3), move |x| Fut::new(if bad(x.get()) { Err(v(3)) } else { Ok(()) })), false)),
        37 => drop(drive("forward", src(3).map(Ok::<V, V>).forward(Snk(Gate::new(), Gate::new())), false)),
        38 => drop(drive("try_all", src(3).map(Ok::<V, V>).try_all(move |x| Fut::new(!bad(x.get()))), false)),
        39 => drop(drive("try_any", src(3).map(Ok::<V, V>).try_any(move |x| Fut::new(bad(x.get()))), false)),
        40 => drop(drive("try_collect", src(3).map(Ok::<V, V>).try_collect::<Vec<V>>(), false)),
        41 => {
            let mut p = Box::pin(src(3).peekable());
            drop(drive("peek", p.as_mut().peek().map(|x| x.map(|x| x.get())), false));
            drop(drive("peek_mut", p.as_mut().peek_mut().map(|x| x.map(|x| x.get())), false));
            drop(drive("next_if", p.as_mut().next_if(|x| bad(x.get())), false));
            drop(drive("next_if_eq", p.as_mut().next_if_eq(&v(3)), false));
        }
        42 => {
            let f: future::Fuse<Fut<V>> = future::Fuse::terminated();
            let mut f = Box::pin(f);
            let mut t = Task::new();
            for _ in 0..3 {
                ensure!(f.is_terminated(), "not-terminated", "Fuse::terminated() is not terminated");
                ensure!(t.poll(|cx| f.as_mut().poll(cx)).is_pending(), "fuse", "Fuse::terminated() completed");
            }
        }
        43 => {
            let (tx, rx) = futures::channel::oneshot::channel::<V>();
            // (one whose sender is gone counts as terminated: nothing can arrive)
            let _ = tx.send(v(1));
            drop(drive("oneshot receiver", rx, false));
        }
        44 => {
            let m = futures::lock::Mutex::new(());
            drop(drive("mutex lock", m.lock(), false));
        }
        45 => drop(drive("try_join of maybe_done", future::try_maybe_done(Fut::new(Ok::<V, V>(v(1)))), false)),
        46 => drop(drive("err_into", tfut().err_into::<V>(), false)),
        47 => drop(drive("left_future", fut().left_future::<future::Pending<V>>(), false)),
        50 => drop(drive("pin box", Box::pin(fut().map(|x| x)), false)),
        51 => drop(drive("box", Box::new(fut()), false)),
        52 => {
            let mut f = fut();
            drop(drive("mut ref", &mut f, false));
        }
        53 => {
            let mut f = Box::pin(fut().then(|_| fut()));
            drop(drive("pin mut", f.as_mut(), false));
        }
        54 => drop(drive("boxed fused", Box::pin(fut()) as Pin<Box<dyn FusedFuture<Output = V>>>, false)),
        55 => drop(drive("stream into_future", src(3).into_future(), false)),
        56 => {
            let mut p = Box::pin(src(3).peekable());
            drop(drive("peek", p.as_mut().peek(), false));
            drop(drive("peek_mut", p.as_mut().peek_mut(), false));
        }
        57 => drop(drive("try_forward", src(3).map(Ok::<V, V>).try_forward(Snk(Gate::new(), Gate::new())), false)),
        58 => follow(src(4), |s, cx| {
            let mut n = s.next();
            (n.is_terminated(), n.poll_unpin(cx).map(|x| x.is_some()))
        }),
        59 => follow(src(4).map(Ok::<V, V>), |s, cx| {
            let mut n = s.try_next();
            (n.is_terminated(), n.poll_unpin(cx).map(|x| matches!(x, Ok(Some(_)))))
        }),
        60 => follow(src(4), |s, cx| {
            let mut n = s.select_next_some();
            (n.is_terminated(), n.poll_unpin(cx).map(|_| true))
        }),
        61 => {
            let (mut tx, rx) = futures::channel::mpsc::channel::<V>(8);
            for x in tags(4) {
                tx.try_send(v(x)).unwrap();
            }
            drop(tx);
            follow(rx, |s, cx| {
                let mut n = Box::pin(s.recv());
                (n.is_terminated(), n.as_mut().poll(cx).map(|x| x.is_ok()))
            })
        }
        62 => {
            let o: future::OptionFuture<Fut<V>> = None.into();
            ensure!(o.is_terminated(), "not-terminated", "an empty OptionFuture, which has nothing to produce, does not report termination");
        }
        63 => {
            let p = future::pending::<V>();
            ensure!(p.is_terminated(), "not-terminated", "pending(), which produces nothing, does not report termination");
            let p = stream::pending::<V>();
            ensure!(p.is_terminated(), "not-terminated", "a pending() stream, which produces nothing, does not report termination");
            let p = stream::empty::<V>();
            ensure!(p.is_terminated(), "not-terminated", "an empty() stream, which produces nothing, does not report termination");
        }
        64 => {
            let mut p = stream::repeat(1);
            let mut w = stream::repeat_with(|| 1);
            let mut t = Task::new();
            for _ in 0..3 {
                ensure!(!p.is_terminated() && !w.is_terminated(), "terminated-early", "repeat reports termination");
                ensure!(t.poll(|cx| p.poll_next_unpin(cx)) == Poll::Ready(Some(1)), "wrong-item", "repeat stopped");
                ensure!(t.poll(|cx| w.poll_next_unpin(cx)) == Poll::Ready(Some(1)), "wrong-item", "repeat_with stopped");
            }
        }
        65 => {
            let mut p = Box::pin(src(3).peekable());
            drop(drive("next_if", p.as_mut().next_if(|x| bad(x.get())), false));
        }
        48 => drop(drive("or_else chain", tfut().or_else(|_| tfut()).or_else(|_| tfut()), false)),
        _ => {
            let m = std::sync::Arc::new(futures::lock::Mutex::new(()));
            drop(drive("owned mutex lock", m.lock_owned(), false));
        }
    }
}

/// Streams that merge; the number of items is known.
pub fn merges() {
    begin();
    merges_in();
    check_leaks("merging streams");
}
fn total<S: FusedStream>(name: &str, s: S, n: Option<usize>, again: bool) {
    let mut s = Box::pin(s);
    let mut t = Task::new();
    let mut got = 0;
    let cancel = chance(10);
    let mut was = false;
    loop {
        let now = s.is_terminated();
        ensure!(!was || now, "unterminated", "{name}: takes back its termination");
        was = now;
        match t.poll(|cx| s.as_mut().poll_next(cx)) {
            Poll::Ready(Some(_)) => {
                ensure!(!was, "terminated-early", "{name}: yielded an item after reporting termination");
                got += 1;
            }
            Poll::Ready(None) => {
                ensure!(n.map_or(true, |n| n == got), "wrong-item", "{name}: ended after {got} of {n:?} items");
                ensure!(s.is_terminated(), "not-terminated", "{name}: ended but does not report termination");
                if again {
                    for _ in 0..choose(3) {
                        ensure!(matches!(t.poll(|cx| s.as_mut().poll_next(cx)), Poll::Ready(None)), "fuse", "{name}: not ended anymore");
                        ensure!(s.is_terminated(), "unterminated", "{name}: takes back its termination");
                    }
                }
                return;
            }
            Poll::Pending => {
                ensure!(!was || n.map_or(true, |n| n == got), "terminated-early", "{name}: reports termination after {got} of {n:?} items");
                if cancel && chance(20) {
                    count(F_CANCEL);
                    return;
                }
                t.wait();
            }
        }
    }
}
fn merges_in() {
    let (a, b, c) = (tags(4), tags(4), tags(3));
    let n = a.len() + b.len();
    let s = |t: &[u32]| Src::new(t.iter().map(|x| v(*x)).collect::<Vec<_>>());
    let lim = 1 + choose(3);
    match choose(31) {
        0 => total("select", stream::select(s(&a), s(&b)), Some(n), true),
        1 => total("select_all", stream::select_all([s(&a), s(&b), s(&c)]), Some(n + c.len()), true),
        2 => total("select_with_strategy", stream::select_with_strategy(s(&a), s(&b), |l: &mut stream::PollNext| l.toggle()), Some(n), true),
        3 => total("select_biased", stream::select_with_strategy(s(&a), s(&b), |_: &mut ()| stream::PollNext::Right), Some(n), true),
        4 => total("flatten_unordered", Src::new([s(&a), s(&b), s(&c)]).flatten_unordered(if choose(2) == 0 { None } else { Some(lim) }), Some(n + c.len()), false),
        5 => total("buffer_unordered", s(&a).map(Fut::new).buffer_unordered(lim), Some(a.len()), true),
        6 => total("buffered", s(&a).map(Fut::new).buffered(lim), Some(a.len()), true),
        7 => total("futures_unordered", a.iter().map(|x| Fut::new(v(*x))).collect::<stream::FuturesUnordered<_>>(), Some(a.len()), true),
        8 => total("futures_ordered", a.iter().map(|x| Fut::new(v(*x))).collect::<stream::FuturesOrdered<_>>(), Some(a.len()), true),
        9 => total("take_until", s(&a).take_until(Fut::new(v(1))), None, false),
        10 => total("flat_map_unordered", Src::new([a.clone(), b.clone()]).flat_map_unordered(lim, move |t| s(&t)), Some(n), false),
        11 => total("try_flatten", Src::new([Ok::<_, V>(s(&a).map(Ok::<V, V>)), Ok(s(&b).map(Ok))]).try_flatten(), Some(n), false),
        12 => total("flatten future to stream", Fut::new(s(&a)).flatten_stream(), Some(a.len()), false),
        13 => total("try_flatten_stream", Fut::new(Ok::<_, V>(s(&a).map(Ok::<V, V>))).try_flatten_stream(), Some(a.len()), false),
        14 => total("future into_stream", fut().into_stream(), Some(1), false),
        15 => {
            // never pending itself: it yields the fact that the stream is
            let mut s = Box::pin(stream::poll_immediate(s(&a)));
            let mut t = Task::new();
            let mut k = 0;
            loop {
                ensure!(!s.is_terminated(), "terminated-early", "poll_immediate: reports termination early");
                match t.poll(|cx| s.as_mut().poll_next(cx)) {
                    Poll::Ready(Some(Poll::Ready(x))) => {
                        ensure!(a.get(k) == Some(&x.get()), "wrong-item", "poll_immediate: item {k}");
                        k += 1;
                    }
                    Poll::Ready(Some(Poll::Pending)) => t.wait(),
                    Poll::Ready(None) => break,
                    Poll::Pending => fail("pending", "poll_immediate returned Pending"),
                }
            }
            ensure!(k == a.len() && s.is_terminated(), "not-terminated", "poll_immediate: ended without reporting termination");
        }
        16 => {
            let (tx, rx) = futures::channel::mpsc::unbounded::<V>();
            for x in &a {
                tx.unbounded_send(v(*x)).unwrap();
            }
            drop(tx);
            total("unbounded receiver", rx, Some(a.len()), true);
        }
        17 => {
            let (mut tx, rx) = futures::channel::mpsc::channel::<V>(10);
            for x in &a {
                tx.try_send(v(*x)).unwrap();
            }
            drop(tx);
            total("receiver", rx, Some(a.len()), true);
        }
        30 => total("fuse", stream::select(s(&a), s(&b)).fuse(), Some(n), true),
        18 => {
            // the documented loop over select_next_some
            let mut s = s(&a).zip(self::nf2(&b));
            let mut t = Task::new();
            let mut k = 0;
            while !s.is_terminated() {
                match t.poll(|cx| s.select_next_some().poll_unpin(cx)) {
                    Poll::Ready(_) => k += 1,
                    Poll::Pending => t.wait_or(|| false),
                }
            }
            ensure!(k == a.len().min(b.len()), "wrong-item", "select_next_some gave {k} items");
        }
        19 => total("box", Box::new(s(&a)), Some(a.len()), false),
        20 => total("pin box", Box::pin(s(&a).chain(s(&b))), Some(n), false),
        21 => {
            let mut x = s(&a);
            total("mut ref", &mut x, Some(a.len()), false)
        }
        22 => total("boxed fused", Box::pin(s(&a)) as Pin<Box<dyn FusedStream<Item = V>>>, Some(a.len()), false),
        23 => total("either", if q(2) { future::Either::Left(s(&a)) } else { future::Either::Right(s(&a)) }, Some(a.len()), false),
        24 => total("once", stream::once(fut()), Some(1), false),
        25 => total("sink side", SinkExt::<V>::sink_map_err(Duo(s(&a)), |e: V| e), Some(a.len()), false),
        26 => total("sink side", SinkExt::<V>::buffer(Duo(s(&a)), 1 + lim), Some(a.len()), false),
        27 => total("sink side", SinkExt::<V>::sink_err_into::<V>(Duo(s(&a))), Some(a.len()), false),
        28 => total("sink side", SinkExt::<V>::with(Duo(s(&a)), |x: V| future::ready(Ok::<V, V>(x))), Some(a.len()), false),
        29 => total("sink side", SinkExt::<V>::with_flat_map(Duo(s(&a)), |x: V| stream::iter([Ok::<V, V>(x)])), Some(a.len()), false),
        _ => total("fuse", stream::select(s(&a), s(&b)).fuse(), Some(n), true),
    }
}
fn q(n: usize) -> bool {
    choose(n) == 0
}
/// A stream that is also a sink.
struct Duo(Src<V>);
impl Stream for Duo {
    type Item = V;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<V>> {
        self.0.poll_next_unpin(cx)
    }
}
impl FusedStream for Duo {
    fn is_terminated(&self) -> bool {
        self.0.is_terminated()
    }
}
impl<T> Sink<T> for Duo {
    type Error = V;
    fn poll_ready(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), V>> {
        Poll::Ready(Ok(()))
    }
    fn start_send(self: Pin<&mut Self>, _: T) -> Result<(), V> {
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), V>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), V>> {
        Poll::Ready(Ok(()))
    }
}
fn nf2(t: &[u32]) -> Src<V> {
    Src::new(t.iter().map(|x| v(*x)).collect::<Vec<_>>())
}
