//! Values that must not move once polled: every poll and the drop of an
//! address-sensitive future, stream, sink, reader or writer happen in one place.
use crate::ex::{sg::*, th};
use crate::rt::*;
use futures::channel::oneshot;
use futures::executor::{LocalPool, ThreadPool};
use futures::future::{self, Either, FusedFuture, FutureExt, TryFutureExt};
use futures::io::{self, AsyncBufRead, AsyncRead, AsyncWrite, AsyncReadExt, AsyncWriteExt};
use futures::sink::{Sink, SinkExt};
use futures::stream::{self, FusedStream, FuturesOrdered, FuturesUnordered, Stream, StreamExt, TryStreamExt};
use futures::task::{FutureObj, LocalFutureObj, LocalSpawnExt, SpawnExt};
use std::cell::Cell;
use std::future::Future;
use std::marker::PhantomPinned;
use std::pin::Pin;
use std::task::{Context, Poll};

/// Remembers where it was first polled.
struct Here {
    addr: Cell<usize>,
    what: &'static str,
    _p: PhantomPinned,
}
impl Here {
    fn new(what: &'static str) -> Here {
        Here { addr: Cell::new(0), what, _p: PhantomPinned }
    }
    fn at(&self) {
        let here = self as *const _ as usize;
        if self.addr.get() == 0 {
            self.addr.set(here);
        }
        ensure!(self.addr.get() == here, "moved", "a pinned {} moved between two polls", self.what);
    }
}
impl Drop for Here {
    fn drop(&mut self) {
        let here = self as *const _ as usize;
        ensure!(self.addr.get() == 0 || self.addr.get() == here, "moved", "a pinned {} was moved before it was dropped", self.what);
    }
}

// ------------------------------------------------------------ leaves
struct PFut<T> {
    here: Here,
    gate: Gate,
    val: Option<T>,
    boom: u32,
    _t: Tracked,
}
fn pf<T>(t: T) -> PFut<T> {
    PFut { here: Here::new("future"), gate: Gate::new(), val: Some(t), boom: 0, _t: Tracked::new(96_000) }
}
impl<T> Future for PFut<T> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        let s = unsafe { self.get_unchecked_mut() };
        s.here.at();
        if s.boom > 0 {
            s.boom -= 1;
            if s.boom == 0 {
                inject_panic();
            }
        }
        if !s.gate.poll(cx) {
            return Poll::Pending;
        }
        Poll::Ready(s.val.take().unwrap())
    }
}
impl<T> FusedFuture for PFut<T> {
    fn is_terminated(&self) -> bool {
        self.val.is_none()
    }
}
struct PSrc {
    here: Here,
    gate: Gate,
    left: u32,
    ended: bool,
    _t: Tracked,
}
fn ps(n: u32) -> PSrc {
    PSrc { here: Here::new("stream"), gate: Gate::new(), left: n, ended: false, _t: Tracked::new(96_001) }
}
fn some() -> PSrc {
    ps(choose(4) as u32)
}
impl Stream for PSrc {
    type Item = u32;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u32>> {
        let s = unsafe { self.get_unchecked_mut() };
        s.here.at();
        if !s.gate.poll(cx) {
            return Poll::Pending;
        }
        s.gate.rearm();
        if s.left == 0 {
            s.ended = true;
            return Poll::Ready(None);
        }
        s.left -= 1;
        Poll::Ready(Some(s.left))
    }
}
impl FusedStream for PSrc {
    fn is_terminated(&self) -> bool {
        self.ended
    }
}
/// A sink; also a stream, a reader and a writer.
struct PObj {
    here: Here,
    gate: Gate,
    left: u32,
    buf: [u8; 4],
    _t: Tracked,
}
fn po() -> PObj {
    PObj { here: Here::new("object"), gate: Gate::new(), left: choose(4) as u32, buf: [7; 4], _t: Tracked::new(96_002) }
}
impl PObj {
    fn ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<&mut Self> {
        let s = unsafe { self.get_unchecked_mut() };
        s.here.at();
        if !s.gate.poll(cx) {
            return Poll::Pending;
        }
        s.gate.rearm();
        Poll::Ready(s)
    }
}
impl<T> Sink<T> for PObj {
    type Error = u32;
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), u32>> {
        self.ready(cx).map(|_| Ok(()))
    }
    fn start_send(self: Pin<&mut Self>, _: T) -> Result<(), u32> {
        self.here.at();
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), u32>> {
        self.ready(cx).map(|_| Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), u32>> {
        self.ready(cx).map(|_| Ok(()))
    }
}
impl Stream for PObj {
    type Item = u32;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u32>> {
        self.ready(cx).map(|s| {
            s.left = s.left.checked_sub(1)?;
            Some(s.left)
        })
    }
}
impl AsyncRead for PObj {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
        self.ready(cx).map(|s| {
            let n = (s.left as usize).min(1).min(b.len());
            s.left -= n as u32;
            b[..n].fill(b'\n');
            Ok(n)
        })
    }
}
impl AsyncBufRead for PObj {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        self.ready(cx).map(|s| Ok(&s.buf[..(s.left as usize).min(4)]))
    }
    fn consume(self: Pin<&mut Self>, n: usize) {
        self.here.at();
        unsafe { self.get_unchecked_mut() }.left -= n as u32;
    }
}
impl AsyncWrite for PObj {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        self.ready(cx).map(|_| Ok(b.len().min(2)))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.ready(cx).map(|_| Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.ready(cx).map(|_| Ok(()))
    }
}

// ------------------------------------------------------------ pinned in place
type BF = Pin<Box<dyn Future<Output = u32>>>;
fn sum(v: Vec<u32>) -> u32 {
    v.into_iter().fold(0, u32::wrapping_add)
}
/// The layers keep what they wrap in place; `next` is applied to the layered future.
macro_rules! fut_layer {
    ($f:ident, $next:ident) => {
        match choose(25) {
            0 => $next($f.map(|x| x + 1)),
            1 => $next($f.then(|x| pf(x + 1))),
            2 => $next($f.fuse()),
            3 => $next($f.inspect(|_| ())),
            4 => $next($f.map(pf).flatten()),
            5 => $next(std::panic::AssertUnwindSafe($f).catch_unwind().map(|r| r.unwrap_or(0))),
            6 => $next($f.shared()),
            7 => {
                let (r, h) = $f.remote_handle();
                $next(async move { future::join(r, h).await.1 })
            }
            8 => $next(Either::<_, PFut<u32>>::Left($f)),
            9 => $next(Either::<PFut<u32>, _>::Right($f)),
            10 => $next($f.into_stream().fold(0, |a, x| pf(a + x))),
            11 => $next(async move {
                let mut m = std::pin::pin!(future::maybe_done($f));
                if chance(50) {
                    let _ = m.as_mut().take_output();
                    let _ = m.as_mut().output_mut();
                }
                m.as_mut().await;
                m.as_mut().take_output().unwrap_or(9)
            }),
            12 => $next(future::join($f, pf(1)).map(|(a, b)| a + b)),
            13 => $next(async move { futures::join!(pf(1), $f, pf(2)).1 }),
            14 => $next(future::try_join($f.map(Ok::<u32, u32>), pf(if chance(50) { Err(1) } else { Ok(2) })).map(|r| r.map_or(0, |x| x.0))),
            15 => $next(future::join_all([$f]).map(sum)),
            16 => $next(future::try_join_all([$f.map(Ok::<u32, u32>)]).map(|r| r.map_or(0, sum))),
            17 => $next([$f].into_iter().collect::<FuturesUnordered<_>>().fold(0, |a, x| pf(a + x))),
            18 => $next([$f].into_iter().collect::<FuturesOrdered<_>>().collect::<Vec<_>>().map(sum)),
            19 => $next(async move {
                let mut f = std::pin::pin!($f.fuse());
                let mut g = std::pin::pin!(pf(3).fuse());
                let mut n = 0;
                loop {
                    futures::select! {
                        x = f => n += x,
                        x = g => n += x,
                        complete => break n,
                    }
                }
            }),
            20 => $next(async move { futures::join!($f, pf(1)).0 }),
            21 => $next(async move { futures::try_join!($f.map(Ok::<u32, u32>), pf(Ok(1))).map_or(0, |x| x.0) }),
            22 => {
                let (f, h) = future::abortable($f);
                if chance(20) {
                    h.abort();
                }
                $next(f.map(|r| r.unwrap_or(1)))
            }
            23 => $next(future::OptionFuture::from(Some($f)).map(|x| x.unwrap_or(0))),
            _ => $next($f.map(Ok::<u32, u32>).and_then(|x| pf(if x % 2 == 0 { Ok(x) } else { Err(x) })).or_else(|e| pf(Ok::<u32, u32>(e))).unwrap_or_else(|x| x)),
        }
    };
}
fn boxed<F: Future<Output = u32> + 'static>(f: F) -> BF {
    Box::pin(f)
}
fn layer1<F: Future<Output = u32> + 'static>(f: F) -> BF {
    if chance(30) {
        return boxed(f);
    }
    fut_layer!(f, boxed)
}
fn layer2<F: Future<Output = u32> + 'static>(f: F) -> BF {
    fut_layer!(f, layer1)
}
type BS = Pin<Box<dyn Stream<Item = u32>>>;
macro_rules! st_layer {
    ($s:ident, $next:ident) => {
        match choose(36) {
            0 => $next($s.map(|x| x + 1)),
            1 => $next($s.filter(|x| pf(*x % 2 == 0))),
            2 => $next($s.filter_map(|x| pf((x != 1).then_some(x)))),
            3 => $next($s.then(pf)),
            4 => $next($s.chunks(2).map(sum)),
            5 => $next($s.ready_chunks(2).map(sum)),
            6 => $next(Peeks($s.peekable())),
            7 => $next($s.fuse()),
            8 => $next($s.skip_while(|x| pf(*x == 3))),
            9 => $next($s.take_while(|x| pf(*x != 0))),
            10 => $next($s.scan(0, |a, x| pf(Some((a + x, a + x))))),
            11 => $next($s.take_until(pf(()))),
            12 => $next($s.zip(some()).map(|(a, b)| a + b)),
            13 => $next($s.chain(some())),
            14 => $next(some().chain($s)),
            15 => $next($s.map(ps).flatten()),
            16 => $next($s.flat_map(ps)),
            17 => $next($s.map(pf).buffered(2)),
            18 => $next($s.map(pf).buffer_unordered(2)),
            19 => $next(stream::select($s, some())),
            20 => $next(stream::select_with_strategy(some(), $s, |_: &mut ()| if chance(50) { stream::PollNext::Left } else { stream::PollNext::Right })),
            21 => $next($s.map(|x| Box::pin(ps(x))).flatten_unordered(Some(2))),
            22 => $next(std::panic::AssertUnwindSafe($s).catch_unwind().map(|r| r.unwrap_or(0))),
            23 => $next($s.map(Ok::<u32, u32>).and_then(|x| pf(if x == 2 { Err(x) } else { Ok(x) })).or_else(|e| pf(Ok::<u32, u32>(e))).map(|r| r.unwrap_or(0))),
            24 => $next($s.map(Ok::<u32, u32>).try_filter(|x| pf(*x != 1)).try_skip_while(|x| pf(Ok(*x == 3))).map(|r| r.unwrap_or(0))),
            25 => $next($s.map(|x| Ok::<_, u32>(pf(if x == 2 { Err(x) } else { Ok(x) }))).try_buffered(2).map(|r| r.unwrap_or(0))),
            26 => $next($s.map(|x| Ok::<_, u32>(pf(if x == 2 { Err(x) } else { Ok(x) }))).try_buffer_unordered(2).map(|r| r.unwrap_or(0))),
            27 => $next($s.map(|x| Ok::<_, u32>(ps(x).map(Ok::<u32, u32>))).try_flatten().map(|r| r.unwrap_or(0))),
            28 => $next($s.map(Ok::<u32, u32>).try_filter_map(|x| pf(Ok((x != 1).then_some(x)))).try_take_while(|x| pf(Ok(*x != 0))).map(|r| r.unwrap_or(0))),
            29 => {
                let (s, h) = stream::abortable($s);
                if chance(20) {
                    h.abort();
                }
                $next(s)
            }
            30 => $next(pf($s).flatten_stream()),
            31 => $next(stream::unfold((Box::pin($s), 0), |(mut s, n)| async move {
                pf(()).await;
                s.next().await.map(|x| (x + n, (s, n + 1)))
            })),
            32 => $next(stream::once(pf(1)).chain($s)),
            33 => $next($s.enumerate().inspect(|_| ()).skip(1).take(2).step(1)),
            34 => $next(Either::<_, PSrc>::Left($s)),
            _ => $next(stream::once($s.fold(0, |a, x| pf(a + x)))),
        }
    };
}
trait Step: Stream<Item = (usize, u32)> + Sized {
    fn step(self, n: u32) -> futures::stream::Map<Self, Box<dyn FnMut((usize, u32)) -> u32>> {
        self.map(Box::new(move |(_, x)| x + n) as Box<dyn FnMut((usize, u32)) -> u32>)
    }
}
impl<S: Stream<Item = (usize, u32)>> Step for S {}
/// Peeks before some items.
struct Peeks<S: Stream<Item = u32>>(stream::Peekable<S>);
impl<S: Stream<Item = u32>> Stream for Peeks<S> {
    type Item = u32;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u32>> {
        let mut p = unsafe { self.map_unchecked_mut(|s| &mut s.0) };
        if chance(50) && p.as_mut().poll_peek(cx).is_pending() {
            return Poll::Pending;
        }
        if chance(20) {
            let mut f = p.as_mut().next_if(|x| *x != 1);
            match Pin::new(&mut f).poll(cx) {
                Poll::Ready(Some(x)) => return Poll::Ready(Some(x)),
                Poll::Pending => return Poll::Pending,
                _ => (),
            }
        }
        p.poll_next(cx)
    }
}
fn sboxed<S: Stream<Item = u32> + 'static>(s: S) -> BS {
    Box::pin(s)
}
fn slayer1<S: Stream<Item = u32> + 'static>(s: S) -> BS {
    if chance(30) {
        return sboxed(s);
    }
    st_layer!(s, sboxed)
}
fn slayer2<S: Stream<Item = u32> + 'static>(s: S) -> BS {
    st_layer!(s, slayer1)
}
/// Consumers of pinned streams.
fn consumer() -> BF {
    match choose(12) {
        0 => Box::pin(some().fold(0, |a, x| pf(a + x))),
        1 => Box::pin(some().for_each(|_| pf(())).map(|_| 0)),
        2 => Box::pin(some().for_each_concurrent(2, |_| pf(())).map(|_| 0)),
        3 => Box::pin(some().try_for_each(|x| pf(if x == 1 { Err(x) } else { Ok(()) })).map(|_| 0)),
        4 => Box::pin(some().try_for_each_concurrent(2, |x| pf(if x == 1 { Err(x) } else { Ok(()) })).map(|_| 0)),
        5 => Box::pin(some().try_fold(0, |a, x| pf(if x == 1 { Err(x) } else { Ok(a + x) })).map(|_| 0)),
        6 => Box::pin(some().any(|x| pf(x == 1)).map(u32::from)),
        7 => Box::pin(some().all(|x| pf(x == 1)).map(u32::from)),
        8 => Box::pin(some().map(Ok::<u32, u32>).forward(po()).map(|_| 0)),
        9 => Box::pin(some().count().map(|n| n as u32)),
        10 => Box::pin(some().concat_all()),
        _ => Box::pin(some().map(|x| (x, x)).unzip::<u32, u32, Vec<u32>, Vec<u32>>().map(|(a, _)| sum(a))),
    }
}
trait ConcatAll: Stream<Item = u32> + Sized {
    fn concat_all(self) -> impl Future<Output = u32> {
        self.map(|x| vec![x]).concat().map(sum)
    }
}
impl<S: Stream<Item = u32>> ConcatAll for S {}
/// Sinks, readers and writers kept in place by what wraps them.
fn objects() -> BF {
    fn drive<S: Sink<u32, Error = u32> + 'static>(s: S) -> BF {
        let mut s = Box::pin(s);
        Box::pin(async move {
            for i in 0..choose(4) as u32 {
                match choose(3) {
                    0 => drop(s.send(i).await),
                    1 => drop(s.feed(i).await),
                    _ => drop(s.flush().await),
                }
            }
            if chance(60) {
                let _ = s.close().await;
            }
            0
        })
    }
    fn rd<R: AsyncRead + 'static>(r: R) -> BF {
        let mut r = Box::pin(r);
        Box::pin(async move {
            let mut b = vec![];
            if chance(50) {
                let _ = r.read(&mut [0; 2]).await;
            }
            let _ = r.read_to_end(&mut b).await;
            0
        })
    }
    fn wr<W: AsyncWrite + 'static>(w: W) -> BF {
        let mut w = Box::pin(w);
        Box::pin(async move {
            for _ in 0..choose(4) {
                if chance(70) {
                    let _ = w.write_all(&b"ab\ncd"[..choose(6)]).await;
                } else {
                    let _ = w.flush().await;
                }
            }
            if chance(60) {
                let _ = w.close().await;
            }
            0
        })
    }
    fn p() -> PObj {
        po()
    }
    match choose(17) {
        0 => drive(SinkExt::<u32>::with(p(), |x: u32| pf(Ok::<u32, u32>(x)))),
        1 => drive(SinkExt::<u32>::with_flat_map(p(), |x: u32| ps(x).map(Ok::<u32, u32>))),
        2 => drive(SinkExt::<u32>::buffer(p(), choose(3))),
        3 => drive(SinkExt::<u32>::fanout(p(), p())),
        4 => drive(SinkExt::<u32>::sink_map_err(p(), |e| e)),
        5 => drive(pf(Ok::<PObj, u32>(p())).flatten_sink::<u32>()),
        6 => drive(futures::sink::unfold(0, |a, x: u32| pf(Ok::<u32, u32>(a + x)))),
        7 => drive(SinkExt::<u32>::left_sink::<PObj>(p())),
        8 => rd(io::BufReader::with_capacity(1 + choose(3), p())),
        9 => rd(AsyncReadExt::take(p(), choose(4) as u64)),
        10 => rd(AsyncReadExt::chain(p(), p())),
        11 => wr(io::BufWriter::with_capacity(1 + choose(4), p())),
        12 => wr(io::LineWriter::with_capacity(1 + choose(4), p())),
        13 => {
            let s = p().map(|_| Ok::<_, io::Error>(b"x".to_vec()));
            rd(Box::pin(s).into_async_read())
        }
        14 => {
            let mut s = Box::pin(p().into_sink::<Vec<u8>>());
            Box::pin(async move {
                for _ in 0..choose(4) {
                    let _ = s.send(b"abc".to_vec()).await;
                }
                0
            })
        }
        15 => Box::pin(async move {
            let mut w = Box::pin(p());
            let _ = io::copy(p(), &mut w).await;
            0
        }),
        _ => Box::pin(async move {
            let mut w = Box::pin(p());
            let _ = io::copy_buf(p(), &mut w).await;
            0
        }),
    }
}

// ------------------------------------------------------------ movable containers
/// Moves its content to another place now and then.
struct Roam<C>(Option<Box<C>>);
impl<C> Roam<C> {
    fn new(c: C) -> Self {
        Roam(Some(Box::new(c)))
    }
    fn get(&mut self) -> &mut C {
        if chance(50) {
            let old = self.0.take().unwrap();
            // the old place stays in use until the content is elsewhere
            let mut to: Box<std::mem::MaybeUninit<C>> = Box::new(std::mem::MaybeUninit::uninit());
            to.write(*old);
            self.0 = Some(unsafe { std::mem::transmute::<Box<std::mem::MaybeUninit<C>>, Box<C>>(to) });
        }
        self.0.as_mut().unwrap()
    }
}
fn members(n: usize) -> Vec<PFut<u32>> {
    let boom = chance(20);
    (0..n)
        .map(|i| {
            let mut f = pf(i as u32);
            if boom && chance(30) {
                f.boom = 1 + choose(2) as u32;
            }
            f
        })
        .collect()
}
/// Polls what is in `c` until it finishes or is abandoned; a panicking member
/// may be survived.
fn drive<C, R>(mut c: Roam<C>, mut poll: impl FnMut(&mut C, &mut Context<'_>) -> Poll<R>, mut between: impl FnMut(&mut C) -> bool) {
    let mut t = Task::new();
    let n = choose(12);
    for _ in 0..n {
        let r = allow_panic(|| t.poll(|cx| poll(c.get(), cx)));
        match r {
            Err(_) => {
                if !between(c.get()) {
                    break;
                }
                continue;
            }
            Ok(Poll::Ready(_)) => break,
            Ok(Poll::Pending) => (),
        }
        if !between(c.get()) {
            break;
        }
        while !t.woken() && step() {}
    }
    if chance(50) {
        c.get();
    }
    drop(c);
}
fn containers() {
    match choose(9) {
        0 | 1 => {
            let fu: FuturesUnordered<_> = members(choose(6)).into_iter().collect();
            let mut n = 0;
            drive(
                Roam::new(fu),
                |c, cx| match c.poll_next_unpin(cx) {
                    Poll::Ready(None) => Poll::Ready(()),
                    Poll::Ready(Some(_)) => {
                        cx.waker().wake_by_ref();
                        Poll::Pending
                    }
                    Poll::Pending => Poll::Pending,
                },
                |c| {
                    n += 1;
                    if chance(30) && n < 6 {
                        c.push(pf(100 + n));
                    }
                    if chance(10) {
                        c.clear();
                    }
                    if chance(20) {
                        for f in Pin::new(&mut *c).iter_pin_mut() {
                            if f.here.addr.get() != 0 {
                                f.here.at();
                            }
                        }
                        for f in Pin::new(&*c).iter_pin_ref() {
                            if f.here.addr.get() != 0 {
                                f.here.at();
                            }
                        }
                    }
                    true
                },
            )
        }
        2 => {
            let fo: FuturesOrdered<_> = members(choose(6)).into_iter().collect();
            let mut n = 0;
            drive(
                Roam::new(fo),
                |c, cx| match c.poll_next_unpin(cx) {
                    Poll::Ready(None) => Poll::Ready(()),
                    Poll::Ready(Some(_)) => {
                        cx.waker().wake_by_ref();
                        Poll::Pending
                    }
                    Poll::Pending => Poll::Pending,
                },
                |c| {
                    n += 1;
                    if chance(30) && n < 6 {
                        if chance(50) {
                            c.push_back(pf(n));
                        } else {
                            c.push_front(pf(n));
                        }
                    }
                    true
                },
            )
        }
        3 => {
            let n = [choose(5), 28 + choose(5)][choose(2)];
            drive(Roam::new(future::join_all(members(n))), |c, cx| c.poll_unpin(cx), |_| true)
        }
        4 => {
            let n = [choose(5), 28 + choose(5)][choose(2)];
            let v: Vec<_> = members(n).into_iter().map(|f| f.map(|x| if x == 1 && chance(30) { Err(x) } else { Ok(x) })).collect();
            drive(Roam::new(future::try_join_all(v)), |c, cx| c.poll_unpin(cx), |_| chance(80))
        }
        5 => {
            let s = members(1).pop().unwrap().shared();
            let keep = chance(50).then(|| s.clone());
            let weak = s.downgrade();
            let mut two = chance(50).then(|| Roam::new(s.clone()));
            let mut t2 = Task::new();
            drive(
                Roam::new(s),
                |c, cx| c.poll_unpin(cx),
                |c| {
                    if let Some(x) = &mut two {
                        let r = allow_panic(|| t2.poll(|cx| x.get().poll_unpin(cx)));
                        if !matches!(r, Ok(Poll::Pending)) || chance(20) {
                            two = None;
                        }
                    }
                    let _ = allow_panic(|| drop(c.peek()));
                    true
                },
            );
            drop(weak.map(|w| w.upgrade()));
            drop(keep);
        }
        6 => {
            let (si, st) = StreamExt::split::<u32>(po());
            let mut si = Some(Roam::new(si));
            let mut t2 = Task::new();
            let keep = chance(50);
            let mut left = None;
            drive(
                Roam::new(Some(st)),
                |c, cx| match c.as_mut().unwrap().poll_next_unpin(cx) {
                    Poll::Ready(None) => Poll::Ready(()),
                    Poll::Ready(Some(_)) => {
                        cx.waker().wake_by_ref();
                        Poll::Pending
                    }
                    p => p.map(drop),
                },
                |c| {
                    if let Some(s) = &mut si {
                        let r = t2.poll(|cx| s.get().poll_ready_unpin(cx));
                        if r.is_ready() {
                            let _ = s.get().start_send_unpin(1);
                            let _ = t2.poll(|cx| s.get().poll_flush_unpin(cx));
                        }
                        if chance(15) {
                            si = None;
                        }
                    }
                    if keep && chance(20) {
                        left = c.take();
                        return false;
                    }
                    true
                },
            );
            drop(left);
            drop(si);
        }
        7 => {
            // type-erased futures
            let f = pf(());
            if chance(50) {
                drive(Roam::new(LocalFutureObj::new(Box::pin(f))), |c, cx| c.poll_unpin(cx), |_| true)
            } else {
                let mut b = Box::pin(f);
                let o = LocalFutureObj::new(unsafe { std::mem::transmute::<Pin<&mut PFut<()>>, Pin<&'static mut PFut<()>>>(b.as_mut()) });
                drive(Roam::new(o), |c, cx| c.poll_unpin(cx), |_| true);
                drop(b);
            }
        }
        _ => {
            // either and boxed forms keep their content when they themselves move
            let b: BF = Box::pin(pf(3));
            drive(Roam::new(Either::<_, BF>::Left(b).fuse()), |c, cx| c.poll_unpin(cx), |_| true)
        }
    }
}
fn local_pool() {
    let mut pool = LocalPool::new();
    for i in 0..choose(5) {
        if chance(50) {
            pool.spawner().spawn_local(pf(()).map(|_| ())).unwrap();
        } else {
            drop(pool.spawner().spawn_local_with_handle(pf(i)).unwrap());
        }
    }
    let mut pool = Roam::new(pool);
    for _ in 0..choose(6) {
        match choose(3) {
            0 => pool.get().run_until_stalled(),
            1 => drop(pool.get().try_run_one()),
            _ => drop(step()),
        }
    }
}

pub fn single() {
    for _ in 0..6 {
        begin();
        match choose(8) {
            k @ (0 | 1 | 2 | 3) => {
                let mut f = match k {
                    0 => layer2(pf(1)),
                    1 => consumer(),
                    2 => objects(),
                    _ => layer1(pf(2)),
                };
                let mut t = Task::new();
                let n = choose(14) as u32;
                t.poll_n(n, |cx| f.as_mut().poll(cx));
                drop(f);
            }
            4 | 5 => {
                let mut s = if chance(70) { slayer2(some()) } else { slayer1(some()) };
                let mut t = Task::new();
                let n = choose(14) as u32;
                t.poll_n(n, |cx| loop {
                    match s.as_mut().poll_next(cx) {
                        Poll::Ready(Some(_)) => continue,
                        Poll::Ready(None) => return Poll::Ready(()),
                        Poll::Pending => return Poll::Pending,
                    }
                });
                drop(s);
            }
            6 => containers(),
            _ => {
                if chance(80) {
                    containers()
                } else {
                    local_pool()
                }
            }
        }
        clear_events();
    }
}

// ------------------------------------------------------------ threads
struct TFut {
    here: Here,
    leaf: th::Leaf,
    boom: bool,
    tx: Option<oneshot::Sender<u32>>,
    _t: Tracked,
}
unsafe impl Send for TFut {}
impl Future for TFut {
    type Output = u32;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u32> {
        let s = unsafe { self.get_unchecked_mut() };
        s.here.at();
        if !s.leaf.poll(cx) {
            return Poll::Pending;
        }
        if s.boom {
            inject_panic();
        }
        if let Some(t) = s.tx.take() {
            let _ = t.send(1);
        }
        Poll::Ready(1)
    }
}
pub fn threads() {
    let (al, aj) = th::Alarm::start();
    let mk = || TFut { here: Here::new("future"), leaf: th::Leaf::new(&al, 2), boom: false, tx: None, _t: Tracked::new(1) };
    match choose(4) {
        0 => {
            let mut fu: FuturesUnordered<_> = (0..choose(4)).map(|_| mk()).collect();
            let mut t = th::Task::new(th::faults());
            for _ in 0..choose(8) {
                let r = t.poll(|cx| fu.poll_next_unpin(cx));
                match r {
                    Poll::Ready(None) => break,
                    Poll::Ready(Some(_)) => (),
                    Poll::Pending => t.wait(),
                }
                let moved = Box::new(fu);
                if chance(30) {
                    moved.push(mk());
                }
                fu = *moved;
            }
            drop(fu);
        }
        1 => {
            let s = mk().shared();
            let hs: Vec<_> = (0..1 + choose(3))
                .map(|_| {
                    let s = s.clone();
                    std::thread::spawn(move || {
                        let mut s = Roam::new(s);
                        let mut t = th::Task::new(th::faults());
                        for _ in 0..choose(6) {
                            if t.poll(|cx| s.get().poll_unpin(cx)).is_ready() {
                                return;
                            }
                            if chance(30) {
                                return;
                            }
                            t.wait();
                        }
                    })
                })
                .collect();
            drop(s);
            for h in hs {
                h.join().unwrap();
            }
        }
        2 => {
            if let Ok(pool) = ThreadPool::builder().pool_size(1 + choose(2)).create() {
                let mut rx = vec![];
                for _ in 0..choose(4) {
                    let (tx, r) = oneshot::channel();
                    let mut f = mk();
                    f.tx = Some(tx);
                    match choose(3) {
                        0 => pool.spawn(f.map(drop)).unwrap(),
                        1 => pool.spawn_obj_ok(FutureObj::new(Box::pin(f.map(drop)))),
                        _ => drop(pool.spawn_with_handle(f).unwrap()),
                    }
                    rx.push(r);
                }
                drop(pool);
                for r in rx {
                    let _ = th::block_on(r);
                }
            }
        }
        _ => {
            let (r, h) = mk().remote_handle();
            let j = std::thread::spawn(move || {
                let mut r = Box::pin(r);
                let mut t = th::Task::new(th::faults());
                for _ in 0..choose(6) {
                    if t.poll(|cx| r.as_mut().poll(cx)).is_ready() {
                        return;
                    }
                    t.wait();
                }
            });
            if chance(50) {
                drop(h);
            } else {
                h.forget();
            }
            j.join().unwrap();
        }
    }
    al.stop();
    aj.join().unwrap();
}
