//! Bridges between the 0.1 and the 0.3 task model: towers of conversions over
//! leaves of either model, driven by strict tasks of either model.
use super::ioread::{contents, errno, Ev, Rd};
use super::iowrite::Wr;
use crate::ex::{sg, th};
use crate::leaf::*;
use crate::rt::*;
use f1::executor::{spawn as spawn01, Notify, Spawn as Spawn01};
use f1::{Async, AsyncSink, Future as Future01, Sink as Sink01, Stream as Stream01};
use futures::compat::{Compat, Compat01As03, Executor01CompatExt, Executor01Future, Future01CompatExt, Sink01CompatExt, Stream01CompatExt};
use futures::executor::ThreadPool;
use futures::future::TryFutureExt;
use futures::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};
use futures::sink::{Sink, SinkExt};
use futures::stream::{Stream, TryStreamExt};
use futures::task::{FutureObj, Spawn, SpawnError, SpawnExt};
use futures_01 as f1;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::thread;
use tokio_io::{AsyncRead as AsyncRead01, AsyncWrite as AsyncWrite01};

// ------------------------------------------------------------ harness side of the 0.1 model
struct N {
    w: Waker,
    id: usize,
}
impl Notify for N {
    fn notify(&self, id: usize) {
        ensure!(id == self.id, "wrong-task", "a task was notified as {id} instead of {}", self.id);
        self.w.wake_by_ref();
    }
}
/// Polls 0.1 objects from a harness task, with one notifier per waker.
#[derive(Default)]
struct Drv(Option<Arc<N>>);
impl Drv {
    fn poll<T, R>(&mut self, s: &mut Spawn01<T>, cx: &mut Context<'_>, f: impl FnOnce(&mut T) -> R) -> R {
        if !self.0.as_ref().map_or(false, |n| n.w.will_wake(cx.waker())) {
            self.0 = Some(Arc::new(N { w: cx.waker().clone(), id: 1 + choose(3) }));
        }
        let n = self.0.clone().unwrap();
        s.poll_fn_notify(&n, n.id, f)
    }
}
fn up<T, E>(r: Result<Async<T>, E>) -> Poll<Result<T, E>> {
    match r {
        Ok(Async::Ready(t)) => Poll::Ready(Ok(t)),
        Ok(Async::NotReady) => Poll::Pending,
        Err(e) => Poll::Ready(Err(e)),
    }
}
fn down<T, E>(r: Poll<Result<T, E>>) -> Result<Async<T>, E> {
    match r {
        Poll::Ready(Ok(t)) => Ok(Async::Ready(t)),
        Poll::Pending => Ok(Async::NotReady),
        Poll::Ready(Err(e)) => Err(e),
    }
}
/// The current 0.1 task as a waker (made by the harness, not by the library).
struct T01(f1::task::Task);
impl Wake for T01 {
    fn wake(self: Arc<Self>) {
        self.0.notify()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.notify()
    }
}
fn cx01<R>(f: impl FnOnce(&mut Context<'_>) -> R) -> R {
    let w = Waker::from(Arc::new(T01(f1::task::current())));
    f(&mut Context::from_waker(&w))
}
/// A leaf of the 0.3 model as a native leaf of the 0.1 model.
struct L01<T>(T);
struct Fut01<T>(T);
impl<T, A, E> Future01 for Fut01<T>
where
    T: Future<Output = Result<A, E>> + Unpin,
{
    type Item = A;
    type Error = E;
    fn poll(&mut self) -> Result<Async<A>, E> {
        cx01(|cx| down(Pin::new(&mut self.0).poll(cx)))
    }
}
impl<T, A, E> Stream01 for L01<T>
where
    T: Stream<Item = Result<A, E>> + Unpin,
{
    type Item = A;
    type Error = E;
    fn poll(&mut self) -> Result<Async<Option<A>>, E> {
        cx01(|cx| match Pin::new(&mut self.0).poll_next(cx) {
            Poll::Pending => Ok(Async::NotReady),
            Poll::Ready(None) => Ok(Async::Ready(None)),
            Poll::Ready(Some(Ok(t))) => Ok(Async::Ready(Some(t))),
            Poll::Ready(Some(Err(e))) => Err(e),
        })
    }
}
fn nb<T>(p: Poll<std::io::Result<T>>) -> std::io::Result<T> {
    match p {
        Poll::Ready(r) => r,
        Poll::Pending => Err(std::io::ErrorKind::WouldBlock.into()),
    }
}
impl std::io::Read for L01<Rd> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        cx01(|cx| nb(Pin::new(&mut self.0).poll_read(cx, b)))
    }
}
impl AsyncRead01 for L01<Rd> {}
impl std::io::Write for L01<Wr> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        cx01(|cx| nb(Pin::new(&mut self.0).poll_write(cx, b)))
    }
    fn flush(&mut self) -> std::io::Result<()> {
        cx01(|cx| nb(Pin::new(&mut self.0).poll_flush(cx)))
    }
}
impl AsyncWrite01 for L01<Wr> {
    fn shutdown(&mut self) -> std::io::Result<Async<()>> {
        cx01(|cx| down(Pin::new(&mut self.0).poll_close(cx)))
    }
}

// ------------------------------------------------------------ futures and streams
type Res = Result<V, V>;
type F3 = Box<dyn Future<Output = Res> + Unpin>;
type F1 = Box<dyn Future01<Item = V, Error = V>>;
type S3 = Box<dyn Stream<Item = Res> + Unpin>;
type S1 = Box<dyn Stream01<Item = V, Error = V>>;
fn depth() -> usize {
    1 + choose(4)
}
enum Is<A, B> {
    New(A),
    Old(B),
}
fn plain(r: Res) -> Result<u32, u32> {
    match r {
        Ok(v) => Ok(v.get()),
        Err(v) => Err(v.get()),
    }
}
fn some_res(i: u32) -> (Result<u32, u32>, Res) {
    if chance(25) {
        (Err(i), Err(v(i)))
    } else {
        (Ok(i), Ok(v(i)))
    }
}
fn futures_() {
    let (want, r) = some_res(5);
    let leaf = Fut::new(r);
    let mut x: Is<F3, F1> = if chance(50) { Is::New(Box::new(leaf)) } else { Is::Old(Box::new(Fut01(leaf))) };
    for _ in 0..depth() {
        x = match x {
            Is::New(f) => Is::Old(Box::new(TryFutureExt::compat(f))),
            Is::Old(f) => Is::New(Box::new(Future01CompatExt::compat(f))),
        };
    }
    let mut t = sg::Task::new();
    let give_up = chance(15);
    let n = 1 + choose(2) as u32;
    let got = match x {
        Is::New(mut f) => {
            if give_up {
                count(F_CANCEL);
                t.poll_n(n, |cx| Pin::new(&mut f).poll(cx))
            } else {
                Some(t.block_on_with(|cx| Pin::new(&mut f).poll(cx)))
            }
        }
        Is::Old(f) => {
            let mut s = spawn01(f);
            let mut d = Drv::default();
            let mut p = |cx: &mut Context<'_>| up(d.poll(&mut s, cx, |f| f.poll()));
            if give_up {
                count(F_CANCEL);
                t.poll_n(n, &mut p)
            } else {
                Some(t.block_on_with(&mut p))
            }
        }
    };
    if let Some(got) = got {
        let got = plain(got);
        ensure!(got == want, "wrong-value", "a wrapped future gave {got:?} instead of {want:?}");
    }
}
fn streams() {
    let (want, items): (Vec<_>, Vec<_>) = (0..choose(5) as u32).map(some_res).unzip();
    let leaf = Src::new(items);
    let mut x: Is<S3, S1> = if chance(50) { Is::New(Box::new(leaf)) } else { Is::Old(Box::new(L01(leaf))) };
    for _ in 0..depth() {
        x = match x {
            Is::New(f) => Is::Old(Box::new(TryStreamExt::compat(f))),
            Is::Old(f) => Is::New(Box::new(Stream01CompatExt::compat(f))),
        };
    }
    let mut t = sg::Task::new();
    let mut next: Box<dyn FnMut(&mut Context<'_>) -> Poll<Option<Res>>> = match x {
        Is::New(mut s) => Box::new(move |cx| Pin::new(&mut s).poll_next(cx)),
        Is::Old(s) => {
            let mut s = spawn01(s);
            let mut d = Drv::default();
            Box::new(move |cx| match up(d.poll(&mut s, cx, |s| s.poll())) {
                Poll::Ready(Ok(Some(t))) => Poll::Ready(Some(Ok(t))),
                Poll::Ready(Ok(None)) => Poll::Ready(None),
                Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
                Poll::Pending => Poll::Pending,
            })
        }
    };
    let mut got = vec![];
    loop {
        if chance(4) {
            count(F_CANCEL);
            ensure!(want.starts_with(&got), "wrong-items", "a wrapped stream gave {got:?} of {want:?}");
            return;
        }
        match t.block_on_with(&mut next) {
            Some(r) => got.push(plain(r)),
            None => break,
        }
    }
    ensure!(got == want, "wrong-items", "a wrapped stream gave {got:?} instead of {want:?}");
}

// ------------------------------------------------------------ sinks
#[derive(Default)]
struct KLog {
    got: Vec<u32>,
    flushed: usize,
    closing: bool,
    closed: bool,
    ready: bool,
    raised: u32,
}
type KL = Rc<RefCell<KLog>>;
/// An underlying sink of either model (and a stream).
struct Sk {
    l: KL,
    rg: sg::Gate,
    fg: sg::Gate,
    cg: sg::Gate,
    err_in: u32,
    src: Src<Res>,
    _t: Tracked,
}
impl Sk {
    fn err(&mut self) -> Result<(), u32> {
        if self.err_in > 0 {
            self.err_in -= 1;
            if self.err_in == 0 {
                count(F_ERR);
                self.l.borrow_mut().raised += 1;
                return Err(77);
            }
        }
        Ok(())
    }
    fn put(&mut self, x: V) -> Result<(), u32> {
        ensure!(!self.l.borrow().closing, "used-after-close", "an item was sent to a sink that is closing or closed");
        self.err()?;
        self.l.borrow_mut().got.push(x.get());
        Ok(())
    }
    fn flush_(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), u32>> {
        ensure!(!self.l.borrow().closing, "used-after-close", "a sink that is closing or closed was flushed");
        if !self.fg.poll(cx) {
            return Poll::Pending;
        }
        self.err()?;
        self.fg.rearm();
        let mut l = self.l.borrow_mut();
        l.flushed = l.got.len();
        Poll::Ready(Ok(()))
    }
    fn shut(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), u32>> {
        self.l.borrow_mut().closing = true;
        if !self.cg.poll(cx) {
            return Poll::Pending;
        }
        self.err()?;
        let mut l = self.l.borrow_mut();
        l.flushed = l.got.len();
        l.closed = true;
        Poll::Ready(Ok(()))
    }
}
impl Sink<V> for Sk {
    type Error = u32;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), u32>> {
        ensure!(!self.l.borrow().closing, "used-after-close", "a sink that is closing or closed was asked for readiness");
        if self.l.borrow().ready {
            return Poll::Ready(Ok(()));
        }
        if !self.rg.poll(cx) {
            return Poll::Pending;
        }
        self.err()?;
        self.rg.rearm();
        self.l.borrow_mut().ready = true;
        Poll::Ready(Ok(()))
    }
    fn start_send(mut self: Pin<&mut Self>, x: V) -> Result<(), u32> {
        ensure!(self.l.borrow().ready, "not-ready", "an item was sent to a sink that had not reported readiness");
        self.l.borrow_mut().ready = false;
        self.put(x)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), u32>> {
        self.flush_(cx)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), u32>> {
        self.shut(cx)
    }
}
struct Sk01(Sk);
impl Sink01 for Sk01 {
    type SinkItem = V;
    type SinkError = u32;
    fn start_send(&mut self, x: V) -> Result<AsyncSink<V>, u32> {
        if !cx01(|cx| self.0.rg.poll(cx)) {
            return Ok(AsyncSink::NotReady(x));
        }
        self.0.rg.rearm();
        self.0.put(x)?;
        Ok(AsyncSink::Ready)
    }
    fn poll_complete(&mut self) -> Result<Async<()>, u32> {
        cx01(|cx| down(self.0.flush_(cx)))
    }
    fn close(&mut self) -> Result<Async<()>, u32> {
        cx01(|cx| down(self.0.shut(cx)))
    }
}
impl Stream01 for Sk01 {
    type Item = V;
    type Error = V;
    fn poll(&mut self) -> Result<Async<Option<V>>, V> {
        cx01(|cx| match Pin::new(&mut self.0.src).poll_next(cx) {
            Poll::Pending => Ok(Async::NotReady),
            Poll::Ready(None) => Ok(Async::Ready(None)),
            Poll::Ready(Some(Ok(t))) => Ok(Async::Ready(Some(t))),
            Poll::Ready(Some(Err(e))) => Err(e),
        })
    }
}
type K3 = Box<dyn Sink<V, Error = u32> + Unpin>;
type K1 = Box<dyn Sink01<SinkItem = V, SinkError = u32>>;
/// A sink of either model seen as the operations of the 0.3 model.
enum Top {
    New(K3),
    Old(Spawn01<K1>, Drv, Option<V>),
}
impl Top {
    /// Offers an item; the 0.1 model hands it back when not ready.
    fn send(&mut self, t: &mut sg::Task, x: u32, polls: Option<u32>) -> Option<Result<(), u32>> {
        match self {
            Top::New(s) => {
                let r = match polls {
                    Some(n) => t.poll_n(n, |cx| Pin::new(&mut *s).poll_ready(cx))?,
                    None => t.block_on_with(|cx| Pin::new(&mut *s).poll_ready(cx)),
                };
                Some(r.and_then(|_| Pin::new(s).start_send(v(x))))
            }
            Top::Old(s, d, slot) => {
                *slot = Some(v(x));
                let mut p = |cx: &mut Context<'_>| {
                    let item = slot.take().unwrap();
                    match d.poll(s, cx, |s| s.start_send(item)) {
                        Ok(AsyncSink::Ready) => Poll::Ready(Ok(())),
                        Ok(AsyncSink::NotReady(i)) => {
                            ensure!(i.get() == x, "wrong-item", "start_send handed back another item");
                            *slot = Some(i);
                            Poll::Pending
                        }
                        Err(e) => Poll::Ready(Err(e)),
                    }
                };
                let r = match polls {
                    Some(n) => t.poll_n(n, &mut p),
                    None => Some(t.block_on_with(&mut p)),
                };
                *slot = None;
                r
            }
        }
    }
    fn flush(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), u32>> {
        match self {
            Top::New(s) => Pin::new(s).poll_flush(cx),
            Top::Old(s, d, _) => up(d.poll(s, cx, |s| s.poll_complete())),
        }
    }
    fn close(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), u32>> {
        match self {
            Top::New(s) => Pin::new(s).poll_close(cx),
            Top::Old(s, d, _) => up(d.poll(s, cx, |s| s.close())),
        }
    }
}
fn sinks() {
    let l: KL = Default::default();
    let err_in = if chance(35) { 1 + choose(12) as u32 } else { 0 };
    let leaf = Sk { l: l.clone(), rg: sg::Gate::new(), fg: sg::Gate::new(), cg: sg::Gate::new(), err_in, src: Src::new(vec![]), _t: v(80_000) };
    let mut x: Is<K3, K1> = if chance(50) { Is::New(Box::new(leaf)) } else { Is::Old(Box::new(Sk01(leaf))) };
    let mut holds = 0; // every step up from 0.1 may park one item
    for _ in 0..depth() {
        x = match x {
            Is::New(s) => Is::Old(Box::new(SinkExt::compat(s))),
            Is::Old(s) => {
                holds += 1;
                Is::New(Box::new(s.sink_compat()))
            }
        };
    }
    let mut top = match x {
        Is::New(s) => Top::New(s),
        Is::Old(s) => Top::Old(spawn01(s), Drv::default(), None),
    };
    let mut t = sg::Task::new();
    let mut acc: Vec<u32> = vec![];
    let give = [0, 0, 25][choose(3)];
    let n = 1 + choose(8);
    for i in 0..=n {
        let polls = (give > 0 && chance(give)).then(|| {
            count(F_CANCEL);
            1 + choose(2) as u32
        });
        let (op, r) = if i == n {
            ("close", Some(t.block_on_with(|cx| top.close(cx))))
        } else if chance(65) {
            let x = acc.len() as u32 + 1;
            let r = top.send(&mut t, x, polls);
            if let Some(Ok(())) = r {
                acc.push(x);
            }
            ("send", r)
        } else if let Some(k) = polls {
            ("flush", t.poll_n(k, |cx| top.flush(cx)))
        } else {
            ("flush", Some(t.block_on_with(|cx| top.flush(cx))))
        };
        let l = l.borrow();
        match r {
            Some(Err(e)) => {
                ensure!(e == 77 && l.raised == 1, "wrong-error", "{op} failed with {e}, {} errors were raised", l.raised);
                return;
            }
            _ => ensure!(l.raised == 0, "error-swallowed", "the underlying sink failed during {op}, which did not report it"),
        }
        ensure!(acc.starts_with(&l.got), "wrong-items", "the underlying sink has {:?} where {acc:?} is due", l.got);
        ensure!(acc.len() - l.got.len() <= holds, "over-capacity", "{} items are held back by a stack that may hold {holds}", acc.len() - l.got.len());
        if r.is_some() && op != "send" {
            ensure!(l.got == acc, "held-back", "{op} completed with {:?} passed on where {acc:?} is due", l.got);
            ensure!(l.flushed == acc.len(), "not-flushed", "{op} completed with {} of {} items flushed", l.flushed, acc.len());
            ensure!(op != "close" || l.closed, "not-closed", "close completed without closing the underlying sink");
        }
    }
}
/// An object that is both a stream and a sink stays both.
fn duplex() {
    let l: KL = Default::default();
    let (want, items): (Vec<_>, Vec<_>) = (0..choose(4) as u32).map(some_res).unzip();
    let leaf = Sk { l: l.clone(), rg: sg::Gate::new(), fg: sg::Gate::new(), cg: sg::Gate::new(), err_in: 0, src: Src::new(items), _t: v(80_000) };
    let mut s = Sk01(leaf).sink_compat();
    let mut t = sg::Task::new();
    let (mut got, mut acc, mut end) = (vec![], vec![], false);
    while !end || acc.len() < 2 {
        if !end && chance(50) {
            match t.block_on_with(|cx| Pin::new(&mut s).poll_next(cx)) {
                Some(r) => got.push(plain(r)),
                None => end = true,
            }
        } else {
            let x = acc.len() as u32;
            t.block_on_with(|cx| Pin::new(&mut s).poll_ready(cx)).unwrap();
            Pin::new(&mut s).start_send(v(x)).unwrap();
            acc.push(x);
        }
    }
    t.block_on_with(|cx| Pin::new(&mut s).poll_close(cx)).unwrap();
    ensure!(got == want, "wrong-items", "a wrapped stream gave {got:?} instead of {want:?}");
    ensure!(l.borrow().got == acc && l.borrow().closed, "held-back", "closed with {:?} passed on of {acc:?}", l.borrow().got);
    drop(s.into_inner());
}

// ------------------------------------------------------------ byte I/O
type R3 = Box<dyn AsyncRead + Unpin>;
type R1 = Box<dyn AsyncRead01>;
fn reader() {
    let evs = contents(20, [0, 0, 8][choose(3)]);
    let want: Vec<Ev> = evs.iter().copied().collect();
    let leaf = Rd::new(evs);
    let mut x: Is<R3, R1> = if chance(50) { Is::New(Box::new(leaf)) } else { Is::Old(Box::new(L01(leaf))) };
    for _ in 0..depth() {
        x = match x {
            Is::New(f) => Is::Old(Box::new(AsyncReadExt::compat(f))),
            Is::Old(f) => Is::New(Box::new(futures::compat::AsyncRead01CompatExt::compat(f))),
        };
    }
    let mut t = sg::Task::new();
    let mut rd: Box<dyn FnMut(&mut Context<'_>, &mut [u8]) -> Poll<std::io::Result<usize>>> = match x {
        Is::New(mut r) => Box::new(move |cx, b| Pin::new(&mut r).poll_read(cx, b)),
        Is::Old(r) => {
            let mut s = spawn01(r);
            let mut d = Drv::default();
            Box::new(move |cx, b| up(d.poll(&mut s, cx, |r| r.poll_read(b))))
        }
    };
    let mut got: Vec<Ev> = vec![];
    loop {
        let mut b = vec![0xAAu8; 1 + choose(6)];
        match t.block_on_with(|cx| rd(cx, &mut b)) {
            Ok(0) => break,
            Ok(n) => {
                ensure!(n <= b.len(), "wrong-count", "{n} bytes reported for a buffer of {}", b.len());
                got.extend(b[..n].iter().map(|x| Ev::B(*x)));
                ensure!(b[n..].iter().all(|x| *x == 0xAA), "wrong-bytes", "bytes beyond the reported count were changed");
            }
            Err(e) => match errno(&e) {
                Some(n) => got.push(Ev::E(n)),
                None => fail("wrong-error", &format!("{e:?} was reported, which the source did not raise")),
            },
        }
    }
    ensure!(got == want, "wrong-bytes", "a wrapped reader gave {got:?} instead of {want:?}");
}
type W3 = Box<dyn AsyncWrite + Unpin>;
type W1 = Box<dyn AsyncWrite01>;
fn writer() {
    let leaf = if chance(30) { Wr::faulty() } else { Wr::new() };
    let l = leaf.log.clone();
    let mut x: Is<W3, W1> = if chance(50) { Is::New(Box::new(leaf)) } else { Is::Old(Box::new(L01(leaf))) };
    for _ in 0..depth() {
        x = match x {
            Is::New(f) => Is::Old(Box::new(AsyncWriteExt::compat_write(f))),
            Is::Old(f) => Is::New(Box::new(futures::compat::AsyncWrite01CompatExt::compat(f))),
        };
    }
    enum Y {
        New(W3),
        Old(Spawn01<W1>, Drv),
    }
    let mut y = match x {
        Is::New(w) => Y::New(w),
        Is::Old(w) => Y::Old(spawn01(w), Drv::default()),
    };
    let mut t = sg::Task::new();
    let mut acc: Vec<u8> = vec![];
    let mut errs = 0;
    let n = choose(7);
    let mut c = 0u8;
    for i in 0..=n {
        let errs0 = l.borrow().errs.len();
        let (op, r) = if i == n {
            ("close", t.block_on_with(|cx| match &mut y {
                Y::New(w) => Pin::new(w).poll_close(cx),
                Y::Old(s, d) => up(d.poll(s, cx, |w| w.shutdown())),
            }))
        } else if chance(70) {
            let buf: Vec<u8> = (0..choose(6)).map(|_| { c = c.wrapping_add(1); c }).collect();
            let r = t.block_on_with(|cx| match &mut y {
                Y::New(w) => Pin::new(w).poll_write(cx, &buf),
                Y::Old(s, d) => up(d.poll(s, cx, |w| w.poll_write(&buf))),
            });
            if let Ok(k) = r {
                ensure!(k <= buf.len(), "wrong-count", "{k} bytes reported for {}", buf.len());
                acc.extend_from_slice(&buf[..k]);
            }
            ("write", r.map(|_| ()))
        } else {
            ("flush", t.block_on_with(|cx| match &mut y {
                Y::New(w) => Pin::new(w).poll_flush(cx),
                Y::Old(s, d) => up(d.poll(s, cx, |w| w.poll_flush())),
            }))
        };
        let l = l.borrow();
        ensure!(l.data == acc, "wrong-bytes", "after {op} the destination has {:?} where {acc:?} was accepted", l.data);
        match r {
            Ok(()) => {
                ensure!(l.errs.len() == errs0, "error-swallowed", "{op} succeeded although the destination failed");
                ensure!(op == "write" || l.flushed == acc.len(), "not-flushed", "{op} completed with {} of {} bytes flushed", l.flushed, acc.len());
                ensure!(op != "close" || l.closed, "not-closed", "close completed without closing the destination");
            }
            Err(e) => {
                errs += 1;
                ensure!(errno(&e) == l.errs.last().copied() && l.errs.len() == errs, "wrong-error", "{op} failed with {e:?} where {:?} were raised", l.errs);
            }
        }
    }
}

// ------------------------------------------------------------ executors
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
impl<F: Future + Unpin> Future for Force<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        Pin::new(&mut self.0).poll(cx)
    }
}
impl<F: Future01> Future01 for Force<F> {
    type Item = F::Item;
    type Error = F::Error;
    fn poll(&mut self) -> Result<Async<F::Item>, F::Error> {
        self.0.poll()
    }
}
#[derive(Default)]
struct Col(RefCell<Vec<FutureObj<'static, ()>>>);
impl Spawn for Col {
    fn spawn_obj(&self, f: FutureObj<'static, ()>) -> Result<(), SpawnError> {
        self.0.borrow_mut().push(f);
        Ok(())
    }
}
#[derive(Clone)]
struct Col01(Arc<Mutex<Vec<Executor01Future>>>, bool);
impl f1::future::Executor<Executor01Future> for Col01 {
    fn execute(&self, f: Executor01Future) -> Result<(), f1::future::ExecuteError<Executor01Future>> {
        if self.1 {
            return Err(f1::future::ExecuteError::new(f1::future::ExecuteErrorKind::Shutdown, f));
        }
        self.0.lock().unwrap().push(f);
        Ok(())
    }
}
fn executors() {
    let ran = Rc::new(RefCell::new(0u32));
    let n = 1 + choose(3);
    let body = |ran: &Rc<RefCell<u32>>| {
        let ran = ran.clone();
        futures::FutureExt::map(Fut::new(v(3)), move |x| {
            ensure!(x.get() == 3, "wrong-value", "wrong value");
            *ran.borrow_mut() += 1;
        })
    };
    let mut t = sg::Task::new();
    if chance(50) {
        // a 0.3 spawner used through the 0.1 interface
        let c = Compat::new(Col::default());
        for _ in 0..n {
            let fails = chance(30);
            let f = Fut01(futures::FutureExt::map(body(&ran), move |_| if fails { Err(()) } else { Ok(()) }));
            f1::future::Executor::execute(&c, Force(f)).unwrap();
        }
        let fs: Vec<_> = c.get_ref().0.borrow_mut().drain(..).collect();
        ensure!(fs.len() == n, "not-spawned", "{} of {n} futures reached the spawner", fs.len());
        for mut f in fs {
            t.block_on_with(|cx| Pin::new(&mut f).poll(cx));
        }
    } else {
        // a 0.1 executor used as a 0.3 spawner
        let down = chance(20);
        let c = Col01(Default::default(), down);
        let sp = Executor01CompatExt::compat(c.clone());
        for _ in 0..n {
            let r = sp.spawn(Force(body(&ran)));
            ensure!(r.is_err() == down, "spawn-error", "spawning gave {r:?} although the executor {}", if down { "had shut down" } else { "accepted the future" });
            if let Err(e) = r {
                ensure!(e.is_shutdown(), "spawn-error", "a shut-down executor was reported as {e:?}");
            }
        }
        let fs: Vec<_> = c.0.lock().unwrap().drain(..).collect();
        ensure!(down || fs.len() == n, "not-spawned", "{} of {n} futures reached the executor", fs.len());
        for f in fs {
            let mut s = spawn01(f);
            let mut d = Drv::default();
            let r = t.block_on_with(|cx| up(d.poll(&mut s, cx, |f| f.poll())));
            ensure!(r == Ok(()), "wrong-value", "a spawned future gave {r:?}");
        }
        if down {
            return;
        }
    }
    let ran = *ran.borrow();
    ensure!(ran as usize == n, "not-run", "{ran} of {n} spawned futures ran");
}
pub fn values() {
    sg::begin();
    match choose(8) {
        0 => futures_(),
        1 => streams(),
        2 | 3 => sinks(),
        4 => duplex(),
        5 => reader(),
        6 => writer(),
        _ => executors(),
    }
    while sg::step() {}
    check_leaks("compat");
}

// ------------------------------------------------------------ wake-ups between threads
type TF3 = Box<dyn Future<Output = Result<Tracked, u32>> + Unpin + Send>;
type TF1 = Box<dyn Future01<Item = Tracked, Error = u32> + Send>;
type TS3 = Box<dyn Stream<Item = Result<Tracked, u32>> + Unpin + Send>;
type TS1 = Box<dyn Stream01<Item = Tracked, Error = u32> + Send>;
struct LeafF(th::Leaf, Option<Tracked>);
impl Future for LeafF {
    type Output = Result<Tracked, u32>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if !self.0.poll(cx) {
            return Poll::Pending;
        }
        Poll::Ready(Ok(self.1.take().unwrap()))
    }
}
struct LeafS(th::Leaf, VecDeque<Tracked>);
impl Stream for LeafS {
    type Item = Result<Tracked, u32>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        if !self.0.poll(cx) {
            return Poll::Pending;
        }
        self.0.rearm(2);
        Poll::Ready(self.1.pop_front().map(Ok))
    }
}
/// Drives a future on this thread, perhaps moving it to another one in between.
fn drive_f(x: Is<TF3, TF1>, hops: usize) -> Result<Tracked, u32> {
    let mut t = th::Task::new(th::faults());
    let polls = (hops > 0).then(|| choose(3) as u32);
    match x {
        Is::New(mut f) => {
            if let Some(n) = polls {
                if let Some(r) = t.poll_n(n, |cx| Pin::new(&mut f).poll(cx)) {
                    return r;
                }
                return thread::spawn(move || drive_f(Is::New(f), hops - 1)).join().unwrap();
            }
            if chance(30) {
                return futures::executor::block_on(f);
            }
            t.block_on_with(|cx| Pin::new(&mut f).poll(cx))
        }
        Is::Old(f) => {
            if polls.is_none() && chance(30) {
                return f.wait();
            }
            let mut s = spawn01(f);
            let mut d = Drv::default();
            if let Some(n) = polls {
                if let Some(r) = t.poll_n(n, |cx| up(d.poll(&mut s, cx, |f| f.poll()))) {
                    return r;
                }
                let f = s.into_inner();
                return thread::spawn(move || drive_f(Is::Old(f), hops - 1)).join().unwrap();
            }
            t.block_on_with(|cx| up(d.poll(&mut s, cx, |f| f.poll())))
        }
    }
}
fn drive_s(x: Is<TS3, TS1>) -> Vec<Result<u32, u32>> {
    let mut t = th::Task::new(th::faults());
    let mut got = vec![];
    match x {
        Is::New(mut s) => {
            while let Some(r) = t.block_on_with(|cx| Pin::new(&mut s).poll_next(cx)) {
                got.push(r.map(|v| v.get()));
            }
        }
        Is::Old(s) => {
            if chance(30) {
                return s.wait().map(|r| r.map(|v| v.get())).collect();
            }
            let mut s = spawn01(s);
            let mut d = Drv::default();
            loop {
                match t.block_on_with(|cx| up(d.poll(&mut s, cx, |s| s.poll()))) {
                    Ok(None) => break,
                    Ok(Some(v)) => got.push(Ok(v.get())),
                    Err(e) => got.push(Err(e)),
                }
            }
        }
    }
    got
}
fn tower_f(mut x: Is<TF3, TF1>, n: usize) -> Is<TF3, TF1> {
    for _ in 0..n {
        x = match x {
            Is::New(f) => Is::Old(Box::new(TryFutureExt::compat(f))),
            Is::Old(f) => Is::New(Box::new(Future01CompatExt::compat(f))),
        };
    }
    x
}
fn tower_s(mut x: Is<TS3, TS1>, n: usize) -> Is<TS3, TS1> {
    for _ in 0..n {
        x = match x {
            Is::New(f) => Is::Old(Box::new(TryStreamExt::compat(f))),
            Is::Old(f) => Is::New(Box::new(Stream01CompatExt::compat(f))),
        };
    }
    x
}
/// Drives a 0.1 operation on this thread.
fn run01<T, R>(obj: T, mut f: impl FnMut(&mut T) -> Poll<R>) -> R {
    let mut s = spawn01(obj);
    let mut d = Drv::default();
    th::Task::new(th::faults()).block_on_with(|cx| d.poll(&mut s, cx, |x| f(x)))
}
pub fn threads() {
    let hops = if chance(25) { 1 + choose(2) } else { 0 };
    match choose(5) {
        0 => {
            // a single value
            let send = chance(80);
            let (x, j): (Is<TF3, TF1>, _) = if chance(50) {
                let (tx, rx) = f1::sync::oneshot::channel::<Tracked>();
                let j = thread::spawn(move || {
                    th::dawdle(3);
                    if send {
                        let _ = tx.send(Tracked::new(4));
                    }
                });
                (Is::Old(Box::new(rx.map_err(|_| 9))), j)
            } else {
                let (tx, rx) = futures::channel::oneshot::channel::<Tracked>();
                let j = thread::spawn(move || {
                    th::dawdle(3);
                    if send {
                        let _ = tx.send(Tracked::new(4));
                    }
                });
                (Is::New(Box::new(TryFutureExt::map_err(rx, |_| 9))), j)
            };
            let r = drive_f(tower_f(x, depth()), hops).map(|v| v.get());
            ensure!(r == if send { Ok(4) } else { Err(9) }, "wrong-value", "received {r:?}");
            j.join().unwrap();
        }
        1 | 2 => {
            // a channel of either model; the sending half may be wrapped too
            let n = choose(5) as u32;
            let cap = choose(3);
            let (x, j): (Is<TS3, TS1>, _) = if chance(50) {
                let (tx, rx) = f1::sync::mpsc::channel::<Tracked>(cap);
                let j = thread::spawn(move || {
                    if chance(60) {
                        let mut tx = tx.sink_compat();
                        let mut t = th::Task::new(th::faults());
                        for i in 0..n {
                            th::dawdle(1);
                            t.block_on_with(|cx| Pin::new(&mut tx).poll_ready(cx)).unwrap();
                            Pin::new(&mut tx).start_send(Tracked::new(i)).unwrap();
                        }
                        t.block_on_with(|cx| Pin::new(&mut tx).poll_close(cx)).unwrap();
                    } else {
                        let mut tx = tx.wait();
                        for i in 0..n {
                            th::dawdle(1);
                            tx.send(Tracked::new(i)).unwrap();
                        }
                        tx.close().unwrap();
                    }
                });
                (Is::Old(Box::new(rx.map_err(|_| 9))), j)
            } else {
                let (tx, rx) = futures::channel::mpsc::channel::<Tracked>(cap);
                let j = thread::spawn(move || {
                    let mut tx = spawn01(SinkExt::compat(tx));
                    let mut d = Drv::default();
                    let mut t = th::Task::new(th::faults());
                    for i in 0..n {
                        th::dawdle(1);
                        let mut slot = Some(Tracked::new(i));
                        t.block_on_with(|cx| {
                            let item = slot.take().unwrap();
                            match d.poll(&mut tx, cx, |s| s.start_send(item)).unwrap() {
                                AsyncSink::Ready => Poll::Ready(()),
                                AsyncSink::NotReady(i) => {
                                    slot = Some(i);
                                    Poll::Pending
                                }
                            }
                        });
                    }
                    t.block_on_with(|cx| up(d.poll(&mut tx, cx, |s| s.close()))).unwrap();
                });
                (Is::New(Box::new(futures::StreamExt::map(rx, Ok))), j)
            };
            let got = drive_s(tower_s(x, depth()));
            let want: Vec<Result<u32, u32>> = (0..n).map(Ok).collect();
            ensure!(got == want, "wrong-items", "received {got:?} instead of {want:?}");
            j.join().unwrap();
        }
        3 => {
            // leaves woken by the environment thread
            let (al, aj) = th::Alarm::start();
            if chance(50) {
                let leaf = LeafF(th::Leaf::new(&al, 3), Some(Tracked::new(4)));
                let x: Is<TF3, TF1> = if chance(50) { Is::New(Box::new(leaf)) } else { Is::Old(Box::new(Fut01(leaf))) };
                let r = drive_f(tower_f(x, depth()), hops).map(|v| v.get());
                ensure!(r == Ok(4), "wrong-value", "received {r:?}");
            } else {
                let n = choose(4) as u32;
                let leaf = LeafS(th::Leaf::new(&al, 2), (0..n).map(Tracked::new).collect());
                let x: Is<TS3, TS1> = if chance(50) { Is::New(Box::new(leaf)) } else { Is::Old(Box::new(L01(leaf))) };
                let got = drive_s(tower_s(x, depth()));
                let want: Vec<Result<u32, u32>> = (0..n).map(Ok).collect();
                ensure!(got == want, "wrong-items", "received {got:?} instead of {want:?}");
            }
            al.stop();
            aj.join().unwrap();
        }
        _ => {
            // 0.1 futures on the thread pool
            let pool = ThreadPool::builder().pool_size(1 + choose(2)).create().unwrap();
            let (al, aj) = th::Alarm::start();
            let c = Compat::new(pool);
            let mut rxs = vec![];
            for i in 0..1 + choose(2) as u32 {
                let (tx, rx) = f1::sync::oneshot::channel::<Tracked>();
                let leaf = Fut01(LeafF(th::Leaf::new(&al, 2), Some(Tracked::new(i))));
                f1::future::Executor::execute(
                    &c,
                    leaf.then(move |r| {
                        let _ = tx.send(r.unwrap());
                        Ok::<(), ()>(())
                    }),
                )
                .unwrap();
                rxs.push(rx);
            }
            for (i, rx) in rxs.into_iter().enumerate() {
                let r = drive_f(tower_f(Is::Old(Box::new(rx.map_err(|_| 9))), depth()), hops).map(|v| v.get());
                ensure!(r == Ok(i as u32), "wrong-value", "received {r:?}");
            }
            drop(c);
            al.stop();
            aj.join().unwrap();
        }
    }
}
/// Lets the 0.1 library initialise its process-wide state before any run.
pub fn warm_up() {
    let _ = f1::future::ok::<(), ()>(()).wait();
    let _ = Compat01As03::new(f1::future::ok::<(), ()>(()));
}
