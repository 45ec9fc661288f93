//! futures-test: adapters that perturb or observe readiness must change nothing
//! else, and what they report must be true.
use crate::ex::{sg::*, th};
use crate::rt::*;
use futures::future::{FusedFuture, Future};
use futures::io::{self, AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite, IoSlice, IoSliceMut, SeekFrom};
use futures::sink::Sink;
use futures::stream::{FusedStream, Stream};
use futures::task::{Spawn, SpawnExt};
use futures_test::future::FutureTestExt;
use futures_test::io::{AsyncReadTestExt, AsyncWriteTestExt};
use futures_test::sink::SinkTestExt;
use futures_test::stream::StreamTestExt;
use futures_test::task::{new_count_waker, noop_context, noop_spawner_mut, panic_context, panic_spawner_mut, panic_waker, panic_waker_ref, NoopSpawner, PanicSpawner, RecordSpawner};
use std::cell::RefCell;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

use super::ioread::{errno, ioerr};

struct St {
    calls: u32,          // polls that reached the object
    name: &'static str,  // by which method
    ready: bool,         // did the last one give a result
    res: Result<u32, u32>,
    len: usize,          // buffer space it was shown
    data: Vec<u8>,       // bytes it was given or gave
    direct: Vec<u64>,    // calls that are not polls
    seq: u32,
    ended: bool,
    errs: u32,
}
type O = Rc<RefCell<St>>;
/// The innermost object: every readiness decision is the environment's.
struct Obj {
    o: O,
    gate: Gate,
    win: Vec<u8>,
    _t: Tracked,
}
impl Obj {
    fn new() -> (O, Obj) {
        let st = St { calls: 0, name: "", ready: false, res: Ok(0), len: 0, data: vec![], direct: vec![], seq: 0, ended: false, errs: [0, 0, 25][choose(3)] };
        let o = Rc::new(RefCell::new(st));
        (o.clone(), Obj { o, gate: Gate::new(), win: vec![], _t: Tracked::new(95_000) })
    }
    fn poll(&mut self, name: &'static str, cx: &mut Context<'_>) -> Poll<Result<u32, u32>> {
        {
            let mut s = self.o.borrow_mut();
            s.calls += 1;
            s.name = name;
            s.ready = false;
        }
        if !self.gate.poll(cx) {
            return Poll::Pending;
        }
        self.gate.rearm();
        let mut s = self.o.borrow_mut();
        s.ready = true;
        s.seq += 1;
        let q = s.seq;
        s.res = if s.errs > 0 && chance(s.errs) { Err(q) } else { Ok(q) };
        Poll::Ready(s.res)
    }
    fn bytes(&mut self, r: Result<u32, u32>, total: usize) -> io::Result<Vec<u8>> {
        let mut s = self.o.borrow_mut();
        s.len = total;
        s.data.clear();
        match r {
            Err(e) => Err(ioerr(e)),
            Ok(q) => {
                let n = choose(total + 1);
                s.data = (0..n).map(|i| (q as usize * 7 + i) as u8).collect();
                Ok(s.data.clone())
            }
        }
    }
    fn taken(&mut self, r: Result<u32, u32>, bufs: Vec<u8>) -> io::Result<usize> {
        let mut s = self.o.borrow_mut();
        s.len = bufs.len();
        s.data = bufs;
        match r {
            Err(e) => Err(ioerr(e)),
            Ok(_) => Ok(choose(s.len + 1)),
        }
    }
}
macro_rules! ready {
    ($e:expr) => {
        match $e {
            Poll::Ready(r) => r,
            Poll::Pending => return Poll::Pending,
        }
    };
}
impl Future for Obj {
    type Output = Result<u32, u32>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let r = ready!(Obj::poll(&mut self, "poll", cx));
        self.o.borrow_mut().ended = true;
        Poll::Ready(r)
    }
}
impl FusedFuture for Obj {
    fn is_terminated(&self) -> bool {
        self.o.borrow().ended
    }
}
impl Stream for Obj {
    type Item = Result<u32, u32>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let r = ready!(Obj::poll(&mut self, "poll_next", cx));
        if chance(20) {
            self.o.borrow_mut().ended = true;
            return Poll::Ready(None);
        }
        Poll::Ready(Some(r))
    }
}
impl FusedStream for Obj {
    fn is_terminated(&self) -> bool {
        self.o.borrow().ended
    }
}
impl Sink<u32> for Obj {
    type Error = u32;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), u32>> {
        Obj::poll(&mut self, "poll_ready", cx).map_ok(drop)
    }
    fn start_send(self: Pin<&mut Self>, x: u32) -> Result<(), u32> {
        let mut s = self.o.borrow_mut();
        s.direct.push(x as u64);
        if s.errs > 0 && chance(s.errs) {
            return Err(x + 1000);
        }
        Ok(())
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), u32>> {
        Obj::poll(&mut self, "poll_flush", cx).map_ok(drop)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), u32>> {
        Obj::poll(&mut self, "poll_close", cx).map_ok(drop)
    }
}
impl AsyncRead for Obj {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let r = ready!(Obj::poll(&mut self, "poll_read", cx));
        Poll::Ready(self.bytes(r, buf.len()).map(|d| {
            buf[..d.len()].copy_from_slice(&d);
            d.len()
        }))
    }
    fn poll_read_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &mut [IoSliceMut<'_>]) -> Poll<io::Result<usize>> {
        let r = ready!(Obj::poll(&mut self, "poll_read_vectored", cx));
        let total = bufs.iter().map(|b| b.len()).sum();
        Poll::Ready(self.bytes(r, total).map(|d| {
            let mut i = 0;
            for b in bufs {
                for x in b.iter_mut() {
                    if i < d.len() {
                        *x = d[i];
                        i += 1;
                    }
                }
            }
            d.len()
        }))
    }
}
impl AsyncBufRead for Obj {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        let this = self.get_mut();
        let r = ready!(Obj::poll(this, "poll_fill_buf", cx));
        match this.bytes(r, 9) {
            Err(e) => Poll::Ready(Err(e)),
            Ok(d) => {
                this.win = d;
                Poll::Ready(Ok(&this.win))
            }
        }
    }
    fn consume(self: Pin<&mut Self>, n: usize) {
        self.o.borrow_mut().direct.push(n as u64);
    }
}
impl AsyncWrite for Obj {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let r = ready!(Obj::poll(&mut self, "poll_write", cx));
        Poll::Ready(self.taken(r, buf.to_vec()))
    }
    fn poll_write_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<io::Result<usize>> {
        let r = ready!(Obj::poll(&mut self, "poll_write_vectored", cx));
        let all = bufs.iter().flat_map(|b| b.iter().copied()).collect();
        Poll::Ready(self.taken(r, all))
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Obj::poll(&mut self, "poll_flush", cx).map_ok(drop).map_err(ioerr)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Obj::poll(&mut self, "poll_close", cx).map_ok(drop).map_err(ioerr)
    }
}
impl AsyncSeek for Obj {
    fn poll_seek(mut self: Pin<&mut Self>, cx: &mut Context<'_>, to: SeekFrom) -> Poll<io::Result<u64>> {
        let r = ready!(Obj::poll(&mut self, "poll_seek", cx));
        let code = match to {
            SeekFrom::Start(n) => n,
            SeekFrom::Current(n) => 1000 + n as u64,
            SeekFrom::End(n) => 2000 + n as u64,
        };
        self.o.borrow_mut().direct.push(code);
        Poll::Ready(r.map(|q| q as u64).map_err(ioerr))
    }
}

/// What a stack of adapters does to one operation.
struct Run {
    t: Task,
    o: O,
    extra: usize, // Pendings it adds to each operation
    limit: Option<usize>,
    what: String,
}
impl Run {
    /// Performs one operation; the adapters add exactly the Pendings they
    /// promise (each waking the task), everything else is the object's doing.
    fn op<T>(&mut self, names: &[&'static str], mut f: impl FnMut(&mut Context<'_>) -> Poll<T>) -> T {
        self.o.borrow_mut().calls = 0;
        let name = names[0];
        for _ in 0..self.extra {
            let r = self.t.poll(&mut f);
            ensure!(r.is_pending(), "no-pending", "{}: {name} gave a result where a Pending was to be introduced", self.what);
            ensure!(self.o.borrow().calls == 0, "early-call", "{}: {name} reached the object before the introduced Pending", self.what);
            self.t.wait();
        }
        loop {
            let before = self.o.borrow().calls;
            let r = self.t.poll(&mut f);
            let (calls, n, rdy) = {
                let s = self.o.borrow();
                (s.calls, s.name, s.ready)
            };
            ensure!(calls == before + 1, "passed-on", "{}: one {name} became {} calls of the object", self.what, calls - before);
            ensure!(names.contains(&n), "passed-on", "{}: {name} was passed on as {n}", self.what);
            ensure!(r.is_ready() == rdy, "passed-on", "{}: {name} was {} though the object was {}", self.what, if r.is_ready() { "ready" } else { "pending" }, if rdy { "ready" } else { "pending" });
            match r {
                Poll::Ready(v) => return v,
                Poll::Pending => self.t.wait(),
            }
        }
    }
    fn res(&self, got: Result<u64, Option<u32>>, want: Result<u64, u32>) {
        ensure!(got == want.map_err(Some), "result", "{}: result {got:?} instead of {want:?}", self.what);
    }
    fn unit(&self, got: io::Result<()>) {
        let w = self.o.borrow().res;
        self.res(got.map(|_| 0).map_err(|e| errno(&e)), w.map(|_| 0));
    }
    fn shown(&self, len: usize, exact: bool) {
        let s = self.o.borrow();
        let max = self.limit.map_or(len, |l| l.min(len));
        ensure!(if exact { s.len == max } else { s.len <= max }, "limit", "{}: the object was shown {} bytes of {len} (limit {:?})", self.what, s.len, self.limit);
    }
}
type BFut = Pin<Box<dyn FusedFuture<Output = Result<u32, u32>>>>;
type BStr = Pin<Box<dyn FusedStream<Item = Result<u32, u32>>>>;
type BSink = Pin<Box<dyn Sink<u32, Error = u32>>>;
trait Rb: AsyncRead + AsyncBufRead {}
impl<T: AsyncRead + AsyncBufRead> Rb for T {}
type BRd = Pin<Box<dyn Rb>>;
type BWr = Pin<Box<dyn AsyncWrite>>;
type BSk = Pin<Box<dyn AsyncSeek>>;

macro_rules! stack {
    ($r:ident, $b:ident, [$($k:literal => $name:literal $e:expr),*]) => {
        let n = [$($k),*].len();
        for _ in 0..choose(4) {
            let k: usize = choose(n);
            $(if k == $k { $r.what.push_str(concat!(".", $name)); $b = Box::pin($e); })*
        }
    };
}
fn run(kind: &str) -> (Run, Obj) {
    let (o, obj) = Obj::new();
    (Run { t: Task::new(), o, extra: 0, limit: None, what: kind.into() }, obj)
}
fn future() {
    let (mut r, obj) = run("future");
    let mut b: BFut = Box::pin(obj);
    stack!(r, b, [
        0 => "assert_unmoved" FutureTestExt::assert_unmoved(b),
        1 => "interleave_pending" { r.extra += 1; FutureTestExt::interleave_pending(b) },
        2 => "pending_once" { r.extra += 1; b.pending_once() }
    ]);
    ensure!(!b.is_terminated(), "terminated", "{}: terminated before it ran", r.what);
    let got = r.op(&["poll"], |cx| b.as_mut().poll(cx));
    r.res(got.map(u64::from).map_err(Some), r.o.borrow().res.map(u64::from));
    ensure!(b.is_terminated(), "terminated", "{}: not terminated after completion", r.what);
}
fn stream() {
    let (mut r, obj) = run("stream");
    let mut b: BStr = Box::pin(obj);
    stack!(r, b, [
        0 => "assert_unmoved" StreamTestExt::assert_unmoved(b),
        1 => "interleave_pending" { r.extra += 1; StreamTestExt::interleave_pending(b) }
    ]);
    for _ in 0..choose(6) {
        let got = r.op(&["poll_next"], |cx| b.as_mut().poll_next(cx));
        let end = r.o.borrow().ended;
        ensure!(got.is_none() == end && b.is_terminated() == end, "result", "{}: ended: {}, terminated: {}, the object ended: {end}", r.what, got.is_none(), b.is_terminated());
        match got {
            None => break,
            Some(g) => r.res(g.map(u64::from).map_err(Some), r.o.borrow().res.map(u64::from)),
        }
    }
}
fn sink() {
    let (mut r, obj) = run("sink");
    let mut b: BSink = Box::pin(obj);
    stack!(r, b, [
        0 => "assert_unmoved" b.assert_unmoved_sink(),
        1 => "interleave_pending" { r.extra += 1; b.interleave_pending_sink() },
        2 => "track_closed" SinkTestExt::track_closed(b)
    ]);
    let mut tc = SinkTestExt::track_closed(b);
    let mut closed = false;
    let mut sent = vec![];
    for i in 0..choose(8) as u32 {
        let mut p = Pin::new(&mut tc);
        let k = choose(4);
        if closed {
            let calls = r.o.borrow().calls;
            let got = allow_panic(|| {
                let mut cx = noop_context();
                match k {
                    0 => drop(p.as_mut().poll_ready(&mut cx)),
                    1 => drop(p.as_mut().start_send(i)),
                    2 => drop(p.as_mut().poll_flush(&mut cx)),
                    _ => drop(p.as_mut().poll_close(&mut cx)),
                }
            });
            ensure!(got.is_err(), "use-after-close", "{}: operation {k} on a closed sink went unnoticed", r.what);
            ensure!(r.o.borrow().calls == calls, "use-after-close", "{}: operation {k} reached a closed sink", r.what);
            continue;
        }
        let got = match k {
            0 => r.op(&["poll_ready"], |cx| p.as_mut().poll_ready(cx)),
            1 => {
                let g = p.as_mut().start_send(i);
                sent.push(i as u64);
                ensure!(r.o.borrow().direct == sent, "passed-on", "{}: sent {sent:?}, received {:?}", r.what, r.o.borrow().direct);
                ensure!(g == Ok(()) || g == Err(i + 1000), "result", "{}: start_send gave {g:?}", r.what);
                continue;
            }
            2 => r.op(&["poll_flush"], |cx| p.as_mut().poll_flush(cx)),
            _ => {
                let g = r.op(&["poll_close"], |cx| p.as_mut().poll_close(cx));
                closed = g.is_ok();
                g
            }
        };
        let w = r.o.borrow().res;
        r.res(got.map(|_| 0).map_err(Some), w.map(|_| 0));
        ensure!(tc.is_closed() == closed, "is-closed", "{}: is_closed() = {}, closed: {closed}", r.what, tc.is_closed());
    }
    ensure!(tc.is_closed() == closed, "is-closed", "{}: is_closed() = {}, closed: {closed}", r.what, tc.is_closed());
    drop(tc.into_inner());
}
fn cuts(len: usize) -> Vec<usize> {
    let mut left = len;
    let mut v = vec![];
    while left > 0 {
        let n = choose(left + 1);
        v.push(n);
        left -= n;
        if v.len() > 6 {
            v.push(left);
            break;
        }
    }
    v
}
fn reader() {
    let (mut r, obj) = run("reader");
    let mut b: BRd = Box::pin(obj);
    stack!(r, b, [
        0 => "assert_unmoved" AsyncReadTestExt::assert_unmoved(b),
        1 => "interleave_pending" { r.extra += 1; AsyncReadTestExt::interleave_pending(b) },
        2 => "limited" { let l = choose(6); r.limit = Some(r.limit.map_or(l, |x| x.min(l))); b.limited(l) }
    ]);
    for _ in 0..choose(6) {
        let len = choose(9);
        let mut buf = vec![0u8; len];
        match choose(3) {
            0 => {
                let got = r.op(&["poll_read"], |cx| b.as_mut().poll_read(cx, &mut buf));
                r.shown(len, true);
                let (d, w) = (r.o.borrow().data.clone(), r.o.borrow().res);
                r.res(got.map(|n| n as u64).map_err(|e| errno(&e)), w.map(|_| d.len() as u64));
                ensure!(w.is_err() || buf[..d.len()] == d[..], "bytes", "{}: read {buf:?} instead of {d:?}", r.what);
            }
            1 => {
                let cs = cuts(len);
                let got = r.op(&["poll_read_vectored", "poll_read"], |cx| {
                    let mut rest = &mut buf[..];
                    let mut bufs = vec![];
                    for c in &cs {
                        let (a, z) = rest.split_at_mut(*c);
                        bufs.push(IoSliceMut::new(a));
                        rest = z;
                    }
                    b.as_mut().poll_read_vectored(cx, &mut bufs)
                });
                r.shown(len, false);
                let (d, w) = (r.o.borrow().data.clone(), r.o.borrow().res);
                r.res(got.map(|n| n as u64).map_err(|e| errno(&e)), w.map(|_| d.len() as u64));
                ensure!(w.is_err() || buf[..d.len()] == d[..], "bytes", "{}: read {buf:?} instead of {d:?}", r.what);
            }
            _ => {
                let got = r.op(&["poll_fill_buf"], |cx| b.as_mut().poll_fill_buf(cx).map_ok(|s| s.to_vec()));
                let (d, w) = (r.o.borrow().data.clone(), r.o.borrow().res);
                match got {
                    Ok(g) => {
                        ensure!(w.is_ok() && g == d, "bytes", "{}: fill_buf offered {g:?} instead of {d:?}", r.what);
                        let n = choose(g.len() + 1);
                        b.as_mut().consume(n);
                        let last = r.o.borrow().direct.last().copied();
                        ensure!(last == Some(n as u64), "passed-on", "{}: consume({n}) was passed on as {last:?}", r.what);
                    }
                    Err(e) => r.res(Err(errno(&e)), w.map(u64::from)),
                }
            }
        }
    }
}
fn writer() {
    let (mut r, obj) = run("writer");
    let mut b: BWr = Box::pin(obj);
    stack!(r, b, [
        0 => "assert_unmoved" b.assert_unmoved_write(),
        1 => "interleave_pending" { r.extra += 1; b.interleave_pending_write() },
        2 => "limited" { let l = choose(6); r.limit = Some(r.limit.map_or(l, |x| x.min(l))); b.limited_write(l) },
        3 => "track_closed" AsyncWriteTestExt::track_closed(b)
    ]);
    let mut tc = AsyncWriteTestExt::track_closed(b);
    let mut closed = false;
    for _ in 0..choose(8) {
        let k = choose(4);
        let data: Vec<u8> = (0..choose(9)).map(|i| 65 + i as u8).collect();
        let cs = cuts(data.len());
        let mut p = Pin::new(&mut tc);
        let mut go = |cx: &mut Context<'_>| match k {
            0 => p.as_mut().poll_write(cx, &data).map_ok(|n| n as u64),
            1 => {
                let mut rest = &data[..];
                let mut bufs = vec![];
                for c in &cs {
                    let (a, z) = rest.split_at(*c);
                    bufs.push(IoSlice::new(a));
                    rest = z;
                }
                p.as_mut().poll_write_vectored(cx, &bufs).map_ok(|n| n as u64)
            }
            2 => p.as_mut().poll_flush(cx).map_ok(|_| 0),
            _ => p.as_mut().poll_close(cx).map_ok(|_| 0),
        };
        if closed {
            let calls = r.o.borrow().calls;
            let got = go(&mut noop_context());
            ensure!(matches!(&got, Poll::Ready(Err(e)) if errno(e).is_none()), "use-after-close", "{}: operation {k} after closing gave {got:?}", r.what);
            ensure!(r.o.borrow().calls == calls, "use-after-close", "{}: operation {k} reached a closed writer", r.what);
            continue;
        }
        let names: &[&'static str] = [&["poll_write"][..], &["poll_write_vectored", "poll_write"], &["poll_flush"], &["poll_close"]][k];
        let got = r.op(names, go);
        if k < 2 {
            r.shown(data.len(), k == 0);
            let s = r.o.borrow();
            ensure!(data.starts_with(&s.data), "bytes", "{}: wrote {:?} of {data:?}", r.what, s.data);
            match (&got, s.res) {
                (Ok(n), Ok(_)) => ensure!(*n <= s.len as u64, "result", "{}: {n} bytes accepted of {} offered", r.what, s.len),
                (Err(e), Err(w)) => ensure!(errno(e) == Some(w), "result", "{}: error {e} instead of {w}", r.what),
                _ => ensure!(false, "result", "{}: result {got:?} instead of {:?}", r.what, s.res),
            }
        } else {
            closed = k == 3 && got.is_ok();
            r.unit(got.map(drop));
        }
        ensure!(tc.is_closed() == closed, "is-closed", "{}: is_closed() = {}, closed: {closed}", r.what, tc.is_closed());
    }
    drop(tc.into_inner());
}
fn seeker() {
    let (mut r, obj) = run("seeker");
    let mut b: BSk = Box::pin(obj);
    // the adapters of readers and writers also seek
    for _ in 0..choose(4) {
        if chance(50) {
            r.extra += 1;
            r.what.push_str(".interleave_pending");
            b = Box::pin(AsyncReadTestExt::interleave_pending(SkRd(b)));
        } else {
            r.what.push_str(".assert_unmoved");
            b = Box::pin(AsyncReadTestExt::assert_unmoved(SkRd(b)));
        }
    }
    for _ in 0..choose(5) {
        let n = choose(9) as i64;
        let (to, code) = [(SeekFrom::Start(n as u64), n as u64), (SeekFrom::Current(n), 1000 + n as u64), (SeekFrom::End(n), 2000 + n as u64)][choose(3)];
        let got = r.op(&["poll_seek"], |cx| b.as_mut().poll_seek(cx, to));
        let (w, last) = (r.o.borrow().res, r.o.borrow().direct.last().copied());
        ensure!(last == Some(code), "passed-on", "{}: seek {to:?} was passed on as {last:?}", r.what);
        r.res(got.map_err(|e| errno(&e)), w.map(u64::from));
    }
}
/// Something seekable that is nominally a reader.
struct SkRd(BSk);
impl AsyncRead for SkRd {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut [u8]) -> Poll<io::Result<usize>> {
        unreachable!()
    }
}
impl AsyncSeek for SkRd {
    fn poll_seek(mut self: Pin<&mut Self>, cx: &mut Context<'_>, to: SeekFrom) -> Poll<io::Result<u64>> {
        self.0.as_mut().poll_seek(cx, to)
    }
}

/// AssertUnmoved panics exactly when what it wraps was moved after a poll.
fn unmoved() {
    let (_o, obj) = Obj::new();
    let mut t = Task::quiet();
    let as_stream = chance(50);
    // two places for the same object; which one holds it
    let mut place: [Box<std::mem::MaybeUninit<_>>; 2] = [Box::new(std::mem::MaybeUninit::uninit()), Box::new(std::mem::MaybeUninit::uninit())];
    place[0].write(FutureTestExt::assert_unmoved(obj));
    let mut at = 0;
    let mut first = None;
    for _ in 0..choose(5) {
        if chance(30) {
            let x = unsafe { place[at].assume_init_read() };
            at = 1 - at;
            place[at].write(x);
            continue;
        }
        let want = first.is_some() && first != Some(at);
        first.get_or_insert(at);
        let p = unsafe { Pin::new_unchecked(place[at].assume_init_mut()) };
        let got = allow_panic(|| t.poll(|cx| if as_stream { p.poll_next(cx).map(drop) } else { p.poll(cx).map(drop) }));
        ensure!(got.is_err() == want, "unmoved", "polled {}: panicked: {}", if want { "after a move" } else { "without a move" }, got.is_err());
        if want {
            // dropped while unwinding, as a user's stack would
            let x = Leaving(place[at].as_mut_ptr());
            let r = allow_panic(move || {
                let _x = x;
                inject_panic();
            });
            drop(r);
            return;
        }
        if got.is_ok_and(|r| r.is_ready()) {
            break;
        }
    }
    let want = first.is_some() && first != Some(at);
    let got = allow_panic(|| unsafe { place[at].assume_init_drop() });
    ensure!(got.is_err() == want, "unmoved", "dropped {}: panicked: {}", if want { "after a move" } else { "without a move" }, got.is_err());
}
struct Leaving<T>(*mut T);
impl<T> Drop for Leaving<T> {
    fn drop(&mut self) {
        unsafe { std::ptr::drop_in_place(self.0) }
    }
}

/// The stream assertions fail exactly when the stream's state is another one.
fn asserts() {
    struct S(u32, Tracked);
    impl Stream for S {
        type Item = u32;
        fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<u32>> {
            match self.0 {
                0 => Poll::Pending,
                1 => Poll::Ready(None),
                n => Poll::Ready(Some(n)),
            }
        }
    }
    for _ in 0..4 {
        let st = choose(4) as u32;
        let mut s = S(st, Tracked::new(1));
        let k = choose(3);
        let item = 2 + choose(2) as u32;
        let want = match k {
            0 => st == 0,
            1 => st == 1,
            _ => st == item,
        };
        let got = allow_panic(|| match k {
            0 => {
                futures_test::assert_stream_pending!(s);
            }
            1 => futures_test::assert_stream_done!(s),
            _ => futures_test::assert_stream_next!(s, item),
        });
        ensure!(got.is_ok() == want, "assertion", "assertion {k} (item {item}) on a stream in state {st}: passed: {}", got.is_ok());
    }
}
fn spawners() {
    let live = Rc::new(());
    struct F(Rc<()>, Tracked, Rc<RefCell<Vec<u32>>>);
    impl Drop for F {
        fn drop(&mut self) {
            self.2.borrow_mut().push(self.1.get());
        }
    }
    let dropped = Rc::new(RefCell::new(vec![]));
    let mut kept = vec![];
    unsafe impl Send for F {}
    impl Future for F {
        type Output = ();
        fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
            fail("spawner", "a spawner that does not run futures ran one")
        }
    }
    let rec = RecordSpawner::new();
    let mut n = 0;
    for i in 0..choose(6) as u32 {
        let f = F(live.clone(), Tracked::new(i), dropped.clone());
        match choose(5) {
            0 => {
                ensure!(rec.spawn(f).is_ok() && rec.status().is_ok(), "spawner", "RecordSpawner refused a future");
                n += 1;
                kept.push(i);
            }
            1 => ensure!(NoopSpawner::new().spawn(f).is_ok(), "spawner", "NoopSpawner refused a future"),
            2 => ensure!(noop_spawner_mut().spawn(f).is_ok(), "spawner", "NoopSpawner refused a future"),
            3 => ensure!(allow_panic(|| PanicSpawner::new().spawn(f)).is_err(), "spawner", "PanicSpawner did not panic"),
            _ => ensure!(allow_panic(|| panic_spawner_mut().spawn(f)).is_err(), "spawner", "PanicSpawner did not panic"),
        }
        let (r, l) = (rec.spawned().len(), Rc::strong_count(&live) - 1);
        ensure!(r == n && l == n, "spawner", "{n} futures to be recorded; {r} recorded, {l} alive");
    }
    dropped.borrow_mut().clear();
    drop(rec);
    ensure!(*dropped.borrow() == kept, "spawner", "recorded {kept:?}, found {:?}", dropped.borrow());
    ensure!(Rc::strong_count(&live) == 1, "spawner", "recorded futures outlived the spawner");
}
fn wakers() {
    let w = panic_waker();
    let w2 = if chance(50) { w.clone() } else { panic_waker_ref().clone() };
    drop(w);
    let k = choose(4);
    let got = allow_panic(|| match k {
        0 => w2.wake(),
        1 => w2.wake_by_ref(),
        2 => panic_context().waker().wake_by_ref(),
        _ => panic_waker_ref().wake_by_ref(),
    });
    ensure!(got.is_err(), "panic-waker", "panic_waker was woken in way {k} without panicking");
    noop_context().waker().wake_by_ref();
}

pub fn adapters() {
    for _ in 0..8 {
        begin();
        match choose_w(10, 10) {
            0 => future(),
            1 => stream(),
            2 => sink(),
            3 => reader(),
            4 | 5 => writer(),
            6 => seeker(),
            7 => unmoved(),
            8 => asserts(),
            _ => {
                spawners();
                wakers()
            }
        }
        clear_events();
    }
}

/// Counted wake-ups and background futures across threads.
pub fn threads() {
    if chance(70) {
        let (w, c) = new_count_waker();
        let sent = ora(|| (0usize, 0usize)); // started, finished
        let hs: Vec<_> = (0..1 + choose(3))
            .map(|_| {
                let w = w.clone();
                std::thread::spawn(move || {
                    let mut w = Some(w);
                    for _ in 0..choose(4) {
                        let cur = w.as_ref().unwrap();
                        sent.with(|s| s.0 += 1);
                        match choose(3) {
                            0 => cur.wake_by_ref(),
                            1 => cur.clone().wake(),
                            _ => {
                                let n = cur.clone();
                                w.replace(n).unwrap().wake();
                            }
                        }
                        sent.with(|s| s.1 += 1);
                    }
                })
            })
            .collect();
        let mut w = Some(w);
        let mut last = 0;
        for _ in 0..choose(4) {
            let lo = sent.with(|s| s.1);
            let n = c.get();
            let hi = sent.with(|s| s.0);
            ensure!(lo <= n && n <= hi && last <= n, "wake-count", "{n} wake-ups counted; between {lo} and {hi} were made, {last} before");
            last = n;
            if chance(30) {
                if let Some(w) = w.take() {
                    sent.with(|s| s.0 += 1);
                    w.wake();
                    sent.with(|s| s.1 += 1);
                }
            }
            th::dawdle(2);
        }
        for h in hs {
            h.join().unwrap();
        }
        drop(w);
        let (n, m) = (c.get(), sent.with(|s| s.1));
        ensure!(n == m && c == m, "wake-count", "{n} wake-ups counted, {m} made");
    } else {
        let (al, aj) = th::Alarm::start();
        let n = 1 + choose(3);
        let mut rx = vec![];
        for i in 0..n {
            let (tx, r) = std::sync::mpsc::channel();
            let mut leaf = th::Leaf::new(&al, 2);
            let t = Tracked::new(i as u32);
            futures::future::poll_fn(move |cx| {
                if !leaf.poll(cx) {
                    return Poll::Pending;
                }
                let _ = tx.send(t.get());
                Poll::Ready(())
            })
            .run_in_background();
            rx.push(r);
        }
        for (i, r) in rx.into_iter().enumerate() {
            let got = r.recv();
            ensure!(got == Ok(i as u32), "background", "background future {i}: {got:?}");
        }
        al.stop();
        aj.join().unwrap();
    }
}
