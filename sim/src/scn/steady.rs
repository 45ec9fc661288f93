//! Steady state: a structure that is used in the same way over and over must
//! not accumulate memory or references to wakers.
use crate::rt::*;
use futures::channel::{mpsc, oneshot};
use futures::future::{self, AbortHandle, Abortable, FutureExt, RemoteHandle, TryFutureExt};
use futures::io::{AsyncBufReadExt, AsyncReadExt, AsyncWriteExt, BufReader, BufWriter, Cursor, LineWriter};
use futures::lock::{BiLock, Mutex, OwnedMutexLockFuture};
use futures::sink::{Sink, SinkExt};
use futures::stream::{self, FuturesOrdered, FuturesUnordered, SelectAll, Stream, StreamExt, TryStreamExt};
use futures::task::{ArcWake, AtomicWaker, LocalSpawnExt};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

struct W;
impl ArcWake for W {
    fn wake_by_ref(_: &Arc<Self>) {}
}
/// A leaf that is not ready `n` times; the wakers it was given go where the environment fires them.
struct Pend {
    n: usize,
    w: Rc<RefCell<Vec<Waker>>>,
}
impl Future for Pend {
    type Output = usize;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<usize> {
        if self.n == 0 {
            return Poll::Ready(7);
        }
        self.n -= 1;
        self.w.borrow_mut().push(cx.waker().clone());
        Poll::Pending
    }
}
struct Env {
    ws: Vec<Arc<W>>,
    cur: usize,
    pend: Rc<RefCell<Vec<Waker>>>,
    k: usize,
    r: [usize; 4],
}
impl Env {
    fn poll<T>(&mut self, f: impl FnOnce(&mut Context<'_>) -> Poll<T>) -> Poll<T> {
        let w = futures::task::waker(self.ws[self.cur].clone());
        f(&mut Context::from_waker(&w))
    }
    fn other(&mut self) {
        self.cur = (self.cur + 1) % self.ws.len();
    }
    fn fire(&mut self) {
        let mut v = self.pend.borrow_mut().split_off(0);
        self.pend.borrow_mut().shrink_to_fit();
        if self.r[3] == 1 {
            v.reverse();
        }
        for w in v {
            w.wake();
        }
    }
    fn leaf(&self, n: usize) -> Pend {
        Pend { n, w: self.pend.clone() }
    }
    /// Polls until ready, letting pending leaves be woken in between.
    fn run<T>(&mut self, mut f: impl FnMut(&mut Context<'_>) -> Poll<T>) -> T {
        for _ in 0..200 {
            if let Poll::Ready(t) = self.poll(&mut f) {
                return t;
            }
            self.fire();
        }
        fail("steady-stuck", "an operation does not complete");
    }
}
type Cycle = Box<dyn FnMut(&mut Env)>;

fn pick() -> (&'static str, Cycle) {
    match choose(27) {
        0 => {
            let (tx, mut rx) = mpsc::unbounded::<Vec<u8>>();
            ("unbounded channel", Box::new(move |e| {
                let t2 = tx.clone();
                for i in 0..e.k {
                    if i % 2 == 0 { &tx } else { &t2 }.unbounded_send(vec![1; 5]).unwrap();
                }
                drop(t2);
                for _ in 0..e.k {
                    e.run(|cx| rx.poll_next_unpin(cx));
                }
                let _ = e.poll(|cx| rx.poll_next_unpin(cx));
            }))
        }
        1 => {
            let (tx, mut rx) = mpsc::channel::<Vec<u8>>(choose(3));
            ("bounded channel", Box::new(move |e| {
                let mut n = 0;
                for _ in 0..e.k {
                    let mut t = tx.clone();
                    while t.try_send(vec![2; 9]).is_ok() {
                        n += 1;
                    }
                    let _ = e.poll(|cx| t.poll_ready(cx));
                    if e.r[0] == 1 {
                        e.other();
                        let _ = e.poll(|cx| t.poll_ready(cx));
                    }
                }
                for _ in 0..n {
                    e.run(|cx| rx.poll_next_unpin(cx));
                }
                let _ = e.poll(|cx| rx.poll_next_unpin(cx));
            }))
        }
        2 | 3 => {
            let m = Arc::new(Mutex::new(1u8));
            ("mutex", Box::new(move |e| {
                let g = m.try_lock();
                ensure!(g.is_some(), "steady-stuck", "the mutex is not free");
                let mut fs: Vec<_> = (0..e.k).map(|_| Box::pin(m.lock())).collect();
                let mut of: Vec<OwnedMutexLockFuture<u8>> = (0..e.k).map(|_| m.clone().lock_owned()).collect();
                for i in 0..e.k {
                    let _ = e.poll(|cx| fs[i].as_mut().poll(cx));
                    let _ = e.poll(|cx| of[i].poll_unpin(cx));
                    e.other();
                }
                let keep = e.r[0];
                fs.truncate(keep);
                of.truncate(keep.min(1));
                drop(g);
                for mut f in fs {
                    drop(e.run(|cx| f.as_mut().poll(cx)));
                }
                if e.r[1] == 0 {
                    for mut f in of {
                        drop(e.run(|cx| f.poll_unpin(cx)));
                    }
                }
            }))
        }
        4 | 5 => {
            let never: Pin<Box<dyn Future<Output = usize>>> = Box::pin(future::pending());
            let s = never.shared();
            ("shared future", Box::new(move |e| {
                let mut v: Vec<_> = (0..e.k).map(|_| s.clone()).collect();
                for c in v.iter_mut() {
                    let _ = e.poll(|cx| c.poll_unpin(cx));
                    e.other();
                    let _ = e.poll(|cx| c.poll_unpin(cx));
                }
                let w = v[0].downgrade();
                if e.r[0] == 0 {
                    v.reverse();
                }
                v.clear();
                drop(w);
            }))
        }
        6 | 7 => {
            let mut s = FuturesUnordered::new();
            let drain = choose(2) == 0;
            ("FuturesUnordered", Box::new(move |e| {
                for i in 0..e.k {
                    s.push(e.leaf((i + e.r[0]) % 3));
                }
                for i in 0..e.k {
                    if !drain && i == e.k / 2 {
                        s.clear();
                        break;
                    }
                    e.run(|cx| s.poll_next_unpin(cx));
                    e.other();
                }
                let _ = e.poll(|cx| s.poll_next_unpin(cx));
                e.fire();
            }))
        }
        8 => {
            let mut s = FuturesOrdered::new();
            ("FuturesOrdered", Box::new(move |e| {
                for i in 0..e.k {
                    if e.r[1] == 0 {
                        s.push_back(e.leaf((i + e.r[0]) % 3));
                    } else {
                        s.push_front(e.leaf((i + e.r[0]) % 3));
                    }
                }
                for _ in 0..e.k {
                    e.run(|cx| s.poll_next_unpin(cx));
                }
                let _ = e.poll(|cx| s.poll_next_unpin(cx));
            }))
        }
        9 => {
            let (ordered, lim) = (choose(2) == 0, 1 + choose(3));
            let mut s: Option<Pin<Box<dyn Stream<Item = usize>>>> = None;
            ("buffered stream", Box::new(move |e| {
                let k = e.k;
                if s.is_none() {
                    let pend = e.pend.clone();
                    let i = stream::iter(0usize..).map(move |i| Pend { n: i % 3, w: pend.clone() });
                    s = Some(if ordered { Box::pin(i.buffered(lim)) } else { Box::pin(i.buffer_unordered(lim)) });
                }
                let s = s.as_mut().unwrap();
                // until the same phase of the input is reached again
                for _ in 0..3 * k {
                    e.run(|cx| s.as_mut().poll_next(cx));
                }
            }))
        }
        10 => {
            let mut s = SelectAll::new();
            ("SelectAll", Box::new(move |e| {
                for i in 0..e.k {
                    let l = e.leaf(i % 3);
                    s.push(Box::pin(l.into_stream().chain(stream::iter(0..e.r[0]))));
                }
                while e.run(|cx| s.poll_next_unpin(cx)).is_some() {}
            }))
        }
        11 => {
            let lim = Some(1 + choose(3));
            let mut s: Option<Pin<Box<dyn Stream<Item = usize>>>> = None;
            ("flatten_unordered", Box::new(move |e| {
                let k = e.k;
                if s.is_none() {
                    let pend = e.pend.clone();
                    let pend2 = e.pend.clone();
                    // an input that pauses, so that inner streams are drained now and then
                    let i = stream::iter(0usize..).then(move |i| Pend { n: (i % (2 * k) == 0) as usize * 3, w: pend2.clone() }.map(move |_| i)).map(
                        move |i| Pend { n: i % 2, w: pend.clone() }.into_stream().chain(stream::iter(0..1)),
                    );
                    s = Some(Box::pin(i.flatten_unordered(lim)));
                }
                let s = s.as_mut().unwrap();
                for _ in 0..4 * k {
                    e.run(|cx| s.as_mut().poll_next(cx));
                }
            }))
        }
        12 => {
            let mut p = futures::executor::LocalPool::new();
            ("LocalPool", Box::new(move |e| {
                let sp = p.spawner();
                let mut hs = vec![];
                for i in 0..e.k {
                    if i % 2 == 0 {
                        sp.spawn_local(e.leaf(i % 3).map(|_| ())).unwrap();
                    } else {
                        hs.push(sp.spawn_local_with_handle(e.leaf(i % 3)).unwrap());
                    }
                }
                if e.r[0] == 1 {
                    hs.pop();
                }
                for _ in 0..6 {
                    p.run_until_stalled();
                    e.fire();
                }
                for h in hs {
                    ensure!(p.run_until(h) == 7, "steady-stuck", "wrong result");
                }
                p.run_until_stalled();
            }))
        }
        13 => {
            let (a, b) = BiLock::new(3u8);
            ("BiLock", Box::new(move |e| {
                let g = e.run(|cx| a.poll_lock(cx));
                let _ = e.poll(|cx| b.poll_lock(cx).map(|_| ()));
                drop(g);
                if e.r[0] == 0 {
                    drop(e.run(|cx| b.poll_lock(cx)));
                }
            }))
        }
        14 => {
            let cap = choose(3);
            let (tx, mut rx) = mpsc::channel::<u8>(1);
            let mut s = tx.buffer(cap);
            ("sink buffer", Box::new(move |e| {
                for _ in 0..e.k {
                    let r = e.poll(|cx| Pin::new(&mut s).poll_ready(cx));
                    if r.is_ready() {
                        Pin::new(&mut s).start_send(1).unwrap();
                    }
                }
                loop {
                    let f = e.poll(|cx| Pin::new(&mut s).poll_flush(cx)).is_ready();
                    while e.poll(|cx| rx.poll_next_unpin(cx)).is_ready() {}
                    if f {
                        break;
                    }
                }
            }))
        }
        15 => {
            let (a, mut ra) = mpsc::unbounded::<u8>();
            let (b, mut rb) = mpsc::channel::<u8>(2);
            let mut s = Box::pin(a.with_flat_map(|n: u8| stream::iter((0..n).map(Ok))).fanout(b.with(|x: u8| future::ok::<u8, mpsc::SendError>(x))));
            ("with_flat_map, fanout", Box::new(move |e| {
                for i in 0..e.k {
                    while e.poll(|cx| s.as_mut().poll_ready(cx)).is_pending() {
                        while e.poll(|cx| rb.poll_next_unpin(cx)).is_ready() {}
                    }
                    s.as_mut().start_send(i as u8).unwrap();
                }
                while e.poll(|cx| s.as_mut().poll_flush(cx)).is_pending() {
                    while e.poll(|cx| rb.poll_next_unpin(cx)).is_ready() {}
                }
                while e.poll(|cx| ra.poll_next_unpin(cx)).is_ready() {}
                while e.poll(|cx| rb.poll_next_unpin(cx)).is_ready() {}
            }))
        }
        16 => {
            let text: Vec<u8> = b"ab\ncde\n\nf\n".to_vec();
            let cap = 1 + choose(8);
            let mut r = BufReader::with_capacity(cap, Cursor::new(text.clone()));
            let mut s = String::new();
            let mut v = vec![];
            ("BufReader", Box::new(move |e| {
                for _ in 0..4 {
                    s.clear();
                    v.clear();
                    if e.r[0] == 0 {
                        let mut f = r.read_line(&mut s);
                        e.run(|cx| f.poll_unpin(cx)).unwrap();
                    } else {
                        let mut f = r.read_until(b'\n', &mut v);
                        e.run(|cx| f.poll_unpin(cx)).unwrap();
                    }
                }
                Pin::new(&mut r).get_pin_mut().set_position(0);
            }))
        }
        17 => {
            let cap = 1 + choose(8);
            let line = choose(2) == 0;
            let mut w: Pin<Box<dyn futures::io::AsyncWrite>> =
                if line { Box::pin(LineWriter::with_capacity(cap, futures::io::sink())) } else { Box::pin(BufWriter::with_capacity(cap, futures::io::sink())) };
            ("buffering writer", Box::new(move |e| {
                for i in 0..e.k {
                    let d = vec![b'\n' + (i % 2) as u8; i + e.r[0]];
                    let mut f = w.write_all(&d);
                    e.run(|cx| f.poll_unpin(cx)).unwrap();
                }
                let mut f = w.flush();
                e.run(|cx| f.poll_unpin(cx)).unwrap();
            }))
        }
        18 => ("one-shot structures", Box::new(move |e| {
            let (tx, mut rx) = oneshot::channel::<Vec<u8>>();
            let _ = e.poll(|cx| rx.poll_unpin(cx));
            match e.r[0] {
                0 => drop(tx.send(vec![1])),
                1 => drop(tx),
                _ => rx.close(),
            }
            let _ = e.poll(|cx| rx.poll_unpin(cx));
            let (h, reg) = AbortHandle::new_pair();
            let mut f = Abortable::new(e.leaf(2), reg);
            let _ = e.poll(|cx| f.poll_unpin(cx));
            if e.r[1] == 0 {
                h.abort();
            }
            drop(f);
            let (rem, hd): (_, RemoteHandle<usize>) = e.leaf(1).remote_handle();
            let mut rem = Box::pin(rem);
            let mut hd = Some(hd);
            let _ = e.poll(|cx| hd.as_mut().unwrap().poll_unpin(cx));
            match e.r[2] {
                0 => {
                    e.run(|cx| rem.as_mut().poll(cx));
                    let h = hd.as_mut().unwrap();
                    e.run(|cx| h.poll_unpin(cx));
                }
                1 => hd.take().unwrap().forget(),
                _ => hd = None,
            }
            drop(hd);
            drop(rem);
        })),
        19 => {
            let a = AtomicWaker::new();
            ("AtomicWaker", Box::new(move |e| {
                for i in 0..e.k {
                    a.register(&futures::task::waker(e.ws[i % e.ws.len()].clone()));
                    if i % 3 == e.r[0] {
                        a.wake();
                    }
                    if i % 3 == e.r[1] {
                        drop(a.take());
                    }
                }
                a.wake();
            }))
        }
        20 => ("executors", Box::new(move |e| {
            let n = futures::executor::block_on(async { e.r[0] });
            let v: Vec<usize> = futures::executor::block_on_stream(stream::iter(0..n)).collect();
            ensure!(v.len() == n, "steady-stuck", "wrong result");
        })),
        21 => {
            let never: Pin<Box<dyn Future<Output = Result<u8, u8>>>> = Box::pin(future::pending());
            let mut never = never.map_ok(|x| x).fuse();
            ("selections", Box::new(move |e| {
                for _ in 0..e.k {
                    let l = e.leaf(e.r[0]);
                    let mut s = future::select(l, &mut never);
                    match e.run(|cx| s.poll_unpin(cx)) {
                        future::Either::Left((7, _)) => {}
                        _ => fail("steady-stuck", "wrong result"),
                    }
                }
                let v: Vec<_> = (0..e.k).map(|i| e.leaf(i % 3)).collect();
                let mut j = future::join_all(v);
                e.run(|cx| j.poll_unpin(cx));
                let v: Vec<_> = (0..e.k).map(|i| e.leaf(1 + i % 3)).collect();
                let mut j = future::select_all(v);
                let (_, _, rest) = e.run(|cx| j.poll_unpin(cx));
                ensure!(rest.len() + 1 == e.k, "steady-stuck", "wrong result");
            }))
        }
        22 => {
            let n = 1 + choose(3);
            let ready = choose(2) == 0;
            let mut s: Pin<Box<dyn Stream<Item = Vec<usize>>>> = if ready { Box::pin(stream::iter(0usize..).ready_chunks(n)) } else { Box::pin(stream::iter(0usize..).chunks(n)) };
            ("chunks", Box::new(move |e| {
                for _ in 0..e.k {
                    ensure!(e.run(|cx| s.as_mut().poll_next(cx)).unwrap().len() == n, "steady-stuck", "wrong result");
                }
            }))
        }
        23 => {
            let (tx, rx) = mpsc::channel::<u8>(1);
            let d: Pin<Box<dyn Stream<Item = u8>>> = Box::pin(rx);
            let _ = d;
            drop(tx);
            ("split halves", Box::new(move |e| {
                let (tx, rx) = mpsc::unbounded::<u8>();
                struct Both(mpsc::UnboundedSender<u8>, mpsc::UnboundedReceiver<u8>);
                impl Stream for Both {
                    type Item = u8;
                    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u8>> {
                        self.1.poll_next_unpin(cx)
                    }
                }
                impl Sink<u8> for Both {
                    type Error = mpsc::SendError;
                    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), mpsc::SendError>> {
                        self.0.poll_ready_unpin(cx)
                    }
                    fn start_send(mut self: Pin<&mut Self>, x: u8) -> Result<(), mpsc::SendError> {
                        self.0.start_send_unpin(x)
                    }
                    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), mpsc::SendError>> {
                        self.0.poll_flush_unpin(cx)
                    }
                    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), mpsc::SendError>> {
                        self.0.poll_close_unpin(cx)
                    }
                }
                let (mut si, mut st) = Both(tx, rx).split();
                {
                    let mut f = si.send(3);
                    e.run(|cx| f.poll_unpin(cx)).unwrap();
                }
                e.run(|cx| st.poll_next_unpin(cx));
                let _ = e.poll(|cx| st.poll_next_unpin(cx));
                if e.r[0] == 0 {
                    drop(si.reunite(st).unwrap());
                } else {
                    drop(st);
                }
                let (mut r, mut w) = Cursor::new(vec![0u8; 8]).split();
                {
                    let mut f = w.write_all(&[1, 2]);
                    e.run(|cx| f.poll_unpin(cx)).unwrap();
                }
                let mut b = [0; 2];
                {
                    let mut f = r.read_exact(&mut b);
                    e.run(|cx| f.poll_unpin(cx)).unwrap();
                }
                if e.r[1] == 0 {
                    drop(r.reunite(w).unwrap());
                }
            }))
        }
        24 => ("consumers", Box::new(move |e| {
            let k = e.k;
            let mk = |e: &Env| {
                let p = e.pend.clone();
                stream::iter(0..k).then(move |i| Pend { n: i % 2, w: p.clone() })
            };
            let mut f = Box::pin(mk(e).collect::<Vec<_>>());
            ensure!(e.run(|cx| f.as_mut().poll(cx)).len() == k, "steady-stuck", "wrong result");
            let mut f = Box::pin(mk(e).for_each_concurrent(e.r[0], |_| future::ready(())));
            e.run(|cx| f.as_mut().poll(cx));
            let mut f = Box::pin(mk(e).map(Ok::<_, ()>).try_for_each_concurrent(e.r[0], |x| future::ready(x.map(|_| ()))));
            e.run(|cx| f.as_mut().poll(cx)).unwrap();
            let mut f = Box::pin(mk(e).map(|x| if x == 7 { Err(vec![x]) } else { Ok(x) }).try_collect::<Vec<_>>());
            let _ = e.run(|cx| f.as_mut().poll(cx));
        })),
        25 => {
            let (tx, rx) = mpsc::unbounded::<u8>();
            let mut s = Box::pin(rx.map(Ok::<u8, std::io::Error>).map_ok(|b| vec![b; 3]).into_async_read());
            ("into_async_read", Box::new(move |e| {
                for _ in 0..e.k {
                    tx.unbounded_send(5).unwrap();
                    let mut b = [0; 3];
                    let mut f = s.read_exact(&mut b);
                    e.run(|cx| f.poll_unpin(cx)).unwrap();
                }
                let mut b = [0; 1];
                let _ = e.poll(|cx| futures::io::AsyncRead::poll_read(s.as_mut(), cx, &mut b));
            }))
        }
        _ => {
            let (tx, rx) = mpsc::unbounded::<u8>();
            let mut l = stream::select(rx, stream::pending::<u8>()).boxed_local();
            let mut sp = stream::select_with_strategy(stream::pending::<u8>(), stream::repeat(3u8), |_: &mut ()| stream::PollNext::Left);
            ("merged streams", Box::new(move |e| {
                for _ in 0..e.k {
                    tx.unbounded_send(1).unwrap();
                    e.run(|cx| l.poll_next_unpin(cx));
                    let _ = e.poll(|cx| l.poll_next_unpin(cx));
                    e.run(|cx| sp.poll_next_unpin(cx));
                }
            }))
        }
    }
}

pub fn run() {
    let mut e = Env {
        ws: (0..1 + choose(3)).map(|_| Arc::new(W)).collect(),
        cur: 0,
        pend: Default::default(),
        k: 1 + choose(5),
        r: [choose(3), choose(3), choose(3), choose(2)],
    };
    let (what, mut c) = pick();
    const N: usize = 60;
    let mut at = Vec::with_capacity(N);
    for _ in 0..N {
        c(&mut e);
        e.fire();
        e.cur = 0;
        let refs: usize = e.ws.iter().map(Arc::strong_count).sum();
        at.push((live_bytes(), refs));
    }
    // the first cycles may set up what later ones reuse
    let (a, b) = (at[..N / 2].iter(), at[N / 2..].iter());
    let (ma, mb) = (a.clone().map(|x| x.0).max(), b.clone().map(|x| x.0).max());
    ensure!(mb <= ma, "memory-growth", "{what}: {} bytes in use after {} identical cycles, {} after {N}", ma.unwrap(), N / 2, mb.unwrap());
    let (ma, mb) = (a.map(|x| x.1).max(), b.map(|x| x.1).max());
    ensure!(mb <= ma, "memory-growth", "{what}: {} references to wakers after {} identical cycles, {} after {N}", ma.unwrap(), N / 2, mb.unwrap());
    drop(c);
    e.fire();
    for w in &e.ws {
        ensure!(Arc::strong_count(w) == 1, "memory-leak", "{what}: a waker is still referenced after everything was dropped");
    }
}
