//! Sink adapters over sinks that exert back-pressure and fail; the reference
//! maps each accepted item to the items every underlying sink must get.
use crate::ex::sg::*;
use crate::leaf::*;
use crate::rt::*;
use futures::channel::mpsc;
use futures::future::{FusedFuture, TryFutureExt};
use futures::sink::{self, Sink, SinkExt};
use futures::stream::{self, Stream, StreamExt, TryStreamExt};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

/// Where an error comes from, and the mappings it went through.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Er {
    src: u32,
    path: u32,
}
struct Er2(Er);
impl From<Er> for Er2 {
    fn from(e: Er) -> Er2 {
        Er2(Er { src: e.src, path: e.path * 3 + 1 })
    }
}
type Bs = Box<dyn Sink<V, Error = Er> + Unpin>;

#[derive(Default)]
struct LLog {
    got: Vec<u32>,
    flushed: usize,
    closed: bool,
    closing: bool,
    ready: bool,
    clean: bool, // flushed, and nothing sent since
}
type LL = Rc<RefCell<LLog>>;
#[derive(Default)]
struct World {
    leaves: Vec<LL>,
    /// The one error to inject: countdown over calls to leaf sinks (0 = none).
    err_in: Cell<u32>,
    /// Errors raised and not yet reported.
    raised: RefCell<Vec<u32>>,
    paths: Vec<u32>, // per leaf: error path to the top
    acc: RefCell<Vec<u32>>,
    tried: RefCell<Vec<u32>>,
    bad: Cell<(u32, u32)>, // layer and input whose mapping fails
    bad_path: Cell<u32>,
    unresolved: Cell<u32>, // sinks still to be built by their future
    on_flush: RefCell<Vec<Waker>>,
}
impl World {
    fn flushed(&self) {
        let ws: Vec<Waker> = self.on_flush.borrow_mut().drain(..).collect();
        for w in ws {
            w.wake();
        }
    }
}
type W = Rc<World>;

// ------------------------------------------------------------ underlying sinks
struct Sk {
    l: LL,
    w: W,
    id: u32,
    rg: Gate,
    fg: Gate,
    cg: Gate,
    block: Rc<Cell<bool>>,
    _t: Tracked,
}
impl Sk {
    fn err(&self) -> Result<(), Er> {
        let n = self.w.err_in.get();
        if n > 0 {
            self.w.err_in.set(n - 1);
            if n == 1 {
                count(F_ERR);
                self.w.raised.borrow_mut().push(self.id);
                return Err(Er { src: self.id, path: 0 });
            }
        }
        Ok(())
    }
}
impl Sink<V> for Sk {
    type Error = Er;
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Er>> {
        ensure!(!self.l.borrow().closing, "used-after-close", "poll_ready was called on a sink that is closing or closed");
        if self.block.get() {
            return Poll::Pending;
        }
        if self.l.borrow().ready {
            return Poll::Ready(Ok(()));
        }
        if !self.rg.poll(cx) {
            return Poll::Pending;
        }
        self.err()?;
        self.rg.rearm();
        self.l.borrow_mut().ready = true;
        Poll::Ready(Ok(()))
    }
    fn start_send(self: Pin<&mut Self>, x: V) -> Result<(), Er> {
        let mut l = self.l.borrow_mut();
        ensure!(!l.closing, "used-after-close", "start_send was called on a closed sink");
        ensure!(l.ready, "not-ready", "an item was sent to a sink that had not reported readiness");
        l.ready = false;
        l.clean = false;
        self.err()?;
        event(9, self.id as u64, x.get() as u64);
        l.got.push(x.get());
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Er>> {
        ensure!(!self.l.borrow().closed, "used-after-close", "poll_flush was called on a closed sink");
        if self.l.borrow().clean {
            return Poll::Ready(Ok(()));
        }
        if !self.fg.poll(cx) {
            return Poll::Pending;
        }
        self.err()?;
        self.fg.rearm();
        let mut l = self.l.borrow_mut();
        let news = l.flushed < l.got.len();
        l.flushed = l.got.len();
        l.clean = true;
        drop(l);
        if news {
            self.w.flushed();
        }
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Er>> {
        let mut l = self.l.borrow_mut();
        if l.closed {
            return Poll::Ready(Ok(()));
        }
        l.closing = true;
        if !self.cg.poll(cx) {
            return Poll::Pending;
        }
        self.err()?;
        l.flushed = l.got.len();
        l.closed = true;
        Poll::Ready(Ok(()))
    }
}
impl Stream for Sk {
    type Item = u32;
    fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<u32>> {
        Poll::Ready(None)
    }
}
/// A channel whose receiver takes a message whenever the sender has to wait.
struct Chan {
    tx: mpsc::Sender<V>,
    w: W,
    d: Rc<Drainer>,
}
struct Drainer {
    rx: RefCell<mpsc::Receiver<V>>,
    l: LL,
}
impl Ev for Drainer {
    fn fire(&self) {
        self.take(1);
    }
}
impl Drainer {
    fn take(&self, n: usize) {
        for _ in 0..n {
            match self.rx.borrow_mut().try_recv() {
                Ok(x) => self.l.borrow_mut().got.push(x.get()),
                Err(_) => break,
            }
        }
    }
}
impl Sink<V> for Chan {
    type Error = Er;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Er>> {
        let r = Pin::new(&mut self.tx).poll_ready(cx);
        if r.is_pending() {
            post(self.d.clone());
        }
        r.map_err(|_| Er { src: 999, path: 0 })
    }
    fn start_send(mut self: Pin<&mut Self>, x: V) -> Result<(), Er> {
        Pin::new(&mut self.tx).start_send(x).map_err(|_| Er { src: 999, path: 0 })
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Er>> {
        let r = Pin::new(&mut self.tx).poll_flush(cx);
        if r.is_pending() {
            post(self.d.clone());
        } else {
            self.d.take(100);
            let mut l = self.d.l.borrow_mut();
            let news = l.flushed < l.got.len();
            l.flushed = l.got.len();
            drop(l);
            if news {
                self.w.flushed();
            }
        }
        r.map_err(|_| Er { src: 999, path: 0 })
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Er>> {
        let r = Pin::new(&mut self.tx).poll_close(cx);
        if r.is_pending() {
            post(self.d.clone());
        } else {
            self.d.take(100);
            let mut l = self.d.l.borrow_mut();
            l.flushed = l.got.len();
            l.closed = true;
        }
        r.map_err(|_| Er { src: 999, path: 0 })
    }
}

/// A collection as a sink: what it holds is what it was given.
struct Coll<C> {
    v: C,
    n: fn(&C) -> Vec<u32>,
    l: LL,
    w: W,
}
impl<C: Sink<V, Error = std::convert::Infallible> + Unpin> Sink<V> for Coll<C> {
    type Error = Er;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Er>> {
        ensure!(self.v.poll_ready_unpin(cx).is_ready(), "not-accepted", "a collection is not ready for an item");
        Poll::Ready(Ok(()))
    }
    fn start_send(mut self: Pin<&mut Self>, x: V) -> Result<(), Er> {
        self.v.start_send_unpin(x).unwrap();
        self.l.borrow_mut().got = (self.n)(&self.v);
        Ok(())
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Er>> {
        ensure!(self.v.poll_flush_unpin(cx).is_ready(), "not-flushed", "flushing a collection is pending");
        let mut l = self.l.borrow_mut();
        l.flushed = l.got.len();
        drop(l);
        self.w.flushed();
        Poll::Ready(Ok(()))
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Er>> {
        ensure!(self.v.poll_close_unpin(cx).is_ready(), "not-flushed", "closing a collection is pending");
        let mut l = self.l.borrow_mut();
        l.flushed = l.got.len();
        Poll::Ready(Ok(()))
    }
}

// ------------------------------------------------------------ stacks
enum M {
    Leaf(usize),
    Drain,
    Buf(usize, Box<M>),
    With(u32, Box<M>),
    Flat(u32, Box<M>),
    Fan(Box<M>, Box<M>),
    Pass(Box<M>),
    /// Built by a future: closing it early does not reach the sink.
    Late(Box<M>),
}
fn fan_out(x: u32) -> u32 {
    x % 4
}
impl M {
    /// What item `x` becomes at every underlying sink.
    fn push(&self, x: u32, bad: (u32, u32), out: &mut [Vec<u32>]) {
        match self {
            M::Leaf(i) => out[*i].push(x),
            M::Drain => {}
            M::Buf(_, m) | M::Pass(m) | M::Late(m) => m.push(x, bad, out),
            M::With(l, m) => {
                if bad != (*l, x) {
                    m.push(x * 10 + 1, bad, out)
                }
            }
            M::Flat(_, m) => {
                for i in 0..fan_out(x) {
                    m.push(x * 10 + i, bad, out)
                }
            }
            M::Fan(a, b) => {
                a.push(x, bad, out);
                b.push(x, bad, out);
            }
        }
    }
    /// Most items held at once, in units of accepted items.
    fn holds(&self) -> Option<usize> {
        Some(match self {
            M::Leaf(_) | M::Drain => 0,
            M::Buf(c, m) => c + m.holds()?,
            M::With(_, m) => 1 + m.holds()?,
            M::Flat(..) => return None,
            M::Fan(a, b) => a.holds()?.max(b.holds()?),
            M::Pass(m) | M::Late(m) => m.holds()?,
        })
    }
    fn late(&self) -> bool {
        match self {
            M::Leaf(_) | M::Drain => false,
            M::Late(_) => true,
            M::Buf(_, m) | M::Pass(m) | M::With(_, m) | M::Flat(_, m) => m.late(),
            M::Fan(a, b) => a.late() || b.late(),
        }
    }
}
struct Bld {
    leaves: Vec<LL>,
    paths: Vec<u32>,
    layers: u32,
    bad_layer: u32,
    bad_path: u32,
    bad_top: bool,
    w: W,
    name: String,
    own: Vec<bool>, // leaf closes for real
}
impl Bld {
    fn leaf(&mut self, path: &[u32]) -> (Bs, M) {
        let id = self.leaves.len();
        let l: LL = Default::default();
        self.leaves.push(l.clone());
        let p = path.iter().rev().fold(0, |a, k| a * 3 + k);
        self.paths.push(p);
        let sk = Sk { l: l.clone(), w: self.w.clone(), id: id as u32, rg: Gate::new(), fg: Gate::new(), cg: Gate::new(), block: Default::default(), _t: v(80_000) };
        self.own.push(true);
        macro_rules! via {
            ($n:expr, $e:expr) => {{
                self.name.push_str($n);
                Box::new(Box::pin($e))
            }};
        }
        let b: Bs = match choose(22) {
            14 | 15 => match choose(16) {
                // the sink side of a stream adapter
                0 => via!("then", sk.then(|x| std::future::ready(x))),
                1 => via!("filter", sk.filter(|_| std::future::ready(true))),
                2 => via!("filter_map", sk.filter_map(|x| std::future::ready(Some(x)))),
                3 => via!("chunks", sk.chunks(2)),
                4 => via!("take_until", sk.take_until(std::future::ready(()))),
                5 => via!("take_while", sk.take_while(|_| std::future::ready(true))),
                6 => via!("skip", sk.skip(1)),
                7 => via!("skip_while", sk.skip_while(|_| std::future::ready(true))),
                8 => via!("enumerate", sk.enumerate()),
                9 => via!("scan", sk.scan((), |(), x| std::future::ready(Some(((), x))))),
                10 => via!("take", sk.take(1)),
                11 => via!("inspect", sk.inspect(|_| {})),
                12 => via!("buffered", sk.map(std::future::ready).buffered(2)),
                13 => via!("buffer_unordered", sk.map(std::future::ready).buffer_unordered(2)),
                14 => via!("flatten", sk.map(|x| stream::iter([x])).flatten()),
                _ => via!("flatten_unordered", sk.map(|x| stream::iter([x])).flatten_unordered(2)),
            },
            16 | 17 => {
                let sk = sk.map(Ok::<u32, Er>);
                match choose(14) {
                    0 => via!("and_then", sk.and_then(|x| std::future::ready(Ok(x)))),
                    1 => via!("or_else", sk.or_else(|x| std::future::ready(Err::<u32, Er>(x)))),
                    2 => via!("map_ok", sk.map_ok(|x| x)),
                    3 => via!("map_err", sk.map_err(|x| x)),
                    4 => via!("try_filter", sk.try_filter(|_| std::future::ready(true))),
                    5 => via!("try_filter_map", sk.try_filter_map(|x| std::future::ready(Ok(Some(x))))),
                    6 => via!("try_skip_while", sk.try_skip_while(|_| std::future::ready(Ok(true)))),
                    7 => via!("try_take_while", sk.try_take_while(|_| std::future::ready(Ok(true)))),
                    8 => via!("try_buffered", sk.map_ok(|x| std::future::ready(Ok::<u32, Er>(x))).try_buffered(2)),
                    9 => via!("try_buffer_unordered", sk.map_ok(|x| std::future::ready(Ok::<u32, Er>(x))).try_buffer_unordered(2)),
                    10 => via!("try_chunks", sk.try_chunks(2)),
                    11 => via!("try_ready_chunks", sk.try_ready_chunks(2)),
                    12 => via!("into_stream", sk.into_stream()),
                    _ => via!("try_flatten", sk.map_ok(|x| stream::iter([Ok::<u32, Er>(x)])).try_flatten()),
                }
            }
            20 => {
                self.name.push_str("flatten_stream");
                let w = self.w.clone();
                w.unresolved.set(w.unresolved.get() + 1);
                let f = futures::FutureExt::map(Fut::new(sk), move |s| {
                    w.unresolved.set(w.unresolved.get() - 1);
                    s
                });
                return (Box::new(futures::FutureExt::flatten_stream(f)), M::Late(Box::new(M::Leaf(id))));
            }
            18 => {
                self.name.push_str("vec");
                self.own[id] = false;
                Box::new(Coll { v: Vec::new(), n: |v: &Vec<V>| v.iter().map(|x| x.get()).collect(), l, w: self.w.clone() })
            }
            19 => {
                self.name.push_str("vecdeque");
                self.own[id] = false;
                Box::new(Coll { v: std::collections::VecDeque::new(), n: |v: &std::collections::VecDeque<V>| v.iter().map(|x| x.get()).collect(), l, w: self.w.clone() })
            }
            0 => {
                self.name.push_str("channel");
                let (tx, rx) = mpsc::channel(choose(3));
                Box::new(Chan { tx, w: self.w.clone(), d: Rc::new(Drainer { rx: RefCell::new(rx), l }) })
            }
            1 | 2 => {
                self.name.push_str("unfold");
                self.own[id] = false;
                let w = self.w.clone();
                let id = id as u32;
                Box::new(Box::pin(sink::unfold(0u32, move |n, x: V| {
                    let n0 = w.err_in.get();
                    if n0 > 0 {
                        w.err_in.set(n0 - 1);
                    }
                    let fails = n0 == 1;
                    let (w, l) = (w.clone(), l.clone());
                    let f = Fut::new(x);
                    async move {
                        let x = f.await;
                        if fails {
                            count(F_ERR);
                            w.raised.borrow_mut().push(id);
                            return Err(Er { src: id, path: 0 });
                        }
                        let mut l = l.borrow_mut();
                        ensure!(l.got.len() == n as usize, "wrong-state", "unfold called its function with state {n} after {} items", l.got.len());
                        l.got.push(x.get());
                        l.flushed = l.got.len();
                        drop(l);
                        w.flushed();
                        Ok(n + 1)
                    }
                })))
            }
            3 => {
                self.name.push_str("fuse");
                Box::new(sk.fuse())
            }
            4 => {
                self.name.push_str("map");
                Box::new(sk.map(|x| x))
            }
            5 => {
                self.name.push_str("peekable");
                Box::new(sk.peekable())
            }
            6 => {
                self.name.push_str("ready_chunks");
                Box::new(sk.ready_chunks(2))
            }
            7 => {
                self.name.push_str("split");
                let (s, r) = sk.split();
                drop(r);
                Box::new(s)
            }
            _ => {
                self.name.push_str("sink");
                Box::new(sk)
            }
        };
        (b, M::Leaf(id))
    }
    fn build(&mut self, depth: usize, path: &mut Vec<u32>) -> (Bs, M) {
        if depth == 0 {
            if chance(3) {
                self.name.push_str("drain");
                return (Box::new(sink::drain().sink_map_err(|e: std::convert::Infallible| match e {})), M::Drain);
            }
            return self.leaf(path);
        }
        match choose(12) {
            0 | 1 | 2 => {
                let c = [0, 1, 2, 5][choose(4)];
                self.name.push_str(&format!("buffer({c})/"));
                let (s, m) = self.build(depth - 1, path);
                (Box::new(s.buffer(c)), M::Buf(c, Box::new(m)))
            }
            3 | 4 => {
                self.layers += 1;
                let layer = self.layers;
                if layer == self.bad_layer {
                    self.bad_top = self.name.is_empty();
                    self.bad_path = path.iter().rev().fold(0, |a, k| a * 3 + k);
                }
                self.name.push_str("with/");
                let (s, m) = self.build(depth - 1, path);
                let w = self.w.clone();
                let f = move |x: V| {
                    let bad = w.bad.get() == (layer, x.get());
                    let w = w.clone();
                    let f = Fut::new(x);
                    // a leaf that objects to being polled after completion
                    futures::FutureExt::map(f, move |x| {
                        if bad {
                            count(F_ERR);
                            w.raised.borrow_mut().push(500);
                            return Err(Er { src: 500, path: 0 });
                        }
                        Ok(v(x.get() * 10 + 1))
                    })
                };
                (Box::new(s.with(f)), M::With(layer, Box::new(m)))
            }
            5 | 6 => {
                self.layers += 1;
                let layer = self.layers;
                if layer == self.bad_layer {
                    self.bad_top = self.name.is_empty();
                    self.bad_path = path.iter().rev().fold(0, |a, k| a * 3 + k);
                }
                self.name.push_str("with_flat_map/");
                let (s, m) = self.build(depth - 1, path);
                let w = self.w.clone();
                let f = move |x: V| {
                    let bad = w.bad.get() == (layer, x.get());
                    let n = fan_out(x.get());
                    let at = choose(n as usize + 1) as u32;
                    let mut items: Vec<Result<V, Er>> = vec![];
                    for i in 0..=n {
                        if bad && i == at {
                            items.push(Err(Er { src: 500, path: 0 }));
                        }
                        if i < n {
                            items.push(Ok(v(x.get() * 10 + i)));
                        }
                    }
                    let w = w.clone();
                    Src::new(items).inspect(move |x| {
                        if x.is_err() {
                            count(F_ERR);
                            w.raised.borrow_mut().push(500);
                        }
                    })
                };
                (Box::new(s.with_flat_map(f)), M::Flat(layer, Box::new(m)))
            }
            7 => {
                self.name.push_str("fanout(");
                let (a, ma) = self.build(depth - 1, path);
                self.name.push(',');
                let (b, mb) = self.build(depth - 1, path);
                self.name.push(')');
                (Box::new(a.fanout(b)), M::Fan(Box::new(ma), Box::new(mb)))
            }
            8 => {
                self.name.push_str("sink_map_err/");
                path.push(2);
                let (s, m) = self.build(depth - 1, path);
                path.pop();
                (Box::new(s.sink_map_err(|e: Er| Er { src: e.src, path: e.path * 3 + 2 })), M::Pass(Box::new(m)))
            }
            9 => {
                self.name.push_str("sink_err_into/");
                path.push(1);
                let (s, m) = self.build(depth - 1, path);
                path.pop();
                (Box::new(s.sink_err_into::<Er2>().sink_map_err(|e| e.0)), M::Pass(Box::new(m)))
            }
            10 => {
                self.name.push_str("Either/");
                let (s, m) = self.build(depth - 1, path);
                let b: Bs = if chance(50) { Box::new(s.left_sink::<Bs>()) } else { Box::new(s.right_sink::<Bs>()) };
                (b, M::Pass(Box::new(m)))
            }
            _ => {
                self.name.push_str("flatten_sink/");
                let (s, m) = self.build(depth - 1, path);
                let w = self.w.clone();
                w.unresolved.set(w.unresolved.get() + 1);
                let f = futures::FutureExt::map(Fut::new(Ok::<Bs, Er>(s)), move |s| {
                    w.unresolved.set(w.unresolved.get() - 1);
                    s
                });
                let b: Bs = Box::new(f.flatten_sink());
                (b, M::Late(Box::new(m)))
            }
        }
    }
}

/// Sees which items the stack accepts.
struct Probe {
    s: Bs,
    w: W,
    n: Rc<Cell<usize>>, // polls that were ready
}
impl Sink<V> for Probe {
    type Error = Er;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Er>> {
        let r = Pin::new(&mut self.s).poll_ready(cx);
        if let Poll::Ready(Ok(())) = r {
            self.n.set(self.n.get() + 1);
        }
        r
    }
    fn start_send(mut self: Pin<&mut Self>, x: V) -> Result<(), Er> {
        // known to be accepted before the library can pass it on
        self.w.acc.borrow_mut().push(x.get());
        self.w.tried.borrow_mut().push(x.get());
        let r = Pin::new(&mut self.s).start_send(x);
        if r.is_err() {
            self.w.acc.borrow_mut().pop();
        }
        r
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Er>> {
        Pin::new(&mut self.s).poll_flush(cx)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Er>> {
        Pin::new(&mut self.s).poll_close(cx)
    }
}

/// An input that goes on only once everything sent so far has reached its
/// destination, as the peer of a request/response protocol does.
struct Peer {
    xs: std::collections::VecDeque<u32>,
    w: W,
    m: Rc<M>,
    leaves: Vec<LL>,
    gate: Gate,
}
impl Stream for Peer {
    type Item = Result<V, Er>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Result<V, Er>>> {
        let mut out = vec![vec![]; self.leaves.len()];
        for x in self.w.acc.borrow().iter() {
            self.m.push(*x, (0, 0), &mut out);
        }
        let done = self.leaves.iter().zip(out).all(|(l, e)| l.borrow().got == e && l.borrow().flushed == e.len());
        if !done {
            self.w.on_flush.borrow_mut().push(cx.waker().clone());
            return Poll::Pending;
        }
        if !self.gate.poll(cx) {
            return Poll::Pending;
        }
        self.gate.rearm();
        Poll::Ready(self.xs.pop_front().map(|x| Ok(v(x))))
    }
}
struct Run<'a> {
    t: &'a mut Task,
    w: W,
    leaves: Vec<LL>,
    paths: Vec<u32>,
    own: Vec<bool>,
    m: Rc<M>,
    name: String,
    bad_path: u32,
    bad_top: bool,
    ready: Rc<Cell<usize>>,
}
impl Run<'_> {
    fn peer(&self, xs: &[u32]) -> Peer {
        Peer { xs: xs.iter().copied().collect(), w: self.w.clone(), m: self.m.clone(), leaves: self.leaves.clone(), gate: Gate::new() }
    }
    fn expected(&self) -> Vec<Vec<u32>> {
        let mut out = vec![vec![]; self.leaves.len()];
        for x in self.w.acc.borrow().iter() {
            self.m.push(*x, self.w.bad.get(), &mut out);
        }
        out
    }
    fn inv(&self, op: &str) {
        for (l, e) in self.leaves.iter().zip(self.expected()) {
            let l = l.borrow();
            ensure!(e.starts_with(&l.got), "wrong-items", "after {op} an underlying sink has {:?} where {e:?} is due ({})", l.got, self.name);
        }
        if let Some(h) = self.m.holds() {
            let acc = self.w.acc.borrow().len();
            for (i, l) in self.leaves.iter().enumerate() {
                if self.own[i] && self.w.bad.get().0 == 0 && !self.name.contains("channel") && !self.name.contains("split") {
                    let n = acc - l.borrow().got.len();
                    ensure!(n <= h, "over-capacity", "{n} items are held back by a stack that may hold {h} ({})", self.name);
                }
            }
        }
    }
    fn complete(&self, op: &str, close: bool) {
        for (i, (l, e)) in self.leaves.iter().zip(self.expected()).enumerate() {
            let l = l.borrow();
            ensure!(l.got == e, "held-back", "{op} completed with {:?} passed on where {e:?} is due ({})", l.got, self.name);
            ensure!(l.flushed == l.got.len(), "not-flushed", "{op} completed with {} of {} items flushed ({})", l.flushed, l.got.len(), self.name);
            if close && self.own[i] && self.w.unresolved.get() == 0 {
                ensure!(l.closed, "not-closed", "close completed without closing an underlying sink ({})", self.name);
            }
        }
    }
    /// Judges the result of an operation; true = go on.
    fn result(&mut self, op: &str, r: Option<Result<(), Er>>) -> bool {
        let raised: Vec<u32> = self.w.raised.borrow_mut().drain(..).collect();
        match r {
            // given up: an error raised meanwhile must not be there, since it makes the operation ready
            None => {
                ensure!(raised.is_empty(), "error-swallowed", "{op} was still pending although a sink had failed ({})", self.name);
                self.inv(op);
                true
            }
            Some(Ok(())) => {
                ensure!(raised.is_empty(), "error-swallowed", "{op} succeeded although a sink or mapping had failed ({})", self.name);
                self.inv(op);
                true
            }
            Some(Err(e)) => {
                ensure!(raised == [e.src], "wrong-error", "{op} failed with {e:?} where {raised:?} was raised ({})", self.name);
                let p = if e.src == 500 { self.bad_path } else { self.paths[e.src as usize] };
                ensure!(e.path == p, "wrong-error", "{op} failed with {e:?}, which was not mapped as specified ({}), path {p}", self.name);
                // a failed mapping only concerns its item; to the layers above it is a failed sink
                if e.src == 500 && self.bad_top {
                    self.inv(op);
                    return true;
                }
                false
            }
        }
    }
    fn go<F: Future + Unpin>(&mut self, mut f: F) -> Option<F::Output> {
        if chance(20) {
            count(F_CANCEL);
            self.t.poll_n(1 + choose(3) as u32, |cx| Pin::new(&mut f).poll(cx))
        } else {
            Some(self.t.block_on(Pin::new(&mut f)))
        }
    }
}

pub fn adapters() {
    begin();
    if chance(8) {
        if chance(50) {
            blocked();
        } else {
            dependent();
        }
    } else {
        adapters_in();
    }
    EVENTS_DROP();
    check_leaks("sinks");
}
#[allow(non_snake_case)]
fn EVENTS_DROP() {
    // pending events may hold the receiver of a channel
    while step() {}
}
/// A buffer in front of a sink that is not ready takes exactly its capacity.
fn blocked() {
    let w: W = Default::default();
    let l: LL = Default::default();
    let block = Rc::new(Cell::new(true));
    let sk = Sk { l: l.clone(), w, id: 0, rg: Gate::with(0), fg: Gate::new(), cg: Gate::new(), block: block.clone(), _t: v(80_000) };
    let c = 1 + choose(4);
    let mut b = sk.buffer(c);
    let mut t = Task::quiet();
    for i in 0..c {
        ensure!(matches!(t.poll(|cx| b.poll_ready_unpin(cx)), Poll::Ready(Ok(()))), "not-accepted", "a buffer of {c} with {i} items is not ready for another");
        b.start_send_unpin(v(i as u32)).unwrap();
    }
    ensure!(t.poll(|cx| b.poll_ready_unpin(cx)).is_pending(), "over-capacity", "a buffer of {c} accepts more than {c} items");
    block.set(false);
    let r = t.block_on_with(|cx| b.poll_flush_unpin(cx));
    ensure!(r.is_ok() && l.borrow().got == (0..c as u32).collect::<Vec<_>>(), "wrong-items", "flushing a full buffer gave {r:?} and {:?}", l.borrow().got);
}
/// A sink whose operations succeed only once the same one was asked of its peer.
struct Dep {
    me: usize,
    asked: Rc<RefCell<[[bool; 3]; 2]>>,
    wait: Rc<RefCell<Vec<Waker>>>,
    got: Vec<u32>,
}
impl Dep {
    fn op(&self, k: usize, cx: &mut Context<'_>) -> Poll<Result<(), Er>> {
        let mut a = self.asked.borrow_mut();
        if !a[self.me][k] {
            a[self.me][k] = true;
            self.wait.take().into_iter().for_each(|w| w.wake());
        }
        if a[1 - self.me][k] {
            return Poll::Ready(Ok(()));
        }
        self.wait.borrow_mut().push(cx.waker().clone());
        Poll::Pending
    }
}
impl Sink<V> for Dep {
    type Error = Er;
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Er>> {
        self.op(0, cx)
    }
    fn start_send(mut self: Pin<&mut Self>, x: V) -> Result<(), Er> {
        self.got.push(x.get());
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Er>> {
        self.op(1, cx)
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Er>> {
        self.op(2, cx)
    }
}
/// A fanout goes on with the one sink while the other is not ready.
fn dependent() {
    let asked: Rc<RefCell<[[bool; 3]; 2]>> = Default::default();
    let wait: Rc<RefCell<Vec<Waker>>> = Default::default();
    let mk = |me| Dep { me, asked: asked.clone(), wait: wait.clone(), got: vec![] };
    let mut f = mk(0).fanout(mk(1));
    let mut t = Task::new();
    for i in 1..=1 + choose(3) as u32 {
        asked.borrow_mut().iter_mut().for_each(|a| *a = Default::default());
        ensure!(t.block_on_with(|cx| f.poll_ready_unpin(cx)).is_ok(), "wrong-error", "an error out of nowhere");
        f.start_send_unpin(v(i)).unwrap();
        if chance(60) {
            ensure!(t.block_on_with(|cx| f.poll_flush_unpin(cx)).is_ok(), "wrong-error", "an error out of nowhere");
        }
        ensure!(f.get_ref().0.got == f.get_ref().1.got && f.get_ref().0.got.last() == Some(&i), "wrong-items", "the sinks of a fanout got different items");
    }
    ensure!(t.block_on_with(|cx| f.poll_close_unpin(cx)).is_ok(), "wrong-error", "an error out of nowhere");
    wait.take();
}
fn adapters_in() {
    let mode = choose(4); // 0, 1 no errors; 2 one sink error; 3 one mapping error
    let w0: W = Default::default();
    let mut bl = Bld { leaves: vec![], paths: vec![], layers: 0, bad_layer: if mode == 3 { 1 + choose(2) as u32 } else { 0 }, bad_path: 0, bad_top: false, w: w0.clone(), name: String::new(), own: vec![] };
    let (s, m) = bl.build(choose(4), &mut vec![]);
    let Bld { leaves, paths, bad_layer, bad_path, bad_top, layers, name, own, .. } = bl;
    let w = w0;
    if mode == 2 {
        w.err_in.set(1 + choose(12) as u32);
    }
    if mode == 3 && bad_layer <= layers {
        // inputs of the second layer are images of the first
        let first = 1 + choose(3) as u32;
        w.bad.set((bad_layer, if bad_layer == 1 { first } else { first * 10 + 1 }));
    }
    let ready = Rc::new(Cell::new(0));
    let mut p = Probe { s, w: w.clone(), n: ready.clone() };
    let mut t = Task::new();
    let mut r = Run { t: &mut t, w, leaves, paths, own, m: Rc::new(m), name, bad_path, bad_top, ready };
    let mut next = 1;
    let mut fresh = || {
        next += 1;
        next - 1
    };
    for _ in 0..1 + choose(7) {
        let before = r.w.acc.borrow().len();
        match choose(8) {
            0 | 1 => {
                let x = fresh();
                let g = r.go(p.send(v(x)));
                if !r.result("send", g) {
                    return after_error(r, p);
                }
                if let Some(Ok(())) = g {
                    ensure!(r.w.acc.borrow()[before..] == [x], "not-sent", "send completed without sending its item");
                    r.complete("send", false);
                }
            }
            2 | 3 => {
                let x = fresh();
                let g = r.go(p.feed(v(x)));
                if !r.result("feed", g) {
                    return after_error(r, p);
                }
                if let Some(Ok(())) = g {
                    ensure!(r.w.acc.borrow()[before..] == [x], "not-sent", "feed completed without sending its item");
                } else {
                    ensure!(r.w.acc.borrow().len() == before, "sent-unasked", "feed did not complete but sent its item");
                }
            }
            4 | 5 => {
                let g = r.go(p.flush());
                if !r.result("flush", g) {
                    return after_error(r, p);
                }
                if let Some(Ok(())) = g {
                    r.complete("flush", false);
                }
            }
            6 => {
                let xs: Vec<u32> = (0..choose(5)).map(|_| fresh()).collect();
                let mut src = Src::new(xs.iter().map(|x| Ok::<V, Er>(v(*x))));
                let g = if mode < 2 && chance(40) {
                    let mut src = r.peer(&xs);
                    let g = r.go(p.send_all(&mut src));
                    r.w.on_flush.borrow_mut().clear();
                    g
                } else if chance(50) {
                    r.go(p.send_all(&mut src))
                } else {
                    let mut src = stream::iter(xs.iter().map(|x| Ok::<V, Er>(v(*x))).collect::<Vec<_>>());
                    r.go(p.send_all(&mut src))
                };
                if !r.result("send_all", g) {
                    return after_error(r, p);
                }
                let sent = r.w.acc.borrow()[before..].to_vec();
                ensure!(xs.starts_with(&sent), "wrong-items", "send_all of {xs:?} sent {sent:?}");
                if let Some(Ok(())) = g {
                    ensure!(xs == sent, "wrong-items", "send_all of {xs:?} completed having sent {sent:?}");
                    r.complete("send_all", false);
                }
            }
            _ => {
                // an error of the stream ends send_all
                let xs: Vec<u32> = (0..choose(3)).map(|_| fresh()).collect();
                let mut items: Vec<Result<V, Er>> = xs.iter().map(|x| Ok(v(*x))).collect();
                items.push(Err(Er { src: 700, path: 0 }));
                let mut src = Src::new(items);
                let g = r.t.block_on(Pin::new(&mut p.send_all(&mut src)));
                if let Err(Er { src: 700, .. }) = g {
                    let sent = r.w.acc.borrow()[before..].to_vec();
                    ensure!(sent == xs, "wrong-items", "send_all of {xs:?} and an error sent {sent:?}");
                    r.inv("send_all");
                    let raised = r.w.raised.borrow().clone();
                    ensure!(raised.is_empty(), "error-swallowed", "send_all reported the stream's error although {raised:?} was raised");
                } else {
                    ensure!(g.is_err(), "error-swallowed", "send_all completed although its stream failed");
                    if !r.result("send_all", Some(g)) {
                        return after_error(r, p);
                    }
                }
            }
        }
    }
    finish(r, p, fresh());
}
/// A sink that has failed can still be closed (or dropped), which repeats nothing.
fn after_error(r: Run<'_>, mut p: Probe) {
    // an unfolding sink that has failed has no state left to accept what others still hold for it
    if r.name.contains("unfold") && r.name != "unfold" || chance(30) {
        return;
    }
    r.w.err_in.set(0);
    for _ in 0..choose(3) {
        let _ = r.t.block_on(Pin::new(&mut p.flush()));
    }
    let _ = r.t.block_on(Pin::new(&mut p.close()));
    let mut out = vec![vec![]; r.leaves.len()];
    for x in r.w.tried.borrow().iter() {
        r.m.push(*x, r.w.bad.get(), &mut out);
    }
    for (l, e) in r.leaves.iter().zip(out) {
        let l = l.borrow();
        let mut it = e.iter();
        ensure!(l.got.iter().all(|g| it.any(|x| x == g)), "wrong-items", "after an error an underlying sink has {:?} of {e:?} ({})", l.got, r.name);
    }
}
fn finish(mut r: Run<'_>, mut p: Probe, x0: u32) {
    match choose(3) {
        0 => {
            let g = loop {
                let g = r.t.block_on(Pin::new(&mut p.close()));
                if !r.result("close", Some(g)) {
                    return;
                }
                if g.is_ok() {
                    break g;
                }
            };
            let _ = g;
            r.complete("close", true);
        }
        1 => {
            // forward consumes the sink, closing it at the end
            let n = choose(4) as u32;
            let xs: Vec<u32> = (x0..x0 + n).collect();
            let before = r.w.acc.borrow().len();
            let g = if r.w.err_in.get() == 0 && r.w.bad.get().0 == 0 && chance(40) {
                let src = r.peer(&xs);
                if chance(50) {
                    let mut f = src.map(|x: Result<V, Er>| x.unwrap()).forward(p);
                    r.t.block_on(Pin::new(&mut f))
                } else {
                    let mut f = src.try_forward(p);
                    r.t.block_on(Pin::new(&mut f))
                }
            } else if chance(50) {
                let mut f = Src::new(xs.iter().map(|x| v(*x)).collect::<Vec<_>>()).forward(p);
                ensure!(!f.is_terminated(), "terminated", "forward reports termination before completing");
                r.t.block_on(Pin::new(&mut f))
            } else {
                let mut f = Src::new(xs.iter().map(|x| Ok::<V, Er>(v(*x))).collect::<Vec<_>>()).try_forward(p);
                r.t.block_on(Pin::new(&mut f))
            };
            r.result("forward", Some(g));
            if g.is_ok() {
                let sent = r.w.acc.borrow()[before..].to_vec();
                ensure!(sent == xs, "wrong-items", "forward of {xs:?} sent {sent:?}");
                r.complete("forward", true);
            }
        }
        _ => {
            loop {
                let g = r.t.block_on(Pin::new(&mut p.flush()));
                if !r.result("flush", Some(g)) {
                    return after_error(r, p);
                }
                if g.is_ok() {
                    break;
                }
            }
            r.complete("flush", false);
        }
    }
}
