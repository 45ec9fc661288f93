//! Combinators that merge streams.
use crate::ex::{sg, th};
use crate::leaf::*;
use crate::rt::*;
use futures::stream::{self, PollNext, SelectAll, Stream, StreamExt, TryStreamExt};
use std::cell::{Cell, RefCell};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

type Item = (usize, u32, V); // input, number in it, payload
/// What happened, by input.
#[derive(Default)]
struct Book {
    left: Vec<u32>,     // items not yet yielded by the input
    out: Vec<u32>,      // items that came out
    skipped: Vec<usize>,// items of others that came out while this one had more
    ended: Vec<bool>,
    stall: Vec<bool>,   // never ends, and never wakes anybody after its last item
    open: usize,
    max_open: usize,
    base_pending: bool,
    base_done: bool,
}
type B = Rc<RefCell<Book>>;
struct In {
    s: Src<u32>,
    i: usize,
    b: B,
    open: bool,
}
impl In {
    fn new(b: &B, max: usize) -> In {
        let n = choose(max + 1) as u32;
        let mut g = b.borrow_mut();
        g.left.push(n);
        g.out.push(0);
        g.skipped.push(0);
        g.ended.push(false);
        g.stall.push(false);
        let i = g.left.len() - 1;
        drop(g);
        In { s: Src::new(0..n), i, b: b.clone(), open: false }
    }
    fn stalling(self, dry: bool) -> In {
        if dry && chance(40) {
            self.b.borrow_mut().stall[self.i] = true;
        }
        self
    }
    fn open(mut self) -> In {
        let mut g = self.b.borrow_mut();
        g.open += 1;
        g.max_open = g.max_open.max(g.open);
        g.skipped[self.i] = 0;
        drop(g);
        self.open = true;
        self
    }
    fn close(&mut self) {
        if self.open {
            self.open = false;
            self.b.borrow_mut().open -= 1;
        }
    }
}
impl Drop for In {
    fn drop(&mut self) {
        self.close();
    }
}
impl Stream for In {
    type Item = Item;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Item>> {
        {
            let g = self.b.borrow();
            if g.stall[self.i] && g.left[self.i] == 0 {
                return Poll::Pending;
            }
        }
        match Pin::new(&mut self.s).poll_next(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Some(x)) => {
                self.b.borrow_mut().left[self.i] -= 1;
                Poll::Ready(Some((self.i, x, v(x))))
            }
            Poll::Ready(None) => {
                self.close();
                let i = self.i;
                self.b.borrow_mut().ended[i] = true;
                Poll::Ready(None)
            }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.s.size_hint()
    }
}
fn note(b: &B, name: &str, x: &Item, bound: usize) {
    let mut g = b.borrow_mut();
    let (i, k) = (x.0, x.1);
    ensure!(g.out[i] == k, "order", "{name}: item {k} of input {i} came out, expected {}", g.out[i]);
    g.out[i] += 1;
    for j in 0..g.left.len() {
        if j == i {
            g.skipped[j] = 0;
        } else if g.left[j] > 0 {
            g.skipped[j] += 1;
            if sg::cfg().max_pend == 0 {
                ensure!(g.skipped[j] <= bound, "starved", "{name}: {} items of others while input {j} was ready", g.skipped[j]);
            }
        }
    }
}
/// Waits; true if only inputs are left that never do anything again.
fn wait_dry(t: &mut sg::Task, b: &B) -> bool {
    let w = t.waker();
    let mut over = false;
    t.wait_or(|| {
        let g = b.borrow();
        over = g.stall.iter().any(|s| *s) && (0..g.left.len()).all(|i| g.left[i] == 0 && (g.stall[i] || g.ended[i]));
        if over {
            w.wake_by_ref();
        }
        over
    });
    over
}
/// Advances the generator behind the shuffling macros.
pub fn stir() {
    let mut s = stream_select_of_nothing();
    let w = std::task::Waker::noop();
    for _ in 0..choose(12) {
        let _ = s.poll_next_unpin(&mut Context::from_waker(w));
    }
}
fn stream_select_of_nothing() -> impl Stream<Item = ()> + Unpin {
    futures::stream_select!(stream::pending::<()>(), stream::pending::<()>(), stream::pending::<()>())
}
type BS = Pin<Box<dyn Stream<Item = Item>>>;

pub fn fixed() {
    sg::begin();
    fixed_in();
    check_leaks("merged streams");
}
fn fixed_in() {
    let b: B = Default::default();
    let asked = Rc::new(Cell::new(None));
    let a2 = asked.clone();
    let kind = choose(6);
    let mx = 5;
    let dry = chance(20);
    let mk = || In::new(&b, mx).stalling(dry);
    let (mut s, name, bound): (BS, &str, usize) = match kind {
        0 => (Box::pin(stream::select(mk(), mk())), "select", 2),
        1 => {
            let pat: Vec<bool> = (0..4).map(|_| chance(50)).collect();
            let strat = move |k: &mut usize| {
                *k += 1;
                let p = if pat[*k % 4] { PollNext::Left } else { PollNext::Right };
                a2.set(Some(p));
                p
            };
            (Box::pin(stream::select_with_strategy(mk(), mk(), strat)), "select_with_strategy", usize::MAX)
        }
        2 => {
            let n = 1 + choose(5);
            (Box::pin(stream::select_all((0..n).map(|_| mk()))), "select_all", 2 * n + 2)
        }
        3 => {
            stir();
            (Box::pin(futures::stream_select!(mk(), mk(), mk())), "stream_select!", usize::MAX)
        }
        4 => {
            stir();
            (Box::pin(futures::stream_select!(mk(), mk())), "stream_select!", usize::MAX)
        }
        _ => (Box::pin(stream::select(stream::select(mk(), mk()), mk())), "nested select", 8),
    };
    let total: u32 = b.borrow().left.iter().sum();
    let cancel = chance(12);
    let mut t = sg::Task::new();
    let mut got = 0;
    let mut hints = vec![];
    loop {
        hints.push((got, s.size_hint()));
        asked.set(None);
        let ready: Vec<bool> = (0..b.borrow().left.len()).map(|i| b.borrow().left[i] > 0).collect();
        match t.poll(|cx| s.as_mut().poll_next(cx)) {
            Poll::Pending => {
                if cancel && chance(20) {
                    count(F_CANCEL);
                    break;
                }
                if wait_dry(&mut t, &b) {
                    ensure!(got == total as usize, "lost", "{name}: stuck after {got} of {total} items");
                    break;
                }
            }
            Poll::Ready(Some(x)) => {
                note(&b, name, &x, bound);
                got += 1;
                if let (Some(p), 0) = (asked.get(), sg::cfg().max_pend) {
                    let side = if p == PollNext::Left { 0 } else { 1 };
                    ensure!(!ready[side] || x.0 == side, "strategy", "{name}: the strategy chose input {side}, which was ready, but {} was taken", x.0);
                }
            }
            Poll::Ready(None) => {
                ensure!(got == total as usize, "lost", "{name}: ended after {got} of {total} items");
                ensure!(b.borrow().ended.iter().all(|e| *e), "early-end", "{name}: ended before its inputs");
                super::streams::check_hints(&hints, got, name);
                break;
            }
        }
    }
    let_go(s);
}

/// Sets of streams that grow while they run.
pub fn growing() {
    sg::begin();
    growing_in();
    check_leaks("select_all");
}
fn growing_in() {
    let b: B = Default::default();
    let mut set: SelectAll<In> = match choose(3) {
        0 => SelectAll::new(),
        1 => SelectAll::default(),
        _ => std::iter::empty().collect(),
    };
    let mut t = sg::Task::new();
    let mut more = choose(6);
    let name = "select_all";
    let mut len = 0;
    let dry = chance(20);
    loop {
        if more > 0 && chance(40) {
            more -= 1;
            if chance(70) {
                set.push(In::new(&b, 3).stalling(dry));
                len += 1;
            } else {
                set.extend((0..2).map(|_| In::new(&b, 3).stalling(dry)));
                len += 2;
            }
        }
        if chance(5) {
            let mut g = b.borrow_mut();
            for i in 0..g.left.len() {
                g.left[i] = 0;
                g.ended[i] = true;
                g.stall[i] = false;
            }
            drop(g);
            set.clear();
            len = 0;
            ensure!(set.is_empty(), "length", "not empty after clear");
        }
        let e = b.borrow().ended.iter().filter(|e| **e).count();
        match t.poll(|cx| set.poll_next_unpin(cx)) {
            Poll::Pending => {
                if wait_dry(&mut t, &b) && more == 0 {
                    break;
                }
            }
            Poll::Ready(Some(x)) => note(&b, name, &x, usize::MAX),
            Poll::Ready(None) => {
                ensure!(b.borrow().ended.iter().all(|e| *e), "early-end", "{name}: ended before its inputs");
                if more == 0 {
                    break;
                }
            }
        }
        len -= b.borrow().ended.iter().filter(|e| **e).count() - e;
        ensure!(
            set.len() == len && super::fu::walk(set.iter(), false).len() == len && super::fu::walk(set.iter_mut(), false).len() == len
                && super::fu::walk((&set).into_iter(), false).len() == len && super::fu::walk((&mut set).into_iter(), false).len() == len,
            "length", "{name}: {} streams, expected {len}", set.len()
        );
        if chance(2) {
            let part = chance(50);
            let v = super::fu::walk(set.into_iter(), part);
            ensure!(part || v.len() == len, "length", "{name}: into_iter gives {} streams, expected {len}", v.len());
            return;
        }
    }
    ensure!(b.borrow().left.iter().all(|n| *n == 0), "lost", "{name}: ended early");
}

/// Unordered flattening.
pub fn flatten() {
    sg::begin();
    flatten_in();
    check_leaks("flatten_unordered");
}
struct Base {
    s: Src<Result<In, V>>,
    b: B,
}
impl Stream for Base {
    type Item = Result<In, V>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Result<In, V>>> {
        let r = Pin::new(&mut self.s).poll_next(cx);
        let mut g = self.b.borrow_mut();
        g.base_pending = r.is_pending();
        g.base_done |= matches!(r, Poll::Ready(None));
        drop(g);
        r.map(|x| x.map(|x| x.map(|x| x.open())))
    }
}
fn flatten_in() {
    let b: B = Default::default();
    let n = choose(7);
    let kind = choose(3);
    let lim = choose(4);
    let dry = lim == 0 && chance(40);
    let mut errs = 0;
    let inputs: Vec<Result<In, V>> = (0..n)
        .map(|_| {
            if kind == 2 && chance(25) {
                errs += 1;
                Err(v(errs))
            } else {
                Ok(In::new(&b, 4).stalling(dry))
            }
        })
        .collect();
    let limit = match lim {
        0 if chance(50) => None,
        k => Some(k),
    };
    let base = Base { s: Src::new(inputs), b: b.clone() };
    type BR = Pin<Box<dyn Stream<Item = Result<Item, V>>>>;
    let (mut s, name): (BR, _) = match kind {
        0 => (Box::pin(base.map(|x| x.ok().unwrap()).flatten_unordered(limit).map(Ok)), "flatten_unordered"),
        1 => (Box::pin(base.flat_map_unordered(limit, |x| x.ok().unwrap()).map(Ok)), "flat_map_unordered"),
        _ => (Box::pin(base.map_ok(|s| s.map(Ok::<Item, V>)).try_flatten_unordered(limit)), "try_flatten_unordered"),
    };
    let total: u32 = b.borrow().left.iter().sum();
    let cancel = chance(12);
    let mut t = sg::Task::new();
    let (mut got, mut gerr) = (0, 0);
    loop {
        let p = t.poll(|cx| s.as_mut().poll_next(cx));
        {
            let g = b.borrow();
            ensure!(lim == 0 || g.max_open <= lim, "limit", "{name}({lim}): {} inner streams at once", g.max_open);
        }
        match p {
            Poll::Pending => {
                let g = b.borrow();
                ensure!(
                    t.woken() || lim > 0 && g.open >= lim || g.base_done || g.base_pending,
                    "work-refused",
                    "{name}: waiting with {} of {lim} inner streams although the outer stream was not asked for more",
                    g.open
                );
                drop(g);
                if cancel && chance(20) {
                    count(F_CANCEL);
                    break;
                }
                if wait_dry(&mut t, &b) {
                    ensure!(b.borrow().base_done && got == total && gerr == errs, "lost", "{name}: stuck after {got} of {total} items and {gerr} of {errs} errors");
                    break;
                }
            }
            Poll::Ready(Some(Ok(x))) => {
                // open streams take turns; others are not started yet
                {
                    let mut g = b.borrow_mut();
                    for j in 0..g.skipped.len() {
                        if g.out[j] == 0 {
                            g.skipped[j] = 0;
                        }
                    }
                }
                note(&b, name, &x, 2 * n + 2);
                got += 1;
            }
            Poll::Ready(Some(Err(e))) => {
                gerr += 1;
                ensure!(e.get() == gerr, "order", "{name}: error {} came out, expected {gerr}", e.get());
            }
            Poll::Ready(None) => {
                ensure!(got == total && gerr == errs, "lost", "{name}: ended after {got} of {total} items and {gerr} of {errs} errors");
                ensure!(b.borrow().ended.iter().all(|e| *e) && b.borrow().base_done, "early-end", "{name}: ended before its inputs");
                break;
            }
        }
    }
    let_go(s);
    ensure!(b.borrow().open == 0, "leak", "{name}: inner streams kept");
}

// ------------------------------------------------------------ wake-ups from other threads
struct TIn {
    leaf: th::Leaf,
    i: usize,
    k: u32,
    n: u32,
    o: &'static Ora<TBook>,
    _t: Tracked,
}
#[derive(Default)]
struct TBook {
    n: Vec<u32>,
    out: Vec<u32>,
    open: usize,
    max_open: usize,
    ended: usize,
    busy: bool,
}
impl TIn {
    fn new(al: &th::Alarm, o: &'static Ora<TBook>) -> TIn {
        let n = choose(4) as u32;
        let i = o.with(|g| {
            g.n.push(n);
            g.out.push(0);
            g.n.len() - 1
        });
        TIn { leaf: th::Leaf::new(al, 2), i, k: 0, n, o, _t: Tracked::new(90_000) }
    }
}
impl Stream for TIn {
    type Item = Item;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Item>> {
        ensure!(self.k <= self.n, "polled-after-end", "an input stream was polled after it ended");
        if !self.leaf.poll(cx) {
            return Poll::Pending;
        }
        self.leaf.rearm(2);
        self.k += 1;
        if self.k > self.n {
            self.o.with(|g| {
                g.ended += 1;
                g.open = g.open.saturating_sub(1);
            });
            return Poll::Ready(None);
        }
        Poll::Ready(Some((self.i, self.k - 1, v(self.k))))
    }
}
struct TBase {
    leaf: th::Leaf,
    ins: Vec<TIn>,
    done: bool,
    o: &'static Ora<TBook>,
}
impl Stream for TBase {
    type Item = TIn;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<TIn>> {
        ensure!(!self.done, "polled-after-end", "the outer stream was polled after it ended");
        if !self.leaf.poll(cx) {
            return Poll::Pending;
        }
        self.leaf.rearm(2);
        let x = self.ins.pop();
        if x.is_some() {
            self.o.with(|g| {
                g.open += 1;
                g.max_open = g.max_open.max(g.open);
            });
        }
        self.done = x.is_none();
        Poll::Ready(x)
    }
}
pub fn threads() {
    let o: &'static Ora<TBook> = ora(TBook::default);
    let (al, aj) = th::Alarm::start();
    let (al2, aj2) = th::Alarm::start();
    let n = 1 + choose(4);
    let ins: Vec<TIn> = (0..n).map(|i| TIn::new(if i % 2 == 0 { &al } else { &al2 }, o)).collect();
    let kind = choose(4);
    let lim = choose(3);
    let (mut s, name): (BS, _) = match kind {
        0 | 1 => {
            let base = TBase { leaf: th::Leaf::new(&al2, 2), ins, done: false, o };
            (Box::pin(base.flatten_unordered(lim)), "flatten_unordered")
        }
        2 => (Box::pin(stream::select_all(ins)), "select_all"),
        _ => {
            let mut i = ins.into_iter();
            let a = i.next().unwrap();
            match i.next() {
                Some(b) => (Box::pin(stream::select(a, b)), "select"),
                None => (Box::pin(a), "one"),
            }
        }
    };
    let cancel = chance(15);
    let mut t = th::Task::new(th::faults());
    let mut fin = false;
    loop {
        let p = t.poll(|cx| s.as_mut().poll_next(cx));
        if kind < 2 && lim > 0 {
            let m = o.with(|g| g.max_open);
            ensure!(m <= lim, "limit", "{name}({lim}): {m} inner streams at once");
        }
        match p {
            Poll::Pending => {
                if cancel && chance(20) {
                    count(F_CANCEL);
                    break;
                }
                t.wait();
            }
            Poll::Ready(Some((i, k, _x))) => o.with(|g| {
                ensure!(g.out[i] == k, "order", "{name}: item {k} of input {i} came out, expected {}", g.out[i]);
                g.out[i] += 1;
            }),
            Poll::Ready(None) => {
                fin = true;
                break;
            }
        }
    }
    if fin {
        o.with(|g| {
            let upto = if kind == 3 { 2 } else { usize::MAX };
            for (i, n) in g.n.iter().enumerate().take(upto) {
                ensure!(g.out[i] == *n, "lost", "{name}: {} of {n} items of input {i} came out", g.out[i]);
            }
        });
    }
    let_go(s);
    al.stop();
    al2.stop();
    aj.join().unwrap();
    aj2.join().unwrap();
    drop((al, al2));
    check_leaks("merged streams with foreign wake-ups");
}
