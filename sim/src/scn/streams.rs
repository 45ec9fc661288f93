//! Stream adapters against lazily evaluated iterators.
use crate::ex::sg::*;
use crate::leaf::*;
use crate::rt::*;
use futures::stream::{self, FusedStream, Stream, StreamExt, TryStreamExt};
use std::cell::Cell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

type BS = Pin<Box<dyn FusedStream<Item = V>>>;
type BI = Box<dyn Iterator<Item = u32>>;
struct P {
    s: BS,
    i: BI,
    exact: bool, // nothing is computed ahead, so side effects agree after every item
    desc: String,
}
fn lg(l: &Log, id: u64, tag: u32) {
    l.borrow_mut().push(id << 32 | tag as u64);
}
fn rf(x: u32) -> u32 {
    (x * 5 + 3) % 16
}
fn subs(x: u32) -> Vec<u32> {
    (0..x % 3).map(|k| (x + k) % 16).collect()
}

/// Keeps track of the end of streams that cannot report it themselves.
pub struct Nf<S> {
    s: S,
    end: bool,
}
pub fn nf<S: Stream>(s: S) -> Nf<Pin<Box<S>>> {
    Nf { s: Box::pin(s), end: false }
}
impl<S: Stream + Unpin> Stream for Nf<S> {
    type Item = S::Item;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
        let r = self.s.poll_next_unpin(cx);
        if matches!(r, Poll::Ready(None)) {
            self.end = true;
        }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.s.size_hint()
    }
}
impl<S: Stream + Unpin> FusedStream for Nf<S> {
    fn is_terminated(&self) -> bool {
        self.end
    }
}
/// Are termination reports checked in this run?
static TERM: Ora<bool> = Ora::new(false);
struct Term(bool);
impl Term {
    fn before(&mut self, now: bool) {
        self.0 = now;
    }
    /// What a poll returned, and what the stream reports now.
    fn after(&self, desc: &str, r: Poll<bool>, now: bool) {
        if TERM.with(|t| *t) {
            ensure!(!(self.0 && r == Poll::Ready(true)), "terminated-early", "{desc}: yielded an item after reporting termination");
            ensure!(!(self.0 && !now), "unterminated", "{desc}: takes back its termination");
            ensure!(now || r != Poll::Ready(false), "not-terminated", "{desc}: ended but does not report termination");
        }
    }
}

struct PeekW {
    s: Pin<Box<stream::Peekable<BS>>>,
}
impl Stream for PeekW {
    type Item = V;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<V>> {
        match choose(6) {
            0 => match self.s.as_mut().poll_peek(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(x) => {
                    let x = x.map(|x| x.get());
                    match self.s.as_mut().poll_peek(cx) {
                        Poll::Ready(y) => ensure!(y.map(|y| y.get()) == x, "peek", "two peeks differ"),
                        Poll::Pending => fail("peek", "a peeked item is not there anymore"),
                    }
                    // a pause while there is something that was only peeked at
                    if x.is_some() && chance(30) {
                        cx.waker().wake_by_ref();
                        return Poll::Pending;
                    }
                }
            },
            1 => {
                let w = Box::pin(self.s.as_mut().peek());
                let mut w = w;
                match w.as_mut().poll(cx) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(x) => {
                        let x = x.map(|x| x.get());
                        return self.s.as_mut().poll_next(cx).map(|y| {
                            ensure!(y.as_ref().map(|y| y.get()) == x, "peek", "the next item is not the one that was peeked");
                            y
                        });
                    }
                }
            }
            2 => {
                let r = choose(2) == 0;
                let mut got = None;
                {
                    let mut w = Box::pin(self.s.as_mut().next_if(|x| {
                        got = Some(x.get());
                        r
                    }));
                    match w.as_mut().poll(cx) {
                        Poll::Pending => return Poll::Pending,
                        Poll::Ready(x) => match (r, x) {
                            (true, x) => {
                                drop(w);
                                ensure!(x.as_ref().map(|x| x.get()) == got, "peek", "next_if returned another item");
                                return Poll::Ready(x);
                            }
                            (false, None) => {}
                            (false, Some(_)) => fail("peek", "next_if took a refused item"),
                        },
                    }
                }
            }
            3 => match self.s.as_mut().poll_peek_mut(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(None) => {}
                Poll::Ready(Some(x)) => {
                    // what is put there is what comes next
                    let old = x.get();
                    *x = v(old + 100);
                    match self.s.as_mut().poll_next(cx) {
                        Poll::Ready(Some(y)) if y.get() == old + 100 => return Poll::Ready(Some(v(old))),
                        _ => fail("peek", "a changed item did not come next"),
                    }
                }
            },
            4 => {
                let e = v(choose(16) as u32);
                let mut w = Box::pin(self.s.as_mut().next_if_eq(&e));
                match w.as_mut().poll(cx) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(Some(x)) => {
                        ensure!(x.get() == e.get(), "peek", "next_if_eq returned an unequal item");
                        return Poll::Ready(Some(x));
                    }
                    Poll::Ready(None) => {}
                }
            }
            _ => {}
        }
        self.s.as_mut().poll_next(cx)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.s.size_hint()
    }
}

fn source(l: &Log, r: &Log) -> P {
    let t = tags(5);
    let n = t.len();
    let (a, b) = (l.clone(), r.clone());
    let (s, i, d): (BS, BI, &str) = match choose_w(8, 50) {
        1 => (Box::pin(nf(stream::iter(t.clone().into_iter().map(v)))), Box::new(t.into_iter()), "iter"),
        2 => {
            let x = choose(8) as u32;
            (Box::pin(stream::once(Fut::new(v(x)))), Box::new(std::iter::once(x)), "once")
        }
        3 => (Box::pin(stream::empty()), Box::new(std::iter::empty()), "empty"),
        4 => {
            let (mut k, mut q) = (0, 0);
            (
                Box::pin(
                    stream::repeat_with(move || {
                        k += 1;
                        lg(&a, 1, k);
                        v(k % 16)
                    })
                    .take(n),
                ),
                Box::new(
                    std::iter::repeat_with(move || {
                        q += 1;
                        lg(&b, 1, q);
                        q % 16
                    })
                    .take(n),
                ),
                "repeat_with+take",
            )
        }
        5 => {
            let m = n as u32;
            let mut q = 0;
            (
                Box::pin(stream::unfold(0u32, move |k| {
                    lg(&a, 2, k);
                    Fut::new(if k < m { Some((v(k % 16), k + 1)) } else { None })
                })),
                Box::new(std::iter::from_fn(move || {
                    lg(&b, 2, q);
                    q += 1;
                    if q <= m {
                        Some((q - 1) % 16)
                    } else {
                        None
                    }
                })),
                "unfold",
            )
        }
        6 => {
            let mut s = Src::new(t.clone().into_iter().map(v));
            (Box::pin(nf(stream::poll_fn(move |cx| Pin::new(&mut s).poll_next(cx)))), Box::new(t.into_iter()), "poll_fn")
        }
        7 => {
            let k = choose(7);
            let c = CySrc { t: t.clone(), i: 0, gate: Gate::new() };
            (Box::pin(c.cycle().take(k)), Box::new(t.into_iter().cycle().take(k)), "cycle+take")
        }
        _ => (Box::pin(Src::new(t.clone().into_iter().map(v))), Box::new(t.into_iter()), "src"),
    };
    P { s, i, exact: true, desc: d.into() }
}
/// A cloneable source for `cycle`.
struct CySrc {
    t: Vec<u32>,
    i: usize,
    gate: Gate,
}
impl Clone for CySrc {
    fn clone(&self) -> Self {
        CySrc { t: self.t.clone(), i: self.i, gate: Gate::new() }
    }
}
impl Stream for CySrc {
    type Item = V;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<V>> {
        ensure!(self.i <= self.t.len(), "polled-after-end", "an input stream was polled after it ended");
        if !self.gate.poll(cx) {
            return Poll::Pending;
        }
        self.gate.rearm();
        let i = self.i;
        self.i += 1;
        Poll::Ready(self.t.get(i).map(|x| v(*x)))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.t.len() - self.i.min(self.t.len());
        (n, Some(n))
    }
}
fn adapt(p: P, l: &Log, r: &Log, depth: u64) -> P {
    let P { s, i, exact, mut desc } = p;
    let (a, b) = (l.clone(), r.clone());
    let id = 10 + depth;
    let k = choose(22);
    let q = choose(4) as u32;
    let n = choose(5);
    let mut ex = exact;
    desc.push_str(
        [
            ".map", ".filter", ".filter_map", ".then", ".take", ".skip", ".take_while", ".skip_while", ".scan", ".chain", ".zip", ".chunks", ".enumerate", ".inspect", ".peekable", ".fuse", ".flatten",
            ".flat_map", ".buffered", ".left_stream", ".ready_chunks", ".boxed",
        ][k],
    );
    let (s, i): (BS, BI) = match k {
        0 => (
            Box::pin(s.map(move |x| {
                lg(&a, id, x.get());
                v(rf(x.get()))
            })),
            Box::new(i.map(move |x| {
                lg(&b, id, x);
                rf(x)
            })),
        ),
        1 => (
            Box::pin(s.filter(move |x| {
                lg(&a, id, x.get());
                Fut::new(x.get() % 4 != q)
            })),
            Box::new(i.filter(move |x| {
                lg(&b, id, *x);
                *x % 4 != q
            })),
        ),
        2 => (
            Box::pin(s.filter_map(move |x| {
                lg(&a, id, x.get());
                Fut::new(if x.get() % 4 != q { Some(v(rf(x.get()))) } else { None })
            })),
            Box::new(i.filter_map(move |x| {
                lg(&b, id, x);
                if x % 4 != q {
                    Some(rf(x))
                } else {
                    None
                }
            })),
        ),
        3 => (
            Box::pin(s.then(move |x| {
                lg(&a, id, x.get());
                Fut::new(v(rf(x.get())))
            })),
            Box::new(i.map(move |x| {
                lg(&b, id, x);
                rf(x)
            })),
        ),
        4 => (Box::pin(s.take(n)), Box::new(i.take(n))),
        5 => {
            let mut i = i;
            let mut todo = n;
            (
                Box::pin(s.skip(n)),
                // not Iterator::skip, which asks for more after the end
                Box::new(std::iter::from_fn(move || {
                    while todo > 0 {
                        i.next()?;
                        todo -= 1;
                    }
                    i.next()
                })),
            )
        }
        6 => (
            Box::pin(s.take_while(move |x| {
                lg(&a, id, x.get());
                Fut::new(x.get() % 4 != q)
            })),
            Box::new(i.take_while(move |x| {
                lg(&b, id, *x);
                *x % 4 != q
            })),
        ),
        7 => (
            Box::pin(s.skip_while(move |x| {
                lg(&a, id, x.get());
                Fut::new(x.get() % 4 != q)
            })),
            Box::new(i.skip_while(move |x| {
                lg(&b, id, *x);
                *x % 4 != q
            })),
        ),
        8 => {
            let lim = 10 + q * 8;
            (
                Box::pin(s.scan(1u32, move |st, x: V| {
                    lg(&a, id, x.get());
                    let st = st + x.get();
                    Fut::new(if st > lim { None } else { Some((st, v(st % 16))) })
                })),
                Box::new(i.scan(1u32, move |st, x| {
                    lg(&b, id, x);
                    *st += x;
                    if *st > lim {
                        None
                    } else {
                        Some(*st % 16)
                    }
                })),
            )
        }
        9 => {
            let o = source(l, r);
            ex = ex && o.exact;
            desc.push_str(&format!("({})", o.desc));
            (Box::pin(s.chain(o.s)), Box::new(i.chain(o.i)))
        }
        10 => {
            let o = source(l, r);
            ex = false;
            desc.push_str(&format!("({})", o.desc));
            (
                Box::pin(s.zip(o.s).map(|(x, y)| v((x.get() * 3 + y.get()) % 16))),
                Box::new(i.zip(o.i).map(|(x, y)| (x * 3 + y) % 16)),
            )
        }
        11 => {
            let n = n + 1;
            let mut i = i;
            let mut end = false;
            (
                Box::pin(s.chunks(n).map(move |c| {
                    ensure!(!c.is_empty() && c.len() <= n, "chunk-size", "chunk of {} items, limit {n}", c.len());
                    v(c.iter().fold(c.len() as u32, |h, x| (h * 3 + x.get()) % 16))
                })),
                Box::new(std::iter::from_fn(move || {
                    if end {
                        return None;
                    }
                    let mut c = vec![];
                    while c.len() < n {
                        match i.next() {
                            Some(x) => c.push(x),
                            None => {
                                end = true;
                                break;
                            }
                        }
                    }
                    if c.is_empty() {
                        None
                    } else {
                        Some(c.iter().fold(c.len() as u32, |h, x| (h * 3 + x) % 16))
                    }
                })),
            )
        }
        12 => (
            Box::pin(s.enumerate().map(|(k, x)| v((x.get() + k as u32) % 16))),
            Box::new(i.enumerate().map(|(k, x)| (x + k as u32) % 16)),
        ),
        13 => (
            Box::pin(s.inspect(move |x| lg(&a, id, x.get()))),
            Box::new(i.inspect(move |x| lg(&b, id, *x))),
        ),
        14 => (Box::pin(PeekW { s: Box::pin(s.peekable()) }), i),
        15 => (Box::pin(Again { s: s.fuse(), end: false }), i),
        16 => (
            Box::pin(
                s.map(move |x| {
                    lg(&a, id, x.get());
                    Src::new(subs(x.get()).into_iter().map(v))
                })
                .flatten(),
            ),
            Box::new(i.flat_map(move |x| {
                lg(&b, id, x);
                subs(x)
            })),
        ),
        17 => (
            Box::pin(s.flat_map(move |x| {
                lg(&a, id, x.get());
                stream::iter(subs(x.get()).into_iter().map(v))
            })),
            Box::new(i.flat_map(move |x| {
                lg(&b, id, x);
                subs(x)
            })),
        ),
        18 => {
            ex = false;
            (Box::pin(s.map(Fut::new).buffered(n + 1)), i)
        }
        19 => {
            if chance(50) {
                (Box::pin(s.left_stream::<stream::Empty<V>>()), i)
            } else {
                (Box::pin(s.right_stream::<stream::Empty<V>>()), i)
            }
        }
        20 => {
            let n = n + 1;
            ex = false;
            (
                Box::pin(s.ready_chunks(n).flat_map(move |c| {
                    ensure!(!c.is_empty() && c.len() <= n, "chunk-size", "ready chunk of {} items, limit {n}", c.len());
                    stream::iter(c)
                })),
                i,
            )
        }
        _ => (Box::pin(nf(s.boxed_local())), i),
    };
    P { s, i, exact: ex, desc }
}
impl FusedStream for PeekW {
    fn is_terminated(&self) -> bool {
        self.s.is_terminated()
    }
}
impl<S: Stream<Item = V> + Unpin> FusedStream for Again<S> {
    fn is_terminated(&self) -> bool {
        self.s.is_terminated()
    }
}
/// Keeps polling a fused stream after its end.
struct Again<S> {
    s: stream::Fuse<S>,
    end: bool,
}
impl<S: Stream<Item = V> + Unpin> Stream for Again<S> {
    type Item = V;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<V>> {
        let r = self.s.poll_next_unpin(cx);
        if let Poll::Ready(None) = r {
            self.end = true;
            for _ in 0..choose(3) {
                ensure!(self.s.is_terminated(), "fuse", "a fused stream that ended does not report it");
                ensure!(matches!(self.s.poll_next_unpin(cx), Poll::Ready(None)), "fuse", "a fused stream continued after its end");
                ensure!(self.s.size_hint() == (0, Some(0)), "size-hint", "a fused stream that ended expects items");
            }
        } else {
            ensure!(!self.s.is_terminated(), "fuse", "a fused stream reports termination too early");
        }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.s.size_hint()
    }
}
fn pipeline(l: &Log, r: &Log, max: usize) -> P {
    let mut p = source(l, r);
    for d in 0..choose(max + 1) {
        p = adapt(p, l, r, d as u64);
    }
    p
}
/// `got` items were yielded when each hint was taken; `total` at the end.
pub fn check_hints(h: &[(usize, (usize, Option<usize>))], total: usize, what: &str) {
    for (got, (lo, hi)) in h {
        let rest = total - got;
        ensure!(*lo <= rest && hi.map_or(true, |h| h >= rest), "size-hint", "{what}: size hint ({lo}, {hi:?}) with {rest} items to come");
    }
}
pub fn adapters() {
    adapters_in(false)
}
pub fn fused_adapters() {
    adapters_in(true)
}
fn adapters_in(term: bool) {
    begin();
    TERM.with(|t| *t = term);
    let (l, r) = (log(), log());
    let P { mut s, mut i, exact, desc } = pipeline(&l, &r, 4);
    let cancel = chance(15);
    let mut t = Task::new();
    let mut hints = vec![];
    let mut term = Term(false);
    let mut got = 0;
    loop {
        hints.push((got, s.size_hint()));
        term.before(s.is_terminated());
        let p = t.poll(|cx| s.as_mut().poll_next(cx));
        term.after(&desc, pmap(&p), s.is_terminated());
        match p {
            Poll::Pending => {
                if cancel && chance(25) {
                    count(F_CANCEL);
                    break;
                }
                t.wait();
            }
            Poll::Ready(x) => {
                let x = x.map(|x| x.get());
                let y = i.next();
                ensure!(x == y, "wrong-item", "{desc}: item {got} is {x:?}, expected {y:?}");
                if exact || x.is_none() && !desc.contains(".zip") && !desc.contains(".take") && !desc.contains(".scan") {
                    let (l, r) = (l.borrow(), r.borrow());
                    if exact {
                        ensure!(*l == *r, "side-effects", "{desc}: after item {got} the closures were called as {:x?}, expected {:x?}", *l, *r);
                    } else {
                        let (mut l, mut r) = (l.clone(), r.clone());
                        l.sort();
                        r.sort();
                        ensure!(l == r, "side-effects", "{desc}: in the end the closures were called as {l:x?}, expected {r:x?}");
                    }
                }
                if x.is_none() {
                    check_hints(&hints, got, &desc);
                    ensure!(!s.is_terminated() || s.size_hint().0 == 0, "size-hint", "{desc}: announces items after its end");
                    break;
                }
                got += 1;
            }
        }
    }
    drop(s);
    drop(i);
    check_leaks("stream adapters");
}

// ------------------------------------------------------------ consumers
pub fn consumers() {
    begin();
    consumers_in();
    check_leaks("stream consumers");
}
fn consumers_in() {
    let (l, r) = (log(), log());
    let P { mut s, i, exact, mut desc } = pipeline(&l, &r, 2);
    let mut i = i;
    let cancel = if chance(12) { 1 + choose(4) as u32 } else { u32::MAX };
    let mut t = Task::new();
    let (a, b) = (l.clone(), r.clone());
    let q = choose(4) as u32;
    // Runs a future to completion or cancels it.
    macro_rules! go {
        ($name:expr, $f:expr, $want:expr, |$x:ident| $conv:expr) => {{
            desc.push_str($name);
            let got = {
                let mut f = Box::pin($f);
                let g = t.poll_n(cancel, |cx| f.as_mut().poll(cx));
                g.map(|$x| $conv)
            };
            match got {
                None => count(F_CANCEL),
                Some(g) => {
                    let w = $want;
                    ensure!(g == w, "wrong-result", "{desc}: got {g:?}, expected {w:?}");
                    if exact {
                        let (l, r) = (l.borrow(), r.borrow());
                        ensure!(*l == *r, "side-effects", "{desc}: closures were called as {:x?}, expected {:x?}", *l, *r);
                    }
                }
            }
        }};
    }
    let nums = |x: Vec<V>| x.iter().map(|x| x.get()).collect::<Vec<u32>>();
    match choose(15) {
        0 => go!(".collect", s.collect::<Vec<V>>(), i.collect::<Vec<u32>>(), |x| nums(x)),
        1 => go!(".count", s.count(), i.count(), |x| x),
        2 => go!(
            ".fold",
            s.fold(1u32, move |h, x| {
                lg(&a, 90, x.get());
                Fut::new((h * 7 + x.get()) % 1009)
            }),
            i.fold(1u32, |h, x| {
                lg(&b, 90, x);
                (h * 7 + x) % 1009
            }),
            |x| x
        ),
        3 => go!(
            ".for_each",
            s.for_each(move |x| {
                lg(&a, 91, x.get());
                Fut::new(())
            }),
            i.for_each(|x| lg(&b, 91, x)),
            |x| x
        ),
        4 => go!(
            ".all",
            s.all(move |x| {
                lg(&a, 92, x.get());
                Fut::new(x.get() % 4 != q)
            }),
            i.all(|x| {
                lg(&b, 92, x);
                x % 4 != q
            }),
            |x| x
        ),
        5 => go!(
            ".any",
            s.any(move |x| {
                lg(&a, 93, x.get());
                Fut::new(x.get() % 4 == q)
            }),
            i.any(|x| {
                lg(&b, 93, x);
                x % 4 == q
            }),
            |x| x
        ),
        6 => go!(".concat", s.map(|x| vec![x]).concat(), i.collect::<Vec<u32>>(), |x| nums(x)),
        7 => go!(
            ".unzip",
            s.map(|x| {
                let y = v(x.get() + 1);
                (x, y)
            })
            .unzip::<_, _, Vec<V>, Vec<V>>(),
            i.map(|x| (x, x + 1)).unzip::<_, _, Vec<u32>, Vec<u32>>(),
            |x| (nums(x.0), nums(x.1))
        ),
        8 => {
            // one item after the other, through several one-shot futures
            desc.push_str(".into_future");
            let mut cur = Some(s);
            let mut k = 0;
            while let Some(s) = cur.take() {
                let mut f = Box::pin(s.into_future());
                let Some((x, rest)) = t.poll_n(cancel, |cx| f.as_mut().poll(cx)) else {
                    count(F_CANCEL);
                    break;
                };
                let (x, y) = (x.map(|x| x.get()), i.next());
                ensure!(x == y, "wrong-item", "{desc}: item {k} is {x:?}, expected {y:?}");
                k += 1;
                if x.is_some() {
                    cur = Some(rest);
                }
            }
        }
        9 => {
            // cancelling `next` loses nothing
            desc.push_str(".next");
            let mut k = 0;
            loop {
                let n = if chance(30) { 1 } else { u32::MAX };
                let r = {
                    let mut f = s.next();
                    t.poll_n(n, |cx| Pin::new(&mut f).poll(cx))
                };
                match r {
                    None => {
                        count(F_CANCEL);
                        t.wait();
                    }
                    Some(x) => {
                        let (x, y) = (x.map(|x| x.get()), i.next());
                        ensure!(x == y, "wrong-item", "{desc}: item {k} is {x:?}, expected {y:?}");
                        k += 1;
                        if x.is_none() {
                            break;
                        }
                    }
                }
            }
        }
        10 => {
            desc.push_str(".select_next_some");
            let mut f = s.fuse();
            let n = choose(4);
            let want: Vec<u32> = i.collect();
            for k in 0..n.min(want.len()) {
                let x = t.block_on_with(|cx| Pin::new(&mut f.select_next_some()).poll(cx)).get();
                ensure!(x == want[k], "wrong-item", "{desc}: item {k} is {x}, expected {}", want[k]);
            }
        }
        11 => go!(
            ".try_fold",
            s.try_fold(1u32, move |h, x| {
                lg(&a, 94, x.get());
                Fut::new(if x.get() % 4 == q { Err(x.get()) } else { Ok((h * 7 + x.get()) % 1009) })
            }),
            {
                let mut h = Ok(1u32);
                for x in i {
                    lg(&b, 94, x);
                    if x % 4 == q {
                        h = Err(x);
                        break;
                    }
                    h = h.map(|h| (h * 7 + x) % 1009);
                }
                h
            },
            |x| x
        ),
        12 => go!(
            ".try_for_each",
            s.try_for_each(move |x| {
                lg(&a, 95, x.get());
                Fut::new(if x.get() % 4 == q { Err(x.get()) } else { Ok(()) })
            }),
            {
                let mut h = Ok(());
                for x in i {
                    lg(&b, 95, x);
                    if x % 4 == q {
                        h = Err(x);
                        break;
                    }
                }
                h
            },
            |x| x
        ),
        13 => go!(".collect-deque", s.collect::<VecDeque<V>>(), i.collect::<Vec<u32>>(), |x| x.iter().map(|x| x.get()).collect::<Vec<u32>>()),
        _ => go!(".by_ref", async move { s.by_ref().take(2).collect::<Vec<V>>().await }, i.by_ref().take(2).collect::<Vec<u32>>(), |x| nums(x)),
    }
}

// ------------------------------------------------------------ fallible streams
type R = Result<V, V>;
type RN = Result<u32, u32>;
type BT = Pin<Box<dyn FusedStream<Item = R>>>;
type BR = Box<dyn Iterator<Item = RN>>;
fn rn(x: &R) -> RN {
    match x {
        Ok(x) => Ok(x.get()),
        Err(x) => Err(x.get()),
    }
}
fn rv(x: RN) -> R {
    match x {
        Ok(x) => Ok(v(x)),
        Err(x) => Err(v(x)),
    }
}
fn rtags(max: usize) -> Vec<RN> {
    (0..choose(max + 1)).map(|_| if choose_w(4, 75) == 0 { Ok(choose(8) as u32) } else { Err(choose(8) as u32) }).collect()
}
struct PT {
    s: BT,
    i: BR,
    exact: bool,
    desc: String,
}
fn tsource(l: &Log, r: &Log) -> PT {
    let t = rtags(5);
    let (a, b) = (l.clone(), r.clone());
    let (s, i, d): (BT, BR, &str) = match choose_w(3, 60) {
        1 => {
            let m = t.len() as u32;
            let fail_at = choose(6) as u32;
            let mut q = 0;
            (
                Box::pin(nf(stream::try_unfold(0u32, move |k| {
                    lg(&a, 3, k);
                    Fut::new(if k == fail_at {
                        Err(v(k))
                    } else if k < m {
                        Ok(Some((v(k % 16), k + 1)))
                    } else {
                        Ok(None)
                    })
                }))),
                Box::new(
                    std::iter::from_fn(move || {
                        if q == u32::MAX {
                            return None;
                        }
                        lg(&b, 3, q);
                        let k = q;
                        q += 1;
                        if k == fail_at {
                            q = u32::MAX;
                            Some(Err(k))
                        } else if k < m {
                            Some(Ok(k % 16))
                        } else {
                            None
                        }
                    })
                    .fuse(),
                ),
                "try_unfold",
            )
        }
        2 => (Box::pin(nf(stream::iter(t.clone().into_iter().map(rv)))), Box::new(t.into_iter()), "iter"),
        _ => (Box::pin(Src::new(t.clone().into_iter().map(rv))), Box::new(t.into_iter()), "src"),
    };
    PT { s, i, exact: true, desc: d.into() }
}
fn tadapt(p: PT, l: &Log, r: &Log, depth: u64) -> PT {
    let PT { s, mut i, exact, mut desc } = p;
    let (a, b) = (l.clone(), r.clone());
    let id = 30 + depth;
    let q = choose(4) as u32;
    let e = choose(4) as u32;
    let n = 1 + choose(4);
    let mut ex = exact;
    // verdict of an asynchronous fallible closure: error, or the given value
    let bad = move |x: u32| x % 4 == e && x > 3;
    let k = choose(17);
    desc.push_str(
        [
            ".map_ok", ".map_err", ".and_then", ".or_else", ".try_filter", ".try_filter_map", ".try_skip_while", ".try_take_while", ".try_flatten", ".try_chunks", ".inspect_ok", ".inspect_err", ".into_stream",
            ".try_ready_chunks", ".map_err", ".err_into", ".map(swap)",
        ][k],
    );
    let (s, i): (BT, BR) = match k {
        0 => (
            Box::pin(s.map_ok(move |x| {
                lg(&a, id, x.get());
                v(rf(x.get()))
            })),
            Box::new(i.map(move |x| {
                x.map(|x| {
                    lg(&b, id, x);
                    rf(x)
                })
            })),
        ),
        1 => (
            Box::pin(s.map_err(move |x| {
                lg(&a, id, x.get());
                v(rf(x.get()))
            })),
            Box::new(i.map(move |x| {
                x.map_err(|x| {
                    lg(&b, id, x);
                    rf(x)
                })
            })),
        ),
        2 => (
            Box::pin(s.and_then(move |x| {
                lg(&a, id, x.get());
                let x = x.get();
                Fut::new(if bad(x) { Err(v(x)) } else { Ok(v(rf(x))) })
            })),
            Box::new(i.map(move |x| {
                x.and_then(|x| {
                    lg(&b, id, x);
                    if bad(x) {
                        Err(x)
                    } else {
                        Ok(rf(x))
                    }
                })
            })),
        ),
        3 => (
            Box::pin(s.or_else(move |x| {
                lg(&a, id, x.get());
                let x = x.get();
                Fut::new(if bad(x) { Err(v(x)) } else { Ok(v(rf(x))) })
            })),
            Box::new(i.map(move |x| {
                x.or_else(|x| {
                    lg(&b, id, x);
                    if bad(x) {
                        Err(x)
                    } else {
                        Ok(rf(x))
                    }
                })
            })),
        ),
        4 => (
            Box::pin(s.try_filter(move |x| {
                lg(&a, id, x.get());
                Fut::new(x.get() % 4 != q)
            })),
            Box::new(i.filter(move |x| match x {
                Ok(x) => {
                    lg(&b, id, *x);
                    x % 4 != q
                }
                Err(_) => true,
            })),
        ),
        5 => (
            Box::pin(s.try_filter_map(move |x| {
                lg(&a, id, x.get());
                let x = x.get();
                Fut::new(if bad(x) {
                    Err(v(x))
                } else if x % 4 != q {
                    Ok(Some(v(rf(x))))
                } else {
                    Ok(None)
                })
            })),
            Box::new(i.filter_map(move |x| match x {
                Ok(x) => {
                    lg(&b, id, x);
                    if bad(x) {
                        Some(Err(x))
                    } else if x % 4 != q {
                        Some(Ok(rf(x)))
                    } else {
                        None
                    }
                }
                Err(x) => Some(Err(x)),
            })),
        ),
        6 => {
            let mut done = false;
            (
                Box::pin(s.try_skip_while(move |x| {
                    lg(&a, id, x.get());
                    let x = x.get();
                    Fut::new(if bad(x) { Err(v(x)) } else { Ok(x % 4 != q) })
                })),
                Box::new(i.filter_map(move |x| match x {
                    Ok(x) if !done => {
                        lg(&b, id, x);
                        if bad(x) {
                            Some(Err(x))
                        } else if x % 4 != q {
                            None
                        } else {
                            done = true;
                            Some(Ok(x))
                        }
                    }
                    x => Some(x),
                })),
            )
        }
        7 => (
            Box::pin(s.try_take_while(move |x| {
                lg(&a, id, x.get());
                let x = x.get();
                Fut::new(if bad(x) { Err(v(x)) } else { Ok(x % 4 != q) })
            })),
            Box::new(
                i.map_while(move |x| match x {
                    Ok(x) => {
                        lg(&b, id, x);
                        if bad(x) {
                            Some(Err(x))
                        } else if x % 4 != q {
                            Some(Ok(x))
                        } else {
                            None
                        }
                    }
                    Err(x) => Some(Err(x)),
                })
                .fuse(),
            ),
        ),
        8 => (
            Box::pin(
                s.map_ok(move |x| {
                    lg(&a, id, x.get());
                    let x = x.get();
                    Src::new(subs(x).into_iter().map(move |y| rv(if bad(y) { Err(y) } else { Ok(y) })))
                })
                .try_flatten(),
            ),
            Box::new(i.flat_map(move |x| match x {
                Ok(x) => {
                    lg(&b, id, x);
                    subs(x).into_iter().map(|y| if bad(y) { Err(y) } else { Ok(y) }).collect::<Vec<RN>>()
                }
                Err(x) => vec![Err(x)],
            })),
        ),
        9 => {
            let mut end = false;
            let fin = |c: &[u32]| c.iter().fold(c.len() as u32, |h, x| (h * 3 + x) % 16);
            (
                Box::pin(s.try_chunks(n).map(move |c| match c {
                    Ok(c) => {
                        ensure!(!c.is_empty() && c.len() <= n, "chunk-size", "chunk of {} items, limit {n}", c.len());
                        Ok(v(fin(&c.iter().map(|x| x.get()).collect::<Vec<_>>())))
                    }
                    Err(stream::TryChunksError(c, e)) => Err(v((e.get() + fin(&c.iter().map(|x| x.get()).collect::<Vec<_>>())) % 16)),
                })),
                Box::new(std::iter::from_fn(move || {
                    if end {
                        return None;
                    }
                    let mut c = vec![];
                    while c.len() < n {
                        match i.next() {
                            Some(Ok(x)) => c.push(x),
                            Some(Err(e)) => return Some(Err((e + fin(&c)) % 16)),
                            None => {
                                end = true;
                                break;
                            }
                        }
                    }
                    if c.is_empty() {
                        None
                    } else {
                        Some(Ok(fin(&c)))
                    }
                })),
            )
        }
        10 => (
            Box::pin(s.inspect_ok(move |x| lg(&a, id, x.get()))),
            Box::new(i.inspect(move |x| {
                if let Ok(x) = x {
                    lg(&b, id, *x)
                }
            })),
        ),
        11 => (
            Box::pin(s.inspect_err(move |x| lg(&a, id, x.get()))),
            Box::new(i.inspect(move |x| {
                if let Err(x) = x {
                    lg(&b, id, *x)
                }
            })),
        ),
        12 => (Box::pin(s.into_stream()), i),
        13 => {
            ex = false;
            (
                Box::pin(s.try_ready_chunks(n).flat_map(move |c| {
                    let (c, e) = match c {
                        Ok(c) => {
                            ensure!(!c.is_empty() && c.len() <= n, "chunk-size", "ready chunk of {} items, limit {n}", c.len());
                            (c, None)
                        }
                        Err(stream::TryReadyChunksError(c, e)) => {
                            ensure!(c.len() < n, "chunk-size", "ready chunk of {} items, limit {n}", c.len());
                            (c, Some(e))
                        }
                    };
                    stream::iter(c.into_iter().map(Ok).chain(e.map(Err)))
                })),
                i,
            )
        }
        14 => (Box::pin(s.map_err(|e| e).map_ok(|x| x)), i),
        15 => (Box::pin(s.err_into::<V>()), i),
        _ => (
            Box::pin(s.map(|x| match x {
                Ok(x) if x.get() == 3 => Err(x),
                Err(x) if x.get() == 5 => Ok(x),
                x => x,
            })),
            Box::new(i.map(|x| match x {
                Ok(3) => Err(3),
                Err(5) => Ok(5),
                x => x,
            })),
        ),
    };
    PT { s, i, exact: ex, desc }
}
fn tpipeline(l: &Log, r: &Log, max: usize) -> PT {
    let mut p = tsource(l, r);
    for d in 0..choose(max + 1) {
        p = tadapt(p, l, r, d as u64);
    }
    p
}
pub fn try_adapters() {
    try_adapters_in(false)
}
pub fn fused_try_adapters() {
    try_adapters_in(true)
}
fn try_adapters_in(term: bool) {
    begin();
    TERM.with(|t| *t = term);
    let (l, r) = (log(), log());
    let PT { mut s, mut i, exact, desc } = tpipeline(&l, &r, 4);
    let cancel = chance(15);
    let mut t = Task::new();
    let mut hints = vec![];
    let mut term = Term(false);
    let mut got = vec![];
    loop {
        hints.push((got.len(), s.size_hint()));
        term.before(s.is_terminated());
        let p = t.poll(|cx| s.as_mut().poll_next(cx));
        term.after(&desc, pmap(&p), s.is_terminated());
        match p {
            Poll::Pending => {
                if cancel && chance(25) {
                    count(F_CANCEL);
                    break;
                }
                t.wait();
            }
            Poll::Ready(x) => {
                let x = x.map(|x| rn(&x));
                let y = i.next();
                ensure!(x == y, "wrong-item", "{desc}: item {} is {x:?}, expected {y:?}", got.len());
                if exact {
                    let (l, r) = (l.borrow(), r.borrow());
                    ensure!(*l == *r, "side-effects", "{desc}: after item {} the closures were called as {:x?}, expected {:x?}", got.len(), *l, *r);
                }
                match x {
                    None => {
                        check_hints(&hints, got.len(), &desc);
                        ensure!(!s.is_terminated() || s.size_hint().0 == 0, "size-hint", "{desc}: announces items after its end");
                        break;
                    }
                    Some(x) => got.push(x),
                }
            }
        }
    }
    drop(s);
    drop(i);
    check_leaks("fallible stream adapters");
}
pub fn try_consumers() {
    begin();
    try_consumers_in();
    check_leaks("fallible stream consumers");
}
fn try_consumers_in() {
    let (l, r) = (log(), log());
    let PT { mut s, mut i, exact, mut desc } = tpipeline(&l, &r, 2);
    let cancel = if chance(12) { 1 + choose(4) as u32 } else { u32::MAX };
    let mut t = Task::new();
    let (a, b) = (l.clone(), r.clone());
    let q = choose(4) as u32;
    let bad = move |x: u32| x % 4 == q;
    let nums = |x: Vec<V>| x.iter().map(|x| x.get()).collect::<Vec<u32>>();
    macro_rules! go {
        ($name:expr, $f:expr, $want:expr, |$x:ident| $conv:expr) => {{
            desc.push_str($name);
            let got = {
                let mut f = Box::pin($f);
                let g = t.poll_n(cancel, |cx| f.as_mut().poll(cx));
                g.map(|x| x.map(|$x| $conv).map_err(|e| e.get()))
            };
            match got {
                None => count(F_CANCEL),
                Some(g) => {
                    let w = $want;
                    ensure!(g == w, "wrong-result", "{desc}: got {g:?}, expected {w:?}");
                    if exact {
                        let (l, r) = (l.borrow(), r.borrow());
                        ensure!(*l == *r, "side-effects", "{desc}: closures were called as {:x?}, expected {:x?}", *l, *r);
                    }
                }
            }
        }};
    }
    match choose(8) {
        0 => go!(".try_collect", s.try_collect::<Vec<V>>(), i.collect::<Result<Vec<u32>, u32>>(), |x| nums(x)),
        1 => go!(".try_concat", s.map_ok(|x| vec![x]).try_concat(), i.collect::<Result<Vec<u32>, u32>>(), |x| nums(x)),
        2 => go!(
            ".try_fold",
            TryStreamExt::map_ok(s, |x| x).map(|x| x).try_fold_ok(1u32, move |h, x| {
                lg(&a, 94, x);
                if bad(x) { Err(x) } else { Ok((h * 7 + x) % 1009) }
            }),
            (|| {
                let mut h = 1u32;
                for x in i {
                    let x = x?;
                    lg(&b, 94, x);
                    if bad(x) {
                        return Err(x);
                    }
                    h = (h * 7 + x) % 1009;
                }
                Ok(h)
            })(),
            |x| x
        ),
        3 => go!(
            ".try_all",
            s.try_all(move |x| {
                lg(&a, 96, x.get());
                Fut::new(!bad(x.get()))
            }),
            (|| {
                for x in i {
                    let x = x?;
                    lg(&b, 96, x);
                    if bad(x) {
                        return Ok(false);
                    }
                }
                Ok(true)
            })(),
            |x| x
        ),
        4 => go!(
            ".try_any",
            s.try_any(move |x| {
                lg(&a, 97, x.get());
                Fut::new(bad(x.get()))
            }),
            (|| {
                for x in i {
                    let x = x?;
                    lg(&b, 97, x);
                    if bad(x) {
                        return Ok(true);
                    }
                }
                Ok(false)
            })(),
            |x| x
        ),
        _ => {
            desc.push_str(".try_next");
            let mut k = 0;
            loop {
                let n = if chance(30) { 1 } else { u32::MAX };
                let r = {
                    let mut f = s.try_next();
                    t.poll_n(n, |cx| Pin::new(&mut f).poll(cx))
                };
                match r {
                    None => {
                        count(F_CANCEL);
                        t.wait();
                    }
                    Some(x) => {
                        let x: Option<RN> = match x {
                            Ok(x) => x.map(|x| Ok(x.get())),
                            Err(x) => Some(Err(x.get())),
                        };
                        let y = i.next();
                        ensure!(x == y, "wrong-item", "{desc}: item {k} is {x:?}, expected {y:?}");
                        k += 1;
                        if x.is_none() {
                            break;
                        }
                    }
                }
            }
            drop(s);
        }
    }
}
/// `try_fold`/`try_for_each` are defined on any stream; use them on fallible ones through a closure
/// that takes the `Result`.
trait TryFoldOk: Stream<Item = R> + Sized {
    fn try_fold_ok(self, init: u32, mut f: impl FnMut(u32, u32) -> RN) -> impl Future<Output = Result<u32, V>> {
        self.try_fold(init, move |h, x: R| {
            Fut::new(match x {
                Ok(x) => f(h, x.get()).map_err(v),
                Err(e) => Err(e),
            })
        })
    }
}
impl<S: Stream<Item = R> + Sized> TryFoldOk for S {}

// ------------------------------------------------------------ take_until
pub fn take_until() {
    begin();
    let t0 = tags(6);
    let fired = Rc::new(Cell::new(false));
    let f2 = fired.clone();
    let never = chance(20);
    let fut = {
        let f = Fut::new(v(70)).never(never);
        futures::future::FutureExt::map(f, move |x| {
            f2.set(true);
            x
        })
    };
    let mut s = Box::pin(Src::new(t0.iter().map(|x| v(*x))).take_until(fut));
    let mut t = Task::new();
    let mut got = vec![];
    let mut taken = false;
    let cancel = chance(10);
    let mut hints = vec![];
    loop {
        hints.push((got.len(), s.size_hint()));
        if !taken && chance(6) {
            // without its future the stream runs to its own end
            if let Some(f) = s.take_future() {
                ensure!(!fired.get(), "take-until", "a completed future was handed out");
                drop(f);
                taken = true;
            }
        }
        ensure!(s.is_stopped() == s.is_terminated(), "take-until", "is_stopped and is_terminated differ");
        ensure!(!s.is_stopped(), "take-until", "stopped without having ended");
        match t.poll(|cx| s.as_mut().poll_next(cx)) {
            Poll::Pending => {
                ensure!(!fired.get(), "take-until", "pending although the future has completed");
                if cancel && chance(25) {
                    count(F_CANCEL);
                    break;
                }
                t.wait();
            }
            Poll::Ready(Some(x)) => {
                ensure!(!fired.get(), "take-until", "an item after the future completed");
                got.push(x.get());
                ensure!(got[..] == t0[..got.len().min(t0.len())], "wrong-item", "items {got:?} of {t0:?}");
            }
            Poll::Ready(None) => {
                ensure!(fired.get() || got == t0, "take-until", "ended with {got:?} of {t0:?} although the future is pending");
                if !taken {
                    ensure!(s.is_stopped() && s.is_terminated(), "take-until", "ended without being stopped");
                    ensure!(s.size_hint() == (0, Some(0)), "size-hint", "stopped stream expects items");
                }
                if fired.get() {
                    let r = s.take_result().map(|x| x.get());
                    ensure!(r == Some(70), "take-until", "the future's output was {r:?}");
                }
                ensure!(s.take_result().is_none(), "take-until", "the future's output was handed out twice");
                if !fired.get() {
                    check_hints(&hints, got.len(), "take_until");
                }
                break;
            }
        }
    }
    drop(s);
    check_leaks("take_until");
}
fn pmap<T>(p: &Poll<Option<T>>) -> Poll<bool> {
    match p {
        Poll::Pending => Poll::Pending,
        Poll::Ready(x) => Poll::Ready(x.is_some()),
    }
}
