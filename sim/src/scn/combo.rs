//! Joining and selecting futures.
use super::merge::stir;
use crate::ex::sg::*;
use crate::leaf::*;
use crate::rt::*;
use futures::future::{self, Either, FusedFuture, FutureExt, TryFutureExt};
use futures::stream::{FusedStream, StreamExt};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

type Out = Result<V, V>;
/// Polls of the current call, and completions so far.
#[derive(Default)]
struct Book {
    polled: Vec<(usize, bool)>,
    done: Vec<usize>,
    fails: Vec<usize>,
    made: usize,
    drops: Vec<usize>,
    /// Futures waiting for another one to complete.
    waiters: Vec<(usize, std::task::Waker)>,
    linked: bool,
    waits: Vec<bool>,
}
type B = Rc<RefCell<Book>>;
struct Lf {
    id: usize,
    ok: bool,
    f: Fut<Out>,
    after: Option<usize>,
    b: B,
}
impl Lf {
    fn new(b: &B, fail: u32) -> Lf {
        let id = b.borrow().made;
        b.borrow_mut().made += 1;
        let ok = !chance(fail);
        if !ok {
            count(F_ERR);
        }
        // joins: some futures wait for another, which may stand before or after them
        let mut after = None;
        if b.borrow().linked {
            let mut g = b.borrow_mut();
            let far = id ^ 1;
            let waits = chance(30) && (far > id || !g.waits[far]);
            g.waits.push(waits);
            if waits {
                after = Some(far);
            }
        }
        Lf { id, ok, f: Fut::new(if ok { Ok(v(id as u32)) } else { Err(v(id as u32)) }), after, b: b.clone() }
    }
}
impl Drop for Lf {
    fn drop(&mut self) {
        self.b.borrow_mut().drops.push(self.id);
    }
}
impl Future for Lf {
    type Output = Out;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Out> {
        if let Some(a) = self.after {
            let mut g = self.b.borrow_mut();
            if a < g.made && !g.done.contains(&a) {
                g.polled.push((self.id, false));
                g.waiters.push((a, cx.waker().clone()));
                return Poll::Pending;
            }
        }
        let r = self.f.poll_unpin(cx);
        let mut g = self.b.borrow_mut();
        g.polled.push((self.id, r.is_ready()));
        if r.is_ready() {
            let id = self.id;
            g.done.push(id);
            if !self.ok {
                g.fails.push(id);
            }
            let (now, rest) = std::mem::take(&mut g.waiters).into_iter().partition(|w| w.0 == id);
            g.waiters = rest;
            drop(g);
            let now: Vec<(usize, std::task::Waker)> = now;
            for (_, w) in now {
                w.wake();
            }
        }
        r
    }
}
impl FusedFuture for Lf {
    fn is_terminated(&self) -> bool {
        self.f.is_terminated()
    }
}
fn id(o: &Out) -> usize {
    match o {
        Ok(x) | Err(x) => x.get() as usize,
    }
}

// ------------------------------------------------------------ joins
type BJ = Pin<Box<dyn Future<Output = Vec<Out>>>>;
type BTJ = Pin<Box<dyn Future<Output = Result<Vec<V>, V>>>>;
pub fn joins() {
    begin();
    joins_in();
    check_leaks("joined futures");
}
fn many() -> usize {
    match choose(5) {
        0 => choose(3),
        1 | 2 => choose(8),
        3 => 28 + choose(6), // around the size where the implementation changes
        _ => 31 + choose(20),
    }
}
fn joins_in() {
    let b: B = Default::default();
    b.borrow_mut().linked = chance(40);
    let l = || Lf::new(&b, 0);
    let mut n = 2;
    let kind = choose(8);
    let (mut f, name): (BJ, _) = match kind {
        0 => (Box::pin(future::join(l(), l()).map(|(a, b)| vec![a, b])), "join"),
        1 => {
            let (x, y) = (l(), l());
            (
                Box::pin(async move {
                    let (a, b) = futures::join!(x, y);
                    vec![a, b]
                }),
                "join!",
            )
        }
        2 => {
            n = 4;
            let (x, y, z, w) = (l(), l(), l(), l());
            (
                Box::pin(async move {
                    let (a, b, c, d) = futures::join!(x, y, z, w);
                    vec![a, b, c, d]
                }),
                "join!",
            )
        }
        3 | 4 | 5 => {
            n = many();
            let v: Vec<Lf> = (0..n).map(|_| l()).collect();
            match choose(3) {
                0 => (Box::pin(future::join_all(v)), "join_all"),
                // no upper bound known
                1 => (Box::pin(future::join_all(Unsized_(v.into_iter()))), "join_all (unknown size)"),
                _ => (Box::pin(v.into_iter().collect::<future::JoinAll<_>>()), "JoinAll"),
            }
        }
        6 => {
            n = 1 + choose(4);
            let mut v: Vec<_> = (0..n).map(|_| Box::pin(future::maybe_done(l()))).collect();
            (
                Box::pin(future::poll_fn(move |cx| {
                    let mut all = true;
                    for x in v.iter_mut() {
                        all &= x.as_mut().poll(cx).is_ready();
                    }
                    if !all {
                        return Poll::Pending;
                    }
                    Poll::Ready(
                        v.iter_mut()
                            .map(|x| {
                                ensure!(x.as_mut().output_mut().is_some(), "maybe-done", "output gone");
                                let o = x.as_mut().take_output().unwrap();
                                ensure!(x.as_mut().take_output().is_none(), "maybe-done", "output taken twice");
                                o
                            })
                            .collect(),
                    )
                })),
                "maybe_done",
            )
        }
        _ => {
            n = 3;
            (Box::pin(future::join(future::join(l(), l()), l()).map(|((a, b), c)| vec![a, b, c])), "join of join")
        }
    };
    let mut t = Task::new();
    let cancel = chance(12);
    loop {
        let p = t.poll(|cx| f.as_mut().poll(cx));
        let done = b.borrow().done.len();
        match p {
            Poll::Pending => {
                ensure!(done < n || t.woken(), "held-back", "{name}: pending although all futures completed");
                if cancel && chance(20) {
                    count(F_CANCEL);
                    break;
                }
                t.wait();
            }
            Poll::Ready(v) => {
                ensure!(done == n, "early", "{name}: completed with {done} of {n} futures");
                let ids: Vec<_> = v.iter().map(id).collect();
                ensure!(ids == (0..n).collect::<Vec<_>>(), "position", "{name}: outputs {ids:?}");
                break;
            }
        }
    }
    drop(f);
    let g = b.borrow();
    ensure!(g.drops.len() == n, "leak", "{name}: {} of {n} futures dropped", g.drops.len());
}
struct Unsized_<I>(I);
impl<I: Iterator> Iterator for Unsized_<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
}
pub fn try_joins() {
    begin();
    try_joins_in();
    check_leaks("joined fallible futures");
}
fn try_joins_in() {
    let b: B = Default::default();
    b.borrow_mut().linked = chance(40);
    let kind = choose(7);
    let mut n = 2;
    let pf = [0, 10, 35][choose(3)];
    let l = || Lf::new(&b, pf);
    let (mut f, name): (BTJ, _) = match kind {
        0 => (Box::pin(future::try_join(l(), l()).map_ok(|(a, b)| vec![a, b])), "try_join"),
        1 => {
            let (x, y) = (l(), l());
            (
                Box::pin(async move {
                    let (a, b) = futures::try_join!(x, y)?;
                    Ok(vec![a, b])
                }),
                "try_join!",
            )
        }
        2 => {
            n = 4;
            let (x, y, z, w) = (l(), l(), l(), l());
            (
                Box::pin(async move {
                    let (a, b, c, d) = futures::try_join!(x, y, z, w)?;
                    Ok(vec![a, b, c, d])
                }),
                "try_join!",
            )
        }
        3 | 4 | 5 => {
            n = many();
            let pf = if n > 8 { [0, 2, 6][choose(3)] } else { pf };
            let v: Vec<Lf> = (0..n).map(|_| Lf::new(&b, pf)).collect();
            match choose(3) {
                0 => (Box::pin(future::try_join_all(v)), "try_join_all"),
                1 => (Box::pin(future::try_join_all(Unsized_(v.into_iter()))), "try_join_all (unknown size)"),
                _ => (Box::pin(v.into_iter().collect::<future::TryJoinAll<_>>()), "TryJoinAll"),
            }
        }
        _ => {
            n = 1 + choose(4);
            let mut v: Vec<_> = (0..n).map(|_| Box::pin(future::try_maybe_done(l()))).collect();
            (
                Box::pin(future::poll_fn(move |cx| {
                    let mut all = true;
                    for x in v.iter_mut() {
                        match x.as_mut().poll(cx) {
                            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                            Poll::Ready(Ok(())) => {}
                            Poll::Pending => all = false,
                        }
                    }
                    if !all {
                        return Poll::Pending;
                    }
                    Poll::Ready(Ok(v
                        .iter_mut()
                        .map(|x| {
                            let o = x.as_mut().take_output().unwrap();
                            ensure!(x.as_mut().take_output().is_none(), "maybe-done", "output taken twice");
                            o
                        })
                        .collect()))
                })),
                "try_maybe_done",
            )
        }
    };
    let mut t = Task::new();
    let cancel = chance(12);
    loop {
        let p = t.poll(|cx| f.as_mut().poll(cx));
        let g = b.borrow();
        let done = g.done.len();
        match p {
            Poll::Pending => {
                ensure!(done < n || t.woken(), "held-back", "{name}: pending although all futures completed");
                drop(g);
                // a failure seen by the library has to be reported at once
                let e = errs(&b);
                ensure!(e.is_empty() || t.woken(), "not-fail-fast", "{name} of {n}: pending although future {} failed", e[0]);
                if cancel && chance(20) {
                    count(F_CANCEL);
                    break;
                }
                t.wait();
            }
            Poll::Ready(Ok(v)) => {
                ensure!(done == n, "early", "{name}: completed with {done} of {n} futures");
                let ids: Vec<_> = v.iter().map(|x| x.get() as usize).collect();
                ensure!(ids == (0..n).collect::<Vec<_>>(), "position", "{name}: outputs {ids:?}");
                drop(g);
                ensure!(errs(&b).is_empty(), "wrong-result", "{name}: succeeded although a future failed");
                break;
            }
            Poll::Ready(Err(e)) => {
                drop(g);
                let x = errs(&b);
                ensure!(x.first() == Some(&(e.get() as usize)), "wrong-result", "{name}: failed with {}, the failures so far are {x:?}", e.get());
                break;
            }
        }
    }
    drop(f);
    let g = b.borrow();
    ensure!(g.drops.len() == n, "leak", "{name}: {} of {n} futures dropped", g.drops.len());
}
/// Futures that completed with an error, in order.
fn errs(b: &B) -> Vec<usize> {
    b.borrow().fails.clone()
}

// ------------------------------------------------------------ selects
pub fn selects() {
    begin();
    selects_in();
    check_leaks("selected futures");
}
fn ready_now(b: &B) -> Option<usize> {
    b.borrow().polled.iter().find(|p| p.1).map(|p| p.0)
}
fn finish(t: &mut Task, mut f: Lf, want: usize) {
    if f.f.never {
        ensure!(f.id == want, "wrong-result", "the branch left over is {}, expected {want}", f.id);
        return;
    }
    let o = t.block_on_with(|cx| f.poll_unpin(cx));
    ensure!(id(&o) == want, "wrong-result", "the branch left over gave {}, expected {want}", id(&o));
}
/// Polls a select; its first ready branch must decide it.
fn drive<T>(t: &mut Task, b: &B, name: &str, cancel: bool, mut p: impl FnMut(&mut Context<'_>) -> Poll<T>) -> Option<T> {
    loop {
        b.borrow_mut().polled.clear();
        match t.poll(&mut p) {
            Poll::Pending => {
                ensure!(ready_now(b).is_none(), "held-back", "{name}: pending although branch {:?} is ready", ready_now(b));
                if cancel && chance(20) {
                    count(F_CANCEL);
                    return None;
                }
                t.wait();
            }
            Poll::Ready(x) => {
                let n = b.borrow().polled.iter().filter(|p| p.1).count();
                ensure!(n == 1, "lost-result", "{name}: {n} branches completed in one go, one result is kept");
                return Some(x);
            }
        }
    }
}
/// Some branches may never get ready; the others must not need their help.
fn stall(fs: &mut [&mut Lf]) {
    if chance(30) {
        for f in fs {
            f.f.never = chance(40);
        }
    }
}
fn selects_in() {
    let b: B = Default::default();
    let mut t = Task::new();
    let cancel = chance(10);
    let one = |fail: u32, b: &B| {
        let (mut l, mut r) = (Lf::new(b, fail), Lf::new(b, fail));
        if chance(30) {
            (if chance(50) { &mut l } else { &mut r }).f.never = true;
        }
        (l, r)
    };
    match choose(4) {
        0 => {
            let (l, r) = one(0, &b);
            let mut f = future::select(l, r);
            match drive(&mut t, &b, "select", cancel, |cx| f.poll_unpin(cx)) {
                None => {}
                Some(Either::Left((o, r))) => {
                    ensure!(id(&o) == 0 && ready_now(&b) == Some(0), "wrong-result", "select: Left({})", id(&o));
                    finish(&mut t, r, 1);
                }
                Some(Either::Right((o, r))) => {
                    ensure!(id(&o) == 1 && ready_now(&b) == Some(1), "wrong-result", "select: Right({})", id(&o));
                    ensure!(b.borrow().polled.contains(&(0, false)), "bias", "select: the second branch won although the first was not asked");
                    finish(&mut t, r, 0);
                }
            }
        }
        1 => {
            let (l, r) = one(40, &b);
            let mut f = future::try_select(l, r);
            match drive(&mut t, &b, "try_select", cancel, |cx| f.poll_unpin(cx)) {
                None => {}
                Some(r) => {
                    let okk = r.is_ok();
                    let (Ok(e) | Err(e)) = r;
                    let (x, rest, want) = match e {
                        Either::Left((x, r)) => (x, r, 0),
                        Either::Right((x, r)) => (x, r, 1),
                    };
                    ensure!(x.get() as usize == want && ready_now(&b) == Some(want), "wrong-result", "try_select: side {want} with {}", x.get());
                    ensure!(okk != errs(&b).contains(&want), "wrong-result", "try_select: success and failure mixed up");
                    finish(&mut t, rest, 1 - want);
                }
            }
        }
        2 => {
            let n = 1 + choose(6);
            let mut fs: Vec<Lf> = (0..n).map(|_| Lf::new(&b, 0)).collect();
            stall(&mut fs.iter_mut().collect::<Vec<_>>());
            loop {
                if fs.iter().all(|f| f.f.never) {
                    break;
                }
                let ids: Vec<usize> = fs.iter().map(|f| f.id).collect();
                if chance(10) {
                    let s = future::select_all(fs);
                    fs = s.into_inner();
                    ensure!(fs.iter().map(|f| f.id).collect::<Vec<_>>() == ids, "lost", "select_all: into_inner lost futures");
                }
                let mut f = future::select_all(fs);
                let Some((o, idx, rest)) = drive(&mut t, &b, "select_all", cancel, |cx| f.poll_unpin(cx)) else { break };
                ensure!(ids.get(idx) == Some(&id(&o)), "wrong-result", "select_all: output {} at index {idx} of {ids:?}", id(&o));
                let mut left: Vec<usize> = rest.iter().map(|f| f.id).collect();
                left.sort();
                let mut want: Vec<usize> = ids.iter().copied().filter(|i| *i != id(&o)).collect();
                want.sort();
                ensure!(left == want, "lost", "select_all: {left:?} left of {ids:?} after {}", id(&o));
                fs = rest;
                if fs.is_empty() {
                    break;
                }
            }
        }
        _ => {
            let n = 1 + choose(6);
            let mut fs: Vec<Lf> = (0..n).map(|_| Lf::new(&b, 50)).collect();
            stall(&mut fs.iter_mut().collect::<Vec<_>>());
            'a: loop {
                if fs.iter().any(|f| f.f.never) && !fs.iter().any(|f| f.ok && !f.f.never) {
                    break;
                }
                let ids: Vec<usize> = fs.iter().map(|f| f.id).collect();
                let okids: Vec<usize> = fs.iter().filter(|f| f.ok).map(|f| f.id).collect();
                let mut f = future::select_ok(fs);
                loop {
                    b.borrow_mut().polled.clear();
                    let p = t.poll(|cx| f.poll_unpin(cx));
                    let g = b.borrow();
                    let oks: Vec<usize> = g.polled.iter().filter(|p| p.1 && okids.contains(&p.0)).map(|p| p.0).collect();
                    match p {
                        Poll::Pending => {
                            ensure!(oks.is_empty(), "held-back", "select_ok: pending although {oks:?} succeeded");
                            drop(g);
                            if cancel && chance(20) {
                                count(F_CANCEL);
                                break 'a;
                            }
                            t.wait();
                        }
                        Poll::Ready(Ok((x, rest))) => {
                            ensure!(oks == [x.get() as usize], "wrong-result", "select_ok: {} although {oks:?} succeeded", x.get());
                            let mut left: Vec<usize> = rest.iter().map(|f| f.id).collect();
                            left.sort();
                            let mut want: Vec<usize> = ids.iter().copied().filter(|i| !g.done.contains(i)).collect();
                            want.sort();
                            ensure!(left == want, "lost", "select_ok: {left:?} left, expected {want:?}");
                            drop(g);
                            fs = rest;
                            if fs.is_empty() {
                                break 'a;
                            }
                            continue 'a;
                        }
                        Poll::Ready(Err(e)) => {
                            ensure!(ids.iter().all(|i| g.done.contains(i)), "early", "select_ok: failed with branches left");
                            ensure!(okids.is_empty(), "wrong-result", "select_ok: failed although {okids:?} succeed");
                            ensure!(g.done.last() == Some(&(e.get() as usize)), "wrong-result", "select_ok: error {} is not the last one", e.get());
                            break 'a;
                        }
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------ select macros
pub fn macros() {
    begin();
    stir();
    macros_in();
    check_leaks("select macros");
}
#[derive(Debug, PartialEq, Clone, Copy)]
enum Won {
    Br(usize),
    Complete,
    Default,
}
fn macros_in() {
    let b: B = Default::default();
    let kind = choose(6);
    let (mut x, mut y, mut z) = (Lf::new(&b, 0), Lf::new(&b, 0), Lf::new(&b, 0));
    // one branch may be over before it starts
    let dead = choose(4);
    let mut t = Task::new();
    for (i, f) in [&mut x, &mut y, &mut z].into_iter().enumerate() {
        if i == dead {
            let _ = t.block_on_with(|cx| f.poll_unpin(cx));
        }
    }
    let mut open: Vec<usize> = (0..3).filter(|i| *i != dead).collect();
    let cancel = chance(10);
    let (name, biased, dflt) = [("select!", false, false), ("select_biased!", true, false), ("select! default", false, true), ("select_biased! default", true, true), ("select!", false, false), ("select!", false, false)][kind];
    if kind == 5 {
        return chosen();
    }
    loop {
        if open.is_empty() && kind == 4 {
            break; // would panic, there is no complete branch
        }
        let won: Option<Won> = {
            let mut f: Pin<Box<dyn Future<Output = Won> + '_>> = match kind {
                0 => Box::pin(async {
                    futures::select! { a = x => Won::Br(id(&a)), a = y => Won::Br(id(&a)), a = z => Won::Br(id(&a)), complete => Won::Complete }
                }),
                1 => Box::pin(async {
                    futures::select_biased! { a = x => Won::Br(id(&a)), a = y => Won::Br(id(&a)), a = z => Won::Br(id(&a)), complete => Won::Complete }
                }),
                2 => Box::pin(async {
                    futures::select! { a = x => Won::Br(id(&a)), a = y => Won::Br(id(&a)), a = z => Won::Br(id(&a)), default => Won::Default, complete => Won::Complete }
                }),
                3 => Box::pin(async {
                    futures::select_biased! { a = x => Won::Br(id(&a)), a = y => Won::Br(id(&a)), a = z => Won::Br(id(&a)), complete => Won::Complete, default => Won::Default }
                }),
                _ => Box::pin(async {
                    // the futures are expressions, and no complete branch
                    futures::select! { a = (&mut x) => Won::Br(id(&a)), a = (&mut y) => Won::Br(id(&a)), a = (&mut z) => Won::Br(id(&a)) }
                }),
            };
            let r;
            loop {
                b.borrow_mut().polled.clear();
                match t.poll(|cx| f.as_mut().poll(cx)) {
                    Poll::Ready(w) => {
                        r = Some(w);
                        break;
                    }
                    Poll::Pending => {
                        ensure!(!dflt, "default", "{name}: pending in spite of a default branch");
                        ensure!(ready_now(&b).is_none(), "held-back", "{name}: pending although branch {:?} is ready", ready_now(&b));
                        let mut p: Vec<usize> = b.borrow().polled.iter().map(|p| p.0).collect();
                        p.sort();
                        ensure!(p == open, "unpolled", "{name}: polled {p:?} of the open branches {open:?}");
                        if cancel && chance(20) {
                            count(F_CANCEL);
                            return;
                        }
                        t.wait();
                    }
                }
            }
            r
        };
        let g = b.borrow();
        let polled = &g.polled;
        ensure!(polled.iter().all(|p| open.contains(&p.0)), "polled-after-completion", "{name}: polled a terminated branch");
        if biased {
            ensure!(polled.windows(2).all(|w| w[0].0 < w[1].0), "bias", "{name}: branches polled in order {polled:?}");
        }
        match won.unwrap() {
            Won::Br(i) => {
                ensure!(polled.last() == Some(&(i, true)) && polled.iter().filter(|p| p.1).count() == 1, "wrong-result", "{name}: branch {i} ran, polls {polled:?}");
                if biased {
                    let before: Vec<usize> = open.iter().copied().filter(|j| *j < i).collect();
                    ensure!(before.iter().all(|j| polled.contains(&(*j, false))), "bias", "{name}: branch {i} ran, polls {polled:?}");
                }
                open.retain(|j| *j != i);
            }
            Won::Complete => {
                ensure!(open.is_empty(), "complete", "{name}: complete ran with {open:?} open");
                break;
            }
            Won::Default => {
                ensure!(!open.is_empty(), "complete", "{name}: default ran although everything is complete");
                let mut p: Vec<usize> = polled.iter().filter(|p| !p.1).map(|p| p.0).collect();
                p.sort();
                ensure!(p == open, "default", "{name}: default ran, but of {open:?} only {p:?} were asked and not ready");
                drop(g);
                step();
                continue;
            }
        }
    }
}
/// Streams in select!; with all branches ready none is ignored for long.
fn chosen() {
    let n = 40;
    let mut a = Src::new((0..n).map(v)).fuse();
    let mut c = Src::new((0..n).map(v)).fuse();
    let mut t = Task::new();
    let (mut ga, mut gc) = (0, 0);
    let (mut fa, mut fc) = (0, 0); // while both had items
    let mut f = Box::pin(async {
        loop {
            futures::select! {
                x = a.next() => {
                    if let Some(x) = x {
                        ensure!(x.get() == ga, "wrong-item", "select! over streams: item {} after {ga}", x.get());
                        ga += 1;
                        if gc < n { fa += 1 }
                    } else {
                        ensure!(ga == n, "lost", "ended after {ga} items");
                    }
                }
                x = c.select_next_some() => {
                    ensure!(x.get() == gc, "wrong-item", "select! over streams: item {} after {gc}", x.get());
                    gc += 1;
                    if ga < n { fc += 1 }
                }
                complete => break,
            }
        }
    });
    t.block_on(f.as_mut());
    drop(f);
    ensure!(ga == n && gc == n, "lost", "select! over streams: {ga} and {gc} of {n} items");
    ensure!(a.is_terminated() && c.is_terminated(), "not-terminated", "streams not terminated");
    if cfg().max_pend == 0 {
        ensure!(fa > 0 && fc > 0, "starved", "select! always chose the same of two ready branches ({fa} to {fc})");
    }
}
