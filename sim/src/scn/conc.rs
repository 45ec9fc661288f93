//! Ordered collections and bounded concurrency.
use crate::ex::sg::*;
use crate::leaf::*;
use crate::rt::*;
use futures::future::FutureExt;
use futures::stream::{FusedStream, FuturesOrdered, Stream, StreamExt, TryStreamExt};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

type Out = Result<V, V>;
/// What happened to the futures of a run.
#[derive(Default)]
struct Book {
    made: usize,            // handed out by the input
    done: Vec<u32>,         // completed, in order
    live: usize,            // made and neither completed nor dropped
    max_live: usize,
    input_pending: bool,    // the input's latest answer
    input_done: bool,
    input_errs: Vec<u32>,
    drops: usize,
}
type B = Rc<RefCell<Book>>;
struct Job {
    f: Fut<Out>,
    b: B,
    id: u32,
    over: bool,
}
impl Job {
    fn new(b: &B, id: u32, ok: bool) -> Job {
        let mut g = b.borrow_mut();
        g.made += 1;
        g.live += 1;
        g.max_live = g.max_live.max(g.live);
        Job { f: Fut::new(if ok { Ok(v(id)) } else { Err(v(id)) }), b: b.clone(), id, over: false }
    }
}
impl Drop for Job {
    fn drop(&mut self) {
        let mut g = self.b.borrow_mut();
        g.drops += 1;
        if !self.over {
            g.live -= 1;
        }
    }
}
impl Future for Job {
    type Output = Out;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Out> {
        let r = self.f.poll_unpin(cx);
        if r.is_ready() {
            self.over = true;
            let mut g = self.b.borrow_mut();
            g.live -= 1;
            g.done.push(self.id);
        }
        r
    }
}
/// Input: jobs (or errors) made when they are asked for.
struct Input {
    s: Src<(u32, u8)>,
    b: B,
}
impl Input {
    fn next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<Job, V>>> {
        let r = Pin::new(&mut self.s).poll_next(cx);
        self.b.borrow_mut().input_pending = r.is_pending();
        match r {
            Poll::Pending => Poll::Pending,
            Poll::Ready(None) => {
                self.b.borrow_mut().input_done = true;
                Poll::Ready(None)
            }
            Poll::Ready(Some((id, 2))) => {
                self.b.borrow_mut().input_errs.push(id);
                Poll::Ready(Some(Err(v(id))))
            }
            Poll::Ready(Some((id, k))) => Poll::Ready(Some(Ok(Job::new(&self.b, id, k == 0)))),
        }
    }
}
struct Plain(Input);
impl Stream for Plain {
    type Item = Job;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Job>> {
        self.0.next(cx).map(|x| x.map(|x| x.ok().unwrap()))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.s.size_hint()
    }
}
impl FusedStream for Plain {
    fn is_terminated(&self) -> bool {
        self.0.s.ended()
    }
}
struct Fallible(Input);
impl Stream for Fallible {
    type Item = Result<Job, V>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Result<Job, V>>> {
        self.0.next(cx)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.s.size_hint()
    }
}
fn room(b: &B, used: usize, lim: usize, woken: bool, what: &str) {
    let g = b.borrow();
    ensure!(woken || lim > 0 && used >= lim || g.input_done || g.input_pending, "work-refused", "{what}: waiting with {used} of {lim} futures in progress although the input was not asked for more");
}

fn num(o: &Out) -> Result<u32, u32> {
    match o {
        Ok(x) => Ok(x.get()),
        Err(x) => Err(x.get()),
    }
}

pub fn buffers() {
    begin();
    buffers_in();
    check_leaks("bounded concurrency");
}
fn buffers_in() {
    let b: B = Default::default();
    let k = choose(10);
    let kind = choose(7);
    // 0 = job that succeeds, 1 = job that fails, 2 = error of the input
    let fallible = kind >= 2;
    let mode = if fallible { choose(3) } else { 0 };
    let jobs: Vec<(u32, u8)> = (0..k)
        .map(|i| {
            let e = match mode {
                0 => 0,
                1 => (choose_w(2, 75)) as u8,
                _ => choose_w(3, 70) as u8,
            };
            (i as u32, if kind >= 4 && e == 2 { 1 } else { e })
        })
        .collect();
    let lim = choose(5); // 0 = no limit
    let limit: Option<usize> = match lim {
        0 if chance(50) => None,
        n => Some(n),
    };
    let input = Input { s: Src::new(jobs.clone()), b: b.clone() };
    let mut t = Task::new();
    let cancel = chance(12);
    let ordered = matches!(kind, 0 | 2);
    match kind {
        0 | 1 | 2 | 3 => {
            type BS = Pin<Box<dyn Stream<Item = Out>>>;
            let (mut s, name): (BS, _) = match kind {
                0 => (Box::pin(Plain(input).buffered(limit)), "buffered"),
                1 => (Box::pin(Plain(input).buffer_unordered(limit)), "buffer_unordered"),
                2 => (Box::pin(Fallible(input).try_buffered(limit)), "try_buffered"),
                _ => (Box::pin(Fallible(input).try_buffer_unordered(limit)), "try_buffer_unordered"),
            };
            let mut got: Vec<Result<u32, u32>> = vec![];
            let mut ierr = 0;
            let mut hints = vec![];
            loop {
                hints.push((got.len(), s.size_hint()));
                let p = t.poll(|cx| s.as_mut().poll_next(cx));
                {
                    let g = b.borrow();
                    ensure!(lim == 0 || g.max_live <= lim, "limit", "{name}({lim}): {} futures at once", g.max_live);
                }
                match p {
                    Poll::Pending => {
                        let g = b.borrow();
                        let jobs_out = got.len() - ierr;
                        if ordered {
                            let used = g.made - jobs_out;
                            ensure!(lim == 0 || used <= lim, "limit", "{name}({lim}): {used} futures or outputs held");
                            // the next one in order must really be unfinished
                            let next = jobs.iter().filter(|j| j.1 != 2).nth(jobs_out);
                            if let Some(n) = next {
                                ensure!(t.woken() || !g.done.contains(&n.0), "held-back", "{name}: pending although output {} is there", n.0);
                            }
                            drop(g);
                            room(&b, used, lim, t.woken(), name);
                        } else {
                            ensure!(g.done.len() == jobs_out, "held-back", "{name}: pending although {} futures completed and {} were yielded", g.done.len(), jobs_out);
                            let used = g.live;
                            drop(g);
                            room(&b, used, lim, t.woken(), name);
                        }
                        if cancel && chance(20) {
                            count(F_CANCEL);
                            break;
                        }
                        t.wait();
                    }
                    Poll::Ready(Some(x)) => {
                        let x = num(&x);
                        let (Ok(id) | Err(id)) = x;
                        let kd = jobs[id as usize].1;
                        ensure!(x.is_ok() == (kd == 0), "wrong-item", "{name}: {x:?} for a job of kind {kd}");
                        ensure!(!got.contains(&x), "duplicate", "{name}: {x:?} yielded twice");
                        got.push(x);
                        let g = b.borrow();
                        if kd == 2 {
                            ierr += 1;
                            ensure!(g.input_errs.get(ierr - 1) == Some(&id), "wrong-item", "{name}: input error {id} out of order");
                        } else {
                            let n = got.len() - ierr;
                            ensure!(g.done.contains(&id), "invented", "{name}: job {id} has not completed");
                            if ordered {
                                let want = jobs.iter().filter(|j| j.1 != 2).nth(n - 1).map(|j| j.0);
                                ensure!(want == Some(id), "order", "{name}: job {id} yielded as number {n}, expected {want:?}");
                            } else {
                                ensure!(g.done[n - 1] == id, "order", "{name}: job {id} yielded, but {} completed before", g.done[n - 1]);
                            }
                        }
                    }
                    Poll::Ready(None) => {
                        ensure!(got.len() == jobs.len(), "lost", "{name}: ended after {} of {} results", got.len(), jobs.len());
                        if kind < 2 {
                            super::streams::check_hints(&hints, got.len(), name);
                        }
                        break;
                    }
                }
            }
            drop(s);
        }
        _ => {
            let called = Rc::new(RefCell::new(vec![]));
            let (c2, b2) = (called.clone(), b.clone());
            type BF = Pin<Box<dyn Future<Output = Result<(), V>>>>;
            let src = InputIds(Input { s: Src::new(jobs.clone()), b: b.clone() });
            drop(input);
            let (mut f, name): (BF, _) = if kind == 4 {
                (
                    Box::pin(
                        src.for_each_concurrent(limit, move |(id, k)| {
                            c2.borrow_mut().push(id);
                            Job::new(&b2, id, k == 0).map(|_| ())
                        })
                        .map(Ok),
                    ),
                    "for_each_concurrent",
                )
            } else {
                (
                    Box::pin(src.try_for_each_concurrent(limit, move |(id, k)| {
                        c2.borrow_mut().push(id);
                        Job::new(&b2, id, k == 0).map(|r| r.map(|_| ()))
                    })),
                    "try_for_each_concurrent",
                )
            };
            loop {
                let p = t.poll(|cx| f.as_mut().poll(cx));
                let g = b.borrow();
                ensure!(lim == 0 || g.max_live <= lim, "limit", "{name}({lim}): {} futures at once", g.max_live);
                ensure!(called.borrow().iter().enumerate().all(|(i, x)| *x == i as u32), "order", "{name}: closure called in order {:?}", called.borrow());
                let first_err = g.done.iter().find(|d| jobs[**d as usize].1 == 1).copied();
                match p {
                    Poll::Pending => {
                        if kind != 4 {
                            ensure!(first_err.is_none(), "held-back", "{name}: pending although job {first_err:?} failed");
                        }
                        let used = g.live;
                        drop(g);
                        room(&b, used, lim, t.woken(), name);
                        if cancel && chance(20) {
                            count(F_CANCEL);
                            break;
                        }
                        t.wait();
                    }
                    Poll::Ready(Ok(())) => {
                        ensure!(g.done.len() == jobs.len() && g.input_done, "lost", "{name}: completed after {} of {} jobs", g.done.len(), jobs.len());
                        ensure!(kind == 4 || first_err.is_none(), "wrong-result", "{name}: succeeded although job {first_err:?} failed");
                        break;
                    }
                    Poll::Ready(Err(e)) => {
                        ensure!(Some(e.get()) == first_err, "wrong-result", "{name}: failed with {}, the first error was {first_err:?}", e.get());
                        ensure!(g.live == 0, "held-back", "{name}: {} jobs kept after failing", g.live);
                        break;
                    }
                }
            }
        }
    }
    let g = b.borrow();
    ensure!(g.drops == g.made && g.live == 0, "leak", "{} of {} futures dropped", g.drops, g.made);
}
struct InputIds(Input);
impl Stream for InputIds {
    type Item = (u32, u8);
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<(u32, u8)>> {
        let r = Pin::new(&mut self.0.s).poll_next(cx);
        let mut g = self.0.b.borrow_mut();
        g.input_pending = r.is_pending();
        g.input_done |= matches!(r, Poll::Ready(None));
        drop(g);
        r
    }
}

/// FuturesOrdered driven directly, with pushes at both ends and clearing.
pub fn ordered() {
    begin();
    ordered_in();
    check_leaks("FuturesOrdered");
}
fn ordered_in() {
    let b: B = Default::default();
    let mut id = 0;
    let mut want: VecDeque<u32> = VecDeque::new();
    let mk = |id: &mut u32| {
        *id += 1;
        (Job::new(&b, *id, true), *id)
    };
    let mut q: FuturesOrdered<Job> = if chance(40) {
        (0..choose(5))
            .map(|_| {
                let (j, i) = mk(&mut id);
                want.push_back(i);
                j
            })
            .collect()
    } else {
        FuturesOrdered::new()
    };
    let mut t = Task::new();
    let live = Cell::new(true);
    for _ in 0..choose(26) {
        match choose_w(9, 40) {
            0 => match t.poll(|cx| q.poll_next_unpin(cx)) {
                Poll::Ready(Some(x)) => {
                    let w = want.pop_front();
                    ensure!(num(&x).ok() == w, "order", "FuturesOrdered yielded {:?}, expected {w:?}", num(&x));
                }
                Poll::Ready(None) => {
                    ensure!(want.is_empty(), "lost", "FuturesOrdered ended with {want:?} to come");
                    ensure!(q.is_terminated(), "fuse", "ended but not terminated");
                }
                Poll::Pending => {
                    ensure!(!want.is_empty(), "stuck", "an empty FuturesOrdered is pending");
                    ensure!(t.woken() || !b.borrow().done.contains(&want[0]), "held-back", "pending although output {} is there", want[0]);
                    t.wait();
                }
            },
            1 | 2 => {
                let (j, i) = mk(&mut id);
                want.push_back(i);
                if chance(30) {
                    #[allow(deprecated)]
                    q.push(j);
                } else {
                    q.push_back(j);
                }
            }
            3 | 4 => {
                let (j, i) = mk(&mut id);
                want.push_front(i);
                q.push_front(j);
            }
            5 => {
                let js: Vec<_> = (0..choose(3))
                    .map(|_| {
                        let (j, i) = mk(&mut id);
                        want.push_back(i);
                        j
                    })
                    .collect();
                q.extend(js);
            }
            6 if chance(25) => {
                q.clear();
                want.clear();
                ensure!(b.borrow().drops == b.borrow().made, "leak", "clear kept futures");
            }
            7 => {
                for _ in 0..choose(3) {
                    step();
                }
            }
            _ => {}
        }
        ensure!(q.len() == want.len() && q.is_empty() == want.is_empty(), "length", "len {} with {} futures", q.len(), want.len());
        ensure!(q.size_hint() == (want.len(), Some(want.len())), "size-hint", "size hint {:?} with {} futures", q.size_hint(), want.len());
    }
    if chance(85) {
        while live.get() {
            match t.poll(|cx| q.poll_next_unpin(cx)) {
                Poll::Ready(Some(x)) => {
                    let w = want.pop_front();
                    ensure!(num(&x).ok() == w, "order", "FuturesOrdered yielded {:?}, expected {w:?}", num(&x));
                }
                Poll::Ready(None) => {
                    ensure!(want.is_empty(), "lost", "FuturesOrdered ended with {want:?} to come");
                    break;
                }
                Poll::Pending => t.wait(),
            }
        }
    } else {
        count(F_CANCEL);
    }
    drop(q);
    let g = b.borrow();
    ensure!(g.drops == g.made, "leak", "{} of {} futures dropped", g.drops, g.made);
}
