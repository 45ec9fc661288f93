//! Large populations: the same guarantees with many members, waiters, senders and
//! messages, beyond the small numbers the other scenarios use.
use crate::ex::sg::*;
use crate::rt::*;
use futures::channel::mpsc;
use futures::executor::LocalPool;
use futures::future::{FutureExt, Shared};
use futures::lock::Mutex;
use futures::sink::SinkExt;
use futures::stream::{self, FuturesOrdered, FuturesUnordered, Stream, StreamExt};
use futures::task::LocalSpawnExt;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll};

type Lf = Pin<Box<dyn Future<Output = ()>>>;
/// A future that waits for a few events and then gives its number.
struct Wt(Gate, u32, bool);
fn wt(n: u32) -> Wt {
    Wt(Gate::with(choose(4)), n, false)
}
impl Future for Wt {
    type Output = u32;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u32> {
        ensure!(!self.2, "crowd-polled-done", "a future was polled after it had completed");
        if !self.0.poll(cx) {
            return Poll::Pending;
        }
        self.2 = true;
        Poll::Ready(self.1)
    }
}
/// A stream of numbered items with waits in between.
struct Ws(Gate, u32, u32, u32);
impl Stream for Ws {
    type Item = (u32, u32);
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<(u32, u32)>> {
        ensure!(self.2 != u32::MAX, "crowd-polled-done", "a stream was polled after it had ended");
        if !self.0.poll(cx) {
            return Poll::Pending;
        }
        self.0.rearm();
        if self.2 == self.3 {
            self.2 = u32::MAX;
            return Poll::Ready(None);
        }
        self.2 += 1;
        Poll::Ready(Some((self.1, self.2 - 1)))
    }
}
fn many() -> u32 {
    [3, 20, 31, 32, 33, 64, 65, 100, 130][choose(9)] + choose(4) as u32
}
/// Polls the tasks that were woken, in any order, until all are done.
fn drive(fs: Vec<Lf>) {
    let mut ts: Vec<(Task, Option<Lf>)> = fs.into_iter().map(|f| (Task::quiet(), Some(f))).collect();
    loop {
        if chance(20) {
            step();
        }
        let ready: Vec<usize> = (0..ts.len()).filter(|i| ts[*i].1.is_some() && ts[*i].0.woken()).collect();
        if ready.is_empty() {
            if ts.iter().all(|t| t.1.is_none()) {
                return;
            }
            if !step() {
                fail("lost-wakeup", &format!("{} tasks wait and nothing is left to happen", ts.iter().filter(|t| t.1.is_some()).count()));
            }
            continue;
        }
        let (t, f) = &mut ts[ready[choose(ready.len())]];
        if t.poll(|cx| f.as_mut().unwrap().as_mut().poll(cx)).is_ready() {
            *f = None;
        }
    }
}
fn once(what: &str, n: u32, mut got: Vec<u32>, sorted: bool) {
    if !sorted {
        got.sort();
    }
    if got.len() != n as usize || got.iter().enumerate().any(|(i, x)| *x != i as u32) {
        fail("crowd-results", &format!("{what}: {} results for {n} members, or out of order, doubled or wrong ones: {:?}", got.len(), &got[..got.len().min(40)]));
    }
}

pub fn channel() {
    begin();
    let bound = if chance(60) { Some([0, 1, 5, 31, 32, 40][choose(6)]) } else { None };
    let ns = [1, 5, 20, 33, 40][choose(5)];
    let per = [1, 8, 40][choose(3)];
    let recv: Rc<RefCell<Vec<(u32, u32)>>> = Default::default();
    let sent = Rc::new(Cell::new(0usize));
    let early = if chance(20) { choose(ns * per) } else { usize::MAX };
    let mut fs: Vec<Lf> = vec![];
    macro_rules! rx {
        ($rx:expr, $b:expr) => {{
            let (mut rx, recv, sent) = ($rx, recv.clone(), sent.clone());
            fs.push(Box::pin(async move {
                while let Some(x) = rx.next().await {
                    recv.borrow_mut().push(x);
                    let n = recv.borrow().len();
                    if let Some(b) = $b {
                        let held = sent.get() + 1 - n.min(sent.get() + 1);
                        ensure!(held <= b + ns + 1, "crowd-bound", "{held} messages held with a buffer of {b} and {ns} senders");
                    }
                    if n > early {
                        if chance(50) {
                            return; // drops the receiver
                        }
                        rx.close();
                    }
                    if chance(30) {
                        wt(0).await;
                    }
                }
            }));
        }};
    }
    macro_rules! tx {
        ($tx:expr) => {{
            let tx = $tx;
            for s in 0..ns as u32 {
                let (mut tx, sent) = (tx.clone(), sent.clone());
                fs.push(Box::pin(async move {
                    for i in 0..per as u32 {
                        if tx.send((s, i)).await.is_err() {
                            ensure!(early != usize::MAX, "crowd-closed", "sending failed with the receiver alive");
                            return;
                        }
                        sent.set(sent.get() + 1);
                        if chance(10) {
                            wt(0).await;
                        }
                    }
                }));
            }
        }};
    }
    match bound {
        Some(b) => {
            let (tx, rx) = mpsc::channel(b);
            tx!(tx);
            rx!(rx, Some(b));
        }
        None => {
            let (tx, rx) = mpsc::unbounded();
            tx!(tx);
            rx!(rx, None::<usize>);
        }
    }
    drive(fs);
    let r = recv.borrow();
    let mut next = vec![0; ns];
    for (s, i) in r.iter() {
        ensure!(next[*s as usize] == *i, "crowd-order", "message {i} of sender {s} arrived when {} was due", next[*s as usize]);
        next[*s as usize] += 1;
    }
    ensure!(early != usize::MAX || r.len() == ns * per, "crowd-lost", "{} of {} messages arrived", r.len(), ns * per);
}

pub fn mutex() {
    begin();
    let n = many();
    let m = Arc::new(Mutex::new(0u32));
    let inside = Rc::new(Cell::new(false));
    let done = Rc::new(Cell::new(0u32));
    let mut fs: Vec<Lf> = vec![];
    for _ in 0..n {
        let (m, inside, done) = (m.clone(), inside.clone(), done.clone());
        let impatient = chance(20);
        let waves = 1 + choose(3);
        fs.push(Box::pin(async move {
            if impatient {
                // gives up waiting after a while
                let mut l = m.lock();
                let mut w = wt(0);
                let r = futures::future::poll_fn(|cx| {
                    if let Poll::Ready(g) = l.poll_unpin(cx) {
                        return Poll::Ready(Some(g));
                    }
                    Pin::new(&mut w).poll(cx).map(|_| None)
                })
                .await;
                drop(r);
                return;
            }
            macro_rules! work {
                ($g:expr) => {{
                    let mut g = $g;
                    ensure!(!inside.replace(true), "crowd-exclusion", "two holders of one lock");
                    let v = *g;
                    if chance(50) {
                        wt(0).await;
                    }
                    *g = v + 1;
                    inside.set(false);
                    drop(g);
                }};
            }
            // the waiters of a later wave find the slots of the earlier ones free
            for _ in 0..waves {
                if chance(50) {
                    work!(m.lock().await)
                } else {
                    work!(m.clone().lock_owned().await)
                }
                done.set(done.get() + 1);
                for _ in 0..choose(3) {
                    wt(0).await;
                }
            }
        }));
    }
    drive(fs);
    let got = m.try_lock().map(|g| *g);
    ensure!(got == Some(done.get()), "crowd-exclusion", "{} critical sections left {got:?}", done.get());
}

pub fn shared() {
    begin();
    let n = many();
    let s: Shared<Pin<Box<dyn Future<Output = Rc<u32>>>>> = (Box::pin(wt(5).map(Rc::new)) as Pin<Box<dyn Future<Output = Rc<u32>>>>).shared();
    let got = Rc::new(Cell::new(0u32));
    let mut want = 0;
    let mut fs: Vec<Lf> = vec![];
    for _ in 0..n {
        let (s, got) = (s.clone(), got.clone());
        let impatient = chance(30);
        want += !impatient as u32;
        fs.push(Box::pin(async move {
            if impatient {
                let mut s = s;
                let mut w = wt(0);
                futures::future::poll_fn(|cx| {
                    if s.poll_unpin(cx).is_ready() {
                        return Poll::Ready(());
                    }
                    Pin::new(&mut w).poll(cx).map(drop)
                })
                .await;
                return;
            }
            if chance(30) {
                wt(0).await;
            }
            let r = s.await;
            ensure!(*r == 5, "crowd-results", "a handle got {r} instead of 5");
            got.set(got.get() + 1);
        }));
    }
    drop(s);
    drive(fs);
    ensure!(got.get() == want, "crowd-results", "{} of {want} handles got the output", got.get());
}

/// A member that completes after a few events, or never.
enum Mb {
    W(Wt),
    Never,
}
impl Future for Mb {
    type Output = u32;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u32> {
        match &mut *self {
            Mb::W(w) => Pin::new(w).poll(cx),
            Mb::Never => Poll::Pending,
        }
    }
}
pub fn set() {
    begin();
    let n = many();
    let mut t = Task::new();
    t.limit = 100_000;
    let mut f: FuturesUnordered<Mb> = FuturesUnordered::new();
    let (mut pushed, mut got) = (0, vec![]);
    let idle = [0, 0, 10, 60][choose(4)];
    let mut never = 0;
    loop {
        if pushed < n && (chance(30) || got.len() == pushed as usize) {
            for _ in 0..1 + choose((n - pushed) as usize) {
                f.push(Mb::W(wt(pushed)));
                pushed += 1;
                if chance(idle) {
                    f.push(Mb::Never);
                    never += 1;
                }
            }
        }
        match t.poll(|cx| f.poll_next_unpin(cx)) {
            Poll::Ready(Some(x)) => {
                got.push(x);
                let want = pushed as usize - got.len() + never;
                ensure!(f.len() == want, "crowd-len", "len {} with {want} members", f.len());
            }
            Poll::Ready(None) => {
                ensure!(never == 0 && got.len() == pushed as usize, "crowd-results", "ended with members left");
                if pushed == n {
                    break;
                }
            }
            Poll::Pending => {
                if got.len() == n as usize {
                    break; // only those are left that never complete
                }
                if got.len() < pushed as usize {
                    t.wait();
                }
            }
        }
    }
    once("FuturesUnordered", n, got, false);
}

pub fn window() {
    begin();
    let n = many();
    let lim = [1, 7, 31, 32, 33, 64, 200][choose(7)];
    let mut t = Task::new();
    t.limit = 100_000;
    let now = Rc::new(Cell::new(0usize));
    let n2 = now.clone();
    let job = move |i: u32| {
        let now = n2.clone();
        now.set(now.get() + 1);
        ensure!(now.get() <= lim, "crowd-limit", "{} jobs at a time with a limit of {lim}", now.get());
        let w = wt(i);
        async move {
            let r = w.await;
            now.set(now.get() - 1);
            r
        }
    };
    let src = stream::iter(0..n);
    match choose(5) {
        0 => {
            let v: Vec<u32> = t.block_on(std::pin::pin!(src.map(job).buffered(lim).collect()));
            once("buffered", n, v, true);
        }
        1 => {
            let v: Vec<u32> = t.block_on(std::pin::pin!(src.map(job).buffer_unordered(lim).collect()));
            once("buffer_unordered", n, v, false);
        }
        2 => {
            let v: Rc<RefCell<Vec<u32>>> = Default::default();
            let f = src.for_each_concurrent(lim, |i| {
                let (v, j) = (v.clone(), job(i));
                async move {
                    let r = j.await;
                    v.borrow_mut().push(r);
                }
            });
            t.block_on(std::pin::pin!(f));
            once("for_each_concurrent", n, v.take(), false);
        }
        3 => {
            let mut f: FuturesOrdered<Wt> = (0..n).map(wt).collect();
            let mut want: std::collections::VecDeque<u32> = (0..n).collect();
            let mut extra = n;
            while let Some(x) = t.block_on_with(|cx| f.poll_next_unpin(cx)) {
                ensure!(want.pop_front() == Some(x), "crowd-order", "FuturesOrdered yielded {x} out of order");
                if extra < n + 40 && chance(30) {
                    if chance(50) {
                        f.push_back(wt(extra));
                        want.push_back(extra);
                    } else {
                        f.push_front(wt(extra));
                        want.push_front(extra);
                    }
                    extra += 1;
                }
                ensure!(f.len() == want.len(), "crowd-len", "len {} with {} members", f.len(), want.len());
            }
            ensure!(want.is_empty(), "crowd-results", "FuturesOrdered ended with {} members to come", want.len());
        }
        _ => {
            let v: Vec<Vec<u32>> = t.block_on(std::pin::pin!(src.map(job).buffered(lim).chunks(1 + choose(70)).collect()));
            once("buffered in chunks", n, v.concat(), true);
        }
    }
}

pub fn merge() {
    begin();
    let n = many().min(70);
    let per = 1 + choose(5) as u32;
    let mut t = Task::new();
    t.limit = 100_000;
    let ss = (0..n).map(|i| Ws(Gate::with(choose(3)), i, 0, per));
    let lim = [1, 5, 31, 32, 33, 80][choose(6)];
    let got: Vec<(u32, u32)> = match choose(3) {
        0 => t.block_on(std::pin::pin!(stream::select_all(ss).collect())),
        1 => t.block_on(std::pin::pin!(stream::iter(ss).flatten_unordered(Some(lim)).collect())),
        _ => t.block_on(std::pin::pin!(stream::iter(ss).flatten_unordered(None).collect())),
    };
    let mut next = vec![0; n as usize];
    for (s, i) in &got {
        ensure!(next[*s as usize] == *i, "crowd-order", "item {i} of stream {s} came when {} was due", next[*s as usize]);
        next[*s as usize] += 1;
    }
    ensure!(got.len() == (n * per) as usize, "crowd-results", "{} of {} items", got.len(), n * per);
}

pub fn pool() {
    begin();
    let n = many();
    let done: Rc<RefCell<Vec<u32>>> = Default::default();
    let mut p = LocalPool::new();
    let sp = p.spawner();
    for i in 0..n {
        let (done, w, sp2) = (done.clone(), wt(i), sp.clone());
        let nest = i < n && chance(20);
        sp.spawn_local(async move {
            let r = w.await;
            if nest {
                let d = done.clone();
                sp2.spawn_local(async move {
                    let r = wt(r).await;
                    d.borrow_mut().push(r);
                })
                .unwrap();
            } else {
                done.borrow_mut().push(r);
            }
        })
        .unwrap();
    }
    loop {
        if chance(50) {
            p.run_until_stalled();
        } else {
            while p.try_run_one() {}
        }
        if done.borrow().len() == n as usize {
            break;
        }
        if !step() {
            fail("lost-wakeup", &format!("{} of {n} tasks completed and nothing is left to happen", done.borrow().len()));
        }
    }
    once("LocalPool", n, done.take(), false);
    drop(p);
}
