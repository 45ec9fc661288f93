//! FuturesUnordered with wake-ups from other threads.
use crate::ex::th;
use crate::rt::*;
use futures::future::FutureExt;
use futures::task::{FutureObj, LocalFutureObj, LocalSpawn, Spawn};
use futures::stream::{FusedStream, FuturesUnordered, Stream, StreamExt};
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::thread;

#[derive(Default, Clone)]
struct Mb {
    started: u64,
    inflight: u64,
    seen_started: u64,
    seen_inflight: u64,
    base_started: u64,
    base_inflight: u64,
    polls: u32,
    in_poll: bool,
    done: bool,
    panicked: bool,
    yielded: bool,
    drops: u32,
}
#[derive(Default)]
struct H {
    m: Vec<Mb>,
    drop_panic: bool,
}
type O = &'static Ora<H>;

/// Records wake-ups around the real waker.
struct Sig {
    w: Waker,
    id: usize,
    o: O,
}
impl Wake for Sig {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.o.with(|o| {
            o.m[self.id].started += 1;
            o.m[self.id].inflight += 1;
        });
        if chance(50) {
            self.w.wake_by_ref();
        } else {
            self.w.clone().wake();
        }
        self.o.with(|o| o.m[self.id].inflight -= 1);
    }
}
struct Mem {
    id: usize,
    left: usize,
    cnt: u64,
    ev: th::Event,
    al: th::Alarm,
    stale: bool,
    panic_at: u32,
    panic_drop: bool,
    o: O,
    _t: Tracked,
}
impl Mem {
    fn new(al: &th::Alarm, o: O, panics: bool) -> Mem {
        let id = o.with(|o| {
            o.m.push(Mb::default());
            o.m.len() - 1
        });
        let left = choose(4);
        Mem {
            id,
            left,
            cnt: 0,
            ev: Default::default(),
            al: al.clone(),
            stale: chance(30),
            panic_at: if panics && chance(30) { 1 + choose(left + 1) as u32 } else { 0 },
            panic_drop: panics && chance(10),
            o,
            _t: Tracked::new(id as u32),
        }
    }
}
impl Future for Mem {
    type Output = Tracked;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Tracked> {
        let id = self.id;
        let n = self.o.with(|o| {
            let m = &mut o.m[id];
            ensure!(!m.in_poll && !m.done && !m.panicked && m.drops == 0, "fu-bad-poll", "member {id} polled while running, completed or dropped");
            ensure!(
                m.polls == 0 || m.started > m.seen_started || m.inflight > 0 || m.seen_inflight > 0,
                "fu-unwoken-poll",
                "member {id} polled although it was not woken since its last poll"
            );
            // wake-ups since the dequeue that led to this poll justify the next one;
            // the dequeue happened after the outer poll and the previous member poll began
            m.seen_started = m.base_started;
            m.seen_inflight = m.base_inflight;
            m.base_started = m.started;
            m.base_inflight = m.inflight;
            m.polls += 1;
            m.in_poll = true;
            m.polls
        });
        self.cnt += 1;
        if self.stale && chance(50) {
            // a waker that may fire long after this future is gone
            count(F_STALE_WAKER);
            self.al.post(Waker::from(Arc::new(Sig { w: cx.waker().clone(), id, o: self.o })));
        }
        if n == self.panic_at {
            self.o.with(|o| {
                o.m[id].in_poll = false;
                o.m[id].panicked = true;
            });
            inject_panic();
        }
        let al = self.al.clone();
        let o = self.o;
        if self.ev.waiting(&al, cx, || Waker::from(Arc::new(Sig { w: cx.waker().clone(), id, o }))) {
            self.o.with(|o| o.m[id].in_poll = false);
            return Poll::Pending;
        }
        if self.left > 0 {
            self.left -= 1;
            count(F_PENDING);
            match choose(7) {
                2 | 3 => self.ev.arm(&al, cx, Waker::from(Arc::new(Sig { w: cx.waker().clone(), id, o }))),
                0 => {
                    count(F_SELF_WAKE);
                    self.o.with(|o| o.m[id].started += 1);
                    cx.waker().wake_by_ref();
                }
                1 => {
                    count(F_SELF_WAKE);
                    self.o.with(|o| o.m[id].started += 1);
                    cx.waker().clone().wake();
                }
                _ => self.al.post(Waker::from(Arc::new(Sig { w: cx.waker().clone(), id, o: self.o }))),
            }
            if chance(30) {
                yield_now();
            }
            self.o.with(|o| o.m[id].in_poll = false);
            return Poll::Pending;
        }
        self.o.with(|o| {
            o.m[id].in_poll = false;
            o.m[id].done = true;
        });
        Poll::Ready(Tracked::new(1000 + id as u32))
    }
}
impl Drop for Mem {
    fn drop(&mut self) {
        self.cnt += 1;
        let id = self.id;
        self.o.with(|o| {
            o.m[id].drops += 1;
            ensure!(o.m[id].drops == 1, "fu-double-drop", "member {id} dropped twice");
        });
        if self.panic_drop && !std::thread::panicking() {
            self.panic_drop = false;
            self.o.with(|o| {
                o.m[id].panicked = true;
                o.drop_panic = true;
            });
            inject_panic();
        }
    }
}
fn outstanding(o: O, members: &[usize]) -> usize {
    o.with(|o| members.iter().filter(|&&i| !o.m[i].yielded && !o.m[i].panicked && o.m[i].drops == 0).count())
}
fn item(o: O, v: Tracked) {
    let id = v.get() as usize - 1000;
    o.with(|o| {
        ensure!(o.m[id].done, "fu-early", "output of member {id} before it completed");
        ensure!(!o.m[id].yielded, "fu-twice", "output of member {id} yielded twice");
        o.m[id].yielded = true;
    });
}
/// `live` counts members that are still in the set (pushed and not yielded).
fn check_len(f: &FuturesUnordered<Mem>, live: usize) {
    let n = f.len();
    ensure!(n == live, "fu-len", "len is {n}, {live} members are in the set");
    ensure!(f.is_empty() == (live == 0), "fu-len", "is_empty is wrong");
    ensure!(f.size_hint() == (live, Some(live)), "fu-len", "size hint is wrong");
}
/// Everything (or, if `part`, some of what) an iterator gives, with its length checked on the way.
pub fn walk<I: ExactSizeIterator>(mut it: I, part: bool) -> Vec<I::Item> {
    let n = it.len();
    let mut v = vec![];
    loop {
        ensure!(it.size_hint() == (n - v.len(), Some(n - v.len())), "fu-iter", "an iterator over {n} members has size hint {:?} after {}", it.size_hint(), v.len());
        if part && chance(40) {
            return v;
        }
        match it.next() {
            Some(x) => v.push(x),
            None => break,
        }
        ensure!(v.len() <= n, "fu-iter", "an iterator over {n} members gives more");
    }
    ensure!(v.len() == n, "fu-iter", "an iterator over {n} members gives {}", v.len());
    v
}
fn go(panics: bool) {
    let o = ora(H::default);
    let (al, aj) = th::Alarm::start();
    let mut f: FuturesUnordered<Mem> = if chance(50) { FuturesUnordered::new() } else { Default::default() };
    let mut all: Vec<usize> = vec![]; // members pushed into the current set
    if chance(25) {
        // concurrent pushes through a shared reference
        let n2 = 1 + choose(2);
        let push = |k: usize, f: &FuturesUnordered<Mem>| {
            let mut v = vec![];
            for _ in 0..k {
                let m = Mem::new(&al, o, panics);
                v.push(m.id);
                f.push(m);
                if chance(30) {
                    let c = walk(f.iter(), false).len();
                    ensure!(c <= 6, "fu-iter", "iteration saw {c} members");
                    ensure!(f.len() >= v.len(), "fu-len", "len smaller than own pushes");
                }
            }
            v
        };
        let (a, b) = thread::scope(|s| {
            let j = s.spawn(|| push(n2, &f));
            let a = push(1 + choose(2), &f);
            (a, j.join().unwrap())
        });
        all.extend(a);
        all.extend(b);
        check_len(&f, all.len());
    } else if chance(30) {
        let v: Vec<Mem> = (0..choose(4)).map(|_| Mem::new(&al, o, panics)).collect();
        all.extend(v.iter().map(|m| m.id));
        f = v.into_iter().collect();
    }
    let steps = 2 + choose(6);
    let mut t = th::Task::new(th::faults());
    let mut total = all.len();
    let mut waiting = false; // last poll was Pending and nothing changed since
    let mut poll = |f: &mut FuturesUnordered<Mem>, t: &mut th::Task, all: &Vec<usize>| -> Poll<Option<()>> {
        let before = outstanding(o, all);
        o.with(|o| {
            for m in o.m.iter_mut() {
                m.base_started = m.started;
                m.base_inflight = m.inflight;
            }
        });
        let r = if panics {
            match catch(|| t.poll(|cx| f.poll_next_unpin(cx))) {
                Ok(r) => r,
                Err(_) => return Poll::Ready(Some(())),
            }
        } else {
            t.poll(|cx| f.poll_next_unpin(cx))
        };
        match r {
            Poll::Ready(Some(v)) => {
                item(o, v);
                ensure!(!f.is_terminated(), "fu-terminated", "terminated although an item was just yielded");
                Poll::Ready(Some(()))
            }
            Poll::Ready(None) => {
                ensure!(before == 0, "fu-false-end", "the set ended with {before} members outstanding");
                ensure!(f.is_terminated(), "fu-terminated", "not terminated after the end");
                Poll::Ready(None)
            }
            Poll::Pending => {
                ensure!(before > 0, "fu-no-end", "pending although the set is empty");
                ensure!(!f.is_terminated(), "fu-terminated", "terminated while pending");
                Poll::Pending
            }
        }
    };
    for _ in 0..steps {
        match choose(10) {
            0 | 1 | 2 if total < 6 => {
                if chance(20) {
                    let v: Vec<Mem> = (0..1 + choose(2)).map(|_| Mem::new(&al, o, panics)).collect();
                    all.extend(v.iter().map(|m| m.id));
                    total += v.len();
                    f.extend(v);
                } else {
                    let m = Mem::new(&al, o, panics);
                    all.push(m.id);
                    total += 1;
                    f.push(m);
                }
                waiting = false;
                ensure!(!f.is_terminated(), "fu-terminated", "terminated after a push");
            }
            3 => waiting = poll(&mut f, &mut t, &all).is_pending(),
            4 | 5 => loop {
                if waiting {
                    t.wait();
                }
                waiting = poll(&mut f, &mut t, &all).is_pending();
                if !waiting {
                    break;
                }
            },
            6 if !panics => {
                let ids: Vec<usize> = match choose(6) {
                    4 => walk((&f).into_iter(), false).iter().map(|m| m.id).collect(),
                    5 => walk((&mut f).into_iter(), false).iter().map(|m| m.id).collect(),
                    0 => walk(f.iter(), false).iter().map(|m| m.id).collect(),
                    1 => walk(f.iter_mut(), false).iter().map(|m| m.id).collect(),
                    2 => walk(Pin::new(&f).iter_pin_ref(), false).iter().map(|m| m.id).collect(),
                    _ => walk(Pin::new(&mut f).iter_pin_mut(), false).iter().map(|m| m.id).collect(),
                };
                let want = outstanding(o, &all);
                ensure!(ids.len() == want, "fu-iter", "iteration visits {} of {want} members", ids.len());
                for (i, a) in ids.iter().enumerate() {
                    ensure!(all.contains(a) && !ids[..i].contains(a), "fu-iter", "iteration visits a wrong member");
                }
            }
            7 if chance(30) => {
                count(F_CANCEL);
                if panics {
                    let _ = catch(|| f.clear());
                    if f.len() != 0 {
                        break;
                    }
                } else {
                    f.clear();
                }
                if !panics {
                    for &i in &all {
                        ensure!(o.with(|o| o.m[i].drops == 1), "fu-clear", "clear left member {i} alive");
                    }
                }
                all.clear();
                waiting = false;
            }
            _ => th::dawdle(3),
        }
        if !panics {
            check_len(&f, outstanding(o, &all));
        }
    }
    match choose(4) {
        0 => {
            count(F_CANCEL);
            if panics {
                let _ = catch(|| drop(f));
            } else {
                let_go(f);
            }
        }
        1 if !panics => {
            let want = outstanding(o, &all);
            let it = f.into_iter();
            let part = chance(30);
            let ids: Vec<usize> = walk(it, part).iter().map(|m| m.id).collect();
            for (i, a) in ids.iter().enumerate() {
                ensure!(all.contains(a) && !ids[..i].contains(a), "fu-iter", "into_iter gives a wrong member");
            }
            ensure!(part || ids.len() == want, "fu-iter", "into_iter gave {} of {want} members", ids.len());
        }
        _ => {
            loop {
                if waiting {
                    t.wait();
                }
                match poll(&mut f, &mut t, &all) {
                    Poll::Ready(None) => break,
                    Poll::Ready(_) => waiting = false,
                    Poll::Pending => waiting = true,
                }
            }
            for &i in &all {
                ensure!(o.with(|o| o.m[i].yielded || o.m[i].panicked), "fu-lost", "member {i} was never yielded");
            }
            let r = t.poll(|cx| f.poll_next_unpin(cx));
            ensure!(matches!(r, Poll::Ready(None)), "fu-end", "the end of an empty set is not repeated");
            let_go(f);
        }
    }
    al.stop();
    aj.join().unwrap();
    drop(al);
    if o.with(|o| o.drop_panic) {
        // a panicking destructor may leak what was being returned (rust-lang/rust#47949),
        // but must not have dropped or touched anything twice, which was checked throughout
        leaks_ok();
        return;
    }
    o.with(|o| {
        for (i, m) in o.m.iter().enumerate() {
            ensure!(m.drops == 1, "fu-leak", "member {i} was dropped {} times", m.drops);
        }
    });
    check_leaks("futures-unordered");
}
/// A set of task objects is a spawner: what is spawned into it is run by polling the set.
fn spawner() {
    let o = ora(H::default);
    let (al, aj) = th::Alarm::start();
    let n = 1 + choose(3);
    let ms: Vec<Mem> = (0..n).map(|_| Mem::new(&al, o, false)).collect();
    let mut t = th::Task::new(th::faults());
    let done = move |v| item(o, v);
    if chance(50) {
        let mut f: FuturesUnordered<FutureObj<'_, ()>> = FuturesUnordered::new();
        for m in ms {
            f.spawn_obj(Box::new(m.map(done)).into()).unwrap();
        }
        ensure!(f.len() == n, "fu-len", "len is {} after spawning {n}", f.len());
        for _ in 0..n {
            let r = t.block_on(f.next());
            ensure!(r == Some(()), "fu-false-end", "the set ended too early");
        }
        ensure!(t.block_on(f.next()).is_none(), "fu-no-end", "the set does not end");
        let_go(f);
    } else {
        let mut f: FuturesUnordered<LocalFutureObj<'_, ()>> = FuturesUnordered::new();
        for m in ms {
            f.spawn_local_obj(Box::pin(m.map(done)).into()).unwrap();
        }
        ensure!(f.len() == n, "fu-len", "len is {} after spawning {n}", f.len());
        for _ in 0..n {
            let r = t.block_on(f.next());
            ensure!(r == Some(()), "fu-false-end", "the set ended too early");
        }
        ensure!(t.block_on(f.next()).is_none(), "fu-no-end", "the set does not end");
        let_go(f);
    }
    al.stop();
    aj.join().unwrap();
    drop(al);
    o.with(|o| {
        for (i, m) in o.m.iter().enumerate() {
            ensure!(m.drops == 1 && m.yielded, "fu-leak", "spawned member {i}: yielded {}, dropped {} times", m.yielded, m.drops);
        }
    });
    check_leaks("futures-unordered as a spawner");
}
pub fn run() {
    if chance(3) {
        spawner()
    } else {
        go(false)
    }
}
pub fn panics() {
    go(true)
}
