//! Shared futures: several handles on several threads.
use crate::ex::th;
use crate::rt::*;
use futures::future::{FusedFuture, FutureExt, Shared, WeakShared};
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use std::thread;

#[derive(Default)]
pub struct H {
    in_poll: bool,
    done: bool,
    polls: u32,
    first_out: Option<Stamp>, // some handle got the output
    handles: i64,
    ever_zero: bool,
    panicked: bool,
}
type O = &'static Ora<H>;
#[derive(Clone)]
pub struct Out(Arc<Tracked>);
pub struct Fu {
    leaf: th::Leaf,
    cnt: u64, // plain: overlapping polls are a data race
    o: O,
    panic_at: u32,
    _t: Tracked,
}
impl Future for Fu {
    type Output = Out;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Out> {
        self.o.with(|o| {
            ensure!(!o.in_poll, "shared-overlap", "the wrapped future is polled by two handles at once");
            ensure!(!o.done, "shared-polled-after-done", "the wrapped future was polled after it completed");
            ensure!(!o.panicked, "shared-polled-after-panic", "the wrapped future was polled after it panicked");
            o.in_poll = true;
            o.polls += 1;
        });
        self.cnt += 1;
        if chance(40) {
            yield_now();
        }
        if self.panic_at as u64 == self.cnt {
            self.o.with(|o| {
                o.in_poll = false;
                o.panicked = true;
            });
            inject_panic();
        }
        let r = self.leaf.poll(cx);
        if chance(30) {
            yield_now();
        }
        self.cnt += 1;
        self.cnt -= 1;
        self.o.with(|o| {
            o.in_poll = false;
            o.done = r;
        });
        if r {
            Poll::Ready(Out(Arc::new(Tracked::new(5))))
        } else {
            Poll::Pending
        }
    }
}
type S = Shared<Fu>;
struct Hd {
    s: Option<S>,
    o: O,
    t: Option<th::Task>, // the task that waits for it
}
impl Hd {
    fn new(s: S, o: O) -> Hd {
        o.with(|o| o.handles += 1);
        Hd { s: Some(s), o, t: None }
    }
    fn dup(&self) -> Hd {
        let c = self.s.as_ref().unwrap().clone();
        Hd::new(c, self.o)
    }
}
impl Drop for Hd {
    fn drop(&mut self) {
        let_go(self.s.take());
        self.o.with(|o| o.handles -= 1);
    }
}
fn got(o: O, v: Out) {
    ensure!(v.0.get() == 5, "shared-value", "wrong output");
    o.with(|o| {
        ensure!(o.done, "shared-early", "a handle resolved before the wrapped future completed");
        o.first_out.get_or_insert(stamp());
    });
}
/// Polls a handle once; a poisoned shared future propagates the panic.
fn poll1(h: &mut Hd, cx: &mut Context<'_>, panics: bool) -> Poll<Option<Out>> {
    let must = h.o.with(|o| o.first_out.seen());
    let s = h.s.as_mut().unwrap();
    let r = if panics {
        match allow_panic(|| s.poll_unpin(cx)) {
            Ok(p) => p.map(Some),
            Err(_) => {
                ensure!(h.o.with(|o| o.panicked), "shared-panic", "a handle panicked although the wrapped future did not");
                // the handle is spent
                Poll::Ready(None)
            }
        }
    } else {
        s.poll_unpin(cx).map(Some)
    };
    ensure!(!(must && r.is_pending()), "shared-late", "a handle is pending although the output was already available");
    if let Poll::Ready(Some(v)) = &r {
        got(h.o, v.clone());
        ensure!(h.s.as_ref().unwrap().is_terminated(), "shared-terminated", "resolved handle is not terminated");
    }
    r
}
fn peek(h: &Hd, panics: bool) {
    let must = h.o.with(|o| o.first_out.seen());
    let s = h.s.as_ref().unwrap();
    let r = if panics { allow_panic(|| s.peek().cloned()).unwrap_or(None) } else { s.peek().cloned() };
    match r {
        Some(v) => ensure!(v.0.get() == 5 && h.o.with(|o| o.done), "shared-peek", "peek shows an output before completion"),
        None => ensure!(!must || panics, "shared-peek", "peek shows nothing although the output was already available"),
    }
}
fn worker(h: Hd, n: usize, stay: bool, panics: bool) {
    let o = h.o;
    let mut hs = vec![h];
    let mut weak: Option<WeakShared<Fu>> = None;
    for _ in 0..n {
        if hs.is_empty() {
            break;
        }
        let i = choose(hs.len());
        match choose(11) {
            9 | 10 => {
                // poll it and let it wait, to be copied, moved or dropped later
                let mut h = hs.swap_remove(i);
                let mut t = h.t.take().unwrap_or_else(|| th::Task::new(th::faults()));
                if t.poll(|cx| poll1(&mut h, cx, panics)).is_pending() {
                    h.t = Some(t);
                    hs.push(h);
                } else if hs.is_empty() && stay {
                    return;
                }
            }
            0 | 1 => {
                // poll a few times, then cancel
                let mut c = if chance(60) { hs[i].dup() } else { hs.swap_remove(i) };
                let mut t = th::Task::new(th::faults());
                let n = 1 + choose(2) as u32;
                let mut done = false;
                for k in 0..n {
                    if t.poll(|cx| poll1(&mut c, cx, panics)).is_ready() {
                        done = true;
                        break;
                    }
                    if k + 1 < n {
                        if chance(50) {
                            t.wait()
                        } else {
                            th::dawdle(3)
                        }
                    }
                }
                if !done {
                    count(F_CANCEL);
                    th::dawdle(3);
                }
                let_go(c);
                if hs.is_empty() && stay {
                    if let Some(s) = weak.as_ref().and_then(|w| w.upgrade()) {
                        hs.push(Hd::new(s, o));
                    }
                }
            }
            2 => {
                let c = hs[i].dup();
                hs.push(c);
            }
            3 => {
                let mut c = hs[i].dup();
                let mut t = th::Task::new(th::faults());
                t.block_on_with(|cx| poll1(&mut c, cx, panics));
            }
            4 => peek(&hs[i], panics),
            5 => {
                let s = hs[i].s.as_ref().unwrap();
                weak = s.downgrade();
                ensure!(weak.is_some(), "shared-weak", "an unfinished handle could not be downgraded");
                if chance(50) {
                    let up = weak.as_ref().unwrap().upgrade();
                    match up {
                        None => fail("shared-weak", "upgrade failed while a handle is alive"),
                        Some(u) => {
                            ensure!(u.ptr_eq(s), "shared-weak", "upgrade gave an unrelated handle");
                            let c = s.strong_count().unwrap();
                            ensure!(c >= 2, "shared-count", "strong count {c} with two handles alive");
                            let w2 = weak.clone();
                            let c = s.weak_count().unwrap();
                            ensure!(c >= 2, "shared-count", "weak count {c} with two weak handles alive");
                            let (mut ha, mut hb) = (std::hash::DefaultHasher::new(), std::hash::DefaultHasher::new());
                            s.ptr_hash(&mut ha);
                            u.ptr_hash(&mut hb);
                            ensure!(std::hash::Hasher::finish(&ha) == std::hash::Hasher::finish(&hb), "shared-weak", "handles of one future hash differently");
                            ensure!(w2.is_some_and(|w| w.upgrade().is_some_and(|x| x.ptr_eq(s))), "shared-weak", "a copy of a weak handle is not one of the same future");
                            hs.push(Hd::new(u, o));
                        }
                    }
                }
            }
            6 if hs.len() >= 2 => {
                // two handles of one task
                let mut a = hs.pop().unwrap();
                let mut b = hs.pop().unwrap();
                let (mut da, mut db) = (false, false);
                let mut t = th::Task::new(th::faults());
                t.block_on_with(|cx| {
                    if !da && poll1(&mut a, cx, panics).is_ready() {
                        da = true;
                    }
                    if !db && poll1(&mut b, cx, panics).is_ready() {
                        db = true;
                    }
                    if da && db {
                        Poll::Ready(())
                    } else {
                        Poll::Pending
                    }
                });
            }
            _ => th::dawdle(3),
        }
    }
    if stay {
        for mut h in hs {
            let mut t = th::Task::new(th::faults());
            if let Some(w) = h.t.take() {
                t = w;
                t.wait();
            }
            t.block_on_with(|cx| poll1(&mut h, cx, panics));
        }
    } else {
        let_go(hs);
        if let Some(w) = weak {
            // as long as somebody holds the future, it can be reached; afterwards its memory is kept only
            drop(w.upgrade());
        }
    }
}
fn go(panics: bool) {
    let o = ora(H::default);
    let (al, aj) = th::Alarm::start();
    let max = choose(4);
    let panic_at = if panics { 1 + choose(max + 1) as u32 } else { 0 };
    let f = Fu { leaf: th::Leaf::new(&al, max), cnt: 0, o, panic_at, _t: Tracked::new(1) };
    let s = f.shared();
    let n = choose(4);
    let mut js = vec![];
    let h = Hd::new(s, o);
    for _ in 0..1 + choose(2) {
        let c = h.dup();
        let stay = chance(70);
        js.push(thread::spawn(move || worker(c, n, stay, panics)));
    }
    let stay = chance(70);
    worker(h, n, stay, panics);
    for j in js {
        j.join().unwrap();
    }
    al.stop();
    aj.join().unwrap();
    drop(al);
    check_leaks("shared");
}
pub fn run() {
    go(false)
}
pub fn panics() {
    go(true)
}
