//! Asynchronous mutex.
use crate::ex::th;
use crate::rt::*;
use futures::future::{FusedFuture, FutureExt};
use futures::lock::{MappedMutexGuard, Mutex, MutexGuard, MutexLockFuture, OwnedMutexGuard, OwnedMutexLockFuture};
use std::sync::Arc;
use std::task::Poll;
use std::thread;

#[derive(Default)]
struct H {
    held: usize,
    inflight: usize, // operations that may acquire, currently running
    starts: u64,
    last_release: Option<Stamp>,
    releasing: usize,
    incs: u64,
    panics: bool,
}
type O = &'static Ora<H>;
type V = (u64, Tracked);
type M = Arc<Mutex<V>>;

enum G<'a> {
    R(MutexGuard<'a, V>),
    O(OwnedMutexGuard<V>),
    M(MappedMutexGuard<'a, V, u64>),
}
enum F<'a> {
    R(MutexLockFuture<'a, V>),
    O(OwnedMutexLockFuture<V>),
}

/// Runs an acquiring attempt; checks it may fail only if the lock could be taken.
fn attempt<'a>(o: O, f: impl FnOnce() -> Option<G<'a>>) -> Option<G<'a>> {
    let (free, st) = o.with(|o| {
        o.inflight += 1;
        o.starts += 1;
        (o.held == 0 && o.inflight == 1 && o.releasing == 0 && o.last_release.map_or(true, |s| s.seen()), o.starts)
    });
    let r = f();
    o.with(|o| {
        o.inflight -= 1;
        if r.is_some() {
            ensure!(o.held == 0, "mutex-not-exclusive", "two guards exist at once");
            o.held += 1;
        } else {
            ensure!(!(free && o.starts == st), "mutex-free-not-acquired", "the mutex was free but could not be acquired");
        }
    });
    r
}
fn use_guard<'a>(o: O, g: G<'a>) {
    let mut g = g;
    let inc = 1 + choose(2);
    for _ in 0..inc {
        let p: &mut u64 = match &mut g {
            G::R(g) => &mut g.0,
            G::O(g) => &mut g.0,
            G::M(g) => g,
        };
        let v = *p;
        if chance(40) {
            yield_now();
        }
        *p = v + 1;
    }
    o.with(|o| o.incs += inc as u64);
    if chance(30) {
        th::dawdle(3);
    }
    if o.with(|o| o.panics) && chance(40) {
        // user code panics while it holds the guard, or while it maps it
        let die = || -> ! {
            o.with(|o| {
                o.held = 0;
                o.releasing += 1;
            });
            inject_panic()
        };
        let r = catch(move || match g {
            G::R(g) if chance(35) => drop(MutexGuard::map(g, |_| -> &mut u64 { die() })),
            G::R(g) if chance(50) => {
                let m = MutexGuard::map(g, |v| &mut v.0);
                drop(MappedMutexGuard::map(m, |_| -> &mut u64 { die() }))
            }
            g => {
                let _g = g;
                die()
            }
        });
        ensure!(r.is_err(), "mutex-panic", "a panic was swallowed");
        o.with(|o| {
            o.releasing -= 1;
            o.last_release = Some(stamp());
        });
        return;
    }
    if let G::R(r) = g {
        g = if chance(40) {
            let m = MutexGuard::map(r, |v| &mut v.0);
            let mut m = if chance(40) { MappedMutexGuard::map(m, |x| x) } else { m };
            *m += 1;
            o.with(|o| o.incs += 1);
            G::M(m)
        } else {
            G::R(r)
        };
    }
    o.with(|o| {
        ensure!(o.held == 1, "mutex-not-exclusive", "two guards exist at once");
        o.held = 0;
        o.releasing += 1;
    });
    let_go(g);
    o.with(|o| {
        o.releasing -= 1;
        o.last_release = Some(stamp());
    });
}
fn fut<'a>(m: &'a M) -> F<'a> {
    if chance(50) {
        F::R(m.lock())
    } else {
        F::O(m.clone().lock_owned())
    }
}
fn poll_cx<'a>(o: O, cx: &mut std::task::Context<'_>, f: &mut F<'a>) -> Option<G<'a>> {
    attempt(o, || match f {
        F::R(f) => match f.poll_unpin(cx) {
            Poll::Ready(g) => Some(G::R(g)),
            _ => None,
        },
        F::O(f) => match f.poll_unpin(cx) {
            Poll::Ready(g) => Some(G::O(g)),
            _ => None,
        },
    })
}
fn poll<'a>(o: O, t: &mut th::Task, f: &mut F<'a>) -> Option<G<'a>> {
    match t.poll(|cx| match poll_cx(o, cx, f) {
        Some(g) => Poll::Ready(g),
        None => Poll::Pending,
    }) {
        Poll::Ready(g) => Some(g),
        Poll::Pending => None,
    }
}
fn term(f: &F<'_>) -> bool {
    match f {
        F::R(f) => f.is_terminated(),
        F::O(f) => f.is_terminated(),
    }
}
fn worker(m: &M, o: O, n: usize) {
    for _ in 0..n {
        match choose(8) {
            0 | 1 | 2 => {
                let mut f = fut(m);
                let mut t = th::Task::new(th::faults());
                let g = loop {
                    if let Some(g) = poll(o, &mut t, &mut f) {
                        break g;
                    }
                    ensure!(!term(&f), "mutex-terminated", "waiting lock future claims to be terminated");
                    t.wait();
                };
                ensure!(term(&f), "mutex-terminated", "resolved lock future is not terminated");
                if chance(50) {
                    let_go(f);
                    use_guard(o, g);
                } else {
                    use_guard(o, g);
                    let_go(f);
                }
            }
            3 | 4 => {
                // wait a little, then give up (possibly after having been woken)
                let mut f = fut(m);
                let mut t = th::Task::new(th::faults());
                for i in 0..1 + choose(2) {
                    if i > 0 {
                        if chance(60) {
                            t.wait();
                        } else {
                            th::dawdle(3);
                        }
                    }
                    if let Some(g) = poll(o, &mut t, &mut f) {
                        use_guard(o, g);
                        break;
                    }
                }
                if !term(&f) {
                    count(F_CANCEL);
                    th::dawdle(3);
                }
                let_go(f);
            }
            5 => {
                // two waits of one task
                let (mut f1, mut f2) = (Some(fut(m)), Some(fut(m)));
                let mut t = th::Task::new(th::faults());
                t.block_on_with(|cx| {
                    loop {
                        let mut prog = false;
                        for f in [&mut f1, &mut f2] {
                            let g = match f {
                                Some(x) => poll_cx(o, cx, x),
                                None => None,
                            };
                            if let Some(g) = g {
                                use_guard(o, g);
                                *f = None;
                                prog = true;
                            }
                        }
                        if !prog {
                            break;
                        }
                    }
                    if f1.is_none() && f2.is_none() {
                        Poll::Ready(())
                    } else {
                        Poll::Pending
                    }
                });
            }
            6 => {
                let g = attempt(o, || if chance(50) { m.try_lock().map(G::R) } else { m.try_lock_owned().map(G::O) });
                if let Some(g) = g {
                    use_guard(o, g);
                }
            }
            _ => th::dawdle(3),
        }
    }
}
pub fn run() {
    go(false)
}
pub fn panics() {
    go(true)
}
fn go(panics: bool) {
    let o = ora(|| H { panics, ..H::default() });
    let m: M = Arc::new(if chance(50) { Mutex::new((0, Tracked::new(1))) } else { (0, Tracked::new(1)).into() });
    let n = 1 + choose(3);
    let mut js = vec![];
    for _ in 0..1 + choose(3) {
        let m = m.clone();
        js.push(thread::spawn(move || worker(&m, o, n)));
    }
    worker(&m, o, n);
    for j in js {
        j.join().unwrap();
    }
    let total = o.with(|o| o.incs);
    let mut m = match Arc::try_unwrap(m) {
        Ok(m) => m,
        Err(_) => fail("mutex-leak", "a reference to the mutex outlives every guard and future"),
    };
    let v = m.get_mut().0;
    ensure!(v == total, "mutex-lost-update", "{} increments under the lock, value is {}", total, v);
    let v = m.into_inner();
    ensure!(v.0 == total, "mutex-lost-update", "{} increments under the lock, value is {}", total, v.0);
    drop(v);
    check_leaks("mutex");
}
