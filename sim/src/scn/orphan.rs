//! Tasks that nothing owns but the wakers they left behind (their executor is
//! gone), or that are cancelled by their own wake-up: the future is dropped in
//! the middle of the wake-up, by whoever causes it.
use crate::ex::th;
use crate::rt::*;
use futures::channel::{mpsc, oneshot};
use futures::future::{abortable, poll_fn, BoxFuture, FutureExt};
use futures::lock::{BiLock, Mutex};
use futures::sink::SinkExt;
use futures::stream::{self, FuturesUnordered, StreamExt};
use std::future::Future;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::thread;

struct Orphan {
    f: std::sync::Mutex<Option<BoxFuture<'static, ()>>>,
    cancel: bool,
    woken: AtomicBool,
}
impl Wake for Orphan {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if self.cancel {
            self.woken.swap(true, Ordering::AcqRel);
            let f = match self.f.try_lock() {
                Ok(mut g) => g.take(),
                Err(_) => None,
            };
            drop(f);
        }
    }
}
/// Polls the future, then leaves it to its wakers.
fn orphan(f: impl Future<Output = ()> + Send + 'static) {
    let c = chance(40);
    abandon(f, c)
}
fn abandon(f: impl Future<Output = ()> + Send + 'static, cancel: bool) {
    let t = Tracked::new(77);
    let f = async move {
        f.await;
        drop(t);
    };
    let a = Arc::new(Orphan { f: std::sync::Mutex::new(Some(f.boxed())), cancel, woken: AtomicBool::new(false) });
    count(F_CANCEL);
    for _ in 0..1 + choose(2) {
        let w = Waker::from(a.clone());
        let done = {
            let mut g = a.f.lock().unwrap();
            match &mut *g {
                Some(f) => f.as_mut().poll(&mut Context::from_waker(&w)).is_ready(),
                None => true,
            }
        };
        if done || a.woken.load(Ordering::Acquire) {
            let f = a.f.lock().unwrap().take();
            drop(f);
            break;
        }
    }
}
async fn never(al: th::Alarm) {
    poll_fn(move |cx| -> Poll<()> {
        al.post(cx.waker().clone());
        Poll::Pending
    })
    .await
}
fn par(a: impl FnOnce() + Send + 'static, b: impl FnOnce() + Send + 'static) {
    if chance(30) {
        a();
        b();
    } else {
        let j = thread::spawn(move || {
            th::dawdle(2);
            a()
        });
        th::dawdle(2);
        b();
        j.join().unwrap();
    }
}
fn task() -> th::Task {
    th::Task::new(th::faults())
}

fn locks() {
    let m = Arc::new(Mutex::new((0u32, Tracked::new(1))));
    let held = m.clone().try_lock_owned();
    let n = 1 + choose(3);
    let live = choose(3);
    let mut js = vec![];
    for i in 0..n {
        let m2 = m.clone();
        let go = move || {
            let m3 = m2.clone();
            orphan(async move {
                let mut g = m3.lock_owned().await;
                g.0 += 1;
            })
        };
        if i % 2 == 0 {
            js.push(thread::spawn(go));
        } else {
            go();
        }
    }
    for _ in 0..live {
        let m2 = m.clone();
        js.push(thread::spawn(move || {
            th::dawdle(3);
            let mut g = task().block_on(m2.lock());
            g.0 += 1;
            th::dawdle(2);
        }));
    }
    th::dawdle(4);
    drop(held);
    for j in js {
        j.join().unwrap();
    }
    // whoever is still waiting was orphaned while others held the lock, and each release wakes one
    ensure!(m.try_lock().is_some(), "mutex-stranded", "nobody holds the mutex but it cannot be locked");
    match Arc::try_unwrap(m) {
        Ok(_) => {}
        Err(_) => fail("orphan-leak", "an abandoned waiter of a mutex was neither woken nor dropped"),
    }
}
fn shareds() {
    let (tx, rx) = oneshot::channel::<u32>();
    let sh = rx.map(|r| r.ok()).shared();
    let mut js = vec![];
    for _ in 0..1 + choose(3) {
        let s = sh.clone();
        let go = move || {
            orphan(async move {
                s.await;
            })
        };
        if chance(50) {
            js.push(thread::spawn(go));
        } else {
            go();
        }
    }
    let send = chance(60);
    for _ in 0..choose(3) {
        let s = sh.clone();
        js.push(thread::spawn(move || {
            th::dawdle(2);
            let r = task().block_on(s);
            ensure!(r == if send { Some(5) } else { None }, "shared-output", "wrong output");
        }));
    }
    th::dawdle(4);
    let keep = if chance(50) { Some(sh) } else { None };
    if send {
        let _ = tx.send(5);
    } else {
        drop(tx);
    }
    for j in js {
        j.join().unwrap();
    }
    if let Some(s) = keep {
        let r = task().block_on(s);
        ensure!(r == if send { Some(5) } else { None }, "shared-output", "wrong output");
    }
}
fn oneshots() {
    let (mut tx, rx) = oneshot::channel::<Tracked>();
    if chance(50) {
        par(
            move || {
                orphan(async move {
                    let _ = rx.await;
                })
            },
            move || {
                if chance(60) {
                    let _ = tx.send(Tracked::new(4));
                }
            },
        )
    } else {
        par(
            move || orphan(async move { poll_fn(|cx| tx.poll_canceled(cx)).await }),
            move || {
                let mut rx = rx;
                if chance(30) {
                    rx.close();
                } else if chance(30) {
                    let r = task().poll(|cx| rx.poll_unpin(cx));
                    let _ = r;
                }
            },
        )
    }
}
fn channels() {
    let (tx, mut rx) = mpsc::channel::<Tracked>(choose(2));
    match choose(3) {
        0 => {
            // abandoned receiver
            let mut t2 = tx.clone();
            let mut t1 = tx;
            par(
                move || {
                    orphan(async move { while rx.next().await.is_some() {} });
                    for i in 0..choose(3) {
                        let _ = t2.try_send(Tracked::new(20 + i as u32));
                    }
                },
                move || {
                    for i in 0..1 + choose(3) {
                        let _ = t1.try_send(Tracked::new(10 + i as u32));
                    }
                },
            )
        }
        1 => {
            // abandoned senders
            let txs: Vec<_> = (0..1 + choose(3)).map(|_| tx.clone()).collect();
            drop(tx);
            par(
                move || {
                    for (i, mut t) in txs.into_iter().enumerate() {
                        orphan(async move {
                            for k in 0..4 {
                                if t.send(Tracked::new(i as u32 * 10 + k)).await.is_err() {
                                    break;
                                }
                            }
                        })
                    }
                },
                move || {
                    if chance(70) {
                        let mut t = task();
                        t.block_on_with(|cx| loop {
                            match rx.poll_next_unpin(cx) {
                                Poll::Ready(Some(_)) => {}
                                Poll::Ready(None) => return Poll::Ready(()),
                                Poll::Pending => return Poll::Pending,
                            }
                        });
                    } else {
                        let _ = rx.try_recv();
                        if chance(50) {
                            rx.close();
                        }
                    }
                },
            )
        }
        _ => {
            drop(tx);
            let (tx, rx) = mpsc::unbounded::<Tracked>();
            par(
                move || orphan(rx.for_each(|_| async {})),
                move || {
                    for i in 0..choose(3) {
                        let _ = tx.unbounded_send(Tracked::new(10 + i as u32));
                    }
                },
            )
        }
    }
}
fn halves() {
    let (a, b) = BiLock::new((0u32, Tracked::new(1)));
    let mut t = task();
    let j = {
        let g = match t.poll(|cx| a.poll_lock(cx)) {
            Poll::Ready(g) => g,
            _ => fail("bilock-free-not-acquired", "the lock was free but could not be acquired"),
        };
        let j = thread::spawn(move || {
            orphan(async move {
                b.lock().await.0 += 1;
            })
        });
        th::dawdle(4);
        drop(g);
        j
    };
    if chance(50) {
        let mut g = t.block_on(a.lock());
        g.0 += 1;
        drop(g);
    }
    j.join().unwrap();
    let g = t.block_on(a.lock());
    drop(g);
}
fn sets(al: &th::Alarm) {
    let n = 1 + choose(3);
    let fu: FuturesUnordered<_> = (0..n).map(|i| {
        let al = al.clone();
        let t = Tracked::new(i as u32);
        async move {
            let _t = t;
            never(al).await
        }
    }).collect();
    match choose(3) {
        0 => orphan(fu.for_each(|_| async {})),
        // keeps a waker of its own task as long as it exists, so it must be dropped by someone
        1 => abandon(stream::iter(vec![fu]).flatten_unordered(None).for_each(|_| async {}), true),
        _ => {
            let al = al.clone();
            orphan(stream::select_all(vec![fu]).for_each(move |_| never(al.clone())))
        }
    }
    if chance(50) {
        let al = al.clone();
        orphan(stream::iter(0..4).map(move |i| { let al = al.clone(); async move { if i > 0 { never(al).await } } }).buffered(2).for_each(|_| async {}));
    }
}
fn aborts(al: &th::Alarm) {
    if chance(50) {
        let (f, h) = abortable(never(al.clone()));
        par(move || orphan(async move { let _ = f.await; }), move || h.abort());
    } else {
        let al2 = al.clone();
        let waiter = chance(50);
        let (r, h) = async move {
            if !waiter && chance(70) {
                never(al2).await
            }
            Tracked::new(3)
        }
        .remote_handle();
        // the driver of the computation is alive, its waiting handle is not; or the other way round
        if waiter {
            par(
                move || orphan(async move { let _ = h.await; }),
                move || {
                    let mut r = Box::pin(r);
                    task().block_on_with(|cx| r.as_mut().poll(cx))
                },
            )
        } else {
            par(move || orphan(r), move || {
                let mut h = h;
                let _ = catch(|| task().poll(|cx| h.poll_unpin(cx)));
            })
        }
    }
}
pub fn run() {
    let (al, aj) = th::Alarm::start();
    match choose(8) {
        0 | 1 => locks(),
        2 | 3 => shareds(),
        4 => oneshots(),
        5 => channels(),
        6 => {
            if chance(50) {
                halves()
            } else {
                aborts(&al)
            }
        }
        _ => sets(&al),
    }
    al.stop();
    aj.join().unwrap();
    check_leaks("orphan");
}
