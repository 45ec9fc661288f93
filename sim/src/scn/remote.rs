//! Remote handles: the remote side and the handle on different threads.
use crate::ex::th;
use crate::rt::*;
use futures::future::{FutureExt, RemoteHandle};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::thread;

#[derive(Default)]
struct H {
    drop_start: Option<Stamp>,
    drop_end: Option<Stamp>,
    forget_start: Option<Stamp>,
    must_stop: bool,
    done: bool,
    panicked: bool,
    got: bool,
    dropped: bool,
}
type O = &'static Ora<H>;
struct In {
    leaf: th::Leaf,
    never: bool,
    panic: bool,
    keep: Option<std::task::Waker>,
    o: O,
    _t: Tracked,
}
impl Future for In {
    type Output = Tracked;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Tracked> {
        self.o.with(|o| {
            ensure!(!o.must_stop, "remote-polled-after-drop", "the computation was polled after its handle was dropped");
            ensure!(!o.done && !o.panicked, "remote-polled-done", "the computation was polled after completing");
        });
        if chance(30) {
            yield_now();
        }
        if self.never {
            self.keep = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if !self.leaf.poll(cx) {
            return Poll::Pending;
        }
        if self.panic {
            self.o.with(|o| o.panicked = true);
            inject_panic();
        }
        self.o.with(|o| o.done = true);
        Poll::Ready(Tracked::new(8))
    }
}
impl Drop for In {
    fn drop(&mut self) {
        self.o.with(|o| {
            ensure!(!o.dropped, "remote-double-drop", "computation dropped twice");
            o.dropped = true;
        });
    }
}
fn handle(mut h: RemoteHandle<Tracked>, prog: usize, o: O) {
    th::dawdle(3);
    let mut t = th::Task::new(th::faults());
    match prog {
        0 => {
            let r = catch(|| t.block_on_with(|cx| h.poll_unpin(cx)));
            match r {
                Ok(v) => ensure!(v.get() == 8 && o.with(|o| o.done), "remote-value", "wrong value"),
                Err(e) => ensure!(o.with(|o| o.panicked) && e.downcast_ref::<Injected>().is_some(), "remote-panic", "the handle panicked with something the computation did not raise"),
            }
            o.with(|o| o.got = true);
        }
        1 => {
            for _ in 0..choose(3) {
                match catch(|| t.poll(|cx| h.poll_unpin(cx))) {
                    Ok(Poll::Pending) => th::dawdle(2),
                    Ok(Poll::Ready(v)) => {
                        ensure!(v.get() == 8 && o.with(|o| o.done), "remote-value", "wrong value");
                        o.with(|o| o.got = true);
                        break;
                    }
                    Err(_) => {
                        ensure!(o.with(|o| o.panicked), "remote-panic", "the handle panicked although the computation did not");
                        o.with(|o| o.got = true);
                        break;
                    }
                }
            }
            count(F_CANCEL);
            o.with(|o| o.drop_start = Some(stamp()));
            let_go(h);
            o.with(|o| o.drop_end = Some(stamp()));
        }
        _ => {
            if chance(30) {
                match catch(|| t.poll(|cx| h.poll_unpin(cx))) {
                    Ok(Poll::Pending) => {}
                    _ => {
                        o.with(|o| o.got = true);
                        return;
                    }
                }
            }
            o.with(|o| o.forget_start = Some(stamp()));
            h.forget();
        }
    }
}
pub fn run() {
    let o = ora(H::default);
    let (al, aj) = th::Alarm::start();
    let prog = choose(3);
    let never = prog == 1 && chance(50);
    let panic = !never && chance(20);
    let inner = In { leaf: th::Leaf::new(&al, 3), never, panic, keep: None, o, _t: Tracked::new(1) };
    let (mut r, h) = inner.remote_handle();
    let early = chance(15) && prog == 0;
    let j = thread::spawn(move || handle(h, if early { 3 } else { prog }, o));
    if !early {
        let mut t = th::Task::new(th::faults());
        loop {
            let must = o.with(|o| {
                o.must_stop = o.drop_end.seen() && !o.got;
                o.must_stop
            });
            let p = t.poll(|cx| r.poll_unpin(cx));
            if p.is_ready() {
                break;
            }
            ensure!(!must, "remote-drop-ignored", "the remote side is still pending after its handle was dropped");
            t.wait();
        }
        o.with(|o| {
            let fin = o.done || o.panicked;
            ensure!(fin || o.drop_start.is_some(), "remote-stopped", "the remote side finished although the computation did not and the handle was not dropped");
            ensure!(fin || o.forget_start.is_none(), "remote-forgotten-stopped", "a forgotten computation was stopped");
        });
    }
    let_go(r);
    j.join().unwrap();
    al.stop();
    aj.join().unwrap();
    check_leaks("remote handle");
}
