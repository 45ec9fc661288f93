//! Oneshot channels: at most one value, delivered exactly once or handed back,
//! cancellation seen by both sides, both sides woken.
use crate::ex::th;
use crate::rt::*;
use futures::channel::oneshot;
use futures::future::{FusedFuture, FutureExt};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::thread;

#[derive(Default, Clone)]
struct H {
    send_start: Option<Stamp>,
    send_end: Option<Stamp>,
    send_ok: Option<bool>,
    sdrop_start: Option<Stamp>, // sender dropped without sending
    sdrop_end: Option<Stamp>,
    close_start: Option<Stamp>, // close() or drop of the receiver
    close_end: Option<Stamp>,
    got: Option<Result<u32, ()>>,
}
type O = &'static Ora<H>;

fn do_send(tx: oneshot::Sender<Tracked>, h: O) {
    let v = Tracked::new(7);
    let must_fail = h.with(|h| {
        h.send_start = Some(stamp());
        h.close_end.seen()
    });
    let r = tx.send(v);
    h.with(|h| {
        h.send_end = Some(stamp());
        h.send_ok = Some(r.is_ok());
        ensure!(!(must_fail && r.is_ok()), "oneshot-send-after-close", "send succeeded after the receiver was closed");
        ensure!(r.is_ok() || h.close_start.is_some(), "oneshot-send-refused", "send failed although the receiver was open");
    });
    if let Err(v) = r {
        ensure!(v.get() == 7, "oneshot-wrong-value", "send handed back another value");
    }
}
fn do_sdrop(tx: oneshot::Sender<Tracked>, h: O) {
    h.with(|h| h.sdrop_start = Some(stamp()));
    let_go(tx);
    h.with(|h| h.sdrop_end = Some(stamp()));
}
fn cancel_check(h: O, must: bool, saw: bool) {
    h.with(|h| {
        ensure!(saw || !must, "oneshot-cancel-unseen", "sender does not see that the receiver is gone");
        ensure!(!saw || h.close_start.is_some(), "oneshot-cancel-early", "sender was told the receiver is gone while it was open");
    })
}
fn sender(mut tx: oneshot::Sender<Tracked>, can_wait: bool, h: O) {
    let mut canceled = false;
    for _ in 0..choose(3) {
        match choose(4) {
            0 => {
                let must = h.with(|h| h.close_end.seen());
                let c = tx.is_canceled();
                cancel_check(h, must, c);
                ensure!(c || !canceled, "oneshot-cancel-flips", "cancellation was reported and then withdrawn");
                canceled |= c;
            }
            1 => {
                let mut t = th::Task::new(th::faults());
                let n = 1 + choose(2);
                for _ in 0..n {
                    let must = h.with(|h| h.close_end.seen());
                    let c = if chance(50) { t.poll(|cx| tx.poll_canceled(cx)).is_ready() } else { t.poll(|cx| tx.cancellation().poll_unpin(cx)).is_ready() };
                    cancel_check(h, must, c);
                    ensure!(c || !canceled, "oneshot-cancel-flips", "cancellation was reported and then withdrawn");
                    canceled |= c;
                }
            }
            2 if can_wait => {
                // the receiver will certainly go away: we must be woken
                let mut t = th::Task::new(th::faults());
                t.block_on(tx.cancellation());
                cancel_check(h, false, true);
                canceled = true;
            }
            _ => th::dawdle(3),
        }
    }
    if choose(3) == 2 {
        do_sdrop(tx, h)
    } else {
        do_send(tx, h)
    }
    if canceled {
        ensure!(h.with(|h| h.send_ok != Some(true)), "oneshot-send-after-close", "send succeeded after cancellation was observed");
    }
}
fn got(h: O, r: Result<Tracked, oneshot::Canceled>) {
    let r = r.map(|v| v.get()).map_err(|_| ());
    h.with(|h| {
        ensure!(h.got.is_none(), "oneshot-twice", "the receiver resolved twice");
        match r {
            Ok(v) => {
                ensure!(v == 7, "oneshot-wrong-value", "received {v}");
                ensure!(h.send_start.is_some(), "oneshot-invented", "received a value before send");
            }
            Err(()) => ensure!(
                h.sdrop_start.is_some() || h.close_start.is_some(),
                "oneshot-false-cancel",
                "receiver saw cancellation although the sender neither dropped nor was refused"
            ),
        }
        h.got = Some(r);
    })
}
fn receiver(mut rx: oneshot::Receiver<Tracked>, prog: usize, h: O) {
    let mut done = false;
    let mut closed = false;
    let pre = choose(3);
    for _ in 0..pre {
        match choose(4) {
            0 if !done => {
                let must = h.with(|h| (h.send_end.seen() && h.send_ok == Some(true), h.sdrop_end.seen()));
                match rx.try_recv() {
                    Ok(None) => ensure!(!must.0 && !must.1, "oneshot-try-recv-empty", "try_recv says empty after send/drop completed"),
                    Ok(Some(v)) => {
                        done = true;
                        got(h, Ok(v))
                    }
                    Err(e) => {
                        done = true;
                        got(h, Err(e))
                    }
                }
            }
            1 if !done => {
                let mut t = th::Task::new(th::faults());
                if let std::task::Poll::Ready(r) = t.poll(|cx| rx.poll_unpin(cx)) {
                    done = true;
                    got(h, r);
                    ensure!(rx.is_terminated(), "oneshot-not-terminated", "resolved receiver is not terminated");
                }
            }
            2 if !done => {
                let must = h.with(|h| h.send_end.seen() && h.send_ok == Some(true));
                ensure!(!(rx.is_terminated() && must), "oneshot-terminated-early", "the receiver counts as terminated although a value waits in it");
            }
            _ => th::dawdle(3),
        }
    }
    if prog >= 2 {
        // close, possibly look again, then drop
        if prog >= 3 {
            h.with(|h| {
                h.close_start.get_or_insert(stamp());
            });
            rx.close();
            h.with(|h| h.close_end = h.close_end.or(Some(stamp())));
            closed = true;
        }
    }
    match prog {
        0 | 1 | 4 if !done => {
            let mut t = th::Task::new(th::faults());
            let r = t.block_on_with(|cx| rx.poll_unpin(cx));
            got(h, r);
        }
        3 if !done => match rx.try_recv() {
            Ok(None) => ensure!(!closed, "oneshot-close-empty", "try_recv after close reports an open, empty channel"),
            Ok(Some(v)) => got(h, Ok(v)),
            Err(e) => got(h, Err(e)),
        },
        _ => {}
    }
    h.with(|h| {
        h.close_start.get_or_insert(stamp());
    });
    let_go(rx);
    h.with(|h| h.close_end = h.close_end.or(Some(stamp())));
}

pub fn run() {
    let h = ora(H::default);
    let (tx, rx) = oneshot::channel::<Tracked>();
    ensure!(tx.is_connected_to(&rx), "oneshot-identity", "the two halves are not connected");
    let prog = choose(5);
    let can_wait = prog >= 2;
    let sync = Arc::new(AtomicBool::new(false));
    let (s1, s2) = (sync.clone(), sync);
    let order = choose(3); // 0: free, 1: receiver first, 2: sender first (ordered by a flag)
    let order = if order == 1 && prog < 2 || order == 2 && can_wait { 0 } else { order };
    let t = thread::spawn(move || {
        if order == 1 {
            while !s1.load(Ordering::Acquire) {
                thread::yield_now();
            }
        }
        sender(tx, can_wait, h);
        if order == 2 {
            s1.store(true, Ordering::Release);
        }
    });
    if order == 2 {
        while !s2.load(Ordering::Acquire) {
            thread::yield_now();
        }
    }
    receiver(rx, prog, h);
    if order == 1 {
        s2.store(true, Ordering::Release);
    }
    t.join().unwrap();
    h.with(|h| {
        match (h.send_ok, h.got) {
            (Some(true), Some(Err(()))) => fail("oneshot-lost-value", "send succeeded but the receiver was told it was cancelled"),
            (Some(false) | None, Some(Ok(_))) => fail("oneshot-duplicated-value", "the value was both handed back and received"),
            _ => {}
        }
    });
    check_leaks("oneshot");
}
