//! mpsc channels, bounded and unbounded: several sender threads with several
//! handles each against one receiver thread.
use crate::ex::th;
use crate::rt::*;
use futures::channel::mpsc;
use futures::future::FusedFuture;
use futures::sink::{Sink, SinkExt};
use futures::stream::{FusedStream, Stream, StreamExt};
use std::pin::Pin;
use std::task::Poll;
use std::thread;

struct Msg {
    hid: usize,
    seq: usize,
    end: Option<Stamp>,
    ok: Option<bool>,
    recv: Option<Stamp>,
}
#[derive(Default)]
struct Hd {
    next_recv: usize,  // messages of this handle must arrive in increasing seq
    win: usize,        // index into `ub` where this handle's last accepted send began
    disc: bool,
}
#[derive(Default)]
struct H {
    cap: Option<usize>,
    m: Vec<Msg>,
    h: Vec<Hd>,
    ub: Vec<usize>, // upper bound of queued messages over time
    ubn: usize,
    live: usize, // handles whose drop/disconnect has not begun
    close_start: Option<Stamp>,
    close_end: Option<Stamp>,
    lastdrop: Vec<Stamp>,
    rx_busy: bool,
    rx_gone: bool,
    ended: bool,
}
type O = &'static Ora<H>;
impl H {
    fn ubset(&mut self, d: isize) {
        self.ubn = (self.ubn as isize + d) as usize;
        self.ub.push(self.ubn);
    }
    fn quiescent(&self) -> bool {
        self.m.iter().all(|m| m.ok == Some(false) || m.recv.seen())
    }
    /// Some message must be available to a receive that starts now.
    fn avail(&self) -> Option<usize> {
        self.m.iter().position(|m| m.ok == Some(true) && m.recv.is_none() && m.end.seen())
    }
    fn all_gone(&self) -> bool {
        self.live == 0 && self.lastdrop.len() == self.h.len() && self.lastdrop.iter().all(|s| s.seen())
    }
}

fn hash(f: impl FnOnce(&mut std::collections::hash_map::DefaultHasher)) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    f(&mut h);
    h.finish()
}
enum K {
    B(mpsc::Sender<Tracked>),
    U(mpsc::UnboundedSender<Tracked>),
}
struct Tx {
    k: K,
    hid: usize,
    seq: usize,
    o: O,
    gone: bool,
    ws: usize, // index into `ub` just before the current send began
}
fn new_handle(o: O) -> usize {
    o.with(|o| {
        o.live += 1;
        let win = o.ub.len() - 1;
        o.h.push(Hd { win, ..Default::default() });
        o.h.len() - 1
    })
}
impl Tx {
    fn new(k: K, o: O) -> Tx {
        Tx { k, hid: new_handle(o), seq: 0, o, gone: false, ws: 0 }
    }
    fn clone(&self) -> Tx {
        let hid = new_handle(self.o);
        if self.gone {
            // a clone of a disconnected sender is disconnected
            self.o.with(|o| {
                o.live -= 1;
                o.h[hid].disc = true;
                o.lastdrop.push(stamp());
            });
        }
        let k = match &self.k {
            K::B(s) => {
                let c = s.clone();
                if !self.gone {
                    ensure!(c.same_receiver(s), "mpsc-identity", "a clone is not connected to the same receiver");
                    ensure!(hash(|h| c.hash_receiver(h)) == hash(|h| s.hash_receiver(h)), "mpsc-identity", "a clone hashes to another receiver");
                }
                K::B(c)
            }
            K::U(s) => {
                let c = s.clone();
                if !self.gone {
                    ensure!(c.same_receiver(s), "mpsc-identity", "a clone is not connected to the same receiver");
                    ensure!(hash(|h| c.hash_receiver(h)) == hash(|h| s.hash_receiver(h)), "mpsc-identity", "a clone hashes to another receiver");
                }
                K::U(c)
            }
        };
        Tx { k, hid, seq: 0, o: self.o, gone: self.gone, ws: 0 }
    }
    /// Records the start of a send; returns (payload, index, must_fail, quiescent).
    fn begin(&mut self) -> (Tracked, usize, bool, bool) {
        let idx = self.o.with(|o| {
            o.m.push(Msg { hid: self.hid, seq: self.seq, end: None, ok: None, recv: None });
            o.m.len() - 1
        });
        let t = Tracked::new(idx as u32);
        let (mf, q, ws) = self.o.with(|o| {
            let ws = o.ub.len() - 1;
            let mf = o.close_end.seen() || o.h[self.hid].disc;
            o.m[idx].ok = Some(false);
            let q = o.quiescent();
            o.m[idx].ok = None;
            o.ubset(1);
            (mf, q, ws)
        });
        self.ws = ws;
        self.seq += 1;
        (t, idx, mf, q)
    }
    fn finish(&mut self, idx: usize, ok: bool, must_fail: bool, full: bool, quiescent: bool) {
        self.o.with(|o| {
            ensure!(!(ok && must_fail), "mpsc-send-after-close", "a message was accepted after the channel was closed or the sender disconnected");
            if full {
                ensure!(!quiescent, "mpsc-false-full", "channel reported full although nothing was queued");
                let b = o.cap.expect("unbounded channel reported full");
                // this handle is blocked because of its last accepted message: at some
                // time since then the buffer must have been exceeded
                let mx = o.ub[o.h[self.hid].win..=self.ws].iter().copied().max().unwrap_or(0);
                ensure!(mx > b, "mpsc-false-full", "channel of buffer {b} reported full with at most {mx} messages around");
            } else if !ok {
                ensure!(o.close_start.is_some() || o.h[self.hid].disc, "mpsc-send-refused", "send refused as disconnected although the channel was open");
            }
            if ok {
                ensure!(!o.ended || o.m[idx].recv.is_some(), "mpsc-accept-after-end", "a message was accepted after the receiver saw the end");
                let mi = &o.m[idx];
                if mi.recv.is_none() {
                    // count what is certainly still queued
                    let q = o.m.iter().filter(|m| m.ok == Some(true) && m.recv.is_none()).count() + 1;
                    let q = q - (o.rx_busy as usize).min(q);
                    if let Some(b) = o.cap {
                        if !o.rx_gone {
                            ensure!(q <= b + o.h.len(), "mpsc-over-capacity", "{q} undelivered messages in a channel with buffer {b} and {} senders", o.h.len());
                        }
                    }
                }
                o.h[self.hid].win = self.ws;
            } else {
                ensure!(o.m[idx].recv.is_none(), "mpsc-refused-delivered", "message {idx} was delivered and then refused");
                o.ubset(-1);
            }
            o.m[idx].ok = Some(ok);
            o.m[idx].end = Some(stamp());
        });
    }
    fn back(idx: usize, t: Tracked) {
        ensure!(t.get() == idx as u32, "mpsc-wrong-value", "a refused send handed back another message");
    }
    fn try_send(&mut self) -> bool {
        let (t, idx, mf, q) = self.begin();
        let r = match &mut self.k {
            K::B(s) => s.try_send(t),
            K::U(s) => s.unbounded_send(t),
        };
        match r {
            Ok(()) => {
                self.finish(idx, true, mf, false, q);
                true
            }
            Err(e) => {
                let full = e.is_full();
                ensure!(full || e.is_disconnected(), "mpsc-error-kind", "error is neither full nor disconnected");
                Self::back(idx, e.into_inner());
                self.finish(idx, false, mf, full, q);
                false
            }
        }
    }
    fn ready_check(&self, quiescent: bool, pending: bool) {
        ensure!(!(pending && quiescent), "mpsc-stuck-not-ready", "sender is not ready although nothing is queued");
    }
    /// poll_ready until ready (or at most `n` polls), then start_send.
    fn ready_then_send(&mut self, n: u32) -> bool {
        let mut t = th::Task::new(th::faults());
        let mut left = n;
        loop {
            let (q, mf) = self.o.with(|o| (o.quiescent(), o.close_end.seen() || o.h[self.hid].disc));
            let sinky = chance(50);
            let r = match &mut self.k {
                K::B(s) => t.poll(|cx| if sinky { Pin::new(s).poll_ready(cx) } else { s.poll_ready(cx) }),
                K::U(s) if sinky && chance(50) => {
                    let mut r = &*s;
                    t.poll(|cx| Pin::new(&mut r).poll_ready(cx))
                }
                K::U(s) => t.poll(|cx| if sinky { Pin::new(s).poll_ready(cx) } else { s.poll_ready(cx) }),
            };
            match r {
                Poll::Pending => {
                    self.ready_check(q, true);
                    ensure!(self.o.with(|o| o.cap.is_some()), "mpsc-stuck-not-ready", "an unbounded sender was not ready");
                    ensure!(!mf, "mpsc-ready-after-close", "poll_ready is pending after close");
                    left -= 1;
                    if left == 0 {
                        count(F_CANCEL);
                        return false;
                    }
                    t.wait();
                }
                Poll::Ready(Ok(())) => {
                    ensure!(!mf, "mpsc-ready-after-close", "poll_ready succeeds after close");
                    break;
                }
                Poll::Ready(Err(e)) => {
                    ensure!(e.is_disconnected(), "mpsc-error-kind", "poll_ready failed with a non-disconnect error");
                    self.o.with(|o| ensure!(o.close_start.is_some() || o.h[self.hid].disc, "mpsc-send-refused", "poll_ready reports a closed channel that is open"));
                    return false;
                }
            }
        }
        if chance(20) {
            th::dawdle(2);
        }
        let (m, idx, mf, _) = self.begin();
        let sinky = chance(50);
        let r = match &mut self.k {
            K::B(s) => if sinky { Pin::new(s).start_send(m) } else { s.start_send(m) },
            K::U(s) if sinky && chance(50) => {
                let mut r = &*s;
                Pin::new(&mut r).start_send(m)
            }
            K::U(s) => if sinky { Pin::new(s).start_send(m) } else { s.start_send(m) },
        };
        match r {
            Ok(()) => {
                self.finish(idx, true, mf, false, false);
                true
            }
            Err(e) => {
                ensure!(!e.is_full(), "mpsc-ready-then-full", "a sender that was ready was refused for lack of space");
                self.finish(idx, false, mf, false, false);
                false
            }
        }
    }
    fn send_fut(&mut self) {
        let (m, idx, mf, _) = self.begin();
        let mut t = th::Task::new(th::faults());
        let r = match &mut self.k {
            K::B(s) => t.block_on(s.send(m)),
            K::U(s) => t.block_on(s.send(m)),
        };
        match r {
            Ok(()) => self.finish(idx, true, mf, false, false),
            Err(e) => {
                ensure!(!e.is_full(), "mpsc-ready-then-full", "send().await refused for lack of space");
                // the message may have been accepted before the failing flush only
                // if the channel was closed meanwhile; `Sender::poll_flush` hides that
                self.finish(idx, false, mf, false, false);
            }
        }
    }
    fn flush(&mut self) {
        let mut t = th::Task::new(th::faults());
        let r = match &mut self.k {
            K::B(s) => t.block_on_with(|cx| Pin::new(&mut *s).poll_flush(cx)),
            K::U(s) if chance(50) => {
                let mut r = &*s;
                t.block_on_with(|cx| Pin::new(&mut r).poll_flush(cx))
            }
            K::U(s) => t.block_on_with(|cx| Pin::new(&mut *s).poll_flush(cx)),
        };
        ensure!(r.is_ok(), "mpsc-flush-error", "flush failed");
    }
    fn close_channel(&mut self) {
        if self.gone {
            return;
        }
        count(F_CLOSE);
        self.o.with(|o| {
            o.close_start.get_or_insert(stamp());
        });
        match &mut self.k {
            K::B(s) => s.close_channel(),
            K::U(s) => {
                if chance(30) {
                    let mut t = th::Task::new(th::faults());
                    let mut r = &*s;
                    let x = t.block_on_with(|cx| Pin::new(&mut r).poll_close(cx));
                    ensure!(x.is_ok(), "mpsc-close-error", "close failed");
                } else {
                    s.close_channel()
                }
            }
        }
        self.o.with(|o| o.close_end = o.close_end.or(Some(stamp())));
    }
    fn leaving(&mut self) {
        if !self.gone {
            self.gone = true;
            self.o.with(|o| {
                o.live -= 1;
                if o.live == 0 {
                    o.close_start.get_or_insert(stamp());
                }
            });
        }
    }
    fn disconnect(&mut self) {
        let was = self.gone;
        self.leaving();
        if chance(50) {
            match &mut self.k {
                K::B(s) => s.disconnect(),
                K::U(s) => s.disconnect(),
            }
        } else {
            let mut t = th::Task::new(th::faults());
            let x = match &mut self.k {
                K::B(s) => t.block_on_with(|cx| Pin::new(&mut *s).poll_close(cx)),
                K::U(s) => t.block_on_with(|cx| Pin::new(&mut *s).poll_close(cx)),
            };
            ensure!(x.is_ok(), "mpsc-close-error", "closing a sender failed");
        }
        self.o.with(|o| {
            o.h[self.hid].disc = true;
            if !was {
                o.lastdrop.push(stamp());
            }
        });
    }
    fn is_closed(&mut self) {
        let must = self.o.with(|o| o.close_end.seen() || o.h[self.hid].disc);
        let c = match &self.k {
            K::B(s) => s.is_closed(),
            K::U(s) => s.is_closed(),
        };
        self.o.with(|o| {
            ensure!(c || !must, "mpsc-close-unseen", "is_closed is false after close");
            ensure!(!c || o.close_start.is_some() || o.h[self.hid].disc, "mpsc-false-close", "is_closed is true on an open channel");
        });
    }
    fn len(&mut self) {
        if let (K::U(s), false) = (&self.k, self.gone) {
            let lo: Vec<usize> = self.o.with(|o| (0..o.m.len()).filter(|&i| o.m[i].ok == Some(true) && o.m[i].recv.is_none() && o.m[i].end.seen()).collect());
            let (start, e) = (self.o.with(|o| o.ub.len() - 1), chance(50));
            let n = if e { (!s.is_empty()) as usize } else { s.len() };
            self.o.with(|o| {
                let hi = o.ub[start..].iter().copied().max().unwrap();
                ensure!(n <= hi, "mpsc-len", "len {n} but at most {hi} messages were queued");
                let lo2 = lo.iter().filter(|&&i| o.m[i].recv.is_none()).count();
                let lo2 = lo2 - (o.rx_busy as usize).min(lo2);
                let lo2 = if o.rx_gone { 0 } else { lo2 };
                ensure!(n >= if e { lo2.min(1) } else { lo2 }, "mpsc-len", "len {n} but at least {lo2} messages were queued");
            });
        }
    }
}
impl Drop for Tx {
    fn drop(&mut self) {
        // explicit: `self.k` is dropped right after this by the compiler; the
        // stamp for "completely gone" is taken by `drop_tx`.
        self.leaving();
    }
}
fn drop_tx(mut t: Tx) {
    let was = t.gone;
    t.leaving();
    let o = t.o;
    let hid = t.hid;
    let_go(t);
    o.with(|o| {
        if !was {
            o.lastdrop.push(stamp());
        }
        o.h[hid].disc = true;
    });
}

fn sender(tx: Tx, nops: usize) {
    let mut hs = vec![tx];
    for _ in 0..nops {
        if hs.is_empty() {
            break;
        }
        let i = choose(hs.len());
        match choose(16) {
            0..=3 => {
                hs[i].try_send();
            }
            4 | 5 | 6 => {
                hs[i].ready_then_send(1000);
            }
            7 => {
                hs[i].ready_then_send(1 + choose(2) as u32);
            }
            8 | 9 => hs[i].send_fut(),
            10 if hs.len() < 3 => {
                let c = hs[i].clone();
                hs.push(c);
            }
            11 => {
                let t = hs.swap_remove(i);
                drop_tx(t)
            }
            12 => match choose(4) {
                0 => hs[i].close_channel(),
                1 => hs[i].disconnect(),
                2 => hs[i].is_closed(),
                _ => hs[i].len(),
            },
            13 => hs[i].flush(),
            14 => hs[i].is_closed(),
            _ => th::dawdle(3),
        }
    }
    while !hs.is_empty() {
        let i = choose(hs.len());
        let t = hs.swap_remove(i);
        drop_tx(t);
    }
}

enum R {
    B(mpsc::Receiver<Tracked>),
    U(mpsc::UnboundedReceiver<Tracked>),
}
struct Rx {
    r: R,
    o: O,
    ended: bool,
    got: usize,
    hints: Vec<(usize, usize, Option<usize>)>, // items received by then, size hint
}
macro_rules! each {
    ($s:expr, $x:ident => $e:expr) => {
        match $s {
            R::B($x) => $e,
            R::U($x) => $e,
        }
    };
}
impl Rx {
    fn pre(&mut self) -> (Option<usize>, bool) {
        self.o.with(|o| {
            o.rx_busy = true;
            let a = o.avail();
            let end = a.is_none() && (o.close_end.seen() || o.all_gone()) && o.m.iter().all(|m| m.ok == Some(false) || m.recv.is_some());
            (a, end)
        })
    }
    fn item(&mut self, t: Tracked) {
        let idx = t.get() as usize;
        self.got += 1;
        let_go(t);
        self.o.with(|o| {
            o.rx_busy = false;
            ensure!(!o.ended, "mpsc-item-after-end", "an item was received after the end");
            ensure!(idx < o.m.len(), "mpsc-invented", "message {idx} was never sent");
            let m = &mut o.m[idx];
            ensure!(m.recv.is_none(), "mpsc-duplicated", "message {idx} received twice");
            ensure!(m.ok != Some(false), "mpsc-refused-delivered", "message {idx} was refused and delivered");
            m.recv = Some(stamp());
            let (h, s) = (m.hid, m.seq);
            ensure!(s >= o.h[h].next_recv, "mpsc-order", "message {s} of sender {h} arrived after {}", o.h[h].next_recv - 1);
            // everything this sender had accepted before must have arrived
            for x in o.m.iter() {
                ensure!(!(x.hid == h && x.seq < s && x.ok == Some(true) && x.recv.is_none()), "mpsc-order", "message {s} of sender {h} overtook {}", x.seq);
            }
            o.h[h].next_recv = s + 1;
            o.ubset(-1);
        });
    }
    fn end(&mut self) {
        self.ended = true;
        self.o.with(|o| {
            o.rx_busy = false;
            ensure!(o.close_start.is_some(), "mpsc-false-end", "the stream ended although it was not closed and senders remain");
            if let Some(m) = o.m.iter().find(|m| m.ok == Some(true) && m.recv.is_none()) {
                fail("mpsc-lost", &format!("the stream ended although message {} of sender {} was accepted and not delivered", m.seq, m.hid));
            }
            o.ended = true;
        });
        for &(n, lo, hi) in &self.hints {
            let more = self.got - n;
            ensure!(lo <= more && hi.map_or(true, |h| more <= h), "mpsc-size-hint", "size hint ({lo}, {hi:?}) but {more} more messages arrived");
        }
        let t = each!(&mut self.r, x => x.is_terminated() && FusedFuture::is_terminated(&x.recv()));
        ensure!(t, "mpsc-not-terminated", "is_terminated is false after the end");
    }
    fn empty(&mut self, p: (Option<usize>, bool)) {
        self.o.with(|o| o.rx_busy = false);
        ensure!(p.0.is_none(), "mpsc-not-seen", "receiver found nothing although message {:?} was accepted before", p.0);
        ensure!(!p.1, "mpsc-no-end", "receiver did not see the end although every sender is gone and everything was delivered");
    }
    fn poll(&mut self, t: &mut th::Task) -> bool {
        let p = self.pre();
        let fut = chance(30);
        let r = each!(&mut self.r, x => t.poll(|cx| if fut { Pin::new(&mut x.recv()).poll_m(cx) } else { x.poll_next_unpin(cx) }));
        match r {
            Poll::Ready(Some(m)) => self.item(m),
            Poll::Ready(None) => self.end(),
            Poll::Pending => {
                self.empty(p);
                return false;
            }
        }
        true
    }
    fn recv_wait(&mut self) {
        let mut t = th::Task::new(th::faults());
        while !self.poll(&mut t) {
            t.wait();
        }
    }
    fn try_recv(&mut self) {
        let p = self.pre();
        #[allow(deprecated)]
        if chance(30) {
            match each!(&mut self.r, x => x.try_next()) {
                Ok(Some(m)) => self.item(m),
                Ok(None) => self.end(),
                Err(e) => {
                    ensure!(e.is_empty() && !e.is_closed(), "mpsc-error-kind", "try_next reports a closed channel as an error");
                    self.empty(p)
                }
            }
            return;
        }
        let r = each!(&mut self.r, x => x.try_recv());
        match r {
            Ok(m) => self.item(m),
            Err(e) if e.is_closed() => self.end(),
            Err(_) => self.empty(p),
        }
    }
    fn close(&mut self) {
        count(F_CLOSE);
        self.o.with(|o| {
            o.close_start.get_or_insert(stamp());
        });
        each!(&mut self.r, x => x.close());
        self.o.with(|o| o.close_end = o.close_end.or(Some(stamp())));
    }
}
trait PollM {
    type T;
    fn poll_m(self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<Option<Self::T>>;
}
impl<T, E, F: std::future::Future<Output = Result<T, E>>> PollM for F {
    type T = T;
    fn poll_m(self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<Option<T>> {
        self.poll(cx).map(|r| r.ok())
    }
}

fn receiver(mut rx: Rx) {
    let prog = choose(4);
    let steps = choose(5);
    for _ in 0..steps {
        if rx.ended {
            break;
        }
        match choose(8) {
            0 | 1 => rx.recv_wait(),
            2 | 3 => rx.try_recv(),
            4 => {
                let mut t = th::Task::new(th::faults());
                rx.poll(&mut t);
            }
            5 if prog == 2 => rx.close(),
            _ => th::dawdle(4),
        }
        if !rx.ended {
            let (lo, hi) = each!(&rx.r, x => x.size_hint());
            ensure!(hi.map_or(true, |h| lo <= h), "mpsc-size-hint", "inconsistent size hint");
            rx.hints.push((rx.got, lo, hi));
        }
    }
    if prog == 3 {
        rx.close();
    }
    if prog != 1 {
        let busy = chance(20);
        while !rx.ended {
            if busy && chance(50) {
                rx.try_recv();
                yield_now();
            } else {
                rx.recv_wait();
            }
        }
        // the end is final
        for _ in 0..choose(3) {
            let mut t = th::Task::new(th::faults());
            let r = each!(&mut rx.r, x => t.poll(|cx| x.poll_next_unpin(cx)));
            ensure!(matches!(r, Poll::Ready(None)), "mpsc-end-not-final", "poll after the end did not return the end");
        }
    } else {
        count(F_CANCEL);
    }
    let o = rx.o;
    o.with(|o| {
        o.rx_gone = true;
        o.close_start.get_or_insert(stamp());
    });
    let_go(rx);
    o.with(|o| o.close_end = o.close_end.or(Some(stamp())));
}

fn run(bounded: bool, unbounded: bool) {
    let o = ora(H::default);
    let b = if bounded && (!unbounded || chance(50)) { Some(choose(4)) } else { None };
    o.with(|o| {
        o.cap = b;
        o.ub.push(0);
    });
    let (k, r) = match b {
        Some(n) => {
            let (t, r) = mpsc::channel(n);
            ensure!(t.is_connected_to(&r), "mpsc-identity", "fresh sender not connected to its receiver");
            (K::B(t), R::B(r))
        }
        None => {
            let (t, r) = mpsc::unbounded();
            ensure!(t.is_connected_to(&r), "mpsc-identity", "fresh sender not connected to its receiver");
            (K::U(t), R::U(r))
        }
    };
    let nth = 1 + choose(3);
    let nops = 1 + choose(5);
    let mut txs = vec![Tx::new(k, o)];
    for _ in 1..nth {
        let c = txs[0].clone();
        txs.push(c);
    }
    let mut js = vec![];
    for t in txs {
        let n = nops;
        js.push(thread::spawn(move || sender(t, n)));
    }
    receiver(Rx { r, o, ended: false, got: 0, hints: vec![] });
    for j in js {
        j.join().unwrap();
    }
    check_leaks("mpsc");
}
pub fn both() {
    run(true, true)
}
pub fn bounded() {
    run(true, false)
}
