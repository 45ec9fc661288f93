//! BiLock, stream/sink split, reader/writer split across two threads.
use crate::ex::th;
use crate::rt::*;
use futures::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, IoSlice, IoSliceMut};
use futures::lock::BiLock;
use futures::sink::{Sink, SinkExt};
use futures::stream::{Stream, StreamExt};
use std::pin::Pin;
use std::task::{Context, Poll};
use std::thread;

// ------------------------------------------------------------ BiLock
#[derive(Default)]
struct H {
    held: usize,
    inflight: usize,
    starts: u64,
    last_release: Option<Stamp>,
    releasing: usize,
    incs: u64,
    panics: bool,
}
fn half(b: &BiLock<(u64, Tracked)>, o: &'static Ora<H>, n: usize) {
    for _ in 0..n {
        let mut t = th::Task::new(th::faults());
        let tries = if chance(70) { 100000 } else { 1 + choose(2) };
        let mut guard = None;
        for i in 0..tries {
            let (free, st) = o.with(|o| {
                o.inflight += 1;
                o.starts += 1;
                (o.held == 0 && o.inflight == 1 && o.releasing == 0 && o.last_release.map_or(true, |s| s.seen()), o.starts)
            });
            let r = if chance(50) { t.poll(|cx| b.poll_lock(cx)) } else { t.poll(|cx| Pin::new(&mut b.lock()).poll_f(cx)) };
            o.with(|o| {
                o.inflight -= 1;
                if r.is_ready() {
                    ensure!(o.held == 0, "bilock-not-exclusive", "both halves hold the lock");
                    o.held = 1;
                } else {
                    ensure!(!(free && o.starts == st), "bilock-free-not-acquired", "the lock was free but could not be acquired");
                }
            });
            match r {
                Poll::Ready(g) => {
                    guard = Some(g);
                    break;
                }
                Poll::Pending => {
                    if i + 1 < tries {
                        t.wait();
                    } else {
                        count(F_CANCEL);
                    }
                }
            }
        }
        if let Some(mut g) = guard {
            let v = g.0;
            if chance(50) {
                th::dawdle(2);
            }
            if chance(50) {
                g.0 = v + 1;
            } else {
                g.as_pin_mut().get_mut().0 = v + 1;
            }
            o.with(|o| {
                o.incs += 1;
                o.held = 0;
                o.releasing += 1;
            });
            if o.with(|o| o.panics) && chance(40) {
                let r = catch(move || {
                    let _g = g;
                    inject_panic()
                });
                let Err(_) = r;
            } else {
                let_go(g);
            }
            o.with(|o| {
                o.releasing -= 1;
                o.last_release = Some(stamp());
            });
        }
        if chance(30) {
            th::dawdle(3);
        }
    }
}
trait PollF: std::future::Future {
    fn poll_f(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        self.poll(cx)
    }
}
impl<F: std::future::Future> PollF for F {}

pub fn bilock() {
    bi(false)
}
pub fn bilock_panics() {
    bi(true)
}
fn bi(panics: bool) {
    let o = ora(|| H { panics, ..H::default() });
    let (a, b) = BiLock::new((0u64, Tracked::new(1)));
    ensure!(a.is_pair_of(&b), "bilock-pair", "halves do not recognise each other");
    let n = 1 + choose(4);
    let drop_early = chance(20);
    let j = thread::spawn(move || {
        half(&b, o, n);
        if drop_early {
            let_go(b);
            None
        } else {
            Some(b)
        }
    });
    half(&a, o, n);
    if drop_early && chance(50) {
        let_go(a);
        j.join().unwrap();
    } else {
        match j.join().unwrap() {
            Some(b) => {
                let (c, d) = BiLock::new((0u64, Tracked::new(2)));
                let (a, c) = if chance(30) {
                    match a.reunite(c) {
                        Ok(_) => fail("bilock-pair", "strangers were reunited"),
                        Err(e) => (e.0, e.1),
                    }
                } else {
                    (a, c)
                };
                let v = match a.reunite(b) {
                    Ok(v) => v,
                    Err(_) => fail("bilock-pair", "the two halves could not be reunited"),
                };
                ensure!(v.0 == o.with(|o| o.incs), "bilock-lost-update", "updates under the lock were lost");
                drop((c, d));
            }
            None => let_go(a),
        }
    }
    check_leaks("bilock");
}

// ------------------------------------------------------------ stream / sink
#[derive(Default)]
struct SH {
    busy: bool,
    polled_after_end: bool,
    log: Vec<u32>,
    flushed: usize,
    ready: bool,
    closed: bool,
    rerr: u32, // errors raised to readers and writers, and not yet seen by them
    werr: u32,
}
struct Duplex {
    faulty: bool,
    rd: u64, // plain fields: an overlapping access is a data race
    n: u64,
    wr: u64,
    rg: th::Leaf,
    wg: th::Leaf,
    max: usize,
    o: &'static Ora<SH>,
    _t: Tracked,
}
struct Busy(&'static Ora<SH>);
impl Busy {
    fn new(o: &'static Ora<SH>) -> Busy {
        o.with(|o| {
            ensure!(!o.busy, "split-overlap", "both halves use the object at once");
            o.busy = true;
        });
        if chance(30) {
            yield_now();
        }
        Busy(o)
    }
}
impl Drop for Busy {
    fn drop(&mut self) {
        self.0.with(|o| o.busy = false)
    }
}
impl Stream for Duplex {
    type Item = u64;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u64>> {
        let _b = Busy::new(self.o);
        let max = self.max;
        if !self.rg.poll(cx) {
            return Poll::Pending;
        }
        self.rg.rearm(max);
        let v = self.rd;
        self.rd += 1;
        Poll::Ready(if v < self.n { Some(v) } else { None })
    }
}
impl Sink<Tracked> for Duplex {
    type Error = u32;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), u32>> {
        let _b = Busy::new(self.o);
        if !self.wg.poll(cx) {
            return Poll::Pending;
        }
        self.o.with(|o| o.ready = true);
        Poll::Ready(Ok(()))
    }
    fn start_send(mut self: Pin<&mut Self>, t: Tracked) -> Result<(), u32> {
        let _b = Busy::new(self.o);
        let max = self.max;
        self.wr += 1;
        self.o.with(|o| {
            ensure!(o.ready, "split-not-ready", "start_send without readiness");
            o.ready = false;
            o.log.push(t.get());
        });
        self.wg.rearm(max);
        Ok(())
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), u32>> {
        let _b = Busy::new(self.o);
        let max = self.max;
        if !self.wg.poll(cx) {
            return Poll::Pending;
        }
        self.wg.rearm(max);
        self.o.with(|o| o.flushed = o.log.len());
        Poll::Ready(Ok(()))
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), u32>> {
        let _b = Busy::new(self.o);
        if !self.wg.poll(cx) {
            return Poll::Pending;
        }
        self.o.with(|o| {
            o.flushed = o.log.len();
            o.closed = true
        });
        Poll::Ready(Ok(()))
    }
}
impl AsyncRead for Duplex {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<std::io::Result<usize>> {
        let _b = Busy::new(self.o);
        let max = self.max;
        if !self.rg.poll(cx) {
            return Poll::Pending;
        }
        self.rg.rearm(max);
        if self.faulty && chance(15) {
            self.o.with(|o| o.rerr += 1);
            return Poll::Ready(Err(std::io::ErrorKind::Other.into()));
        }
        let k = ((self.n - self.rd.min(self.n)) as usize).min(b.len()).min(1 + choose(3));
        for x in b[..k].iter_mut() {
            *x = self.rd as u8;
            self.rd += 1;
        }
        Poll::Ready(Ok(k))
    }
}
impl AsyncWrite for Duplex {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        let _b = Busy::new(self.o);
        let max = self.max;
        if !self.wg.poll(cx) {
            return Poll::Pending;
        }
        self.wg.rearm(max);
        if self.faulty && chance(15) {
            self.o.with(|o| o.werr += 1);
            return Poll::Ready(Err(std::io::ErrorKind::Other.into()));
        }
        let k = b.len().min(1 + choose(3));
        self.wr += k as u64;
        self.o.with(|o| o.log.extend(b[..k].iter().map(|x| *x as u32)));
        Poll::Ready(Ok(k))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Sink::poll_flush(self, cx).map(|_| Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Sink::poll_close(self, cx).map(|_| Ok(()))
    }
}
fn duplex(al: &th::Alarm, n: u64, o: &'static Ora<SH>) -> Duplex {
    let max = choose(3);
    Duplex { faulty: false, rd: 0, n, wr: 0, rg: th::Leaf::new(al, max), wg: th::Leaf::new(al, max), max, o, _t: Tracked::new(77) }
}

pub fn stream() {
    let o = ora(SH::default);
    let (al, aj) = th::Alarm::start();
    let n = choose(4) as u64;
    let m = choose(4) as u32;
    let (mut tx, mut rx) = StreamExt::split::<Tracked>(duplex(&al, n, o));
    ensure!(rx.is_pair_of(&tx), "split-pair", "halves do not recognise each other");
    let close = chance(60);
    let cancel = if chance(20) { 1 + choose(3) as u32 } else { 0 };
    let style = choose(3);
    let j = thread::spawn(move || {
        let mut t = th::Task::new(th::faults());
        for i in 0..m {
            let r = match style {
                0 => t.block_on(tx.send(Tracked::new(i))),
                1 => t.block_on(tx.feed(Tracked::new(i))),
                _ => {
                    t.block_on_with(|cx| tx.poll_ready_unpin(cx)).unwrap();
                    let r = tx.start_send_unpin(Tracked::new(i));
                    if chance(30) {
                        t.block_on(tx.flush()).unwrap();
                    }
                    r
                }
            };
            ensure!(r.is_ok(), "split-error", "send failed");
            if style == 0 {
                o.with(|o| ensure!(o.log.len() == i as usize + 1 && o.flushed == i as usize + 1, "split-send", "a completed send has not reached the sink"));
            }
        }
        if close {
            t.block_on(tx.close()).unwrap();
            o.with(|o| ensure!(o.closed, "split-close", "close completed without closing the sink"));
        } else {
            t.block_on(tx.flush()).unwrap();
        }
        let l = o.with(|o| (o.log.clone(), o.flushed));
        oob(|| ensure!(l.0 == (0..m).collect::<Vec<_>>() && l.1 == m as usize, "split-sink-order", "sink saw {l:?} of {m}"));
        oob(|| drop(l));
        tx
    });
    let mut t = th::Task::new(th::faults());
    let mut got = 0;
    if cancel > 0 {
        for _ in 0..cancel {
            let r = t.poll_n(1, |cx| rx.next().poll_unpin_f(cx));
            match r {
                None => count(F_CANCEL),
                Some(Some(v)) => {
                    ensure!(v == got, "split-stream-order", "stream yielded {v} instead of {got}");
                    got += 1;
                }
                Some(None) => break,
            }
        }
    } else {
        while let Some(v) = t.block_on(rx.next()) {
            ensure!(v == got, "split-stream-order", "stream yielded {v} instead of {got}");
            got += 1;
        }
        ensure!(got == n, "split-stream-end", "stream ended after {got} of {n}");
    }
    if chance(20) {
        let_go(rx);
        drop(j.join().unwrap());
    } else {
        let tx = j.join().unwrap();
        let rx = if chance(30) {
            let (tx2, rx2) = StreamExt::split::<Tracked>(duplex(&al, 0, ora(SH::default)));
            ensure!(!rx.is_pair_of(&tx2), "split-pair", "strangers claim to be a pair");
            match rx.reunite(tx2) {
                Ok(_) => fail("split-pair", "strangers were reunited"),
                Err(e) => {
                    drop((rx2, e.0));
                    e.1
                }
            }
        } else {
            rx
        };
        let d = if chance(50) { tx.reunite(rx).ok() } else { rx.reunite(tx).ok() };
        match d {
            None => fail("split-pair", "the halves could not be reunited"),
            Some(d) => ensure!(d.wr == m as u64 && d.rd >= got, "split-object", "reunited object lost operations"),
        }
    }
    al.stop();
    aj.join().unwrap();
    check_leaks("split");
}
trait PU: std::future::Future + Unpin {
    fn poll_unpin_f(mut self, cx: &mut Context<'_>) -> Poll<Self::Output>
    where
        Self: Sized,
    {
        Pin::new(&mut self).poll(cx)
    }
}
impl<F: std::future::Future + Unpin> PU for F {}

pub fn io() {
    let o = ora(SH::default);
    let (al, aj) = th::Alarm::start();
    let n = choose(7) as u64;
    let m = choose(7);
    let mut d = duplex(&al, n, o);
    d.faulty = chance(30);
    let (mut r, mut w) = AsyncReadExt::split(d);
    ensure!(r.is_pair_of(&w) && w.is_pair_of(&r), "split-pair", "halves do not recognise each other");
    let j = thread::spawn(move || {
        let mut t = th::Task::new(th::faults());
        let data: Vec<u8> = (0..m as u8).collect();
        let mut at = 0;
        while at < m {
            let k = at + 1 + choose(m - at);
            let x = match choose(4) {
                0 => t.block_on(w.write(&data[at..k])),
                1 => {
                    let (a, b) = data[at..k].split_at(choose(k - at + 1));
                    t.block_on(w.write_vectored(&[IoSlice::new(a), IoSlice::new(b)]))
                }
                2 => match t.poll_n(1, |cx| w.write(&data[at..k]).poll_unpin_f(cx)) {
                    Some(x) => x,
                    None => {
                        count(F_CANCEL);
                        Ok(0)
                    }
                },
                _ if o.with(|o| o.werr) == 0 && chance(50) => {
                    // only what an error interrupted may be missing
                    let x = t.block_on(w.write_all(&data[at..k]));
                    let done = o.with(|o| o.log.len()) - at;
                    match x {
                        Ok(()) => ensure!(done == k - at, "split-write-order", "write_all wrote {done} of {}", k - at),
                        Err(_) => o.with(|o| {
                            ensure!(o.werr == 1, "split-error", "write_all failed without an error");
                            o.werr = 0;
                        }),
                    }
                    Ok(done)
                }
                _ => {
                    let f = match t.block_on(AsyncWriteExt::flush(&mut w)) {
                        Ok(()) => o.with(|o| o.flushed),
                        Err(_) => fail("split-error", "flush failed"),
                    };
                    ensure!(f == at, "split-flush", "flushed {f} of {at}");
                    Ok(0)
                }
            };
            match x {
                Ok(x) => at += x,
                Err(_) => o.with(|o| {
                    ensure!(o.werr == 1, "split-error", "a write failed without an error");
                    o.werr = 0;
                }),
            }
            o.with(|o| ensure!(o.werr == 0 && o.log.len() == at, "split-write-order", "{at} bytes written according to the half, {} according to the object", o.log.len()));
        }
        if chance(70) {
            t.block_on(AsyncWriteExt::close(&mut w)).unwrap();
            o.with(|o| ensure!(o.closed, "split-close", "close completed without closing the object"));
        }
        o.with(|o| ensure!(o.log == (0..m as u32).collect::<Vec<_>>(), "split-write-order", "object saw {:?}", o.log));
        w
    });
    let mut t = th::Task::new(th::faults());
    let mut v: Vec<u8> = vec![];
    loop {
        let mut b = vec![0; 1 + choose(4)];
        let how = choose(5);
        let all = how == 4;
        let x = match how {
            0 | 1 => t.block_on(r.read(&mut b)),
            2 => {
                let k = choose(b.len());
                let (p, q) = b.split_at_mut(k);
                t.block_on(r.read_vectored(&mut [IoSliceMut::new(p), IoSliceMut::new(q)]))
            }
            3 => match t.poll_n(1, |cx| r.read(&mut b).poll_unpin_f(cx)) {
                Some(x) => x,
                None => {
                    count(F_CANCEL);
                    continue;
                }
            },
            _ => {
                b.clear();
                t.block_on(r.read_to_end(&mut b))
            }
        };
        match x {
            Ok(0) => break,
            Ok(k) => v.extend(&b[..k]),
            Err(_) => {
                o.with(|o| {
                    ensure!(o.rerr == 1, "split-error", "a read failed without an error");
                    o.rerr = 0;
                });
                if all {
                    // what was read before the error is kept
                    v.extend(&b);
                }
            }
        }
    }
    ensure!(v == (0..n as u8).collect::<Vec<_>>(), "split-read-order", "read {v:?} of {n}");
    let w = j.join().unwrap();
    let r = if chance(20) {
        let (r2, w2) = AsyncReadExt::split(duplex(&al, 0, ora(SH::default)));
        ensure!(!r.is_pair_of(&w2) && !w.is_pair_of(&r2), "split-pair", "strangers claim to be a pair");
        match r.reunite(w2) {
            Ok(_) => fail("split-pair", "strangers were reunited"),
            Err(e) => {
                drop((r2, e.1));
                e.0
            }
        }
    } else {
        r
    };
    if chance(20) {
        let_go(r);
        let_go(w);
    } else {
        match if chance(50) { r.reunite(w).ok() } else { w.reunite(r).ok() } {
            None => fail("split-pair", "the halves could not be reunited"),
            Some(d) => ensure!(d.wr == m as u64 && d.rd == n, "split-object", "reunited object lost operations"),
        }
    }
    al.stop();
    aj.join().unwrap();
    check_leaks("io split");
}
