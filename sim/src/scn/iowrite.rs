//! Asynchronous writers against destinations with short writes, not-ready
//! results, interruptions, errors and refusals; the reference is the sequence
//! of bytes the caller was told are accepted.
use super::ioread::{contents, errno, ioerr, Ev};
use crate::ex::sg::*;
use crate::rt::*;
use futures::io::{self, AllowStdIo, AsyncSeek, AsyncSeekExt, AsyncWrite, AsyncWriteExt, BufReader, BufWriter, IoSlice, LineWriter, SeekFrom};
use futures::sink::{Sink, SinkExt};
use std::cell::RefCell;
use std::future::Future;
use std::io::{Error, ErrorKind};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

/// What the destination has seen.
#[derive(Default)]
pub struct WLog {
    pub data: Vec<u8>,
    pub flushed: usize,
    pub closed: bool,
    short: bool, // took less than offered, since last reset
    zero: bool,  // took nothing, since last reset
    pub errs: Vec<u32>,
    sought: Option<SeekFrom>,
    pos: u64,
    end: u64,
}
pub type WL = Rc<RefCell<WLog>>;
pub struct Wr {
    pub log: WL,
    gate: Gate,
    fgate: Gate,
    short: u32,
    errp: u32,
    zerop: u32,
    e: u32,
}
impl Wr {
    /// No errors.
    pub fn new() -> Wr {
        Wr { log: Default::default(), gate: Gate::new(), fgate: Gate::new(), short: [0, 40, 90][choose(3)], errp: 0, zerop: 0, e: 0 }
    }
    pub fn faulty() -> Wr {
        let mut w = Wr::new();
        w.errp = [0, 0, 6, 15][choose(4)];
        w.zerop = [0, 0, 0, 10][choose(4)];
        w
    }
    fn err(&mut self) -> io::Result<()> {
        if self.errp > 0 && chance(self.errp) {
            self.e += 1;
            self.log.borrow_mut().errs.push(self.e);
            return Err(ioerr(self.e));
        }
        Ok(())
    }
    fn put(&mut self, bufs: &[&[u8]]) -> io::Result<usize> {
        ensure!(!self.log.borrow().closed, "write-after-close", "a destination was written to after it was closed");
        self.err()?;
        let total: usize = bufs.iter().map(|b| b.len()).sum();
        let mut l = self.log.borrow_mut();
        let mut n = total;
        if total > 0 && self.zerop > 0 && fault(self.zerop, F_EOF) {
            l.zero = true;
            l.short = true;
            return Ok(0);
        }
        if n > 1 && self.short > 0 && fault(self.short, F_SHORT_IO) {
            n = if bufs.len() > 1 && !bufs[0].is_empty() && chance(40) { bufs[0].len() } else { 1 + choose(n - 1) };
        }
        if n < total {
            l.short = true;
        }
        let mut left = n;
        for b in bufs {
            let k = left.min(b.len());
            l.data.extend_from_slice(&b[..k]);
            left -= k;
        }
        l.pos += n as u64;
        l.end = l.end.max(l.pos);
        event(7, n as u64, total as u64);
        Ok(n)
    }
    fn fl(&mut self) -> io::Result<()> {
        self.err()?;
        let mut l = self.log.borrow_mut();
        l.flushed = l.data.len();
        Ok(())
    }
}
impl AsyncWrite for Wr {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        if !self.gate.poll(cx) {
            return Poll::Pending;
        }
        self.gate.rearm();
        Poll::Ready(self.put(&[buf]))
    }
    fn poll_write_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<io::Result<usize>> {
        if !self.gate.poll(cx) {
            return Poll::Pending;
        }
        self.gate.rearm();
        let v: Vec<&[u8]> = bufs.iter().map(|b| &**b).collect();
        Poll::Ready(self.put(&v))
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if !self.fgate.poll(cx) {
            return Poll::Pending;
        }
        self.fgate.rearm();
        Poll::Ready(self.fl())
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if !self.fgate.poll(cx) {
            return Poll::Pending;
        }
        self.fgate.rearm();
        let r = self.fl();
        if r.is_ok() {
            self.log.borrow_mut().closed = true;
        }
        Poll::Ready(r)
    }
}
fn target(pos: u64, end: u64, to: SeekFrom) -> Option<u64> {
    let (b, d) = match to {
        SeekFrom::Start(n) => return Some(n),
        SeekFrom::Current(d) => (pos, d),
        SeekFrom::End(d) => (end, d),
    };
    b.checked_add_signed(d)
}
impl AsyncSeek for Wr {
    fn poll_seek(mut self: Pin<&mut Self>, cx: &mut Context<'_>, to: SeekFrom) -> Poll<io::Result<u64>> {
        if !self.fgate.poll(cx) {
            return Poll::Pending;
        }
        self.fgate.rearm();
        self.err()?;
        let mut l = self.log.borrow_mut();
        l.sought = Some(to);
        match target(l.pos, l.end, to) {
            Some(p) => {
                l.pos = p;
                Poll::Ready(Ok(p))
            }
            None => Poll::Ready(Err(io::ErrorKind::InvalidInput.into())),
        }
    }
}
impl futures::io::AsyncRead for Wr {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut [u8]) -> Poll<io::Result<usize>> {
        Poll::Ready(Ok(0))
    }
}
/// The same as a blocking writer that is interrupted at times.
struct StdWr(Wr, u32);
impl StdWr {
    fn intr(&self) -> io::Result<()> {
        if self.1 > 0 && fault(self.1, F_INTR) {
            Err(ErrorKind::Interrupted.into())
        } else {
            Ok(())
        }
    }
}
impl std::io::Write for StdWr {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.intr()?;
        self.0.put(&[b])
    }
    fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> io::Result<usize> {
        self.intr()?;
        let v: Vec<&[u8]> = bufs.iter().map(|b| &**b).collect();
        self.0.put(&v)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.intr()?;
        self.0.fl()
    }
}

type BW = Box<dyn AsyncWrite + Unpin>;
/// (writer, closing reaches the destination)
fn build(depth: usize, w: Wr, name: &mut String) -> (BW, bool) {
    if depth == 0 {
        return match choose(6) {
            0 => {
                name.push_str("AllowStdIo");
                (Box::new(AllowStdIo::new(StdWr(w, [0, 30, 60][choose(3)]))), false)
            }
            1 => {
                name.push_str("BufReader");
                (Box::new(BufReader::with_capacity(4, w)), true)
            }
            2 => {
                name.push_str("split");
                let (r, h) = futures::io::AsyncReadExt::split(w);
                drop(r);
                (Box::new(h), true)
            }
            _ => (Box::new(w), true),
        };
    }
    let cap = [0, 1, 2, 4, 8, 32][choose(6)];
    match choose(8) {
        0 | 1 | 2 => {
            name.push_str(&format!("BufWriter({cap})/"));
            let (w, c) = build(depth - 1, w, name);
            (Box::new(BufWriter::with_capacity(cap, w)), c)
        }
        3 | 4 => {
            name.push_str(&format!("LineWriter({cap})/"));
            let (w, c) = build(depth - 1, w, name);
            (Box::new(LineWriter::with_capacity(cap, w)), c)
        }
        5 => {
            name.push_str("Pin<Box>/");
            let (w, c) = build(depth - 1, w, name);
            (Box::new(Box::pin(w)), c)
        }
        6 => {
            name.push_str("Either/");
            let (w, c) = build(depth - 1, w, name);
            if chance(50) {
                (Box::new(futures::future::Either::<BW, Wr>::Left(w)), c)
            } else {
                (Box::new(futures::future::Either::<Wr, BW>::Right(w)), c)
            }
        }
        _ => build(depth - 1, w, name),
    }
}
fn sh(b: &[u8]) -> String {
    b.escape_ascii().to_string()
}
fn payload(max: usize) -> Vec<u8> {
    contents(max, 0).into_iter().map(|e| if let Ev::B(b) = e { b } else { unreachable!() }).collect()
}

struct Run<'a> {
    t: &'a mut Task,
    log: WL,
    acc: Vec<u8>,
    /// Bytes of an interrupted operation: an unknown prefix of them was accepted.
    maybe: Vec<u8>,
    name: &'a str,
    closes: bool,
    line: bool,
    errs0: usize,
}
impl Run<'_> {
    fn begin_op(&mut self) {
        let mut l = self.log.borrow_mut();
        l.short = false;
        l.zero = false;
        self.errs0 = l.errs.len();
    }
    fn go<F: Future>(&mut self, f: F) -> Option<F::Output> {
        self.begin_op();
        let mut f = Box::pin(f);
        if chance(20) {
            count(F_CANCEL);
            self.t.poll_n(1 + choose(3) as u32, |cx| f.as_mut().poll(cx))
        } else {
            Some(self.t.block_on(f.as_mut()))
        }
    }
    /// An error is reported by the operation during which the destination raised it.
    fn errors(&self, op: &str, e: Option<&Error>) {
        let l = self.log.borrow();
        let raised = &l.errs[self.errs0..];
        match e {
            None => {
                ensure!(raised.is_empty(), "error-swallowed", "{op} succeeded although the destination failed ({})", self.name);
                ensure!(!l.zero, "refusal-swallowed", "{op} succeeded although the destination accepted nothing ({})", self.name);
            }
            Some(e) => match errno(e) {
                Some(n) => ensure!(raised == [n], "wrong-error", "{op} failed with error {n} where the destination raised {raised:?}"),
                None => {
                    ensure!(raised.is_empty(), "error-swallowed", "{op} failed with '{e}' where the destination raised {raised:?}");
                    ensure!(e.kind() == ErrorKind::WriteZero && l.zero, "wrong-error", "{op} failed with '{e}' although the destination neither failed nor refused ({})", self.name);
                }
            },
        }
    }
    /// Nothing lost, repeated or out of order so far.
    fn inv(&self, op: &str) {
        let l = self.log.borrow();
        let full = [&self.acc[..], &self.maybe].concat();
        ensure!(full.starts_with(&l.data), "wrong-bytes", "after {op} the destination has \"{}\" where \"{}\" was accepted ({})", sh(&l.data), sh(&full), self.name);
        let cap: usize = self.name.split('/').filter_map(|x| x.split_once('(')?.1.strip_suffix(')')?.parse::<usize>().ok()).sum();
        ensure!(matches!(self.name, "into_sink" | "BufWriter") || self.acc.len() <= l.data.len() + cap, "over-capacity", "after {op} {} bytes are held back by buffers of {cap} ({})", self.acc.len() - l.data.len(), self.name);
    }
    fn complete(&self, op: &str) {
        let l = self.log.borrow();
        ensure!(l.data.len() >= self.acc.len(), "held-back", "{op} completed with {} of {} accepted bytes passed on ({})", l.data.len(), self.acc.len(), self.name);
        ensure!(l.flushed == l.data.len(), "not-flushed", "{op} completed with {} of {} bytes flushed ({})", l.flushed, l.data.len(), self.name);
    }
    fn lines(&self, op: &str, before: usize) {
        if !self.line {
            return;
        }
        let l = self.log.borrow();
        let nl = |b: &[u8]| b.iter().rposition(|c| *c == b'\n').map_or(0, |i| i + 1);
        let old = nl(&self.acc[..before]);
        ensure!(l.data.len() >= old, "line-held-back", "after {op} a line completed by an earlier write is still held back ({})", self.name);
        let all = nl(&self.acc);
        ensure!(l.short || l.data.len() >= all, "line-held-back", "after {op} a completed line is held back although the destination took everything it was offered ({})", self.name);
    }
    /// False = the caller cannot know how much was accepted.
    fn op(&mut self, w: &mut BW) -> bool {
        let before = self.acc.len();
        match choose(8) {
            0 | 1 => {
                let b = payload([3, 12, 40][choose(3)]);
                let x = self.go(w.write(&b));
                self.wrote("write", x, &b, before)
            }
            2 => {
                let bs: Vec<Vec<u8>> = (0..choose(5)).map(|_| payload([2, 6][choose(2)])).collect();
                let sl: Vec<IoSlice<'_>> = bs.iter().map(|b| IoSlice::new(b)).collect();
                let x = self.go(w.write_vectored(&sl));
                self.wrote("write_vectored", x, &bs.concat(), before)
            }
            3 => {
                let b = payload([3, 12, 40][choose(3)]);
                let x = self.go(w.write_all(&b));
                self.wrote_all("write_all", x, b)
            }
            4 => {
                let bs: Vec<Vec<u8>> = (0..choose(5)).map(|_| payload([2, 6][choose(2)])).collect();
                let mut sl: Vec<IoSlice<'_>> = bs.iter().map(|b| IoSlice::new(b)).collect();
                let x = self.go(w.write_all_vectored(&mut sl));
                self.wrote_all("write_all_vectored", x, bs.concat())
            }
            5 | 6 => {
                match self.go(w.flush()) {
                    None => {}
                    Some(x) => {
                        self.errors("flush", x.as_ref().err());
                        if x.is_ok() {
                            self.complete("flush");
                        }
                    }
                }
                self.inv("flush");
                true
            }
            _ => {
                let b = payload(20);
                let x = self.go(io::copy(&b[..], w)).map(|x| {
                    if let Ok(n) = x {
                        ensure!(n == b.len() as u64, "wrong-count", "copying {} bytes returned {n}", b.len());
                    }
                    x.map(|_| ())
                });
                let done = matches!(x, Some(Ok(())));
                let ok = self.wrote_all("copy", x, b);
                if done {
                    self.complete("copy");
                }
                ok
            }
        }
    }
    fn wrote(&mut self, op: &str, x: Option<io::Result<usize>>, b: &[u8], before: usize) -> bool {
        match x {
            None => {}
            Some(Ok(n)) => {
                ensure!(n <= b.len(), "wrong-count", "{op} of {} bytes returned {n}", b.len());
                if n > 0 || b.is_empty() {
                    self.errors(op, None);
                }
                ensure!(n > 0 || b.is_empty() || self.log.borrow().zero, "refused", "{op} accepted nothing although the destination accepts data ({})", self.name);
                self.acc.extend_from_slice(&b[..n]);
                if n > 0 {
                    self.lines(op, before);
                }
            }
            Some(Err(e)) => self.errors(op, Some(&e)),
        }
        self.inv(op);
        true
    }
    fn wrote_all(&mut self, op: &str, x: Option<io::Result<()>>, b: Vec<u8>) -> bool {
        let ok = matches!(x, Some(Ok(())));
        if let Some(x) = &x {
            self.errors(op, x.as_ref().err());
        }
        if ok {
            self.acc.extend(b);
        } else {
            self.maybe = b;
        }
        self.inv(op);
        ok
    }
}

pub fn writers() {
    begin();
    writers_in();
    check_leaks("writers");
}
fn writers_in() {
    let dst = Wr::faulty();
    let log = dst.log.clone();
    let mut name = String::new();
    let line = chance(25);
    let (mut w, closes): (BW, bool) = if line {
        let cap = [0, 1, 3, 8, 32][choose(5)];
        name = format!("LineWriter({cap})");
        (Box::new(LineWriter::with_capacity(cap, dst)), true)
    } else {
        build(choose(4), dst, &mut name)
    };
    let mut t = Task::new();
    let mut r = Run { t: &mut t, log, acc: vec![], maybe: vec![], name: &name, closes, line, errs0: 0 };
    for _ in 0..1 + choose(6) {
        if !r.op(&mut w) {
            break;
        }
    }
    // a caller that keeps trying gets everything through
    let close = chance(40);
    for i in 0.. {
        ensure!(i < 200, "never-flushed", "a flush failed 200 times in a row");
        r.begin_op();
        let x = {
            let f: Pin<Box<dyn Future<Output = io::Result<()>> + '_>> = if close { Box::pin(w.close()) } else { Box::pin(w.flush()) };
            let mut f = f;
            r.t.block_on(f.as_mut())
        };
        let op = if close { "close" } else { "flush" };
        r.errors(op, x.as_ref().err());
        r.inv(op);
        if x.is_ok() {
            r.complete(op);
            ensure!(!close || !r.closes || r.log.borrow().closed, "not-closed", "close completed without closing the destination ({})", r.name);
            break;
        }
    }
}

// ------------------------------------------------------------ seeking writers and byte sinks
pub fn sinks() {
    begin();
    if chance(25) {
        seeking()
    } else {
        into_sink()
    }
    check_leaks("byte sinks");
}
fn seeking() {
    let dst = Wr::faulty();
    let log = dst.log.clone();
    let mut w = BufWriter::with_capacity([0, 2, 8, 32][choose(4)], dst);
    let mut t = Task::new();
    let mut r = Run { t: &mut t, log: log.clone(), acc: vec![], maybe: vec![], name: "BufWriter", closes: true, line: false, errs0: 0 };
    for _ in 0..1 + choose(6) {
        let before = r.acc.len();
        if chance(60) {
            let b = payload(10);
            let x = r.go(w.write(&b));
            r.wrote("write", x, &b, before);
        } else {
            log.borrow_mut().sought = None;
            let to = match choose(3) {
                0 => SeekFrom::Start(choose(9) as u64),
                1 => SeekFrom::Current([0, 0, 1, 3, -1, -4][choose(6)]),
                _ => SeekFrom::End([0, 0, 2, -1, -5][choose(5)]),
            };
            let (pos, end) = {
                let l = log.borrow();
                let held = (r.acc.len() - l.data.len()) as u64;
                (l.pos + held, if held > 0 { l.end.max(l.pos + held) } else { l.end })
            };
            let want = target(pos, end, to);
            let x = r.go(w.seek(to));
            r.inv("seek");
            if log.borrow().sought.is_some() {
                let l = log.borrow();
                ensure!(l.data == r.acc, "held-back", "a buffered writer let the destination seek with {} of {} accepted bytes written", l.data.len(), r.acc.len());
            }
            match x {
                None => {}
                Some(Ok(q)) => {
                    r.errors("seek", None);
                    ensure!(log.borrow().sought.is_some() && want == Some(q) && log.borrow().pos == q, "wrong-position", "seek({to:?}) from {pos} of {end} returned {q} and left the destination at {}", log.borrow().pos);
                }
                Some(Err(e)) if want.is_none() && e.kind() == io::ErrorKind::InvalidInput => {}
                Some(Err(e)) => r.errors("seek", Some(&e)),
            }
        }
    }
}
fn into_sink() {
    let dst = Wr::faulty();
    let log = dst.log.clone();
    let mut s = dst.into_sink::<Vec<u8>>();
    let mut t = Task::new();
    let mut r = Run { t: &mut t, log: log.clone(), acc: vec![], maybe: vec![], name: "into_sink", closes: true, line: false, errs0: 0 };
    for _ in 0..1 + choose(6) {
        match choose(3) {
            0 | 1 => {
                r.begin_op();
                let x = r.t.block_on_with(|cx| Pin::new(&mut s).poll_ready(cx));
                r.errors("poll_ready", x.as_ref().err());
                r.inv("poll_ready");
                if x.is_ok() {
                    let b = payload(12);
                    r.acc.extend_from_slice(&b);
                    ensure!(Pin::new(&mut s).start_send(b).is_ok(), "refused", "a byte sink refused an item after being ready");
                    r.inv("start_send");
                }
            }
            _ => {
                if let Some(x) = r.go(s.flush()) {
                    r.errors("flush", x.as_ref().err());
                    if x.is_ok() {
                        r.complete("flush");
                    }
                }
                r.inv("flush");
            }
        }
    }
    for i in 0.. {
        ensure!(i < 200, "never-flushed", "closing failed 200 times in a row");
        r.begin_op();
        let x = {
            let mut f = s.close();
            r.t.block_on(Pin::new(&mut f))
        };
        r.errors("close", x.as_ref().err());
        r.inv("close");
        if x.is_ok() {
            r.complete("close");
            ensure!(log.borrow().closed, "not-closed", "close completed without closing the destination");
            break;
        }
    }
}
