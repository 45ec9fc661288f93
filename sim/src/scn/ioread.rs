//! Asynchronous readers against sources with short reads, not-ready results,
//! interruptions and errors; the reference is the plain sequence of bytes and
//! errors the source holds.
use super::iowrite::Wr;
use crate::ex::sg::*;
use crate::rt::*;
use futures::io::{self, AllowStdIo, AsyncBufRead, AsyncBufReadExt, AsyncRead, AsyncReadExt, AsyncSeek, AsyncSeekExt, BufReader, Cursor, IoSliceMut, SeekFrom};
use futures::stream::{self, StreamExt, TryStreamExt};
use std::collections::VecDeque;
use std::future::Future;
use std::io::{Error, ErrorKind};
use std::pin::Pin;
use std::task::{Context, Poll};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ev {
    B(u8),
    E(u32),
}
/// An injected error carries its number.
#[derive(Debug)]
pub struct Inj(pub u32);
impl std::fmt::Display for Inj {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected error {}", self.0)
    }
}
impl std::error::Error for Inj {}
pub fn ioerr(n: u32) -> Error {
    count(F_IOERR);
    Error::new([ErrorKind::Other, ErrorKind::ConnectionReset, ErrorKind::BrokenPipe][n as usize % 3], Inj(n))
}
pub fn errno(e: &Error) -> Option<u32> {
    e.get_ref().and_then(|e| e.downcast_ref::<Inj>()).map(|i| i.0)
}

/// Contents: letters, line ends, multi-byte characters and, rarely, invalid UTF-8.
pub fn contents(max: usize, errs: u32) -> VecDeque<Ev> {
    let mut v = VecDeque::new();
    let n = choose(max + 1);
    let nl = [6, 15, 30][choose(3)];
    let bad = [0, 0, 4][choose(3)];
    let mut e = 0;
    while v.len() < n {
        if errs > 0 && chance(errs) {
            e += 1;
            v.push_back(Ev::E(e));
        }
        if chance(nl) {
            if chance(40) {
                v.push_back(Ev::B(b'\r'));
                if chance(25) {
                    v.push_back(Ev::B(b'\r'));
                }
            }
            v.push_back(Ev::B(b'\n'));
        } else if chance(4) {
            v.push_back(Ev::B(b'\r'));
        } else if chance(8) {
            v.extend("é".bytes().map(Ev::B));
        } else if bad > 0 && chance(bad) {
            v.push_back(Ev::B(0xff));
        } else {
            v.push_back(Ev::B(b'a' + choose(26) as u8));
        }
    }
    if errs > 0 && chance(errs) {
        e += 1;
        v.push_back(Ev::E(e));
    }
    v
}

/// The source.  It keeps strictly to its contract and objects to misuse.
pub struct Rd {
    evs: VecDeque<Ev>,
    win: Vec<u8>, // what fill_buf last offered and was not consumed
    gate: Gate,
    short: u32,
}
impl Rd {
    pub fn new(evs: VecDeque<Ev>) -> Rd {
        Rd { evs, win: vec![], gate: Gate::new(), short: [0, 40, 90][choose(3)] }
    }
    pub fn left(&self) -> usize {
        self.evs.len()
    }
    fn ready(&mut self, cx: &mut Context<'_>) -> bool {
        if self.gate.poll(cx) {
            self.gate.rearm();
            true
        } else {
            false
        }
    }
    fn run(&self) -> usize {
        self.evs.iter().take_while(|e| matches!(e, Ev::B(_))).count()
    }
    fn amount(&self, max: usize) -> usize {
        let n = self.run().min(max);
        if n > 1 && self.short > 0 && fault(self.short, F_SHORT_IO) {
            1 + choose(n - 1)
        } else {
            n
        }
    }
    fn pop(&mut self) -> u8 {
        match self.evs.pop_front() {
            Some(Ev::B(b)) => b,
            _ => unreachable!(),
        }
    }
    fn err(&mut self) -> Option<Error> {
        match self.evs.front() {
            Some(Ev::E(n)) => {
                let n = *n;
                self.evs.pop_front();
                Some(ioerr(n))
            }
            _ => None,
        }
    }
    fn get(&mut self, bufs: &mut [&mut [u8]]) -> Result<usize, Error> {
        let total: usize = bufs.iter().map(|b| b.len()).sum();
        if total == 0 {
            return Ok(0);
        }
        self.win.clear();
        if let Some(e) = self.err() {
            return Err(e);
        }
        let n = self.amount(total);
        let mut left = n;
        for b in bufs {
            for x in b.iter_mut() {
                if left == 0 {
                    break;
                }
                *x = self.pop();
                left -= 1;
            }
        }
        Ok(n)
    }
    fn fill(&mut self) -> Result<&[u8], Error> {
        if self.win.is_empty() {
            if let Some(e) = self.err() {
                return Err(e);
            }
            let n = self.amount(8);
            self.win = self.evs.iter().take(n).map(|e| if let Ev::B(b) = e { *b } else { unreachable!() }).collect();
        }
        Ok(&self.win)
    }
    fn consume_(&mut self, n: usize) {
        ensure!(n <= self.win.len(), "overconsumed", "consume({n}) was called on a source that had offered {} bytes", self.win.len());
        self.win.drain(..n);
        for _ in 0..n {
            self.pop();
        }
    }
}
impl AsyncRead for Rd {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        if self.win.is_empty() && !self.ready(cx) {
            return Poll::Pending;
        }
        Poll::Ready(self.get(&mut [buf]))
    }
    fn poll_read_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &mut [IoSliceMut<'_>]) -> Poll<io::Result<usize>> {
        if self.win.is_empty() && !self.ready(cx) {
            return Poll::Pending;
        }
        let mut v: Vec<&mut [u8]> = bufs.iter_mut().map(|b| &mut **b).collect();
        Poll::Ready(self.get(&mut v))
    }
}
impl AsyncBufRead for Rd {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        let this = self.get_mut();
        if this.win.is_empty() && !this.ready(cx) {
            return Poll::Pending;
        }
        Poll::Ready(this.fill())
    }
    fn consume(mut self: Pin<&mut Self>, amt: usize) {
        self.consume_(amt)
    }
}
/// A source that goes on after its end, as a file does that grows: nobody who has seen the end may look again.
struct Growing<R>(R, bool);
const MORE: &[u8] = b"MORE";
impl<R: AsyncRead + Unpin> AsyncRead for Growing<R> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        if self.1 {
            let n = buf.len().min(MORE.len());
            buf[..n].copy_from_slice(&MORE[..n]);
            return Poll::Ready(Ok(n));
        }
        let r = Pin::new(&mut self.0).poll_read(cx, buf);
        self.1 = matches!(r, Poll::Ready(Ok(0))) && !buf.is_empty();
        r
    }
    fn poll_read_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &mut [IoSliceMut<'_>]) -> Poll<io::Result<usize>> {
        if self.1 {
            return match bufs.iter_mut().find(|b| !b.is_empty()) {
                Some(b) => self.poll_read(cx, b),
                None => Poll::Ready(Ok(0)),
            };
        }
        let r = Pin::new(&mut self.0).poll_read_vectored(cx, bufs);
        self.1 = matches!(r, Poll::Ready(Ok(0))) && bufs.iter().any(|b| !b.is_empty());
        r
    }
}
impl<R: AsyncBufRead + Unpin> AsyncBufRead for Growing<R> {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        let this = self.get_mut();
        if this.1 {
            return Poll::Ready(Ok(MORE));
        }
        let r = Pin::new(&mut this.0).poll_fill_buf(cx);
        this.1 = matches!(r, Poll::Ready(Ok(b"")));
        r
    }
    fn consume(mut self: Pin<&mut Self>, amt: usize) {
        if !self.1 || amt == 0 {
            Pin::new(&mut self.0).consume(amt)
        }
    }
}
/// The same as a blocking reader that is interrupted at times.
struct StdRd(Rd, u32);
impl StdRd {
    fn intr(&self) -> io::Result<()> {
        if self.1 > 0 && fault(self.1, F_INTR) {
            Err(ErrorKind::Interrupted.into())
        } else {
            Ok(())
        }
    }
}
impl std::io::Read for StdRd {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.intr()?;
        self.0.get(&mut [buf])
    }
    fn read_vectored(&mut self, bufs: &mut [IoSliceMut<'_>]) -> io::Result<usize> {
        self.intr()?;
        let mut v: Vec<&mut [u8]> = bufs.iter_mut().map(|b| &mut **b).collect();
        self.0.get(&mut v)
    }
}
impl std::io::BufRead for StdRd {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.intr()?;
        self.0.fill()
    }
    fn consume(&mut self, n: usize) {
        self.0.consume_(n)
    }
}

trait Reader: AsyncBufRead + AsyncRead + Unpin {}
impl<T: AsyncBufRead + AsyncRead + Unpin> Reader for T {}
type BR = Box<dyn Reader>;

fn bytes_of(evs: &VecDeque<Ev>) -> Vec<u8> {
    evs.iter().filter_map(|e| if let Ev::B(b) = e { Some(*b) } else { None }).collect()
}
fn cut_at_err(evs: &mut VecDeque<Ev>) {
    if let Some(i) = evs.iter().position(|e| matches!(e, Ev::E(_))) {
        evs.truncate(i + 1);
    }
}
fn limit(evs: &VecDeque<Ev>, n: usize) -> VecDeque<Ev> {
    let (mut out, mut left) = (VecDeque::new(), n);
    for e in evs {
        if left == 0 {
            break;
        }
        out.push_back(*e);
        if let Ev::B(_) = e {
            left -= 1;
        }
    }
    out
}
/// A stack of library readers over sources, and the sequence it must deliver.
fn build(depth: usize, errs: u32, name: &mut String) -> (BR, VecDeque<Ev>) {
    let max = [6, 20, 60][choose(3)];
    if depth == 0 || chance(15) {
        let evs = contents(max, errs);
        return match choose(9) {
            0 | 1 | 2 => {
                name.push_str("source");
                (Box::new(Rd::new(evs.clone())), evs)
            }
            3 => {
                name.push_str("AllowStdIo");
                let r = AllowStdIo::new(StdRd(Rd::new(evs.clone()), [0, 30, 60][choose(3)]));
                if chance(30) {
                    return (Box::new(AllowStdIo::new(r)), evs);
                }
                (Box::new(r), evs)
            }
            4 => {
                name.push_str("Cursor");
                let b = bytes_of(&evs);
                if chance(50) {
                    name.push_str("<Window>");
                    let w = window(b);
                    let b = w.as_ref().to_vec();
                    return (Box::new(Cursor::new(w)), b.into_iter().map(Ev::B).collect());
                }
                (Box::new(Cursor::new(b.clone())), b.into_iter().map(Ev::B).collect())
            }
            5 | 6 => {
                // a stream of chunks; ends at its first error
                name.push_str("into_async_read");
                let mut evs = evs;
                cut_at_err(&mut evs);
                let mut chunks: Vec<io::Result<Vec<u8>>> = vec![];
                for e in &evs {
                    match e {
                        Ev::E(n) => chunks.push(Err(ioerr(*n))),
                        Ev::B(b) => match chunks.last_mut() {
                            Some(Ok(c)) if !chance(30) => c.push(*b),
                            _ => {
                                if chance(15) {
                                    chunks.push(Ok(vec![]));
                                }
                                chunks.push(Ok(vec![*b]));
                            }
                        },
                    }
                }
                (Box::new(crate::leaf::Src::new(chunks).into_async_read()), evs)
            }
            7 => {
                name.push_str("slice");
                let b = bytes_of(&evs);
                let l: &'static [u8] = oob(|| Box::leak(b.clone().into_boxed_slice()));
                (Box::new(l), b.into_iter().map(Ev::B).collect())
            }
            _ => {
                let n = choose(12);
                name.push_str("repeat.take");
                (Box::new(BufReader::with_capacity(1 + choose(5), io::repeat(b'z').take(n as u64))), (0..n).map(|_| Ev::B(b'z')).collect())
            }
        };
    }
    match choose(8) {
        0 | 1 | 2 => {
            let cap = [1, 2, 3, 7, 16, 64][choose(6)];
            name.push_str(&format!("BufReader({cap},"));
            let (r, e) = build(depth - 1, errs, name);
            name.push(')');
            (Box::new(BufReader::with_capacity(cap, r)), e)
        }
        3 => {
            name.push_str("chain(");
            let (a, mut ea) = build(depth - 1, errs, name);
            name.push(',');
            let (b, eb) = build(depth - 1, errs, name);
            name.push(')');
            // error numbers may repeat, which does not matter
            ea.extend(eb);
            if chance(40) {
                name.push('+');
                return (Box::new(Growing(a, false).chain(b)), ea);
            }
            (Box::new(a.chain(b)), ea)
        }
        4 => {
            name.push_str("take(");
            let (r, e) = build(depth - 1, errs, name);
            let n = choose(e.len() + 3);
            name.push_str(&format!(",{n})"));
            (Box::new(r.take(n as u64)), limit(&e, n))
        }
        5 => {
            name.push_str("Pin<Box>(");
            let (r, e) = build(depth - 1, errs, name);
            name.push(')');
            (Box::new(Box::pin(r)), e)
        }
        6 => {
            name.push_str("Either(");
            let (r, e) = build(depth - 1, errs, name);
            name.push(')');
            if chance(50) {
                (Box::new(futures::future::Either::<BR, Rd>::Left(r)), e)
            } else {
                (Box::new(futures::future::Either::<Rd, BR>::Right(r)), e)
            }
        }
        _ => build(depth - 1, errs, name),
    }
}

/// What is still to come, seen through limits.
struct Model {
    evs: VecDeque<Ev>,
    lim: Vec<usize>,
}
impl Model {
    fn cap(&self) -> usize {
        self.lim.iter().copied().min().unwrap_or(usize::MAX)
    }
    /// The bytes up to the next error, end or limit.
    fn run(&self) -> Vec<u8> {
        let c = self.cap();
        self.evs.iter().map_while(|e| if let Ev::B(b) = e { Some(*b) } else { None }).take(c).collect()
    }
    fn adv(&mut self, n: usize) {
        self.evs.drain(..n);
        for l in &mut self.lim {
            *l -= n;
        }
    }
    /// The error that follows the run, if it is one.
    fn err_after(&self, run: usize) -> Option<u32> {
        if run == self.cap() {
            return None;
        }
        match self.evs.get(run) {
            Some(Ev::E(n)) => Some(*n),
            _ => None,
        }
    }
    fn take_err(&mut self, n: usize) {
        self.adv(n);
        self.evs.pop_front();
    }
}
fn sh(b: &[u8]) -> String {
    b.escape_ascii().to_string()
}
fn prefix(op: &str, got: &[u8], want: &[u8]) {
    ensure!(want.starts_with(got), "wrong-bytes", "{op} delivered \"{}\" where the source holds \"{}\"", sh(got), sh(want));
}
/// The error an operation ended with must be the source's next one.
fn same_err(op: &str, e: &Error, want: Option<u32>) {
    ensure!(want.is_some() && errno(e) == want, "wrong-error", "{op} failed with '{e}' where the source's next error is {want:?}");
}

struct Run<'a> {
    t: &'a mut Task,
    m: Model,
    name: &'a str,
    stop: bool,
}
fn fillbytes() -> Vec<u8> {
    if chance(40) {
        b"pr\xc3\xa9".to_vec()
    } else {
        vec![]
    }
}
impl Run<'_> {
    fn go<F: Future + Unpin>(&mut self, mut f: F) -> F::Output {
        self.t.block_on(Pin::new(&mut f))
    }
    /// None = given up (future dropped).
    fn go_n<F: Future + Unpin>(&mut self, mut f: F) -> Option<F::Output> {
        if chance(25) {
            count(F_CANCEL);
            let n = 1 + choose(3) as u32;
            self.t.poll_n(n, |cx| Pin::new(&mut f).poll(cx))
        } else {
            Some(self.t.block_on(Pin::new(&mut f)))
        }
    }
    fn judge_read(&mut self, op: &str, r: io::Result<usize>, data: &[u8], k: usize) {
        let run = self.m.run();
        match r {
            Ok(n) => {
                ensure!(n <= k, "wrong-bytes", "{op} of {k} bytes returned {n} over {}", self.name);
                prefix(op, &data[..n], &run);
                if k > 0 && n == 0 {
                    ensure!(run.is_empty() && self.m.err_after(0).is_none(), "premature-end", "{op} reported the end with {} bytes or an error to come over {}", run.len(), self.name);
                }
                self.m.adv(n);
            }
            Err(e) => {
                ensure!(run.is_empty(), "wrong-error", "{op} failed before delivering {} bytes over {}", run.len(), self.name);
                same_err(op, &e, self.m.err_after(0));
                self.m.take_err(0);
            }
        }
    }
    fn op<R: AsyncBufRead + AsyncRead + Unpin + ?Sized>(&mut self, r: &mut R, depth: usize) {
        match choose(14) {
            0 | 1 => {
                let k = [0, 1, 2, 5, 20][choose(5)];
                let mut b = vec![0xEE; k];
                let got = {
                    let f = r.read(&mut b);
                    self.go_n(f)
                };
                if let Some(x) = got {
                    self.judge_read("read", x, &b, k);
                    if self.m.evs.is_empty() {
                        self.stop = chance(50);
                    }
                }
            }
            2 => {
                let sizes: Vec<usize> = (0..choose(4)).map(|_| choose(6)).collect();
                let k: usize = sizes.iter().sum();
                let mut bs: Vec<Vec<u8>> = sizes.iter().map(|n| vec![0xEE; *n]).collect();
                let got = {
                    let mut sl: Vec<IoSliceMut<'_>> = bs.iter_mut().map(|b| IoSliceMut::new(b)).collect();
                    let f = r.read_vectored(&mut sl);
                    self.go_n(f)
                };
                if let Some(x) = got {
                    // skip buffers a plain implementation may not reach: data is contiguous over the non-empty ones
                    let flat: Vec<u8> = bs.concat();
                    self.judge_read("read_vectored", x, &flat, k);
                }
            }
            3 | 4 => {
                let k = choose(9);
                let mut b = vec![0xEE; k];
                let x = {
                    let f = r.read_exact(&mut b);
                    self.go(f)
                };
                let run = self.m.run();
                match x {
                    Ok(()) => {
                        ensure!(run.len() >= k, "premature-end", "read_exact({k}) succeeded with only {} bytes left over {}", run.len(), self.name);
                        prefix("read_exact", &b, &run);
                        self.m.adv(k);
                    }
                    Err(e) => {
                        ensure!(run.len() < k, "wrong-error", "read_exact({k}) failed with '{e}' although {} bytes were left over {}", run.len(), self.name);
                        prefix("read_exact", &b[..run.len()], &run);
                        match self.m.err_after(run.len()) {
                            Some(n) => {
                                same_err("read_exact", &e, Some(n));
                                self.m.take_err(run.len());
                            }
                            None => {
                                ensure!(e.kind() == ErrorKind::UnexpectedEof && errno(&e).is_none(), "wrong-error", "read_exact at the end failed with '{e}'");
                                self.m.adv(run.len());
                            }
                        }
                    }
                }
            }
            5 => {
                let pre = fillbytes();
                let mut b = pre.clone();
                let got = {
                    let f = r.read_to_end(&mut b);
                    self.go_n(f)
                };
                self.judge_all("read_to_end", got, pre, b, |_| false);
            }
            6 => {
                let pre = String::from_utf8(fillbytes()).unwrap();
                let mut b = pre.clone();
                let x = {
                    let f = r.read_to_string(&mut b);
                    self.go(f)
                };
                ensure!(std::str::from_utf8(b.as_bytes()).is_ok(), "invalid-utf8", "read_to_string left invalid UTF-8 in the string");
                let run = self.m.run();
                match self.m.err_after(run.len()) {
                    Some(n) => {
                        ensure!(x.is_err(), "error-swallowed", "read_to_string succeeded although the source failed");
                        same_err("read_to_string", &x.unwrap_err(), Some(n));
                        self.m.take_err(run.len());
                    }
                    None => {
                        match (x, std::str::from_utf8(&run)) {
                            (Ok(n), Ok(s)) => ensure!(n == run.len() && b == format!("{pre}{s}"), "wrong-bytes", "read_to_string gave {n} and {b:?} for {s:?} over {}", self.name),
                            (Err(e), Err(_)) => ensure!(e.kind() == ErrorKind::InvalidData, "wrong-error", "read_to_string of invalid UTF-8 failed with '{e}'"),
                            (x, s) => fail("wrong-bytes", &format!("read_to_string returned {x:?} for {s:?}")),
                        }
                        self.m.adv(run.len());
                    }
                }
            }
            7 => {
                let d = [b'\n', b'a', b'q', 0xff][choose(4)];
                let pre = fillbytes();
                let mut b = pre.clone();
                let got = {
                    let f = r.read_until(d, &mut b);
                    self.go_n(f)
                };
                self.judge_all("read_until", got, pre, b, move |x| x == d);
            }
            8 | 9 => {
                let pre = String::from_utf8(fillbytes()).unwrap();
                let mut b = pre.clone();
                let got = {
                    let f = r.read_line(&mut b);
                    self.go_n(f)
                };
                ensure!(std::str::from_utf8(b.as_bytes()).is_ok(), "invalid-utf8", "read_line left invalid UTF-8 in the string");
                let Some(x) = got else {
                    ensure!(b == pre, "cancelled-read-line", "a cancelled read_line changed the string from {pre:?} to {b:?}");
                    self.stop = true; // how much it consumed is not known
                    return;
                };
                let run = self.m.run();
                let end = run.iter().position(|c| *c == b'\n').map(|i| i + 1);
                let line = &run[..end.unwrap_or(run.len())];
                match self.m.err_after(run.len()) {
                    Some(n) if end.is_none() => {
                        ensure!(x.is_err(), "error-swallowed", "read_line succeeded although the source failed");
                        same_err("read_line", &x.unwrap_err(), Some(n));
                        let full = [pre.as_bytes(), line].concat();
                        ensure!(b == pre || b.as_bytes() == full, "wrong-bytes", "after an error read_line left {b:?} for \"{}\"", sh(&full));
                        self.m.take_err(run.len());
                    }
                    _ => {
                        match (x, std::str::from_utf8(line)) {
                            (Ok(n), Ok(s)) => ensure!(n == line.len() && b == format!("{pre}{s}"), "wrong-bytes", "read_line gave {n} and {b:?} for {s:?} over {}", self.name),
                            (Err(e), Err(_)) => {
                                ensure!(e.kind() == ErrorKind::InvalidData, "wrong-error", "read_line of invalid UTF-8 failed with '{e}'");
                                ensure!(b == pre, "wrong-bytes", "read_line of invalid UTF-8 left {b:?} instead of {pre:?}");
                            }
                            (x, s) => fail("wrong-bytes", &format!("read_line returned {x:?} for {s:?}")),
                        }
                        self.m.adv(line.len());
                    }
                }
            }
            10 => self.lines(r),
            11 => {
                let x: io::Result<Vec<u8>> = {
                    let mut f = r.fill_buf();
                    let mut out = None;
                    if chance(80) {
                        out = Some(self.t.block_on(Pin::new(&mut f)).map(|b| b.to_vec()));
                    } else if let Some(x) = self.t.poll_n(1 + choose(2) as u32, |cx| Pin::new(&mut f).poll(cx)) {
                        out = Some(x.map(|b| b.to_vec()));
                    }
                    match out {
                        Some(x) => x,
                        None => return,
                    }
                };
                let run = self.m.run();
                match x {
                    Ok(b) => {
                        prefix("fill_buf", &b, &run);
                        if b.is_empty() {
                            ensure!(run.is_empty() && self.m.err_after(0).is_none(), "premature-end", "fill_buf reported the end with {} bytes or an error to come over {}", run.len(), self.name);
                        }
                        let n = choose(b.len() + 1);
                        r.consume_unpin(n);
                        self.m.adv(n);
                    }
                    Err(e) => {
                        ensure!(run.is_empty(), "wrong-error", "fill_buf failed before delivering {} bytes over {}", run.len(), self.name);
                        same_err("fill_buf", &e, self.m.err_after(0));
                        self.m.take_err(0);
                    }
                }
            }
            12 => {
                // a limited view; what lies beyond stays in the reader
                if depth == 0 {
                    return;
                }
                let n = choose(self.m.run().len() + 4);
                let mut tk = (&mut *r).take(n as u64);
                self.m.lim.push(n);
                for _ in 0..1 + choose(3) {
                    if self.stop {
                        return;
                    }
                    self.op(&mut tk as &mut dyn Reader, depth - 1);
                    ensure!(self.stop || tk.limit() == *self.m.lim.last().unwrap() as u64, "wrong-limit", "take reports a limit of {} where {} bytes are left to it", tk.limit(), self.m.lim.last().unwrap());
                }
                self.m.lim.pop();
            }
            _ => {
                // copying to the end
                let w = Wr::new();
                let out = w.log.clone();
                let mut w = w;
                let x = if chance(50) {
                    let mut f = io::copy(&mut *r, &mut w);
                    self.t.block_on(Pin::new(&mut f))
                } else if chance(60) {
                    let mut f = io::copy_buf(&mut *r, &mut w);
                    self.t.block_on(Pin::new(&mut f))
                } else {
                    let (mut f, h) = io::copy_buf_abortable(&mut *r, &mut w);
                    if chance(50) {
                        // aborting: what was written is what was consumed
                        count(F_CANCEL);
                        let got = self.t.poll_n(choose(3) as u32, |cx| Pin::new(&mut f).poll(cx));
                        match got {
                            Some(x) => x.map(|y| y.unwrap_or_else(|_| fail("aborted", "copy_buf_abortable reported an abort that did not happen"))),
                            None => {
                                h.abort();
                                match self.t.poll(|cx| Pin::new(&mut f).poll(cx)) {
                                    Poll::Ready(Ok(Err(_))) => {}
                                    x => fail("not-aborted", &format!("copy_buf_abortable gave {x:?} after an abort")),
                                }
                                drop(f);
                                let o = out.borrow();
                                prefix("copy_buf_abortable", &o.data, &self.m.run());
                                let n = o.data.len();
                                self.m.adv(n);
                                return;
                            }
                        }
                    } else {
                        let y = self.t.block_on(Pin::new(&mut f));
                        y.map(|y| y.unwrap_or_else(|_| fail("aborted", "copy_buf_abortable reported an abort that did not happen")))
                    }
                };
                let run = self.m.run();
                let o = out.borrow();
                ensure!(o.data == run, "wrong-bytes", "copying wrote \"{}\" where the source holds \"{}\" over {}", sh(&o.data), sh(&run), self.name);
                match self.m.err_after(run.len()) {
                    Some(n) => {
                        ensure!(x.is_err(), "error-swallowed", "copying succeeded although the source failed");
                        same_err("copy", &x.unwrap_err(), Some(n));
                        self.m.take_err(run.len());
                    }
                    None => {
                        ensure!(matches!(x, Ok(n) if n == run.len() as u64), "wrong-count", "copying {} bytes returned {x:?}", run.len());
                        ensure!(o.flushed == o.data.len(), "not-flushed", "copying completed with {} of {} bytes flushed", o.flushed, o.data.len());
                        self.m.adv(run.len());
                    }
                }
            }
        }
    }
    /// read_to_end and read_until: everything up to the first byte that `stop`s, the next error or the end.
    fn judge_all(&mut self, op: &str, got: Option<io::Result<usize>>, pre: Vec<u8>, b: Vec<u8>, stop: impl Fn(u8) -> bool) {
        ensure!(b.starts_with(&pre), "wrong-bytes", "{op} changed what was in the buffer before");
        let new = &b[pre.len()..];
        let run = self.m.run();
        let end = run.iter().position(|c| stop(*c)).map(|i| i + 1);
        let want = &run[..end.unwrap_or(run.len())];
        let Some(x) = got else {
            // cancelled: what was consumed is in the buffer
            prefix(op, new, want);
            self.m.adv(new.len());
            return;
        };
        ensure!(new == want, "wrong-bytes", "{op} delivered \"{}\" where the source holds \"{}\" up to the boundary, over {}", sh(new), sh(want), self.name);
        match self.m.err_after(run.len()) {
            Some(n) if end.is_none() => {
                ensure!(x.is_err(), "error-swallowed", "{op} succeeded although the source failed");
                same_err(op, &x.unwrap_err(), Some(n));
                self.m.take_err(run.len());
            }
            _ => {
                ensure!(matches!(x, Ok(n) if n == want.len()), "wrong-count", "{op} of {} bytes returned {x:?}", want.len());
                self.m.adv(want.len());
            }
        }
    }
    fn lines<R: AsyncBufRead + AsyncRead + Unpin + ?Sized>(&mut self, r: &mut R) {
        let mut s = (&mut *r).lines();
        // after an error the line it interrupted may continue or start afresh
        let mut held: Option<Vec<u8>> = None;
        for _ in 0..1 + choose(6) {
            let x = self.t.block_on_with(|cx| s.poll_next_unpin(cx));
            let run = self.m.run();
            let end = run.iter().position(|c| *c == b'\n').map(|i| i + 1);
            let line = run[..end.unwrap_or(run.len())].to_vec();
            let err = self.m.err_after(run.len());
            let strip = |l: &[u8]| {
                let l = l.strip_suffix(b"\n").map(|l| l.strip_suffix(b"\r").unwrap_or(l)).unwrap_or(l);
                l.to_vec()
            };
            if let (Some(n), None) = (err, end) {
                match x {
                    Some(Err(e)) => same_err("lines", &e, Some(n)),
                    x => fail("error-swallowed", &format!("lines yielded {x:?} where the source failed")),
                }
                self.m.take_err(run.len());
                let mut h = held.take().unwrap_or_default();
                h.extend(line);
                held = Some(h);
                continue;
            }
            let h = held.take().unwrap_or_default();
            let whole = [&h[..], &line].concat();
            match x {
                None => {
                    ensure!(line.is_empty(), "premature-end", "lines ended with \"{}\" to come over {}", sh(&line), self.name);
                    self.stop = chance(50);
                    break;
                }
                Some(Ok(l)) => {
                    let l = l.into_bytes();
                    let fits = |w: &[u8]| strip(w) == l && !(w.is_empty());
                    // a tail of what was held, if part of it was dropped as invalid
                    let ok = fits(&line) || (0..h.len()).any(|i| fits(&whole[i..]));
                    ensure!(ok, "wrong-bytes", "lines yielded \"{}\" for \"{}\" over {}", sh(&l), sh(&whole), self.name);
                }
                Some(Err(e)) => {
                    ensure!(e.kind() == ErrorKind::InvalidData && std::str::from_utf8(&whole).is_err(), "wrong-error", "lines failed with '{e}' for \"{}\"", sh(&whole));
                }
            }
            self.m.adv(line.len());
        }
    }
}

pub fn readers() {
    begin();
    readers_in();
    check_leaks("readers");
}
/// A window onto some of `b`, moved about a few times.
fn window(b: Vec<u8>) -> io::Window<Vec<u8>> {
    let n = b.len();
    let mut w = io::Window::new(b.clone());
    let mut at = (0, n);
    for i in 0..choose(4) {
        let (x, y) = (choose(n + 1), choose(n + 2));
        use std::ops::Bound::*;
        let (a, e, ok) = match choose(6) {
            0 => (x, n, allow_panic(|| w.set(x..)).is_ok()),
            1 => (0, y, allow_panic(|| w.set(..y)).is_ok()),
            2 => (x, y, allow_panic(|| w.set(x..y)).is_ok()),
            3 => (x, y + 1, allow_panic(|| w.set(x..=y)).is_ok()),
            4 => (x + 1, y, allow_panic(|| w.set((Excluded(x), Excluded(y)))).is_ok()),
            _ => (0, n, allow_panic(|| w.set(..)).is_ok()),
        };
        let legal = a <= e && e <= n;
        ensure!(ok == legal, "window", "setting a window on {n} bytes to {a}..{e}: accepted {ok}");
        if legal {
            at = (a, e);
        }
        ensure!((w.start(), w.end()) == at && w.as_ref() == &b[at.0..at.1], "window", "step {i}: window {}..{} shows {:?} of {b:?}, expected {at:?}", w.start(), w.end(), w.as_ref());
        ensure!(w.as_mut() == &b[at.0..at.1] && w.get_ref() == &b, "window", "mutable view differs");
    }
    w
}
fn readers_in() {
    let errs = [0, 0, 4, 12][choose(4)];
    let mut name = String::new();
    let (mut r, evs) = build(choose(4), errs, &mut name);
    let mut t = Task::new();
    let mut run = Run { t: &mut t, m: Model { evs, lim: vec![] }, name: &name, stop: false };
    for _ in 0..1 + choose(6) {
        if run.stop {
            return;
        }
        run.op(&mut r as &mut dyn Reader, 1);
    }
    if run.stop {
        return;
    }
    // whatever is left must still come
    for _ in 0..6 {
        let mut b = vec![];
        let x = {
            let f = r.read_to_end(&mut b);
            run.go(f)
        };
        let done = x.is_ok();
        run.judge_all("read_to_end", Some(x), vec![], b, |_| false);
        if done {
            return;
        }
    }
}

// ------------------------------------------------------------ seeking
struct SRd {
    data: Vec<u8>,
    at: std::rc::Rc<std::cell::Cell<u64>>,
    gate: Gate,
    short: u32,
    errs: u32,
    e: u32,
}
impl SRd {
    fn ready(&mut self, cx: &mut Context<'_>) -> bool {
        if self.gate.poll(cx) {
            self.gate.rearm();
            true
        } else {
            false
        }
    }
    fn err(&mut self) -> Option<Error> {
        if self.errs > 0 && chance(self.errs) {
            self.e += 1;
            return Some(ioerr(self.e));
        }
        None
    }
}
impl AsyncRead for SRd {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        if !self.ready(cx) {
            return Poll::Pending;
        }
        if let Some(e) = self.err() {
            return Poll::Ready(Err(e));
        }
        let p = (self.at.get() as usize).min(self.data.len());
        let mut n = buf.len().min(self.data.len() - p);
        if n > 1 && self.short > 0 && fault(self.short, F_SHORT_IO) {
            n = 1 + choose(n - 1);
        }
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.at.set(self.at.get() + n as u64);
        Poll::Ready(Ok(n))
    }
}
impl AsyncSeek for SRd {
    fn poll_seek(mut self: Pin<&mut Self>, cx: &mut Context<'_>, to: SeekFrom) -> Poll<io::Result<u64>> {
        if !self.ready(cx) {
            return Poll::Pending;
        }
        if let Some(e) = self.err() {
            return Poll::Ready(Err(e));
        }
        let p = match to {
            SeekFrom::Start(n) => Some(n),
            SeekFrom::End(n) => (self.data.len() as u64).checked_add_signed(n),
            SeekFrom::Current(n) => self.at.get().checked_add_signed(n),
        };
        Poll::Ready(match p {
            Some(p) => {
                self.at.set(p);
                Ok(p)
            }
            None => Err(ErrorKind::InvalidInput.into()),
        })
    }
}
pub fn seeks() {
    begin();
    let data: Vec<u8> = (0..choose(40)).map(|_| choose(256) as u8).collect();
    let cap = [1, 2, 3, 8, 64][choose(5)];
    let place = std::rc::Rc::new(std::cell::Cell::new(0));
    let src = SRd { data: data.clone(), at: place.clone(), gate: Gate::new(), short: [0, 40, 90][choose(3)], errs: [0, 0, 10][choose(3)], e: 0 };
    trait Sr: AsyncRead + AsyncSeek {}
    impl<T: AsyncRead + AsyncSeek> Sr for T {}
    use futures::future::Either;
    let src: Pin<Box<dyn Sr>> = match choose(6) {
        0 => Box::pin(Either::<SRd, Cursor<Vec<u8>>>::Left(src)),
        1 => Box::pin(Either::<Cursor<Vec<u8>>, SRd>::Right(src)),
        2 => Box::pin(Box::new(src)),
        3 => Box::pin(Box::pin(src)),
        _ => Box::pin(src),
    };
    let mut r = Box::pin(BufReader::with_capacity(cap, src));
    let mut t = Task::new();
    let mut pos: u64 = 0;
    for _ in 0..1 + choose(9) {
        let at = (pos as usize).min(data.len());
        match choose(6) {
            0 | 1 => {
                let k = choose(7);
                let mut b = vec![0; k];
                let cut = chance(20);
                let x = {
                    let mut f = r.read(&mut b);
                    if cut {
                        t.poll_n(1, |cx| Pin::new(&mut f).poll(cx))
                    } else {
                        Some(t.block_on(Pin::new(&mut f)))
                    }
                };
                match x {
                    None => {}
                    Some(Ok(n)) => {
                        prefix("read", &b[..n], &data[at..]);
                        ensure!(n > 0 || k == 0 || at == data.len(), "premature-end", "read after seeking reported the end at {at} of {}", data.len());
                        pos += n as u64;
                    }
                    Some(Err(e)) => ensure!(errno(&e).is_some(), "wrong-error", "read failed with '{e}'"),
                }
            }
            2 => {
                let x = {
                    let mut f = r.fill_buf();
                    t.block_on(Pin::new(&mut f)).map(|b| b.to_vec())
                };
                match x {
                    Ok(b) => {
                        prefix("fill_buf", &b, &data[at..]);
                        ensure!(!b.is_empty() || at == data.len(), "premature-end", "fill_buf after seeking reported the end at {at} of {}", data.len());
                        let n = choose(b.len() + 1);
                        r.as_mut().consume(n);
                        pos += n as u64;
                    }
                    Err(e) => ensure!(errno(&e).is_some(), "wrong-error", "fill_buf failed with '{e}'"),
                }
            }
            3 | 4 => {
                let d = data.len() as i64;
                let to = match choose(5) {
                    0 => SeekFrom::Start(choose(data.len() + 4) as u64),
                    1 => SeekFrom::End(choose(data.len() + 6) as i64 - d - 2),
                    2 => SeekFrom::Current(0),
                    3 if chance(20) => SeekFrom::Current(if chance(50) { i64::MIN } else { i64::MIN + 3 }),
                    _ => SeekFrom::Current(choose(16) as i64 - 8),
                };
                let want = match to {
                    SeekFrom::Start(n) => Some(n),
                    SeekFrom::End(n) => (data.len() as u64).checked_add_signed(n),
                    SeekFrom::Current(n) => pos.checked_add_signed(n),
                };
                let x = if matches!(to, SeekFrom::Current(0)) && chance(50) {
                    let mut f = r.stream_position();
                    t.block_on(Pin::new(&mut f))
                } else {
                    let mut f = r.seek(to);
                    t.block_on(Pin::new(&mut f))
                };
                match (x, want) {
                    (Ok(p), Some(w)) => {
                        ensure!(p == w, "wrong-position", "seek({to:?}) from {pos} returned {p} instead of {w}");
                        pos = p;
                        ensure!(r.buffer().is_empty() && place.get() == pos, "wrong-position", "after seek({to:?}) the underlying reader is at {} instead of {pos}", place.get());
                    }
                    (Err(e), w) => ensure!(errno(&e).is_some() || w.is_none(), "wrong-error", "seek({to:?}) from {pos} failed with '{e}'"),
                    (Ok(p), None) => fail("wrong-position", &format!("seek({to:?}) from {pos} succeeded with {p}")),
                }
            }
            _ => {
                let n = choose(16) as i64 - 8;
                let want = pos.checked_add_signed(n);
                let x = {
                    let mut f = r.as_mut().seek_relative(n);
                    t.block_on(Pin::new(&mut f))
                };
                match (x, want) {
                    (Ok(()), Some(w)) => pos = w,
                    (Err(e), w) => ensure!(errno(&e).is_some() || w.is_none(), "wrong-error", "seek_relative({n}) from {pos} failed with '{e}'"),
                    (Ok(()), None) => fail("wrong-position", &format!("seek_relative({n}) from {pos} succeeded")),
                }
            }
        }
    }
    drop(r);
    check_leaks("seeking readers");
    let _ = stream::empty::<()>();
}
