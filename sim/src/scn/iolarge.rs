//! Byte streams longer than every internal buffer: the same guarantees as for
//! short ones, at sizes around the growth steps and default capacities.
use crate::ex::sg::*;
use crate::rt::*;
use futures::io::{self, AsyncBufReadExt, AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, BufReader, BufWriter, LineWriter};
use futures::stream::{self, StreamExt, TryStreamExt};
use futures::sink::SinkExt;
use std::cell::RefCell;
use std::io::{IoSlice, IoSliceMut};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

fn size() -> usize {
    let b = [0, 32, 64, 96, 128, 256, 1024, 2048, 8192, 16384, 24576, 4096][choose(12)];
    match choose(4) {
        0 => b,
        1 => b + 1,
        2 => (b as usize).saturating_sub(1),
        _ => b + choose(200),
    }
}
fn piece() -> usize {
    [1, 7, 31, 32, 33, 500, 1024, 4095, 8191, 8192, 8193, 100_000][choose(12)]
}
struct Lr {
    data: Rc<Vec<u8>>,
    at: usize,
    unit: usize,
    gate: Gate,
    calm: bool,
}
impl AsyncRead for Lr {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
        if !self.calm && !self.gate.poll(cx) {
            return Poll::Pending;
        }
        self.gate.rearm();
        let n = (self.data.len() - self.at).min(b.len()).min(if self.unit == 0 { piece() } else { self.unit });
        b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Poll::Ready(Ok(n))
    }
    fn poll_read_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bs: &mut [IoSliceMut<'_>]) -> Poll<io::Result<usize>> {
        match bs.iter_mut().find(|b| !b.is_empty()) {
            Some(b) => self.poll_read(cx, b),
            None => self.poll_read(cx, &mut []),
        }
    }
}
#[derive(Default)]
struct Out {
    got: Vec<u8>,
    flushed: usize,
    closed: bool,
}
struct Lw {
    o: Rc<RefCell<Out>>,
    unit: usize,
    gate: Gate,
    calm: bool,
}
impl Lw {
    fn wait(&self, cx: &mut Context<'_>) -> bool {
        if !self.calm && !self.gate.poll(cx) {
            return true;
        }
        self.gate.rearm();
        false
    }
}
impl AsyncWrite for Lw {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        if self.wait(cx) {
            return Poll::Pending;
        }
        let n = b.len().min(if self.unit == 0 { piece() } else { self.unit });
        self.o.borrow_mut().got.extend_from_slice(&b[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bs: &[IoSlice<'_>]) -> Poll<io::Result<usize>> {
        if self.wait(cx) {
            return Poll::Pending;
        }
        let mut left = if self.unit == 0 { piece() } else { self.unit };
        let mut n = 0;
        for b in bs {
            let k = b.len().min(left);
            self.o.borrow_mut().got.extend_from_slice(&b[..k]);
            n += k;
            left -= k;
            if k < b.len() {
                break;
            }
        }
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if self.wait(cx) {
            return Poll::Pending;
        }
        let mut o = self.o.borrow_mut();
        o.flushed = o.got.len();
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if self.wait(cx) {
            return Poll::Pending;
        }
        let mut o = self.o.borrow_mut();
        o.flushed = o.got.len();
        o.closed = true;
        Poll::Ready(Ok(()))
    }
}
fn unit() -> usize {
    if chance(50) {
        0
    } else {
        piece().max(7)
    }
}
/// Bytes with line ends now and then and no repetition that could hide a shift.
fn bytes(n: usize, text: bool) -> Vec<u8> {
    let every = [1usize, 40, 1000, 9000][choose(4)] as u32;
    let mut x = 1 + choose(1000) as u32;
    (0..n)
        .map(|_| {
            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
            let r = x >> 8;
            if r % (every + 3) == 0 {
                b'\n'
            } else if text {
                b'a' + (r % 25) as u8
            } else {
                (r >> 3) as u8
            }
        })
        .collect()
}
fn same(what: &str, a: &[u8], b: &[u8]) {
    if a != b {
        let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        fail("large-bytes", &format!("{what}: {} bytes instead of {}; first difference at {i}", a.len(), b.len()));
    }
}
fn finished<T>(what: &str, r: io::Result<T>) -> T {
    match r {
        Ok(x) => x,
        Err(e) => {
            fail("large-error", &format!("{what} failed: {e}"));
        }
    }
}
pub fn read() {
    begin();
    let n = size();
    let op = choose(10);
    let data = Rc::new(bytes(n, op == 1 || op == 4));
    let mk = |d: &Rc<Vec<u8>>| Lr { data: d.clone(), at: 0, unit: unit(), gate: Gate::new(), calm: chance(50) };
    let mut t = Task::quiet();
    t.limit = 400_000;
    let r = mk(&data);
    let cap = [1usize, 32, 1024, 8192, 8193][choose(5)];
    // the source, possibly behind other readers
    let mut rd: Box<dyn AsyncRead + Unpin> = match choose(5) {
        0 => Box::new(BufReader::new(r)),
        1 => Box::new(BufReader::with_capacity(cap.max(7), r)),
        2 => {
            let k = choose(n + 1);
            let (a, b) = (Rc::new(data[..k].to_vec()), Rc::new(data[k..].to_vec()));
            Box::new(mk(&a).chain(mk(&b)))
        }
        3 => {
            let long = Rc::new([&data[..], b"more than that"].concat());
            Box::new(mk(&long).take(n as u64))
        }
        _ => Box::new(r),
    };
    match op {
        0 | 7 => {
            let had = [0, 1, 31, 32, 33][choose(5)];
            let mut v = vec![9u8; had];
            if chance(50) {
                v.reserve_exact(choose(100));
            }
            let k = finished("read_to_end", t.block_on(Pin::new(&mut rd.read_to_end(&mut v))));
            ensure!(k == n, "large-count", "read_to_end reported {k} of {n} bytes");
            same("read_to_end", &v[had..], &data);
            ensure!(v[..had].iter().all(|x| *x == 9), "large-bytes", "read_to_end changed what the vector held");
        }
        1 => {
            let mut s = String::from("é");
            let k = finished("read_to_string", t.block_on(Pin::new(&mut rd.read_to_string(&mut s))));
            ensure!(k == n, "large-count", "read_to_string reported {k} of {n} bytes");
            same("read_to_string", &s.as_bytes()[2..], &data);
        }
        2 => {
            let mut v = vec![0; n];
            finished("read_exact", t.block_on(Pin::new(&mut rd.read_exact(&mut v))));
            same("read_exact", &v, &data);
            let mut one = [0; 1];
            ensure!(t.block_on(Pin::new(&mut rd.read_exact(&mut one))).is_err(), "large-error", "read_exact beyond the end succeeded");
        }
        3 | 8 => {
            let o: Rc<RefCell<Out>> = Default::default();
            let mut w = Lw { o: o.clone(), unit: unit(), gate: Gate::new(), calm: chance(50) };
            let k = match choose(3) {
                0 => finished("copy", t.block_on(std::pin::pin!(io::copy(rd, &mut w)))),
                1 => finished("copy_buf", t.block_on(std::pin::pin!(io::copy_buf(BufReader::with_capacity(cap.max(7), rd), &mut w)))),
                _ => {
                    let b = BufReader::new(rd);
                    let (f, _h) = io::copy_buf_abortable(b, &mut w);
                    match finished("copy_buf_abortable", t.block_on(std::pin::pin!(f))) {
                        Ok(k) => k,
                        Err(_) => fail("large-error", "aborted without an abort"),
                    }
                }
            };
            ensure!(k == n as u64 && o.borrow().flushed == n, "large-count", "copying reported {k} of {n} bytes, {} flushed", o.borrow().flushed);
            same("copy", &o.borrow().got, &data);
        }
        4 => {
            let ls: Vec<io::Result<String>> = t.block_on(std::pin::pin!(BufReader::with_capacity(cap.max(7), rd).lines().collect()));
            let ls: Vec<String> = ls.into_iter().map(|l| finished("lines", l)).collect();
            let want: Vec<String> = std::io::BufRead::lines(&data[..]).map(|l| l.unwrap()).collect();
            ensure!(ls == want, "large-lines", "lines gave {} lines instead of {}, or other ones", ls.len(), want.len());
        }
        5 => {
            let mut b = BufReader::with_capacity(cap.max(7), rd);
            let mut all = vec![];
            let mut v = vec![];
            loop {
                v.clear();
                let k = finished("read_until", t.block_on(Pin::new(&mut b.read_until(b'\n', &mut v))));
                ensure!(k == v.len(), "large-count", "read_until reported {k} bytes and gave {}", v.len());
                if k == 0 {
                    break;
                }
                ensure!(!v[..k - 1].contains(&b'\n') && (v[k - 1] == b'\n' || all.len() + k == n), "large-lines", "read_until did not stop at the delimiter");
                all.extend_from_slice(&v);
            }
            same("read_until", &all, &data);
        }
        6 => {
            // a stream of chunks as a reader
            let mut cs: Vec<Result<Vec<u8>, io::Error>> = vec![];
            let mut at = 0;
            while at < n {
                let k = piece().max(7).min(n - at);
                cs.push(Ok(data[at..at + k].to_vec()));
                if chance(10) {
                    cs.push(Ok(vec![]));
                }
                at += k;
            }
            let mut r = stream::iter(cs).into_async_read();
            let mut v = vec![];
            let k = finished("read_to_end", t.block_on(Pin::new(&mut r.read_to_end(&mut v))));
            ensure!(k == n, "large-count", "read_to_end reported {k} of {n} bytes");
            same("into_async_read", &v, &data);
        }
        _ => {
            // reads of changing sizes, partly through fill_buf
            let mut b = BufReader::with_capacity(cap.max(7), rd);
            let mut all = vec![];
            let mut v = vec![0; 10_000];
            loop {
                let k = match choose(3) {
                    0 => {
                        let s = finished("fill_buf", t.block_on(Pin::new(&mut b.fill_buf())));
                        let k = s.len().min(piece());
                        all.extend_from_slice(&s[..k]);
                        b.consume_unpin(k);
                        k
                    }
                    1 => {
                        let m = piece().max(7).min(v.len());
                        let k = finished("read", t.block_on(Pin::new(&mut b.read(&mut v[..m]))));
                        all.extend_from_slice(&v[..k]);
                        k
                    }
                    _ => {
                        let m = 5000.min(piece());
                        let (x, y) = v.split_at_mut(m);
                        let k = finished("read", t.block_on(Pin::new(&mut b.read_vectored(&mut [IoSliceMut::new(x), IoSliceMut::new(y)]))));
                        all.extend_from_slice(&v[..k]);
                        k
                    }
                };
                if k == 0 {
                    break;
                }
            }
            same("buffered reads", &all, &data);
        }
    }
}
pub fn write() {
    begin();
    let n = size();
    let data = bytes(n, false);
    let o: Rc<RefCell<Out>> = Default::default();
    let mut t = Task::quiet();
    t.limit = 400_000;
    let w = Lw { o: o.clone(), unit: unit(), gate: Gate::new(), calm: chance(50) };
    let cap = [0usize, 1, 32, 1024, 8192, 8193][choose(6)];
    if chance(15) {
        // chunks through a sink
        let mut s = w.into_sink();
        let mut at = 0;
        while at < n {
            let k = piece().max(7).min(n - at);
            let r = if chance(70) { t.block_on(Pin::new(&mut s.feed(data[at..at + k].to_vec()))) } else { t.block_on(Pin::new(&mut s.send(data[at..at + k].to_vec()))) };
            finished("send", r);
            at += k;
        }
        finished("close", t.block_on(Pin::new(&mut SinkExt::<Vec<u8>>::close(&mut s))));
        drop(s);
        let o = o.borrow();
        ensure!(o.closed && o.flushed == n, "large-count", "{} of {n} bytes flushed by close", o.flushed);
        same("into_sink", &o.got, &data);
        return;
    }
    let line;
    let mut wr: Box<dyn AsyncWrite + Unpin> = match choose(5) {
        0 => {
            line = false;
            Box::new(BufWriter::new(w))
        }
        1 => {
            line = false;
            Box::new(BufWriter::with_capacity(cap, w))
        }
        2 => {
            line = true;
            Box::new(LineWriter::new(w))
        }
        3 => {
            line = true;
            Box::new(LineWriter::with_capacity(cap, w))
        }
        _ => {
            line = false;
            Box::new(w)
        }
    };
    let mut at = 0;
    while at < n {
        let k = piece().max(7).min(n - at);
        if chance(60) {
            finished("write_all", t.block_on(Pin::new(&mut wr.write_all(&data[at..at + k]))));
            at += k;
        } else if chance(50) {
            at += finished("write", t.block_on(Pin::new(&mut wr.write(&data[at..at + k]))));
        } else {
            let m = k / 2;
            let bs = [IoSlice::new(&data[at..at + m]), IoSlice::new(&[]), IoSlice::new(&data[at + m..at + k])];
            at += finished("write_vectored", t.block_on(Pin::new(&mut wr.write_vectored(&bs))));
        }
        {
            let o = o.borrow();
            same("before a flush", &o.got, &data[..o.got.len().min(at)]);
            let _ = line;
        }
        if chance(15) {
            finished("flush", t.block_on(Pin::new(&mut wr.flush())));
            let o = o.borrow();
            ensure!(o.flushed == at, "large-count", "a flush left {} of {at} bytes behind", at - o.flushed);
        }
    }
    finished("close", t.block_on(Pin::new(&mut wr.close())));
    let o = o.borrow();
    ensure!(o.closed && o.flushed == n, "large-count", "{} of {n} bytes flushed by close", o.flushed);
    same("written", &o.got, &data);
}
