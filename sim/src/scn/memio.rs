//! In-memory readers and writers (cursors, wrapped blocking objects, vectors,
//! slices, the empty, repeating and discarding ones) against the standard
//! library's blocking cursor; limits that are changed while reading.
use super::ioread::{contents, Ev, Rd};
use crate::ex::sg::*;
use crate::rt::*;
use futures::future::Either;
use futures::io::{self, AllowStdIo, AsyncBufRead, AsyncBufReadExt, AsyncRead, AsyncReadExt, AsyncSeek, AsyncSeekExt, AsyncWrite, AsyncWriteExt, BufReader, BufWriter, Cursor, IoSlice, IoSliceMut, LineWriter, SeekFrom};
use std::io::{BufRead, Read, Seek, Write};
use std::pin::Pin;
use std::task::{Context, Poll};

trait All: AsyncRead + AsyncBufRead + AsyncWrite + AsyncSeek + Unpin {}
impl<T: AsyncRead + AsyncBufRead + AsyncWrite + AsyncSeek + Unpin> All for T {}
trait Ref: Read + BufRead + Write + Seek {}
impl<T: Read + BufRead + Write + Seek> Ref for T {}

fn bytes(max: usize) -> Vec<u8> {
    (0..choose(max + 1)).map(|_| b'a' + choose(26) as u8).collect()
}
fn same<T: PartialEq + std::fmt::Debug>(op: &str, name: &str, a: std::io::Result<T>, b: std::io::Result<T>) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => {
            ensure!(a == b, "wrong-result", "{name}: {op} gave {a:?}, expected {b:?}");
            true
        }
        (Err(a), Err(b)) => {
            ensure!(a.kind() == b.kind(), "wrong-error", "{name}: {op} failed with {:?}, expected {:?}", a.kind(), b.kind());
            false
        }
        (a, b) => fail("wrong-result", &format!("{name}: {op} gave {a:?}, expected {b:?}")),
    }
}
fn compare(name: &str, mut c: Box<dyn All + '_>, r: &mut dyn Ref, fixed: bool) {
    let mut t = Task::new();
    macro_rules! go {
        ($f:expr) => {{
            let mut f = $f;
            t.block_on(Pin::new(&mut f))
        }};
    }
    for _ in 0..1 + choose(9) {
        match choose(12) {
            0 => {
                let k = choose(6);
                let (mut a, mut b) = (vec![0; k], vec![0; k]);
                same("read", name, go!(c.read(&mut a)), r.read(&mut b));
                ensure!(a == b, "wrong-bytes", "{name}: read {a:?}, expected {b:?}");
            }
            1 => {
                let (k, l) = (choose(4), choose(4));
                let (mut a, mut b) = (vec![0; k + l], vec![0; k + l]);
                let x = {
                    let (p, q) = a.split_at_mut(k);
                    let v = &mut [IoSliceMut::new(p), IoSliceMut::new(q)];
                    go!(c.read_vectored(v))
                };
                let y = {
                    let (p, q) = b.split_at_mut(k);
                    r.read_vectored(&mut [IoSliceMut::new(p), IoSliceMut::new(q)])
                };
                same("read_vectored", name, x, y);
                ensure!(a == b, "wrong-bytes", "{name}: read_vectored {a:?}, expected {b:?}");
            }
            2 => {
                let x = go!(c.fill_buf()).map(|b| b.to_vec());
                let y = r.fill_buf().map(|b| b.to_vec());
                let n = y.as_ref().map_or(0, |b| b.len());
                if same("fill_buf", name, x, y) {
                    let n = choose(n + 1);
                    Pin::new(&mut c).consume(n);
                    r.consume(n);
                }
            }
            3 | 4 => {
                let b = bytes(6);
                same("write", name, go!(c.write(&b)), r.write(&b));
            }
            5 => {
                let (b, d) = (bytes(4), bytes(4));
                let v = [IoSlice::new(&b), IoSlice::new(&d)];
                same("write_vectored", name, go!(c.write_vectored(&v)), r.write_vectored(&v));
            }
            6 => {
                // the standard cursor pads up to its position for an empty write_all as well
                let mut b = bytes(6);
                b.push(b'!');
                if !same("write_all", name, go!(c.write_all(&b)), r.write_all(&b)) {
                    return;
                }
            }
            7 => {
                same("flush", name, go!(c.flush()), r.flush());
            }
            8 | 9 => {
                let to = match choose(4) {
                    0 => SeekFrom::Start(if fixed && chance(20) { u64::MAX - choose(3) as u64 } else { choose(16) as u64 }),
                    1 => SeekFrom::End(choose(12) as i64 - 8),
                    2 => SeekFrom::Current(0),
                    _ => SeekFrom::Current(choose(12) as i64 - 6),
                };
                let x = if matches!(to, SeekFrom::Current(0)) && chance(50) { go!(c.stream_position()) } else { go!(c.seek(to)) };
                same("seek", name, x, r.seek(to));
            }
            10 => {
                let k = choose(5);
                let (mut a, mut b) = (vec![0; k], vec![0; k]);
                if !same("read_exact", name, go!(c.read_exact(&mut a)), r.read_exact(&mut b)) {
                    return;
                }
                ensure!(a == b, "wrong-bytes", "{name}: read_exact {a:?}, expected {b:?}");
            }
            _ => {
                same("close", name, go!(c.close()), r.flush());
            }
        }
    }
    // everything that was written
    let (mut a, mut b) = (vec![], vec![]);
    same("seek", name, go!(c.seek(SeekFrom::Start(0))), r.seek(SeekFrom::Start(0)));
    same("read_to_end", name, go!(c.read_to_end(&mut a)), r.read_to_end(&mut b));
    ensure!(a == b, "wrong-bytes", "{name}: holds {a:?}, expected {b:?}");
}
fn cursors() {
    let b = bytes(10);
    let mut m = b.clone();
    let mut rv = std::io::Cursor::new(b.clone());
    let mut rf = std::io::Cursor::new(b.clone().into_boxed_slice());
    let wrap = choose(5);
    fn layer<'a, T: All + 'a>(c: T, k: usize) -> Box<dyn All + 'a> {
        match k {
            0 => Box::new(Box::pin(c)),
            1 => Box::new(Either::<T, Cursor<Vec<u8>>>::Left(c)),
            2 => Box::new(Either::<Cursor<Vec<u8>>, T>::Right(c)),
            3 => Box::new(Box::new(c) as Box<dyn All + 'a>),
            _ => Box::new(c),
        }
    }
    match choose(7) {
        0 => compare("Cursor<Vec>", layer(Cursor::new(b), wrap), &mut rv, false),
        1 => compare("Cursor<&mut Vec>", layer(Cursor::new(&mut m), wrap), &mut rv, false),
        2 => compare("Cursor<&mut [u8]>", layer(Cursor::new(&mut m[..]), wrap), &mut rf, true),
        3 => compare("Cursor<Box<[u8]>>", layer(Cursor::new(b.into_boxed_slice()), wrap), &mut rf, true),
        4 => compare("AllowStdIo", layer(AllowStdIo::new(std::io::Cursor::new(b)), wrap), &mut rv, false),
        5 => compare("AllowStdIo twice", layer(AllowStdIo::new(AllowStdIo::new(std::io::Cursor::new(b))), wrap), &mut rv, false),
        _ => {
            let mut c = Cursor::new(b.clone());
            let p = choose(14) as u64;
            c.set_position(p);
            ensure!(c.position() == p && c.get_ref() == &b && c.get_mut() == &b, "wrong-position", "a cursor set to {p} is at {}", c.position());
            rv.set_position(p);
            let mut t = Task::new();
            let (mut x, mut y) = (vec![], vec![]);
            let n = t.block_on(Pin::new(&mut c.read_to_end(&mut x)));
            same("read_to_end", "Cursor at a position", n, rv.read_to_end(&mut y));
            ensure!(x == y && c.position() == rv.position() && c.into_inner() == b, "wrong-bytes", "a cursor at {p} of {b:?} read {x:?}");
        }
    }
}
fn plain() {
    let mut t = Task::new();
    macro_rules! go {
        ($f:expr) => {{
            let mut f = $f;
            t.block_on(Pin::new(&mut f))
        }};
    }
    match choose(4) {
        0 => {
            let mut v: Vec<u8> = bytes(4);
            let mut want = v.clone();
            for _ in 0..1 + choose(5) {
                let (b, d) = (bytes(5), bytes(5));
                match choose(5) {
                    0 => {
                        ensure!(go!(AsyncWriteExt::write(&mut v, &b)).unwrap() == b.len(), "wrong-result", "a vector took part of a write");
                        want.extend(&b);
                    }
                    1 => {
                        let s = [IoSlice::new(&b), IoSlice::new(&d)];
                        ensure!(go!(AsyncWriteExt::write_vectored(&mut v, &s)).unwrap() == b.len() + d.len(), "wrong-result", "a vector took part of a vectored write");
                        want.extend(&b);
                        want.extend(&d);
                    }
                    2 => {
                        go!(AsyncWriteExt::write_all(&mut v, &b)).unwrap();
                        want.extend(&b);
                    }
                    3 => go!(AsyncWriteExt::flush(&mut v)).unwrap(),
                    _ => go!(AsyncWriteExt::close(&mut v)).unwrap(),
                }
                ensure!(v == want, "wrong-bytes", "a vector written to holds {v:?}, expected {want:?}");
            }
        }
        1 => {
            let mut s = io::sink();
            let (b, d) = (bytes(5), bytes(5));
            ensure!(go!(s.write(&b)).unwrap() == b.len(), "wrong-result", "sink took part of a write");
            let v = [IoSlice::new(&b), IoSlice::new(&d)];
            ensure!(go!(s.write_vectored(&v)).unwrap() == b.len() + d.len(), "wrong-result", "sink took part of a vectored write");
            go!(s.flush()).unwrap();
            go!(s.close()).unwrap();
        }
        2 => {
            let mut e = io::empty();
            let mut b = [7; 3];
            ensure!(go!(e.read(&mut b)).unwrap() == 0 && b == [7; 3], "wrong-bytes", "empty() gave bytes");
            ensure!(go!(e.fill_buf()).unwrap().is_empty(), "wrong-bytes", "empty() gave bytes");
            Pin::new(&mut e).consume(0);
            let mut s = String::new();
            ensure!(go!(e.read_line(&mut s)).unwrap() == 0 && s.is_empty(), "wrong-bytes", "empty() gave bytes");
        }
        _ => {
            let z = b'a' + choose(26) as u8;
            let mut r = io::repeat(z);
            for _ in 0..1 + choose(3) {
                let (k, l) = (choose(4), choose(4));
                let mut a = vec![0; k + l];
                if chance(50) {
                    let (p, q) = a.split_at_mut(k);
                    let v = &mut [IoSliceMut::new(p), IoSliceMut::new(q)];
                    ensure!(go!(r.read_vectored(v)).unwrap() == k + l, "wrong-result", "repeat filled only part of the buffers");
                } else {
                    ensure!(go!(r.read(&mut a)).unwrap() == k + l, "wrong-result", "repeat filled only part of the buffer");
                }
                ensure!(a.iter().all(|x| *x == z), "wrong-bytes", "repeat({z}) gave {a:?}");
            }
        }
    }
}
/// A limit that is changed while reading bounds what follows.
fn limits() {
    let evs = contents(30, 0);
    let all: Vec<u8> = evs.iter().map(|e| if let Ev::B(b) = e { *b } else { unreachable!() }).collect();
    let mut lim = choose(all.len() + 4);
    let mut r = Rd::new(evs).take(lim as u64);
    let mut t = Task::new();
    let mut at = 0;
    for _ in 0..1 + choose(8) {
        ensure!(r.limit() == lim as u64, "wrong-limit", "limit is {}, expected {lim}", r.limit());
        let left = &all[at..(at + lim).min(all.len())];
        let k = match choose(4) {
            0 => {
                lim = choose(all.len() + 4);
                r.set_limit(lim as u64);
                0
            }
            1 => {
                let mut b = vec![0; choose(7)];
                let n = t.block_on(Pin::new(&mut r.read(&mut b))).unwrap();
                ensure!(left.starts_with(&b[..n]), "wrong-bytes", "a limited reader gave {:?} of {left:?}", &b[..n]);
                ensure!(n > 0 || b.is_empty() || left.is_empty(), "premature-end", "a limited reader ended with {} bytes to come", left.len());
                n
            }
            2 => {
                let b = t.block_on(Pin::new(&mut r.fill_buf())).unwrap().to_vec();
                ensure!(left.starts_with(&b), "wrong-bytes", "a limited reader offers {b:?} of {left:?}");
                ensure!(!b.is_empty() || left.is_empty(), "premature-end", "a limited reader ended with {} bytes to come", left.len());
                let n = choose(b.len() + 1);
                Pin::new(&mut r).consume(n);
                n
            }
            _ => {
                let mut b = vec![];
                t.block_on(Pin::new(&mut r.read_to_end(&mut b))).unwrap();
                ensure!(b == left, "wrong-bytes", "a limited reader gave {b:?} to the end, expected {left:?}");
                b.len()
            }
        };
        at += k;
        if k > 0 {
            lim -= k;
        }
    }
    let mut r = r.into_inner();
    let mut b = vec![];
    t.block_on(Pin::new(&mut r.read_to_end(&mut b))).unwrap();
    ensure!(b == all[at..], "wrong-bytes", "behind a limited reader there are {b:?}, expected {:?}", &all[at..]);
}
/// Buffers of default size, taken apart again.
fn defaults() {
    let b = bytes(40);
    let mut t = Task::new();
    match choose(4) {
        0 => {
            let mut r = BufReader::new(Cursor::new(b.clone()));
            let mut x = vec![0; choose(b.len() + 1)];
            t.block_on(Pin::new(&mut r.read_exact(&mut x))).unwrap();
            let rest = r.buffer().to_vec();
            ensure!(b.starts_with(&[&x[..], &rest[..]].concat()), "wrong-bytes", "read {x:?} and buffered {rest:?} of {b:?}");
            ensure!(r.get_ref().position() == (x.len() + rest.len()) as u64, "wrong-position", "a buffered reader gave and holds {} bytes, but took {}", x.len() + rest.len(), r.get_ref().position());
            ensure!(r.into_inner().into_inner() == b, "wrong-bytes", "into_inner gave something else");
        }
        1 => {
            let mut w = BufWriter::new(Vec::new());
            t.block_on(Pin::new(&mut w.write_all(&b))).unwrap();
            ensure!([w.get_ref(), w.buffer()].concat() == b, "wrong-bytes", "a buffered writer lost bytes");
            t.block_on(Pin::new(&mut w.flush())).unwrap();
            ensure!(w.buffer().is_empty() && w.into_inner() == b, "wrong-bytes", "a flushed writer did not pass on everything");
        }
        2 => {
            let mut b = b;
            if !b.is_empty() && chance(70) {
                let i = choose(b.len());
                b[i] = b'\n';
            }
            let mut w = LineWriter::new(Vec::new());
            t.block_on(Pin::new(&mut w.write_all(&b))).unwrap();
            let cut = b.iter().rposition(|x| *x == b'\n').map_or(0, |i| i + 1);
            ensure!(w.get_ref()[..] == b[..cut] && w.buffer() == &b[cut..], "held-back", "a line writer passed on {:?} and holds {:?} of {b:?}", w.get_ref(), w.buffer());
        }
        _ => {
            let (x, y) = (bytes(8), bytes(8));
            let mut c = Cursor::new(x.clone()).chain(Cursor::new(y.clone()));
            let mut k = vec![0; choose(x.len() + y.len() + 1)];
            t.block_on(Pin::new(&mut c.read_exact(&mut k))).unwrap();
            let (p, q) = c.get_ref();
            ensure!(p.position() + q.position() == k.len() as u64, "wrong-position", "a chain that gave {} bytes took {} and {}", k.len(), p.position(), q.position());
            let (p, q) = c.into_inner();
            ensure!(p.into_inner() == x && q.into_inner() == y && [x, y].concat().starts_with(&k), "wrong-bytes", "a chain gave something else");
        }
    }
}
/// A reader made of a stream passes on what is written to it.
struct Dx(crate::leaf::Src<std::io::Result<Vec<u8>>>, Vec<u8>);
impl futures::stream::Stream for Dx {
    type Item = std::io::Result<Vec<u8>>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        Pin::new(&mut self.0).poll_next(cx)
    }
}
impl AsyncWrite for Dx {
    fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        let n = b.len().min(1 + choose(3));
        self.1.extend(&b[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        self.1.push(b'F');
        Poll::Ready(Ok(()))
    }
    fn poll_close(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        self.1.push(b'C');
        Poll::Ready(Ok(()))
    }
}
fn duplex() {
    use futures::stream::TryStreamExt;
    let (a, b) = (bytes(8), bytes(8).to_ascii_lowercase());
    let src = crate::leaf::Src::new(a.chunks(3).map(|c| Ok(c.to_vec())).collect::<Vec<_>>());
    let mut d = Dx(src, vec![]);
    let mut t = Task::new();
    let mut got = vec![];
    {
        let mut r = (&mut d).into_async_read();
        t.block_on(Pin::new(&mut r.write_all(&b))).unwrap();
        t.block_on(Pin::new(&mut r.flush())).unwrap();
        t.block_on(Pin::new(&mut r.read_to_end(&mut got))).unwrap();
        t.block_on(Pin::new(&mut r.close())).unwrap();
    }
    ensure!(got == a, "wrong-bytes", "a stream read as bytes gave {got:?} of {a:?}");
    ensure!(d.1 == [&b[..], b"FC"].concat(), "wrong-bytes", "writing {b:?}, flushing and closing reached the object as {:?}", d.1);
}
pub fn run() {
    begin();
    match choose(10) {
        0..=4 => cursors(),
        5 => plain(),
        6 | 7 => limits(),
        8 => defaults(),
        _ => duplex(),
    }
    check_leaks("in-memory I/O");
}
