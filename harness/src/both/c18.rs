//! Reading into and writing to byte vectors.
use super::vcommon::*;
use crate::entries;
use crate::vf::*;
use fallible_collections::vec::std_io::*;
use fallible_collections::*;
use std::io::{self, Read, Write};

entries!(c18_read, c18_any, c18_write, c18_seq);

/// A source that decides at each call how much to hand out, and may report interruptions or an error.
struct Src {
    data: Vec<u8>,
    at: usize,
    interrupts: u64,
    /// an error is reported instead of the byte at this place
    err_at: usize,
    failed: bool,
    calls: u64,
    asked_after_end: u64,
    /// hand out as much as fits
    whole: bool,
}
impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupts > 0 && any_bool() {
            self.interrupts -= 1;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        if self.at == self.err_at {
            self.failed = true;
            return Err(io::Error::from(io::ErrorKind::BrokenPipe));
        }
        let left = (self.data.len() - self.at).min(buf.len()).min(if self.at < self.err_at { self.err_at - self.at } else { usize::MAX });
        if left == 0 {
            if !buf.is_empty() {
                self.asked_after_end += 1;
            }
            return Ok(0);
        }
        let n = if self.whole { left } else { 1 + choose(left as u64) as usize };
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
fn source(n: usize, interrupts: u64, err_at: usize, whole: bool) -> Src {
    let mut data = Vec::with_capacity(n);
    for i in 0..n {
        data.push(x(10 + i) as u8);
    }
    Src { data, at: 0, interrupts, err_at, failed: false, calls: 0, asked_after_end: 0, whole }
}
fn arm(mode: u64) {
    match mode {
        0 => {}
        1 => fault_each(2),
        2 => fault_persistent(),
        _ => fault_all(),
    }
}
#[inline(never)]
fn read_one(op: u64, t: &mut TryVec<u8>, src: &mut Src, limit: u64, mode: u64) {
    let len = t.len();
    let before = snap(t.as_slice());
    let start = src.at;
    src.failed = false;
    let avail = (src.data.len() - start) as u64;
    let f0 = fails();
    let l0 = live();
    arm(mode);
    let mut taken = None;
    let mut made = None;
    let mut r: Option<io::Result<usize>> = None;
    let p = panics(|| match op {
        0 => r = Some(try_read_up_to(src, limit, t)),
        1 => {
            let mut k = src.take(limit);
            r = Some(k.try_read_to_end(t));
            taken = Some(k.limit());
        }
        _ => {
            let mut k = src.take(limit);
            r = Some(match k.read_into_try_vec() {
                Ok(v) => {
                    let n = v.len();
                    made = Some(v);
                    Ok(n)
                }
                Err(e) => Err(e),
            });
            taken = Some(k.limit());
        }
    });
    disarm();
    check(!p, "reading does not panic");
    let got = src.at - start;
    let want = if limit < avail { limit } else { avail };
    check(got as u64 <= limit, "no more is consumed than the limit");
    if let Some(l) = taken {
        check(l == limit - got as u64, "the remaining limit is what was not read");
    }
    let ok = matches!(r, Some(Ok(_)));
    if let Some(Ok(n)) = r {
        cover("a read succeeded");
        check(!src.failed, "an error of the source is reported");
        check(fails() == f0, "a failed allocation is reported as an error");
        check(limit as u128 <= LIMIT, "a limit that cannot be reserved is an error");
        check(n as u64 == want, "the count returned is the number of bytes available up to the limit");
        check(got == n, "exactly the bytes read are consumed");
        let v = made.as_ref().unwrap_or(t);
        let l = if op == 2 { 0 } else { len };
        check(v.len() == l + n, "the bytes read are appended");
        for i in 0..n {
            check(v[l + i] == src.data[start + i], "the bytes read are appended in order");
        }
    } else {
        cover("a read failed");
        let huge = limit as u128 + len as u128 > LIMIT;
        check((fails() > f0) | src.failed | huge, "a read fails only if memory or the source does");
        if fails() == f0 {
            check(t.len() <= len + got, "nothing but the bytes read is appended");
            if op < 2 {
                for i in len..t.len() {
                    check(t[i] == src.data[start + i - len], "nothing but the bytes read is appended");
                }
            }
        }
        if is((fails() > f0) | huge) && got == 0 {
            check(t.len() == len, "a read that could not reserve appends nothing");
        }
        drop(r);
        check((op < 2) | (live() == l0), "a failed read leaks nothing");
    }
    check(t.len() >= len, "the bytes present before remain");
    same(t.as_slice(), &before, len);
    obs(got as u64 + 100 * ok as u64);
}
/// params: op, bytes there, room, bytes available, interruptions, place of an error, mode of failure
#[no_mangle]
pub extern "C-unwind" fn c18_read() {
    let (op, len, cap, n, ints, err, mode) = (param(0), param(1) as usize, param(2) as usize, param(3) as usize, param(4), param(5) as usize, param(6));
    let mut t: TryVec<u8> = vec_of::<u8>(len, cap).into();
    let mut src = source(n, ints, err, false);
    let limit = choose(n as u64 + 4);
    read_one(op, &mut t, &mut src, limit, mode);
    drop(t);
    drop(src);
    fin();
}
/// Limits up to the largest integer; the source hands out all it can. params: op, bytes there, room, bytes available, mode of failure
#[no_mangle]
pub extern "C-unwind" fn c18_any() {
    let (op, len, cap, n, mode) = (param(0), param(1) as usize, param(2) as usize, param(3) as usize, param(4));
    let mut t: TryVec<u8> = vec_of::<u8>(len, cap).into();
    let mut src = source(n, 0, usize::MAX, true);
    // every limit near the number of bytes there are, some far larger, and everything beyond what memory can hold
    let near = n as u64 + 6;
    let n64 = n as u64;
    let limit = match choose(if n > 140 { 14 } else { near + 5 }) {
        k if n > 140 => [0, 1, n64 / 2, n64 - 1, n64, n64 + 1, 255, 256, 257, n64 + 5, 100, 8192, 70_000, 1 << 20][k as usize],
        k if k < near => k,
        k if k == near => 100,
        k if k == near + 1 => 8192,
        k if k == near + 2 => 70_000,
        k if k == near + 3 => 1 << 20,
        _ => {
            let l = any64();
            assume(l as u128 > LIMIT);
            l
        }
    };
    read_one(op, &mut t, &mut src, limit, mode);
    drop(t);
    drop(src);
    fin();
}
/// Several reads from one source. params: reads, bytes available, mode of failure
#[no_mangle]
pub extern "C-unwind" fn c18_seq() {
    let (k, n, mode) = (param(0), param(1) as usize, param(2));
    let mut t: TryVec<u8> = TryVec::new();
    let mut src = source(n, 0, usize::MAX, false);
    for _ in 0..k {
        let op = choose(2);
        let limit = choose(4);
        read_one(op, &mut t, &mut src, limit, mode);
    }
    drop(t);
    drop(src);
    fin();
}

/// Writing. params: op, bytes there, room, mode of failure, bytes written at least
#[no_mangle]
pub extern "C-unwind" fn c18_write() {
    let (op, len, cap, mode) = (param(0), param(1) as usize, param(2) as usize, param(3));
    let mut t: TryVec<u8> = vec_of::<u8>(len, cap).into();
    let before = snap(t.as_slice());
    let n = param(4) as usize + choose(6) as usize;
    let mut bytes = [0u8; 600];
    for i in 0..n {
        bytes[i] = x(10 + i) as u8;
    }
    let f0 = fails();
    let mut r: Option<io::Result<usize>> = None;
    arm(mode);
    let p = panics(|| {
        r = Some(match op {
            0 => t.write(&bytes[..n]),
            1 => t.write_all(&bytes[..n]).map(|_| n),
            2 => {
                let a = n / 2;
                match t.write(&bytes[..a]) {
                    Ok(k) if k == a => t.write(&bytes[a..n]).map(|l| k + l),
                    r => r,
                }
            }
            4 => {
                // several pieces at once: any prefix may be taken, but what is reported
                let (i, j) = ([0, 1, n / 2, n][choose(4) as usize].min(n), [0, n / 2, n][choose(3) as usize]);
                let (i, j) = (i.min(j), i.max(j));
                t.write_vectored(&[io::IoSlice::new(&bytes[..i]), io::IoSlice::new(&bytes[i..j]), io::IoSlice::new(&bytes[j..n])])
            }
            5 => (&mut t as &mut dyn Write).write(&bytes[..n]),
            _ => {
                bytes[..2].copy_from_slice(b"ab");
                bytes[2] = b'7';
                write!(t, "{}{}", "ab", 7).map(|_| 3)
            }
        })
    });
    disarm();
    let n = if op == 3 { 3 } else { n };
    check(!p, "writing does not panic");
    let failed = fails() > f0;
    match r {
        Some(Ok(k)) => {
            cover("a write succeeded");
            check(!failed | ((op == 4) & (k < n)), "a failed allocation is reported as an error");
            check((k == n) | ((op == 4) & (k < n) & (k > 0)), "a write takes every byte");
            check(t.len() == len + k, "a write appends every byte");
        }
        _ => {
            cover("a write failed");
            check(failed, "a write fails only if memory does");
            check((t.len() >= len) & (t.len() <= len + n) & ((op == 2) | (op == 3) | (t.len() == len)), "a failed write appends nothing");
        }
    }
    for i in len..t.len() {
        check(t[i] == bytes[i - len], "a write appends the given bytes in order");
    }
    same(t.as_slice(), &before, len);
    let l = t.len();
    check(t.flush().is_ok() & (t.len() == l), "flushing does nothing");
    obs(l as u64);
    drop(t);
    fin();
}
