//! Formatting.
use super::vcommon::*;
use crate::entries;
use crate::vf::*;
use fallible_collections::*;

entries!(c23_fmt, c23_user, c23_cap);

/// A pseudo-integer choice: both ends, sign changes and digit-count changes, plus a free small number.
fn pick() -> i64 {
    match choose(12) {
        0 => 0,
        1 => 9,
        2 => 10,
        3 => -1,
        4 => 99,
        5 => 100,
        6 => i64::MAX,
        7 => i64::MIN,
        8 => u32::MAX as i64,
        9 => -10,
        10 => 1_000_000,
        _ => concretize(range(0, 12)) as i64,
    }
}
#[inline(never)]
fn judge(cap: usize, mode: u64, want: &str, args: core::fmt::Arguments<'_>) {
    let (a0, f0, l0, b0) = (allocs(), fails(), live(), live_bytes());
    let mut r = None;
    match mode {
        0 => {}
        1 => fault_each(2),
        _ => fault_all(),
    }
    let p = panics(|| r = Some(fallible_collections::format::try_format(cap, args)));
    disarm();
    check(!p, "formatting does not panic");
    let failed = fails() > f0;
    match r {
        Some(Ok(s)) => {
            check(!failed, "a failed allocation is reported as an error");
            check(s.len() == want.len(), "the text is that of ordinary formatting");
            check(s.as_bytes() == want.as_bytes(), "the text is that of ordinary formatting");
            check(s.capacity() >= cap, "the stated capacity is there");
            if cap >= want.len() {
                cover("the text fits");
                check(allocs() - a0 == (cap > 0) as u64, "no allocation beyond the stated one is made");
                check(live() == l0 + (cap > 0) as u64, "the text holds one block");
            }
            obs(s.len() as u64);
        }
        _ => {
            cover("formatting failed");
            check(failed, "an operation fails only if something it needs fails");
            check((live() == l0) & (live_bytes() == b0), "a failed formatting releases everything");
            obs(999);
        }
    }
}
/// params: which arguments, spare room beyond the text, mode of failure
#[no_mangle]
pub extern "C-unwind" fn c23_fmt() {
    let (what, spare, mode) = (param(0), param(1) as usize, param(2));
    let n = pick();
    let texts = ["", "a", "hello", "\u{e9}\u{1F600}x"];
    let t = texts[choose(4) as usize];
    let c = ['x', '\u{e9}', '\u{1F600}', '\n'][choose(4) as usize];
    macro_rules! go {
        ($($a:tt)*) => {{
            let want = format!($($a)*);
            judge(want.len() + spare, mode, &want, format_args!($($a)*));
        }};
    }
    match what {
        0 => go!("plain"),
        1 => go!("{}", n),
        2 => go!("{}{}", t, c),
        3 => go!("{:?} {:?}", t, c),
        4 => go!("<{:>8}|{:<6}|{:^7}>", n, t, c),
        5 => go!("{:#x} {:b} {:o} {:+}", n, n as u8, n as u16, n),
        6 => go!("{0} {1} {0} {x}", t, n, x = c),
        7 => go!("{:?}", Some((n as i8, t))),
        8 => go!("{:08}|{:e}|{{}}|{:#?}", n, n, [t]),
        10 => go!("{:>100}|{:<200}|{:.3}", n, t, t),
        11 => go!("{n}{n}{t}{n}{c}{n}{n}{t}{n}{c}{n}{n}{t}{n}{c}{n}{n}{t}{n}{c}"),
        12 => go!("{:?}", [[n; 3], [n, 0, 1], [7; 3], [n; 3]]),
        _ => go!(""),
    }
    fin();
}

/// A value whose text consists of any bytes, in any number of pieces, and which may fail or panic.
struct U {
    n: usize,
    end: u64,
}
impl core::fmt::Display for U {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        use core::fmt::Write;
        for i in 0..self.n {
            let b = [(x(i) & 63) as u8 + 32];
            let s = unsafe { core::str::from_utf8_unchecked(&b) };
            f.write_str(s)?;
        }
        match self.end {
            0 => Ok(()),
            1 => Err(core::fmt::Error),
            2 => panic!("user"),
            _ => f.write_char('\u{e9}'),
        }
    }
}
/// Formatting a user's value. params: pieces, how it ends, spare room, mode of failure
#[no_mangle]
pub extern "C-unwind" fn c23_user() {
    let (n, end, spare, mode) = (param(0) as usize, param(1), param(2) as usize, param(3));
    let u = U { n, end };
    let (l0, f0) = (live(), fails());
    let len = n + 2 * (end == 3) as usize;
    match mode {
        0 => {}
        _ => fault_each(1),
    }
    let a0 = allocs();
    let mut r = None;
    let p = panics(|| {
        let cap = len + 2 + spare;
        r = Some(tryformat!(cap, "[{}]", u));
    });
    let a1 = allocs();
    disarm();
    if p {
        cover("a formatting trait panicked");
        check((end == 1) | (end == 2), "formatting panics only if the value does or reports an error");
        check(live() == l0, "unwinding releases everything");
    }
    match &r {
        Some(Ok(s)) => {
            check((end == 0) | (end == 3), "an error of the value is not ignored");
            check(fails() == f0, "a failed allocation is reported as an error");
            check(a1 - a0 == 1, "no allocation beyond the stated one is made");
            let b = s.as_bytes();
            check(b.len() == len + 2, "the text is that of ordinary formatting");
            check((b[0] == b'[') & (b[len + 1] == b']'), "the text is that of ordinary formatting");
            for i in 0..n {
                check(b[i + 1] == (x(i) & 63) as u8 + 32, "the text is that of ordinary formatting");
            }
        }
        Some(Err(_)) => check(fails() > f0, "an operation fails only if something it needs fails"),
        None => {}
    }
    obs(p as u64);
    drop(r);
    check(live() == l0, "the text is released");
    fin();
}

/// Every stated capacity. params: pieces of text, mode of failure
#[no_mangle]
pub extern "C-unwind" fn c23_cap() {
    let (n, mode) = (param(0) as usize, param(1));
    let cap = any64() as usize;
    let u = U { n, end: 0 };
    let (l0, f0, a0) = (live(), fails(), allocs());
    if mode > 0 {
        fault_each(1);
    }
    // the documented condition on the capacity
    assume(cap >= n + 2);
    let mut r = None;
    let p = panics(|| r = Some(tryformat!(cap, "[{}]", u)));
    let a1 = allocs();
    disarm();
    check(!p, "formatting does not panic");
    match &r {
        Some(Ok(s)) => {
            cover("formatting succeeded");
            check(cap as u64 <= isize::MAX as u64, "an impossible capacity is an error");
            check(fails() == f0, "a failed allocation is reported as an error");
            check(s.capacity() >= cap, "the stated capacity is there");
            check(a1 - a0 == 1, "no allocation beyond the stated one is made");
            let b = s.as_bytes();
            check(b.len() == n + 2, "the text is that of ordinary formatting");
            for i in 0..n {
                check(b[i + 1] == (x(i) & 63) as u8 + 32, "the text is that of ordinary formatting");
            }
            obs(1);
        }
        _ => {
            cover("formatting failed");
            check((fails() > f0) | (cap as u128 > LIMIT), "an operation fails only if something it needs fails");
            check(live() == l0, "a failed formatting releases everything");
            obs(0);
        }
    }
    drop(r);
    check(live() == l0, "the text is released");
    fin();
}
