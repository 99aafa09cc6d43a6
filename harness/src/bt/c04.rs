//! Splitting and appending.
use super::common::*;
use crate::entries;
use crate::vf::*;

entries!(c04_split, c04_split2, c04_shift, c04_few, c04_set, c04_sizes);

/// Both collections must be usable afterwards: one operation with a free key, then a fixed churn.
#[inline(never)]
fn usable(map: &mut Map, m: &mut Model, op: u64, full: bool) {
    match op {
        0 => {
            let k = any_key(m);
            ins(map, m, k, 91);
            same(map, m);
        }
        1 => {
            let k = any_key(m);
            rem(map, m, k);
            same(map, m);
        }
        _ => {}
    }
    same_lookup(map, m);
    if full {
        // refill and drain
        let mut i = 0;
        while i < 14 {
            let j = (i * 7919) as usize % (m.n + 1);
            let k = if j < m.n { m.k[j] + 1 } else { i * 31 + 3 };
            ins(map, m, k, i);
            i += 1;
        }
        same(map, m);
        i = 0;
        while m.n > 0 {
            let j = if i % 3 == 0 { 0 } else if i % 3 == 1 { m.n - 1 } else { m.n / 2 };
            let k = m.k[j];
            rem(map, m, k);
            i += 1;
        }
        same(map, m);
    }
}

#[inline(never)]
fn split(map: &mut Map, m: &mut Model, r: &mut Model, k: u32) -> Map {
    r.clear();
    let (i, _) = m.find(k);
    for j in i..m.n {
        r.put_at(j - i, m.k[j], m.v[j], m.id[j]);
    }
    if m.n == i {
        cover("nothing moves")
    } else if i == 0 {
        cover("everything moves")
    } else {
        cover("some entries move")
    }
    m.n = i;
    match map.split_off(&Q(k)) {
        Ok(x) => x,
        Err(_) => {
            check(false, "splitting succeeds while memory is available");
            Map::new()
        }
    }
}

/// params: n, how, seed, op, full, which side gets the operation
#[no_mangle]
pub extern "C-unwind" fn c04_split() {
    let (n, how, seed, op, full, side) = (param(0) as u32, param(1) as u32, param(2) as u32, param(3), param(4) != 0, param(5));
    let (m, r) = (model(0), model(1));
    let mut map = Map::new();
    build(&mut map, m, n, how, seed);
    let k = any_key(m);
    let mut right = split(&mut map, m, r, k);
    obs(map.len() as u64);
    same(&map, m);
    same(&right, r);
    if side == 0 {
        usable(&mut map, m, op, full);
    } else {
        usable(&mut right, r, op, full);
    }
    drop(map);
    same(&right, r);
    drop(right);
    fin();
}

/// Split twice, append back in order. params: n, how, seed, window start, width
#[no_mangle]
pub extern "C-unwind" fn c04_split2() {
    let (n, how, seed) = (param(0) as u32, param(1) as u32, param(2) as u32);
    let (m, r) = (model(0), model(1));
    let mut map = Map::new();
    build(&mut map, m, n, how, seed);
    let whole = model(2);
    whole.clear();
    for j in 0..m.n {
        whole.put_at(j, m.k[j], m.v[j], m.id[j]);
    }
    let k1 = any_key(m);
    let mut right = split(&mut map, m, r, k1);
    let k2 = if param(3) == 0 { any_key(m) } else { any_key(r) };
    if param(3) == 0 {
        let mut mid = split(&mut map, m, r, k2);
        same(&map, m);
        same(&mid, r);
        mid.append(&mut right);
        check(right.is_empty() && right.iter().next().is_none(), "appending empties the other map");
        map.append(&mut mid);
    } else {
        let mut last = split(&mut right, r, m, k2);
        same(&right, r);
        same(&last, m);
        right.append(&mut last);
        map.append(&mut right);
    }
    same(&map, whole);
    usable(&mut map, whole, 2, true);
    drop((map, right));
    fin();
}

/// the model of a.append(b)
#[inline(never)]
fn merge(a: &mut Model, b: &mut Model) {
    let out = model(2);
    out.clear();
    let (mut i, mut j) = (0, 0);
    while i < a.n || j < b.n {
        let n = out.n;
        if j == b.n || (i < a.n && is(a.k[i] < b.k[j])) {
            out.put_at(n, a.k[i], a.v[i], a.id[i]);
            i += 1;
        } else {
            if i < a.n && is(a.k[i] == b.k[j]) {
                i += 1;
                cover("equal keys");
            }
            out.put_at(n, b.k[j], b.v[j], b.id[j]);
            j += 1;
        }
    }
    a.clear();
    for i in 0..out.n {
        a.put_at(i, out.k[i], out.v[i], out.id[i]);
    }
    b.clear();
}

#[inline(never)]
fn append(a: &mut Map, ma: &mut Model, b: &mut Map, mb: &mut Model) {
    merge(ma, mb);
    a.append(b);
    // which of two equal keys survives is not specified
    let mut i = 0;
    for (k, _) in a.iter() {
        if i < ma.n {
            ma.id[i] = k.t.0;
        }
        i += 1;
    }
    check(live_tokens() == 2 * ma.n as i32, "appending drops exactly the replaced entries");
    same(b, mb);
    same(a, ma);
}

/// Two trees, the second one's keys at every offset relative to the first. params: n1, how1, n2, distance of its keys, op
#[no_mangle]
pub extern "C-unwind" fn c04_shift() {
    let (n1, how, n2, dist, op) = (param(0) as u32, param(1) as u32, param(2) as u32, param(3) as u32, param(4));
    let (m, r) = (model(0), model(1));
    let mut a = Map::new();
    build(&mut a, m, n1, how, 1);
    let base = any_key(m);
    let mut b = Map::new();
    for i in 0..n2 {
        let kk = key(base + i * dist);
        r.put_at(i as usize, base + i * dist, 100 + i, kk.t.0);
        check(matches!(b.try_insert(kk, val(100 + i)), Ok(None)), "an insertion succeeds while memory is available");
    }
    if param(5) == 0 {
        append(&mut a, m, &mut b, r);
        usable(&mut a, m, op, true);
        r.clear();
        ins(&mut b, r, 5, 5);
        same(&b, r);
    } else {
        append(&mut b, r, &mut a, m);
        usable(&mut b, r, op, true);
        m.clear();
        ins(&mut a, m, 5, 5);
        same(&a, m);
    }
    cover("appended");
    drop((a, b));
    fin();
}

/// A tree and a few entries with free keys, appended either way. params: n, how, seed, few, direction
#[no_mangle]
pub extern "C-unwind" fn c04_few() {
    let (n, how, seed, few, dir) = (param(0) as u32, param(1) as u32, param(2) as u32, param(3), param(4));
    let (m, r) = (model(0), model(1));
    let mut a = Map::new();
    build(&mut a, m, n, how, seed);
    let mut b = Map::new();
    for i in 0..few {
        let k = any_key(m);
        ins(&mut b, r, k, 500 + i as u32);
    }
    if dir == 0 {
        append(&mut a, m, &mut b, r);
        usable(&mut a, m, 2, true);
    } else {
        append(&mut b, r, &mut a, m);
        usable(&mut b, r, 2, true);
    }
    drop((a, b));
    fin();
}

/// Appending for every total size in a range, then removals from the right, from the left or from both ends.
/// params: smallest size, how many sizes, share of the second map (1: every other key, 2: every fifth, 3: the last third), drain
#[no_mangle]
pub extern "C-unwind" fn c04_sizes() {
    let n = param(0) as u32 + concretize(choose(param(1))) as u32;
    let (share, drain) = (param(2), param(3));
    let (m, r) = (model(0), model(1));
    let (mut a, mut b) = (Map::new(), Map::new());
    for i in 0..n {
        let second = match share {
            1 => i % 2 == 1,
            2 => i % 5 == 4,
            _ => i >= n - n / 3,
        };
        if second {
            ins(&mut b, r, i * STEP, i);
        } else {
            ins(&mut a, m, i * STEP, i);
        }
    }
    // one more, at or near the end: between the last keys, equal to one of them, or behind all
    let k = range((n * STEP).saturating_sub(25) as u64, (n * STEP) as u64) as u32;
    ins(&mut b, r, k, n);
    append(&mut a, m, &mut b, r);
    check((m.n == n as usize) | (m.n == n as usize + 1), "appending keeps the keys of both");
    let mut i = 0;
    while m.n > 0 {
        let j = match drain {
            0 => m.n - 1,
            1 => 0,
            _ => {
                if i % 2 == 0 {
                    m.n - 1
                } else {
                    0
                }
            }
        };
        let k = m.k[j];
        rem(&mut a, m, k);
        if i < 2 || i % 32 == 0 {
            same(&a, m);
        }
        i += 1;
    }
    same(&a, m);
    cover("drained");
    drop((a, b));
    fin();
}

/// Sets: split at a free key, then append one with keys at a free offset. params: n, how, n2
#[no_mangle]
pub extern "C-unwind" fn c04_set() {
    let (n, how, n2) = (param(0) as u32, param(1) as u32, param(2) as u32);
    let (m, r) = (model(0), model(1));
    let mut s = Set::new();
    build_set(&mut s, m, n, how, 1);
    let k = any_key(m);
    if n2 == 0 {
        let (i, _) = m.find(k);
        for j in i..m.n {
            r.put_at(j - i, m.k[j], 0, m.id[j]);
        }
        m.n = i;
        let t = s.try_split_off(&Q(k));
        check(t.is_ok(), "splitting succeeds while memory is available");
        if let Ok(mut t) = t {
            same_set(&s, m);
            same_set(&t, r);
            sins(&mut t, r, 4);
            same_set(&t, r);
            s.append(&mut t);
            merge(m, r);
            let mut i = 0;
            for k in s.iter() {
                if i < m.n {
                    m.id[i] = k.t.0;
                }
                i += 1;
            }
            same_set(&s, m);
            same_set(&t, r);
            cover("set split and joined");
        }
    } else {
        let mut t = Set::new();
        for i in 0..n2 {
            let kk = key(k + i * 15);
            r.put_at(i as usize, k + i * 15, 0, kk.t.0);
            check(matches!(t.try_insert(kk), Ok(true)), "an insertion succeeds while memory is available");
        }
        s.append(&mut t);
        merge(m, r);
        let mut i = 0;
        for k in s.iter() {
            if i < m.n {
                m.id[i] = k.t.0;
            }
            i += 1;
        }
        check(live_tokens() == m.n as i32, "appending drops exactly the replaced elements");
        same_set(&s, m);
        same_set(&t, r);
        cover("sets appended");
    }
    while m.n > 0 {
        let k = m.k[m.n / 2];
        srem(&mut s, m, k);
    }
    same_set(&s, m);
    drop(s);
    fin();
}
