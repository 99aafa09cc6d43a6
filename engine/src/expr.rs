//! Hash-consed bit-vector expressions with a local simplifier.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Undef,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub taint: bool,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub w: u32,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E>,
    consts: Vec<u128>,
    cmap: HashMap<(u8, u128), E>,
    pub vars: Vec<VarInfo>,
    vmap: HashMap<(String, u32), E>,
    n_undef: u32,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

/// Concrete semantics of the binary operators; `None` for undefined results.
pub fn fold(op: Op, w: u32, x: u128, y: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => x.checked_div(y)?,
        Op::URem => x.checked_rem(y)?,
        Op::SDiv => {
            if y == 0 {
                return None;
            }
            (sx(x, w).wrapping_div(sx(y, w)) as u128) & m
        }
        Op::SRem => {
            if y == 0 {
                return None;
            }
            (sx(x, w).wrapping_rem(sx(y, w)) as u128) & m
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let s = sx(x, w);
            ((if y >= w as u128 { s >> 127 } else { s >> y }) as u128) & m
        }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sx(x, w) < sx(y, w)) as u128,
        Op::Sle => (sx(x, w) <= sx(y, w)) as u128,
        _ => return None,
    })
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx {
            nodes: vec![],
            map: HashMap::new(),
            consts: vec![],
            cmap: HashMap::new(),
            vars: vec![],
            vmap: HashMap::new(),
            n_undef: 0,
        }
    }
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    pub fn taint(&self, e: E) -> bool {
        self.nodes[e as usize].taint
    }
    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.map.insert(n, e);
        e
    }
    pub fn cst(&mut self, v: u128, w: u32) -> E {
        let v = v & mask(w);
        if let Some(&e) = self.cmap.get(&(w as u8, v)) {
            return e;
        }
        let i = self.consts.len() as u32;
        self.consts.push(v);
        let e = self.nodes.len() as E;
        self.nodes.push(Node { op: Op::Const, w: w as u8, taint: false, a: i, b: 0, c: 0 });
        self.cmap.insert((w as u8, v), e);
        e
    }
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = self.nodes[e as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    pub fn var(&mut self, name: &str, w: u32) -> E {
        if let Some(&e) = self.vmap.get(&(name.to_string(), w)) {
            return e;
        }
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { name: name.to_string(), w });
        let e = self.intern(Node { op: Op::Var, w: w as u8, taint: false, a: id, b: 0, c: 0 });
        self.vmap.insert((name.to_string(), w), e);
        e
    }
    /// A fresh undefined value: a variable that carries taint.
    pub fn undef(&mut self, w: u32) -> E {
        self.n_undef += 1;
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { name: format!("undef{}", self.n_undef), w });
        self.intern(Node { op: Op::Undef, w: w as u8, taint: true, a: id, b: 0, c: 0 })
    }
    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E, nargs: u32) -> E {
        let mut t = self.taint(a);
        if nargs > 1 {
            t |= self.taint(b)
        }
        if nargs > 2 {
            t |= self.taint(c)
        }
        self.intern(Node { op, w: w as u8, taint: t, a, b, c })
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.cst(mask(w), w);
        self.bin(Op::Xor, a, m)
    }
    fn segs(&self, e: E, out: &mut Vec<E>) {
        // low part first
        let n = self.n(e);
        if n.op == Op::Concat {
            self.segs(n.b, out);
            self.segs(n.a, out);
        } else {
            out.push(e);
        }
    }
    pub fn extract(&mut self, e: E, hi: u32, lo: u32) -> E {
        let n = self.n(e);
        let w = n.w as u32;
        debug_assert!(hi < w && lo <= hi);
        let nw = hi - lo + 1;
        if nw == w {
            return e;
        }
        match n.op {
            Op::Const => {
                let v = self.consts[n.a as usize];
                return self.cst(v >> lo, nw);
            }
            Op::Extract => return self.extract(n.a, n.b + hi, n.b + lo),
            Op::Concat => {
                let wb = self.w(n.b);
                if lo >= wb {
                    return self.extract(n.a, hi - wb, lo - wb);
                }
                if hi < wb {
                    return self.extract(n.b, hi, lo);
                }
                let x = self.extract(n.a, hi - wb, 0);
                let y = self.extract(n.b, wb - 1, lo);
                return self.concat(x, y);
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if hi < wi {
                    return self.extract(n.a, hi, lo);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, hi, lo);
                let y = self.extract(n.b, hi, lo);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() {
                    let x = self.extract(n.b, hi, lo);
                    let y = self.extract(n.c, hi, lo);
                    return self.ite(n.a, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let ok = |s: &Ctx, x: E| matches!(s.n(x).op, Op::Const | Op::Concat | Op::SExt);
                if ok(self, n.a) && ok(self, n.b) {
                    let x = self.extract(n.a, hi, 0);
                    let y = self.extract(n.b, hi, 0);
                    return self.bin(n.op, x, y);
                }
            }
            _ => {}
        }
        let t = n.taint;
        self.intern(Node { op: Op::Extract, w: nw as u8, taint: t, a: e, b: lo, c: 0 })
    }
    fn merge(&mut self, hi: E, lo: E) -> Option<E> {
        let (h, l) = (self.n(hi), self.n(lo));
        if h.op == Op::Const && l.op == Op::Const {
            let v = (self.consts[h.a as usize] << l.w) | self.consts[l.a as usize];
            return Some(self.cst(v, h.w as u32 + l.w as u32));
        }
        if h.op == Op::Extract && l.op == Op::Extract && h.a == l.a && h.b == l.b + l.w as u32 {
            return Some(self.extract(h.a, h.b + h.w as u32 - 1, l.b));
        }
        // the low part may have been rewritten (a truncated sum, say)
        if h.op == Op::Extract && h.b >= l.w as u32 && matches!(l.op, Op::Add | Op::Sub | Op::Mul | Op::Ite | Op::And | Op::Or | Op::Xor) {
            let (x, b, hw) = (h.a, h.b, h.w as u32);
            if self.extract(x, b - 1, b - l.w as u32) == lo {
                return Some(self.extract(x, b + hw - 1, b - l.w as u32));
            }
        }
        None
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let h = self.n(hi);
        if h.op == Op::Concat {
            let r = self.concat(h.b, lo);
            return self.concat(h.a, r);
        }
        if let Some(m) = self.merge(hi, lo) {
            return m;
        }
        let l = self.n(lo);
        if l.op == Op::Concat {
            if let Some(m) = self.merge(hi, l.a) {
                return self.concat(m, l.b);
            }
        }
        let w = h.w as u32 + l.w as u32;
        assert!(w <= 128, "concat too wide");
        self.mk(Op::Concat, w, hi, lo, 0, 2)
    }
    pub fn zext(&mut self, e: E, w: u32) -> E {
        let ew = self.w(e);
        if w == ew {
            return e;
        }
        let z = self.cst(0, w - ew);
        self.concat(z, e)
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let n = self.n(e);
        let ew = n.w as u32;
        if w == ew {
            return e;
        }
        if let Some(v) = self.as_const(e) {
            return self.cst(sx(v, ew) as u128, w);
        }
        if n.op == Op::Concat && self.as_const(n.a).map_or(false, |v| v >> (self.w(n.a) - 1) == 0) {
            return self.zext(e, w);
        }
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        if n.op == Op::Ite && self.as_const(n.b).is_some() && self.as_const(n.c).is_some() {
            let x = self.sext(n.b, w);
            let y = self.sext(n.c, w);
            return self.ite(n.a, x, y);
        }
        self.mk(Op::SExt, w, e, 0, 0, 1)
    }
    pub fn trunc(&mut self, e: E, w: u32) -> E {
        self.extract(e, w - 1, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if let Some(v) = self.as_const(c) {
            return if v != 0 { a } else { b };
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.bin(Op::Or, c, b),
                (Some(0), _) => {
                    let nc = self.not(c);
                    return self.bin(Op::And, nc, b);
                }
                (_, Some(0)) => return self.bin(Op::And, c, a),
                (_, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(Op::Or, nc, a);
                }
                _ => {}
            }
        }
        let cn = self.n(c);
        if cn.op == Op::Xor && self.as_const(cn.b) == Some(1) {
            return self.ite(cn.a, b, a);
        }
        let (an, bn) = (self.n(a), self.n(b));
        if an.op == Op::Ite && an.a == c {
            return self.ite(c, an.b, b);
        }
        if bn.op == Op::Ite && bn.a == c {
            return self.ite(c, a, bn.c);
        }
        self.mk(Op::Ite, w, c, a, b, 3)
    }
    /// If every segment boundary can be combined without a residual operator, combine bitwise.
    fn seg_combine(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let (mut sa, mut sb) = (vec![], vec![]);
        self.segs(a, &mut sa);
        self.segs(b, &mut sb);
        if sa.len() + sb.len() <= 2 {
            return None;
        }
        let w = self.w(a);
        // cut points
        let mut cuts = vec![];
        for s in [&sa, &sb] {
            let mut p = 0;
            for &x in s.iter() {
                p += self.w(x);
                cuts.push(p);
            }
        }
        cuts.sort();
        cuts.dedup();
        let mut lo = 0;
        let mut parts = vec![];
        for &c in &cuts {
            let x = self.extract(a, c - 1, lo);
            let y = self.extract(b, c - 1, lo);
            let pw = c - lo;
            let (xc, yc) = (self.as_const(x), self.as_const(y));
            let r = match (xc, yc) {
                (Some(p), Some(q)) => {
                    let v = fold(op, pw, p, q).unwrap();
                    self.cst(v, pw)
                }
                (Some(p), _) if self.unit(op, p, pw) => y,
                (_, Some(q)) if self.unit(op, q, pw) => x,
                (Some(p), _) | (_, Some(p)) if op == Op::And && p == 0 => self.cst(0, pw),
                (Some(p), _) | (_, Some(p)) if op == Op::Or && p == mask(pw) => self.cst(p, pw),
                _ => return None,
            };
            parts.push(r);
            lo = c;
        }
        debug_assert_eq!(lo, w);
        let mut r = parts[0];
        for &p in &parts[1..] {
            r = self.concat(p, r);
        }
        Some(r)
    }
    fn unit(&self, op: Op, v: u128, w: u32) -> bool {
        match op {
            Op::And => v == mask(w),
            Op::Or | Op::Xor | Op::Add => v == 0,
            _ => false,
        }
    }
    fn and_mask(&mut self, a: E, m: u128) -> Option<E> {
        let w = self.w(a);
        // runs of the mask
        let mut runs = vec![];
        let mut i = 0;
        while i < w {
            let bit = (m >> i) & 1;
            let mut j = i;
            while j < w && (m >> j) & 1 == bit {
                j += 1;
            }
            runs.push((i, j, bit));
            i = j;
        }
        if runs.len() > 4 {
            return None;
        }
        let mut r: Option<E> = None;
        for (lo, hi, bit) in runs {
            let p = if bit == 1 { self.extract(a, hi - 1, lo) } else { self.cst(0, hi - lo) };
            r = Some(match r {
                None => p,
                Some(q) => self.concat(p, q),
            });
        }
        r
    }
    /// zero-extended operand: returns the narrow part
    fn zpart(&self, e: E) -> Option<E> {
        let n = self.n(e);
        if n.op == Op::Concat && self.as_const(n.a) == Some(0) {
            Some(n.b)
        } else {
            None
        }
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?} {:?} {:?}", op, self.n(a), self.n(b));
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => w,
        };
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(v) = fold(op, w, x, y) {
                return self.cst(v, rw);
            }
        }
        let m = mask(w);
        // constants to the right for commutative operators
        let (a, b, ca, cb) = match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq if ca.is_some() => (b, a, cb, ca),
            _ => (a, b, ca, cb),
        };
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                let an = self.n(a);
                if let Some(y) = cb {
                    if an.op == Op::Add {
                        if let Some(x) = self.as_const(an.b) {
                            let k = self.cst(x.wrapping_add(y), w);
                            return self.bin(Op::Add, an.a, k);
                        }
                    }
                    if an.op == Op::Ite && self.as_const(an.b).is_some() && self.as_const(an.c).is_some() {
                        let x = self.bin(Op::Add, an.b, b);
                        let z = self.bin(Op::Add, an.c, b);
                        return self.ite(an.a, x, z);
                    }
                }
                if let Some(r) = self.seg_combine(Op::Add, a, b).filter(|_| self.disjoint(a, b)) {
                    return r;
                }
                // x + (y - x)
                let bn = self.n(b);
                if bn.op == Op::Sub && bn.b == a {
                    return bn.a;
                }
                if an.op == Op::Sub && an.b == b {
                    return an.a;
                }
            }
            Op::Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.cst(0, w);
                }
                if let Some(y) = cb {
                    let k = self.cst(y.wrapping_neg(), w);
                    return self.bin(Op::Add, a, k);
                }
                let an = self.n(a);
                if an.op == Op::Add && an.a == b {
                    return an.b;
                }
                if an.op == Op::Add && an.b == b {
                    return an.a;
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.cst(y.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, k);
                    }
                }
            }
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.cst(y.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, k);
                    }
                }
            }
            Op::URem => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.cst(y - 1, w);
                        return self.bin(Op::And, a, k);
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                match cb {
                    Some(0) => return b,
                    Some(y) if y == m => return a,
                    Some(y) => {
                        if let Some(r) = self.and_mask(a, y) {
                            return r;
                        }
                    }
                    None => {}
                }
                if let Some(r) = self.seg_combine(Op::And, a, b) {
                    return r;
                }
                if w == 1 && self.is_not_of(a, b) {
                    return self.cst(0, 1);
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                match cb {
                    Some(0) => return a,
                    Some(y) if y == m => return b,
                    _ => {}
                }
                if let Some(r) = self.seg_combine(Op::Or, a, b) {
                    return r;
                }
                if w == 1 && self.is_not_of(a, b) {
                    return self.cst(1, 1);
                }
            }
            Op::Xor => {
                if a == b {
                    return self.cst(0, w);
                }
                if cb == Some(0) {
                    return a;
                }
                let an = self.n(a);
                if let Some(y) = cb {
                    if an.op == Op::Xor {
                        if let Some(x) = self.as_const(an.b) {
                            let k = self.cst(x ^ y, w);
                            return self.bin(Op::Xor, an.a, k);
                        }
                    }
                    if an.op == Op::Ite && self.as_const(an.b).is_some() && self.as_const(an.c).is_some() {
                        let x = self.bin(Op::Xor, an.b, b);
                        let z = self.bin(Op::Xor, an.c, b);
                        return self.ite(an.a, x, z);
                    }
                    if w == 1 && y == 1 {
                        // push negation into comparisons
                        match an.op {
                            Op::Ult => return self.bin(Op::Ule, an.b, an.a),
                            Op::Ule => return self.bin(Op::Ult, an.b, an.a),
                            Op::Slt => return self.bin(Op::Sle, an.b, an.a),
                            Op::Sle => return self.bin(Op::Slt, an.b, an.a),
                            _ => {}
                        }
                    }
                }
                if let Some(r) = self.seg_combine(Op::Xor, a, b) {
                    return r;
                }
            }
            Op::Shl => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.cst(0, w);
                    }
                    let k = k as u32;
                    let h = self.extract(a, w - 1 - k, 0);
                    let z = self.cst(0, k);
                    return self.concat(h, z);
                }
            }
            Op::LShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.cst(0, w);
                    }
                    let h = self.extract(a, w - 1, k as u32);
                    return self.zext(h, w);
                }
            }
            Op::AShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    let k = if k >= w as u128 { w - 1 } else { k as u32 };
                    let h = self.extract(a, w - 1, k);
                    return self.sext(h, w);
                }
            }
            Op::Eq => {
                if a == b {
                    return self.cst(1, 1);
                }
                let an = self.n(a);
                if let Some(y) = cb {
                    if w == 1 {
                        return if y == 1 { a } else { self.not(a) };
                    }
                    match an.op {
                        Op::Concat => {
                            let wb = self.w(an.b);
                            let wa = self.w(an.a);
                            let yl = y & mask(wb);
                            let yh = (y >> wb) & mask(wa);
                            let kl = self.cst(yl, wb);
                            let kh = self.cst(yh, wa);
                            let p = self.bin(Op::Eq, an.a, kh);
                            let q = self.bin(Op::Eq, an.b, kl);
                            return self.bin(Op::And, p, q);
                        }
                        Op::Ite => {
                            if self.as_const(an.b).is_some() || self.as_const(an.c).is_some() {
                                let p = self.bin(Op::Eq, an.b, b);
                                let q = self.bin(Op::Eq, an.c, b);
                                return self.ite(an.a, p, q);
                            }
                        }
                        Op::Add | Op::Xor => {
                            if let Some(x) = self.as_const(an.b) {
                                let v = if an.op == Op::Add { y.wrapping_sub(x) } else { y ^ x };
                                let k = self.cst(v, w);
                                return self.bin(Op::Eq, an.a, k);
                            }
                        }
                        Op::SExt => {
                            let wi = self.w(an.a);
                            let t = self.cst(y, wi);
                            let back = sx(y & mask(wi), wi) as u128 & m;
                            if back != y {
                                return self.cst(0, 1);
                            }
                            return self.bin(Op::Eq, an.a, t);
                        }
                        Op::Sub => {
                            if y == 0 {
                                return self.bin(Op::Eq, an.a, an.b);
                            }
                        }
                        _ => {}
                    }
                } else if let (Some(x), Some(z)) = (self.zpart(a), self.zpart(b)) {
                    if self.w(x) == self.w(z) {
                        return self.bin(Op::Eq, x, z);
                    }
                }
                if a > b && cb.is_none() {
                    return self.mk(op, 1, b, a, 0, 2);
                }
            }
            Op::Ult | Op::Ule => {
                if a == b {
                    return self.cst((op == Op::Ule) as u128, 1);
                }
                if let Some(y) = cb {
                    if op == Op::Ult && y == 0 {
                        return self.cst(0, 1);
                    }
                    if op == Op::Ule && y == m {
                        return self.cst(1, 1);
                    }
                    if op == Op::Ule {
                        let k = self.cst(y + 1, w);
                        return self.bin(Op::Ult, a, k);
                    }
                    if y == 1 {
                        let z = self.cst(0, w);
                        return self.bin(Op::Eq, a, z);
                    }
                    if let Some(x) = self.zpart(a) {
                        let wx = self.w(x);
                        if y > mask(wx) {
                            return self.cst(1, 1);
                        }
                        let k = self.cst(y, wx);
                        return self.bin(Op::Ult, x, k);
                    }
                }
                if let Some(x) = ca {
                    if op == Op::Ule && x == 0 {
                        return self.cst(1, 1);
                    }
                    if op == Op::Ult && x == m {
                        return self.cst(0, 1);
                    }
                    if let Some(z) = self.zpart(b) {
                        let wz = self.w(z);
                        if x > mask(wz) {
                            return self.cst(0, 1);
                        }
                        let k = self.cst(x, wz);
                        return self.bin(op, k, z);
                    }
                    if op == Op::Ule {
                        let k = self.cst(x - 1, w);
                        return self.bin(Op::Ult, k, b);
                    }
                }
                if let (Some(x), Some(z)) = (self.zpart(a), self.zpart(b)) {
                    if self.w(x) == self.w(z) {
                        return self.bin(op, x, z);
                    }
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.cst((op == Op::Sle) as u128, 1);
                }
                let nonneg = |s: &Ctx, e: E| {
                    s.as_const(e).map(|v| v >> (w - 1) == 0).unwrap_or_else(|| s.zpart(e).is_some())
                };
                if nonneg(self, a) && nonneg(self, b) {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                let (an, bn) = (self.n(a), self.n(b));
                if an.op == Op::SExt && bn.op == Op::SExt && self.w(an.a) == self.w(bn.a) {
                    return self.bin(op, an.a, bn.a);
                }
            }
            _ => {}
        }
        let (a, b) = match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor if cb.is_none() && a > b => (b, a),
            _ => (a, b),
        };
        self.mk(op, rw, a, b, 0, 2)
    }
    fn disjoint(&self, a: E, b: E) -> bool {
        // every bit position is constant zero in at least one operand
        let (mut sa, mut sb) = (vec![], vec![]);
        self.segs(a, &mut sa);
        self.segs(b, &mut sb);
        let zeros = |s: &Vec<E>| {
            let mut m = 0u128;
            let mut p = 0;
            for &x in s {
                let w = self.w(x);
                if let Some(v) = self.as_const(x) {
                    m |= (!v & mask(w)) << p;
                }
                p += w;
            }
            m
        };
        (zeros(&sa) | zeros(&sb)) & mask(self.w(a)) == mask(self.w(a))
    }
    fn is_not_of(&self, a: E, b: E) -> bool {
        let (an, bn) = (self.n(a), self.n(b));
        (an.op == Op::Xor && an.a == b && self.as_const(an.b) == Some(1))
            || (bn.op == Op::Xor && bn.a == a && self.as_const(bn.b) == Some(1))
            || (an.op == Op::Ult && bn.op == Op::Ule && an.a == bn.b && an.b == bn.a)
            || (an.op == Op::Ule && bn.op == Op::Ult && an.a == bn.b && an.b == bn.a)
    }
    /// Evaluate under an assignment of the variables (missing ones are 0).
    pub fn eval(&self, e: E, model: &HashMap<u32, u128>, memo: &mut HashMap<E, u128>) -> u128 {
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let n = self.n(e);
        let v = match n.op {
            Op::Const => return self.consts[n.a as usize],
            Op::Var | Op::Undef => return model.get(&n.a).copied().unwrap_or(0) & mask(n.w as u32),
            Op::Ite => {
                if self.eval(n.a, model, memo) != 0 {
                    self.eval(n.b, model, memo)
                } else {
                    self.eval(n.c, model, memo)
                }
            }
            Op::Concat => {
                let h = self.eval(n.a, model, memo);
                let l = self.eval(n.b, model, memo);
                (h << self.w(n.b)) | l
            }
            Op::Extract => (self.eval(n.a, model, memo) >> n.b) & mask(n.w as u32),
            Op::SExt => (sx(self.eval(n.a, model, memo), self.w(n.a)) as u128) & mask(n.w as u32),
            op => {
                let x = self.eval(n.a, model, memo);
                let y = self.eval(n.b, model, memo);
                let w = self.w(n.a);
                // SMT-LIB totalisation of division
                fold(op, w, x, y).unwrap_or(match op {
                    Op::UDiv => mask(w),
                    Op::SDiv => if sx(x, w) >= 0 { mask(w) } else { 1 },
                    _ => x,
                })
            }
        };
        memo.insert(e, v);
        v
    }
    /// Collect the variables (and undefs) in `e`.
    pub fn leaves(&self, e: E, seen: &mut std::collections::HashSet<E>, out: &mut Vec<E>) {
        if !seen.insert(e) {
            return;
        }
        let n = self.n(e);
        match n.op {
            Op::Const => {}
            Op::Var | Op::Undef => out.push(e),
            Op::Ite => {
                self.leaves(n.a, seen, out);
                self.leaves(n.b, seen, out);
                self.leaves(n.c, seen, out);
            }
            Op::Extract | Op::SExt => self.leaves(n.a, seen, out),
            _ => {
                self.leaves(n.a, seen, out);
                self.leaves(n.b, seen, out);
            }
        }
    }
    /// Replace undef leaves by fresh ones (`keep_taint`) or by fresh ordinary variables (freeze).
    pub fn rename_undef(&mut self, e: E, keep_taint: bool, memo: &mut HashMap<E, E>) -> E {
        if !self.taint(e) {
            return e;
        }
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        let n = self.n(e);
        let r = match n.op {
            Op::Undef => {
                if keep_taint {
                    self.undef(n.w as u32)
                } else {
                    let nm = format!("frz{}", n.a);
                    self.var(&nm, n.w as u32)
                }
            }
            Op::Ite => {
                let a = self.rename_undef(n.a, keep_taint, memo);
                let b = self.rename_undef(n.b, keep_taint, memo);
                let c = self.rename_undef(n.c, keep_taint, memo);
                self.ite(a, b, c)
            }
            Op::Extract => {
                let a = self.rename_undef(n.a, keep_taint, memo);
                self.extract(a, n.b + n.w as u32 - 1, n.b)
            }
            Op::SExt => {
                let a = self.rename_undef(n.a, keep_taint, memo);
                self.sext(a, n.w as u32)
            }
            Op::Concat => {
                let a = self.rename_undef(n.a, keep_taint, memo);
                let b = self.rename_undef(n.b, keep_taint, memo);
                self.concat(a, b)
            }
            op => {
                let a = self.rename_undef(n.a, keep_taint, memo);
                let b = self.rename_undef(n.b, keep_taint, memo);
                self.bin(op, a, b)
            }
        };
        memo.insert(e, r);
        r
    }
    pub fn show(&self, e: E) -> String {
        fn go(c: &Ctx, e: E, d: u32, s: &mut String) {
            use std::fmt::Write;
            let n = c.n(e);
            if d == 0 {
                s.push_str("..");
                return;
            }
            match n.op {
                Op::Const => {
                    let _ = write!(s, "{}", c.consts[n.a as usize]);
                }
                Op::Var | Op::Undef => s.push_str(&c.vars[n.a as usize].name),
                Op::Extract => {
                    let _ = write!(s, "(ext[{}:{}] ", n.b + n.w as u32 - 1, n.b);
                    go(c, n.a, d - 1, s);
                    s.push(')');
                }
                op => {
                    let _ = write!(s, "({:?} ", op);
                    go(c, n.a, d - 1, s);
                    if op != Op::SExt {
                        s.push(' ');
                        go(c, n.b, d - 1, s);
                    }
                    if op == Op::Ite {
                        s.push(' ');
                        go(c, n.c, d - 1, s);
                    }
                    s.push(')');
                }
            }
        }
        let mut s = String::new();
        go(self, e, 6, &mut s);
        s
    }
}
