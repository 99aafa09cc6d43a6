//! Symbolic execution of LLVM IR: forking depth-first search over paths.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub bi: u32,
    pub ii: u32,
    pub regs: Vec<V>,
    pub stack0: usize,
    pub catch: bool,
}

#[derive(Clone, Copy)]
struct Dec {
    val: bool,
    k: u128,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<E>,
    /// conditions known to hold (true) or not (false) on this path, and ranges of expressions
    facts: HashMap<E, bool>,
    ranges: HashMap<E, (u128, u128)>,
    /// conditions taken as implied by the facts above; confirmed by the solver when the path ends
    implied: Vec<E>,
    pub model: Rc<Model>,
    dec: Vec<Dec>,
    deci: usize,
    pub inputs: Vec<V>,
    pub vars: Vec<E>,
    pub obs: Vec<V>,
    pub covers: Vec<u32>,
    pub steps: u64,
    lp: V,
    panicking: u32,
    fault: u64,
    fault_max: u64,
    fault_base: u64,
    pub fails: u64,
    pub allocs: u64,
    pub live: u64,
    pub live_bytes: u64,
    /// sum of the symbolic sizes of live blocks
    pub live_sym: Option<E>,
    untracked: HashSet<u64>,
    leak_ok: bool,
    pub trace: Vec<String>,
}

pub enum End {
    Done,
    Infeasible,
    Viol(String, String),
    Err(String),
    Trunc(String),
}
type R<T> = Result<T, End>;
fn viol<T>(kind: &str, msg: impl Into<String>) -> R<T> {
    Err(End::Viol(kind.to_string(), msg.into()))
}
fn err<T>(msg: impl Into<String>) -> R<T> {
    Err(End::Err(msg.into()))
}

enum Flow {
    Next,
    Jump(u32),
    Frame,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Sp {
    None,
    Skip,
    Raise,
    Abort,
    Any,
    Range,
    Choose,
    Concretize,
    Assume,
    Check,
    Cover,
    Obs,
    Alloc,
    Free,
    Fault,
    Fails,
    Allocs,
    Live,
    LiveBytes,
    LeakOk,
    Try,
    Param,
    Symbolic,
    Panicking,
    Trace,
    Memcpy,
    Memmove,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    LifeStart,
    AssumeI,
    Trap,
    Expect,
    UMax,
    UMin,
    SMax,
    SMin,
    Ovf(Op, bool),
    Sat(Op, bool),
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    Abs,
    Ucmp,
    Scmp,
    RedAdd,
    RedOr,
    RedAnd,
    TlsAddr,
    PtrMask,
    LoadRel,
    IsConst,
    ObjSize,
    RandKeys,
    MoveMask,
    HintBlackBox,
    EhTypeId,
}

#[derive(Clone)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub loc: String,
    pub inputs: Vec<u64>,
    pub stack: Vec<String>,
}
pub struct Sample {
    pub inputs: Vec<u64>,
    pub obs: Vec<u64>,
}

pub struct Opts {
    pub params: Vec<u64>,
    pub max_steps: u64,
    pub max_paths: u64,
    pub time_s: f64,
    pub max_viol: usize,
    pub cap: u64,
    pub max_conc: u64,
    pub samples: usize,
    pub seed: u64,
    pub trace: bool,
    pub dbg_q: bool,
}

pub struct Exec {
    pub m: Module,
    pub x: Ctx,
    pub s: Solver,
    pub o: Opts,
    work: Vec<State>,
    special: HashMap<u32, Sp>,
    consts: HashMap<u32, Rc<Obj>>,
    pub cov: Vec<bool>,
    pub fn_hit: HashSet<u32>,
    // statistics
    pub paths: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub steps: u64,
    pub checks: u64,
    pub checks_solver: u64,
    pub trunc: BTreeMap<String, u64>,
    pub errors: BTreeMap<String, u64>,
    pub viols: Vec<Violation>,
    pub viol_paths: u64,
    pub samples: Vec<Sample>,
    pub covers: BTreeMap<String, u64>,
    cover_ids: Vec<String>,
    pub exhausted: bool,
    pub t0: Instant,
    pub n_implied: u64,
    pub n_confirmed: u64,
    n_conf: u64,
    pub pc_max: usize,
    pub vars_max: usize,
}

fn m64(w: u32) -> u64 {
    mask(w) as u64
}

impl Exec {
    pub fn new(m: Module, o: Opts) -> Exec {
        let nmeta = m.meta.keys().max().copied().unwrap_or(0) as usize + 1;
        Exec {
            m,
            x: Ctx::new(),
            s: Solver::new(60_000),
            o,
            work: vec![],
            special: HashMap::new(),
            consts: HashMap::new(),
            cov: vec![false; nmeta],
            fn_hit: HashSet::new(),
            paths: 0,
            infeasible: 0,
            forks: 0,
            steps: 0,
            checks: 0,
            checks_solver: 0,
            trunc: BTreeMap::new(),
            errors: BTreeMap::new(),
            viols: vec![],
            viol_paths: 0,
            samples: vec![],
            covers: BTreeMap::new(),
            cover_ids: vec![],
            exhausted: true,
            t0: Instant::now(),
            n_implied: 0,
            n_confirmed: 0,
            n_conf: 0,
            pc_max: 0,
            vars_max: 0,
        }
    }

    // ------------------------------------------------------------ values
    fn e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::I(n) => self.x.cst(*n as u128, w),
            V::E(e) => {
                debug_assert_eq!(self.x.w(*e), w);
                *e
            }
            V::U => self.x.undef(w),
            V::A(a) => {
                // vector reinterpreted as an integer
                let n = a.len() as u32;
                let lw = w / n;
                let mut r = None;
                for l in a.iter() {
                    let q = self.e(l, lw);
                    r = Some(match r {
                        None => q,
                        Some(p) => self.x.concat(q, p),
                    });
                }
                r.unwrap()
            }
        }
    }
    fn v(&self, e: E) -> V {
        if self.x.w(e) <= 64 {
            if let Some(c) = self.x.as_const(e) {
                return V::I(c as u64);
            }
        }
        V::E(e)
    }
    fn get<'a>(fr: &'a Frame, o: &'a Opnd) -> &'a V {
        match o {
            Opnd::R(r) => &fr.regs[*r as usize],
            Opnd::C(v) => v,
        }
    }

    // ------------------------------------------------------------ solver
    fn query(&mut self, st: &State, extra: &[E]) -> R<Option<Model>> {
        let mut want = st.vars.clone();
        let mut seen = HashSet::new();
        let mut l = vec![];
        for &e in extra.iter().chain(st.pc.iter()) {
            if self.x.taint(e) {
                self.x.leaves(e, &mut seen, &mut l);
            }
        }
        for e in l {
            if self.x.n(e).op == Op::Undef {
                want.push(e);
            }
        }
        if self.o.dbg_q {
            let e: Vec<String> = extra.iter().map(|e| self.x.show(*e)).collect();
            eprintln!("Q {:?}", e);
        }
        match self.s.check(&self.x, &st.pc, extra, &want) {
            (Sat::Sat, m) => Ok(m),
            (Sat::Unsat, _) => Ok(None),
            (Sat::Unknown, _) => Err(End::Trunc("solver gave up".into())),
        }
    }
    fn push_pc(&mut self, st: &mut State, c: E) {
        st.pc.push(c);
        self.learn(st, c);
    }
    fn imply(&mut self, st: &mut State, c: E, v: bool) {
        self.n_implied += 1;
        if st.facts.contains_key(&c) {
            return;
        }
        let nc = self.x.not(c);
        st.implied.push(if v { c } else { nc });
        st.facts.insert(c, v);
        st.facts.insert(nc, !v);
    }
    /// One query per path: everything taken as implied really follows from the path condition.
    /// (Where that is many conditions, only for the first paths and one in 16 of the others.)
    fn confirm(&mut self, st: &State) -> R<()> {
        if st.implied.is_empty() {
            return Ok(());
        }
        self.n_conf += 1;
        if st.implied.len() > 100 && self.n_conf > 16 && self.n_conf % 16 != 0 {
            return Ok(());
        }
        self.n_confirmed += st.implied.len() as u64;
        let mut bad = self.x.cst(0, 1);
        for &c in &st.implied {
            let n = self.x.not(c);
            bad = self.x.bin(Op::Or, bad, n);
        }
        if self.x.as_const(bad) == Some(0) {
            return Ok(());
        }
        match self.query(st, &[bad])? {
            None => Ok(()),
            Some(_) => err("internal: a condition taken as implied is not"),
        }
    }
    fn learn(&mut self, st: &mut State, c: E) {
        if self.x.taint(c) {
            return;
        }
        st.facts.insert(c, true);
        let nc = self.x.not(c);
        st.facts.insert(nc, false);
        let n = self.x.n(c);
        match n.op {
            Op::And => {
                self.learn(st, n.a);
                self.learn(st, n.b);
            }
            Op::Eq | Op::Ult | Op::Ule => {
                let (a, b) = (n.a, n.b);
                let (ra, rb) = (self.range(st, a), self.range(st, b));
                let d = (n.op == Op::Ult) as u128;
                let (na, nb) = if n.op == Op::Eq {
                    let r = (ra.0.max(rb.0), ra.1.min(rb.1));
                    (r, r)
                } else {
                    ((ra.0, ra.1.min(rb.1.wrapping_sub(d))), (rb.0.max(ra.0 + d), rb.1))
                };
                for (e, o, r) in [(a, ra, na), (b, rb, nb)] {
                    if r != o && r.0 <= r.1 && self.x.as_const(e).is_none() {
                        self.set_range(st, e, r, 0);
                    }
                }
            }
            Op::Xor => {
                // not (a == k) at the edge of a's range
                let m = self.x.n(n.a);
                if n.w == 1 && self.x.as_const(n.b) == Some(1) && m.op == Op::Eq {
                    for (e, k) in [(m.a, m.b), (m.b, m.a)] {
                        if let (Some(k), None) = (self.x.as_const(k), self.x.as_const(e)) {
                            let mut r = self.range(st, e);
                            if r.0 < r.1 {
                                if r.0 == k {
                                    r.0 += 1
                                } else if r.1 == k {
                                    r.1 -= 1
                                }
                                self.set_range(st, e, r, 0);
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    fn range(&self, st: &State, e: E) -> (u128, u128) {
        self.range_d(st, e, 0)
    }
    fn range_d(&self, st: &State, e: E, d: u32) -> (u128, u128) {
        if let Some(c) = self.x.as_const(e) {
            return (c, c);
        }
        let n = self.x.n(e);
        let full = match st.ranges.get(&e) {
            Some(r) => {
                if d > 24 || !matches!(n.op, Op::Extract | Op::Concat | Op::Add) {
                    return *r;
                }
                let s = self.range_s(st, e, d);
                let r = (r.0.max(s.0), r.1.min(s.1));
                return if r.0 <= r.1 { r } else { s };
            }
            None => (0, mask(n.w as u32)),
        };
        if d > 24 {
            return full;
        }
        self.range_s(st, e, d)
    }
    /// Record a range, and what it means for the term this one is an offset or a resizing of.
    fn set_range(&self, st: &mut State, e: E, r: (u128, u128), d: u32) {
        if self.x.as_const(e).is_some() || r.0 > r.1 || d > 24 {
            return;
        }
        st.ranges.insert(e, r);
        let n = self.x.n(e);
        let m = mask(n.w as u32);
        let (x, nr) = match n.op {
            Op::Extract if n.b == 0 && self.range(st, n.a).1 <= m => (n.a, r),
            Op::Concat if self.x.as_const(n.a) == Some(0) => (n.b, r),
            Op::Add if n.w < 127 => {
                let (x, c) = match (self.x.as_const(n.a), self.x.as_const(n.b)) {
                    (Some(c), None) => (n.b, c),
                    (None, Some(c)) => (n.a, c),
                    _ => return,
                };
                let xr = self.range(st, x);
                if xr.1 + c <= m {
                    (x, (r.0.saturating_sub(c), r.1.saturating_sub(c)))
                } else if xr.0 + c > m {
                    (x, (r.0 + m + 1 - c, r.1 + m + 1 - c))
                } else {
                    return;
                }
            }
            _ => return,
        };
        let o = self.range(st, x);
        let nr = (o.0.max(nr.0), o.1.min(nr.1));
        if nr.0 <= nr.1 && nr != o {
            self.set_range(st, x, nr, d + 1);
        }
    }
    fn range_s(&self, st: &State, e: E, d: u32) -> (u128, u128) {
        let n = self.x.n(e);
        let full = (0, mask(n.w as u32));
        match n.op {
            Op::Extract if n.b == 0 => {
                let r = self.range_d(st, n.a, d + 1);
                if r.1 <= full.1 {
                    return r;
                }
            }
            Op::Concat => {
                if self.x.as_const(n.a) == Some(0) {
                    return self.range_d(st, n.b, d + 1);
                }
            }
            Op::Ite => {
                return match self.known_d(st, n.a, d + 1) {
                    Some(true) => self.range_d(st, n.b, d + 1),
                    Some(false) => self.range_d(st, n.c, d + 1),
                    None => {
                        if d > 8 {
                            return full;
                        }
                        let (x, y) = (self.range_d(st, n.b, d + 1), self.range_d(st, n.c, d + 1));
                        (x.0.min(y.0), x.1.max(y.1))
                    }
                };
            }
            Op::Add if n.w < 127 => {
                let (x, y) = (self.range_d(st, n.a, d + 1), self.range_d(st, n.b, d + 1));
                let (l, h) = (x.0 + y.0, x.1 + y.1);
                if h <= full.1 {
                    return (l, h);
                }
                if l > full.1 {
                    return (l - full.1 - 1, h - full.1 - 1);
                }
            }
            _ => {}
        }
        full
    }
    fn w_of(&self, e: E) -> u32 {
        self.x.n(e).w as u32
    }
    /// e as a term plus a constant
    fn offset(&self, e: E) -> (E, u128) {
        let n = self.x.n(e);
        if n.op == Op::Add {
            match (self.x.as_const(n.a), self.x.as_const(n.b)) {
                (Some(c), None) => return (n.b, c),
                (None, Some(c)) => return (n.a, c),
                _ => {}
            }
        }
        (e, 0)
    }
    /// Cheap sound answer, from facts and ranges only.
    fn known(&self, st: &State, c: E) -> Option<bool> {
        self.known_d(st, c, 0)
    }
    fn known_d(&self, st: &State, c: E, d: u32) -> Option<bool> {
        if let Some(v) = self.x.as_const(c) {
            return Some(v != 0);
        }
        if d > 24 {
            return None;
        }
        if self.x.taint(c) {
            return None;
        }
        if let Some(v) = st.facts.get(&c) {
            return Some(*v);
        }
        let n = self.x.n(c);
        match n.op {
            Op::Eq | Op::Ult | Op::Ule => {
                let (a, b) = (self.range_d(st, n.a, d + 1), self.range_d(st, n.b, d + 1));
                // offsets of one term
                let (ba, ca) = self.offset(n.a);
                let (bb, cb) = self.offset(n.b);
                if ba == bb && self.w_of(ba) < 127 {
                    let m = mask(self.w_of(ba));
                    let x = self.range_d(st, ba, d + 1);
                    let wrap = |c: u128| if x.1 + c <= m { Some(c as i128) } else if x.0 + c > m { Some(c as i128 - m as i128 - 1) } else { None };
                    if n.op == Op::Eq {
                        return Some(ca == cb);
                    }
                    if let (Some(i), Some(j)) = (wrap(ca), wrap(cb)) {
                        return Some(if n.op == Op::Ult { i < j } else { i <= j });
                    }
                }
                match n.op {
                    Op::Eq if a.1 < b.0 || b.1 < a.0 => Some(false),
                    Op::Eq if a == b && a.0 == a.1 => Some(true),
                    Op::Ult if a.1 < b.0 => Some(true),
                    Op::Ult if a.0 >= b.1 => Some(false),
                    Op::Ule if a.1 <= b.0 => Some(true),
                    Op::Ule if a.0 > b.1 => Some(false),
                    _ => None,
                }
            }
            Op::Xor if n.w == 1 && self.x.as_const(n.b) == Some(1) => self.known_d(st, n.a, d + 1).map(|v| !v),
            Op::And if n.w == 1 => match (self.known_d(st, n.a, d + 1), self.known_d(st, n.b, d + 1)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            Op::Or if n.w == 1 => match (self.known_d(st, n.a, d + 1), self.known_d(st, n.b, d + 1)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            _ => None,
        }
    }
    fn eval(&self, st: &State, e: E) -> u128 {
        let mut memo = HashMap::new();
        self.x.eval(e, &st.model, &mut memo)
    }
    fn check_taint(&mut self, st: &State, e: E, what: &str) -> R<()> {
        if !self.x.taint(e) {
            return Ok(());
        }
        let mut memo = HashMap::new();
        let e2 = self.x.rename_undef(e, true, &mut memo);
        let eq = self.x.bin(Op::Eq, e, e2);
        let ne = self.x.not(eq);
        if self.x.as_const(ne) == Some(0) {
            return Ok(());
        }
        if self.query(st, &[ne])?.is_some() {
            if self.o.trace {
                eprintln!("tainted: {}", self.x.show(e));
            }
            return viol("uninit", format!("{} depends on uninitialised or moved-out memory", what));
        }
        Ok(())
    }
    /// Decide a symbolic condition: follows one feasible side and queues the other.
    fn decide_e(&mut self, st: &mut State, c: E, what: &str) -> R<bool> {
        if let Some(v) = self.x.as_const(c) {
            return Ok(v != 0);
        }
        if st.deci < st.dec.len() {
            st.deci += 1;
            return Ok(st.dec[st.deci - 1].val);
        }
        self.check_taint(st, c, what)?;
        if let Some(v) = self.known(st, c) {
            self.imply(st, c, v);
            st.dec.push(Dec { val: v, k: 0 });
            st.deci += 1;
            return Ok(v);
        }
        let val = self.eval(st, c) != 0;
        let nc = self.x.not(c);
        let (here, other) = if val { (c, nc) } else { (nc, c) };
        if let Some(m) = self.query(st, &[other])? {
            let mut alt = st.clone();
            self.push_pc(&mut alt, other);
            alt.model = Rc::new(m);
            alt.dec.push(Dec { val: !val, k: 0 });
            alt.deci = 0;
            self.work.push(alt);
            self.forks += 1;
            self.push_pc(st, here);
        } else {
            self.learn(st, here);
        }
        st.dec.push(Dec { val, k: 0 });
        st.deci += 1;
        Ok(val)
    }
    fn decide(&mut self, st: &mut State, c: &V, what: &str) -> R<bool> {
        match c {
            V::I(n) => Ok(*n & 1 != 0),
            V::E(e) => self.decide_e(st, *e, what),
            V::U => viol("uninit", format!("{} depends on uninitialised or moved-out memory", what)),
            V::A(_) => err("aggregate condition"),
        }
    }
    /// Make a symbolic value concrete, forking over every feasible value.
    fn concretize(&mut self, st: &mut State, v: &V, w: u32, what: &str) -> R<u64> {
        let e = match v {
            V::I(n) => return Ok(*n),
            V::U => return viol("uninit", format!("{} depends on uninitialised or moved-out memory", what)),
            V::E(e) => *e,
            V::A(_) => self.e(v, w),
        };
        let mut n = 0;
        loop {
            if st.deci < st.dec.len() {
                let d = st.dec[st.deci];
                st.deci += 1;
                if d.val {
                    return Ok(d.k as u64);
                }
                n += 1;
                continue;
            }
            if n == 0 {
                self.check_taint(st, e, what)?;
            }
            if n > self.o.max_conc {
                return Err(End::Trunc(format!("more than {} values for {}", self.o.max_conc, what)));
            }
            let k = self.eval(st, e);
            let kc = self.x.cst(k, w);
            let c = self.x.bin(Op::Eq, e, kc);
            if self.x.as_const(c) == Some(1) {
                st.dec.push(Dec { val: true, k });
                st.deci += 1;
                return Ok(k as u64);
            }
            let nc = self.x.not(c);
            if self.known(st, c) == Some(true) {
                self.imply(st, c, true);
            } else if let Some(m) = self.query(st, &[nc])? {
                let mut alt = st.clone();
                self.push_pc(&mut alt, nc);
                alt.model = Rc::new(m);
                alt.dec.push(Dec { val: false, k });
                alt.deci = 0;
                self.work.push(alt);
                self.forks += 1;
                self.push_pc(st, c);
            } else {
                self.learn(st, c);
            }
            st.dec.push(Dec { val: true, k });
            st.deci += 1;
            return Ok(k as u64);
        }
    }
    fn assume(&mut self, st: &mut State, c: E) -> R<()> {
        if let Some(v) = self.x.as_const(c) {
            return if v != 0 { Ok(()) } else { Err(End::Infeasible) };
        }
        if self.eval(st, c) != 0 {
            self.push_pc(st, c);
            return Ok(());
        }
        match self.query(st, &[c])? {
            Some(m) => {
                self.push_pc(st, c);
                st.model = Rc::new(m);
                Ok(())
            }
            None => Err(End::Infeasible),
        }
    }
    /// Would `bad` be possible here? If so it is a violation under a model of it.
    fn forbid(&mut self, st: &mut State, bad: E, kind: &str, msg: &str) -> R<()> {
        if let Some(v) = self.x.as_const(bad) {
            return if v != 0 { viol(kind, msg) } else { Ok(()) };
        }
        if kind != "check" && self.known(st, bad) == Some(false) {
            self.imply(st, bad, false);
            return Ok(());
        }
        if let Some(m) = self.query(st, &[bad])? {
            self.push_pc(st, bad);
            st.model = Rc::new(m);
            return viol(kind, msg);
        }
        Ok(())
    }

    // ------------------------------------------------------------ memory
    fn global(&mut self, ix: u32) -> R<Rc<Obj>> {
        if let Some(o) = self.consts.get(&ix) {
            return Ok(o.clone());
        }
        let (ty, v, align) = self.m.global_init(ix, &mut self.x);
        let mut o = Obj::new(self.m.globs[ix as usize].addr, ty.size(), align);
        match v {
            Some(v) => self.put(&mut o, 0, &ty, &v)?,
            None => {
                // external data: zero
                let n = ty.size() as usize;
                o.put_conc(0, &vec![0; n]);
            }
        }
        o.constant = self.m.globs[ix as usize].constant;
        let r = Rc::new(o);
        self.consts.insert(ix, r.clone());
        Ok(r)
    }
    /// Store a typed value into an object (bounds already checked).
    fn put(&mut self, o: &mut Obj, off: u64, ty: &Ty, v: &V) -> R<()> {
        match ty {
            Ty::Arr(..) | Ty::Struct(..) => {
                let offs = if let Ty::Struct(..) = ty { ty.layout().0 } else { vec![] };
                for i in 0..ty.elems() {
                    let et = ty.elem(i).clone();
                    let eo = if offs.is_empty() { i as u64 * et.size() } else { offs[i] };
                    match v {
                        V::A(a) => self.put(o, off + eo, &et, &a[i])?,
                        V::U => self.put(o, off + eo, &et, &V::U)?,
                        _ => return err("scalar stored as aggregate"),
                    }
                }
                Ok(())
            }
            Ty::Vec(n, et) => {
                if et.bits() % 8 != 0 {
                    let w = (et.bits() * *n as u64) as u32;
                    let e = self.e(v, w);
                    let v = self.v(e);
                    return self.put(o, off, &Ty::Int(w), &v);
                }
                for i in 0..*n as usize {
                    let l = match v {
                        V::A(a) => a[i].clone(),
                        _ => V::U,
                    };
                    self.put(o, off + i as u64 * et.size(), et, &l)?;
                }
                Ok(())
            }
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let w = ty.bits() as u32;
                let n = ((w + 7) / 8) as usize;
                let off = off as usize;
                match v {
                    V::I(k) if n <= 8 => o.put_conc(off, &k.to_le_bytes()[..n]),
                    V::U => o.put_undef(off, n),
                    V::E(e) => {
                        let mut e = *e;
                        if w % 8 != 0 {
                            e = self.x.zext(e, n as u32 * 8);
                        }
                        for i in 0..n {
                            let b = self.x.extract(e, i as u32 * 8 + 7, i as u32 * 8);
                            self.put_byte(o, off + i, b);
                        }
                    }
                    _ => return err("bad store"),
                }
                Ok(())
            }
            Ty::Void | Ty::Other => err("store of void"),
        }
    }
    fn put_byte(&mut self, o: &mut Obj, off: usize, b: E) {
        match self.x.as_const(b) {
            Some(c) => o.put_conc(off, &[c as u8]),
            None => {
                if self.x.n(b).op == Op::Undef {
                    o.put_undef(off, 1)
                } else {
                    o.put_sym(off, b)
                }
            }
        }
    }
    fn byte(&mut self, o: &Obj, off: usize) -> E {
        match o.st[off] {
            CONC => self.x.cst(o.data[off] as u128, 8),
            UNDEF => self.x.undef(8),
            _ => o.syms[&(off as u32)],
        }
    }
    fn take(&mut self, o: &Obj, off: u64, ty: &Ty) -> R<V> {
        match ty {
            Ty::Arr(..) | Ty::Struct(..) => {
                let offs = if let Ty::Struct(..) = ty { ty.layout().0 } else { vec![] };
                let mut v = vec![];
                for i in 0..ty.elems() {
                    let et = ty.elem(i).clone();
                    let eo = if offs.is_empty() { i as u64 * et.size() } else { offs[i] };
                    v.push(self.take(o, off + eo, &et)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Vec(n, et) => {
                if et.bits() % 8 != 0 {
                    return err("load of bit vector");
                }
                let mut v = vec![];
                for i in 0..*n as u64 {
                    v.push(self.take(o, off + i * et.size(), et)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let w = ty.bits() as u32;
                let n = ((w + 7) / 8) as usize;
                let off = off as usize;
                if n <= 8 && o.all_conc(off, n) {
                    let mut b = [0u8; 8];
                    b[..n].copy_from_slice(&o.data[off..off + n]);
                    return Ok(V::I(u64::from_le_bytes(b) & m64(w)));
                }
                if o.st[off..off + n].iter().all(|&s| s == UNDEF) {
                    return Ok(V::U);
                }
                let mut r = self.byte(o, off);
                for i in 1..n {
                    let b = self.byte(o, off + i);
                    r = self.x.concat(b, r);
                }
                if w % 8 != 0 {
                    r = self.x.trunc(r, w);
                }
                Ok(self.v(r))
            }
            Ty::Void | Ty::Other => err("load of void"),
        }
    }
    /// Check an access of `n` bytes; returns its place and offset.
    fn access(&mut self, st: &mut State, addr: u64, n: u64, align: u64, write: bool) -> R<(Place, u64)> {
        let rw = if write { "write" } else { "read" };
        if align > 1 && addr & (align - 1) != 0 {
            return viol("memory", format!("misaligned {} (address must be a multiple of {})", rw, align));
        }
        if addr < 0x10000 {
            return viol("memory", format!("{} through a null or dangling pointer", rw));
        }
        let p = match Mem::place(addr) {
            Some(p) => p,
            None => return viol("memory", format!("{} of {} bytes through an invalid pointer {:#x}", rw, n, addr)),
        };
        let (base, size, sym) = match p {
            Place::Heap(i) => match st.mem.heap.get(i) {
                Some((Some(o), _)) => (o.base, o.size, o.size_e),
                Some((None, _)) => return viol("memory", format!("{} of freed memory", rw)),
                None => return viol("memory", format!("{} through an invalid pointer", rw)),
            },
            Place::Stack(i) => match st.mem.stack.get(i) {
                Some(o) => (o.base, o.size, None),
                None => return viol("memory", format!("{} of a dead stack slot", rw)),
            },
            Place::Glob(i) => {
                if i as usize >= self.m.globs.len() {
                    return viol("memory", format!("{} through an invalid pointer", rw));
                }
                if !st.mem.globs.contains_key(&i) {
                    let o = self.global(i)?;
                    if o.constant && write {
                        return viol("memory", "write to constant memory");
                    }
                    if write {
                        st.mem.globs.insert(i, o.clone());
                    }
                    (o.base, o.size, None)
                } else {
                    let o = &st.mem.globs[&i];
                    (o.base, o.size, None)
                }
            }
        };
        let off = addr.wrapping_sub(base);
        if let Some(se) = sym {
            // bound check against a symbolic size
            if addr < base || off > SLOT {
                return viol("memory", format!("out-of-bounds {}", rw));
            }
            if off + n > size {
                let k = self.x.cst((off + n) as u128, 64);
                let bad = self.x.bin(Op::Ult, se, k);
                self.forbid(st, bad, "memory", &format!("out-of-bounds {}", rw))?;
                if let Place::Heap(i) = p {
                    let o = Rc::make_mut(st.mem.heap[i].0.as_mut().unwrap());
                    o.grow(off + n);
                }
            }
            return Ok((p, off));
        }
        if addr < base || off > size || n > size - off {
            return viol("memory", format!("out-of-bounds {} of {} bytes at offset {} of a {}-byte object", rw, n, off as i64, size));
        }
        Ok((p, off))
    }
    fn obj<'a>(&'a self, st: &'a State, p: Place) -> &'a Rc<Obj> {
        match p {
            Place::Heap(i) => st.mem.heap[i].0.as_ref().unwrap(),
            Place::Stack(i) => &st.mem.stack[i],
            Place::Glob(i) => st.mem.globs.get(&i).unwrap_or_else(|| &self.consts[&i]),
        }
    }
    fn obj_mut<'a>(st: &'a mut State, p: Place) -> &'a mut Obj {
        match p {
            Place::Heap(i) => Rc::make_mut(st.mem.heap[i].0.as_mut().unwrap()),
            Place::Stack(i) => Rc::make_mut(&mut st.mem.stack[i]),
            Place::Glob(i) => Rc::make_mut(st.mem.globs.get_mut(&i).unwrap()),
        }
    }
    fn load(&mut self, st: &mut State, addr: u64, ty: &Ty, align: u64) -> R<V> {
        let n = ty.size_of_access();
        if n == 0 {
            return Ok(V::A(Rc::new(vec![V::U; ty.elems()])));
        }
        let (p, off) = self.access(st, addr, n, align, false)?;
        if let Ty::Int(_) | Ty::Ptr = ty {
            let o = self.obj(st, p);
            let n = n as usize;
            let off = off as usize;
            if n <= 8 && o.all_conc(off, n) {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                let v = u64::from_le_bytes(b);
                return Ok(V::I(if let Ty::Int(w) = ty { v & m64((*w).min(64)) } else { v }));
            }
        }
        let o = self.obj(st, p).clone();
        self.take(&o, off, ty)
    }
    fn store(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &V, align: u64) -> R<()> {
        let n = ty.size_of_access();
        if n == 0 {
            return Ok(());
        }
        let (p, off) = self.access(st, addr, n, align, true)?;
        if let (V::I(k), true) = (v, n <= 8 && !ty.is_agg()) {
            Self::obj_mut(st, p).put_conc(off as usize, &k.to_le_bytes()[..n as usize]);
            return Ok(());
        }
        let mut o = match p {
            Place::Heap(i) => st.mem.heap[i].0.clone().unwrap(),
            Place::Stack(i) => st.mem.stack[i].clone(),
            Place::Glob(i) => st.mem.globs[&i].clone(),
        };
        let r = self.put(Rc::make_mut(&mut o), off, ty, v);
        match p {
            Place::Heap(i) => st.mem.heap[i].0 = Some(o),
            Place::Stack(i) => st.mem.stack[i] = o,
            Place::Glob(i) => {
                st.mem.globs.insert(i, o);
            }
        }
        r
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (sp, so) = self.access(st, s, n, 1, false)?;
        let src = self.obj(st, sp).clone();
        let (dp, dof) = self.access(st, d, n, 1, true)?;
        let (so, dof, n) = (so as usize, dof as usize, n as usize);
        let dst = Self::obj_mut(st, dp);
        if src.all_conc(so, n) {
            dst.put_conc(dof, &src.data[so..so + n]);
        } else {
            for i in 0..n {
                match src.st[so + i] {
                    CONC => dst.put_conc(dof + i, &src.data[so + i..so + i + 1]),
                    UNDEF => dst.put_undef(dof + i, 1),
                    _ => dst.put_sym(dof + i, src.syms[&((so + i) as u32)]),
                }
            }
        }
        Ok(())
    }
    fn cstr(&mut self, st: &mut State, p: u64, n: u64) -> R<String> {
        let mut s = vec![];
        for i in 0..n {
            match self.load(st, p + i, &Ty::Int(8), 1)? {
                V::I(b) => s.push(b as u8),
                _ => s.push(b'?'),
            }
        }
        Ok(String::from_utf8_lossy(&s).into_owned())
    }

    // ------------------------------------------------------------ operators
    fn binop(&mut self, st: &mut State, op: Op, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = m64(w);
            return Ok(V::I(match op {
                Op::Add => x.wrapping_add(y) & m,
                Op::Sub => x.wrapping_sub(y) & m,
                Op::Mul => x.wrapping_mul(y) & m,
                Op::And => x & y,
                Op::Or => x | y,
                Op::Xor => x ^ y,
                Op::Shl | Op::LShr | Op::AShr if y >= w as u64 => return Ok(V::U),
                Op::Shl => (x << y) & m,
                Op::LShr => x >> y,
                _ => match fold(op, w, x as u128, y as u128) {
                    Some(v) => v as u64,
                    None => return viol("ub", "division by zero"),
                },
            }));
        }
        if let (V::A(x), V::A(y)) = (a, b) {
            let (x, y) = (x.clone(), y.clone());
            let mut v = vec![];
            for i in 0..x.len() {
                v.push(self.binop(st, op, w, &x[i], &y[i])?);
            }
            return Ok(V::A(Rc::new(v)));
        }
        if let (V::U, V::U) = (a, b) {
            return Ok(V::U);
        }
        if let (V::A(x), V::U) | (V::U, V::A(x)) = (a, b) {
            return Ok(V::A(Rc::new(vec![V::U; x.len()])));
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
            let z = self.x.cst(0, w);
            let bad = self.x.bin(Op::Eq, y, z);
            self.forbid(st, bad, "ub", "division by zero")?;
        }
        let r = self.x.bin(op, x, y);
        Ok(self.v(r))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (s, t) = (sx(x as u128, w), sx(y as u128, w));
            return Ok(V::I(match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => s < t,
                Pred::Sle => s <= t,
                Pred::Sgt => s > t,
                Pred::Sge => s >= t,
            } as u64));
        }
        if let (V::A(x), V::A(y)) = (a, b) {
            let (x, y) = (x.clone(), y.clone());
            let mut v = vec![];
            for i in 0..x.len() {
                v.push(self.icmp(p, w, &x[i], &y[i])?);
            }
            return Ok(V::A(Rc::new(v)));
        }
        if let (V::U, V::U) = (a, b) {
            return Ok(V::U);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = match p {
            Pred::Eq => self.x.bin(Op::Eq, x, y),
            Pred::Ne => {
                let q = self.x.bin(Op::Eq, x, y);
                self.x.not(q)
            }
            Pred::Ult => self.x.bin(Op::Ult, x, y),
            Pred::Ule => self.x.bin(Op::Ule, x, y),
            Pred::Ugt => self.x.bin(Op::Ult, y, x),
            Pred::Uge => self.x.bin(Op::Ule, y, x),
            Pred::Slt => self.x.bin(Op::Slt, x, y),
            Pred::Sle => self.x.bin(Op::Sle, x, y),
            Pred::Sgt => self.x.bin(Op::Slt, y, x),
            Pred::Sge => self.x.bin(Op::Sle, y, x),
        };
        Ok(self.v(r))
    }
    fn cast(&mut self, k: CastK, from: &Ty, to: &Ty, a: &V) -> R<V> {
        if k == CastK::Bit {
            return self.bitcast(from, to, a);
        }
        if let (V::A(l), Ty::Vec(_, fe), Ty::Vec(_, te)) = (a, from, to) {
            let mut v = vec![];
            for x in l.iter() {
                v.push(self.cast(k, fe, te, x)?);
            }
            return Ok(V::A(Rc::new(v)));
        }
        let (fw, tw) = (from.bits() as u32, to.bits() as u32);
        if let V::I(n) = a {
            if tw <= 64 {
                return Ok(V::I(match k {
                    CastK::Trunc => n & m64(tw),
                    CastK::ZExt => *n,
                    _ => (sx(*n as u128, fw) as u64) & m64(tw),
                }));
            }
        }
        if let (V::U, CastK::Trunc) = (a, k) {
            return Ok(V::U);
        }
        if let (V::U, Ty::Vec(n, _)) = (a, to) {
            return Ok(V::A(Rc::new(vec![V::U; *n as usize])));
        }
        if fw == tw {
            return Ok(a.clone());
        }
        let e = self.e(a, fw);
        let r = match k {
            CastK::Trunc => self.x.trunc(e, tw),
            CastK::ZExt => self.x.zext(e, tw),
            _ => self.x.sext(e, tw),
        };
        Ok(self.v(r))
    }
    fn bitcast(&mut self, from: &Ty, to: &Ty, a: &V) -> R<V> {
        match (from, to) {
            (_, Ty::Vec(n, te)) if !matches!(from, Ty::Vec(m, _) if m == n) => {
                let w = (te.bits() * *n as u64) as u32;
                let e = self.e(a, w);
                let lw = te.bits() as u32;
                let mut v = vec![];
                for i in 0..*n {
                    let q = self.x.extract(e, (i + 1) * lw - 1, i * lw);
                    v.push(self.v(q));
                }
                Ok(V::A(Rc::new(v)))
            }
            (Ty::Vec(n, fe), t) if !matches!(t, Ty::Vec(..)) => {
                let w = (fe.bits() * *n as u64) as u32;
                let e = self.e(a, w);
                Ok(self.v(e))
            }
            _ => Ok(a.clone()),
        }
    }

    // ------------------------------------------------------------ functions
    fn classify(&mut self, id: u32) -> Sp {
        if let Some(&s) = self.special.get(&id) {
            return s;
        }
        let n = self.m.fns[id as usize].name;
        let s = Self::classify_name(n, self.m.fns[id as usize].body.is_some());
        self.special.insert(id, s);
        s
    }
    fn classify_name(n: &str, has_body: bool) -> Sp {
        if let Some(r) = n.strip_prefix("vf_") {
            return match r {
                "any" => Sp::Any,
                "range" => Sp::Range,
                "choose" => Sp::Choose,
                "concretize" => Sp::Concretize,
                "assume" => Sp::Assume,
                "check" => Sp::Check,
                "cover" => Sp::Cover,
                "obs" => Sp::Obs,
                "alloc" => Sp::Alloc,
                "free" => Sp::Free,
                "fault" => Sp::Fault,
                "fails" => Sp::Fails,
                "allocs" => Sp::Allocs,
                "live" => Sp::Live,
                "live_bytes" => Sp::LiveBytes,
                "leak_ok" => Sp::LeakOk,
                "try" => Sp::Try,
                "param" => Sp::Param,
                "is_symbolic" => Sp::Symbolic,
                "trace" => Sp::Trace,
                _ => Sp::None,
            };
        }
        if let Some(r) = n.strip_prefix("llvm.") {
            let p = |s: &str| r.starts_with(s);
            return if p("memcpy") {
                Sp::Memcpy
            } else if p("memmove") {
                Sp::Memmove
            } else if p("memset") {
                Sp::Memset
            } else if p("lifetime.start") {
                Sp::LifeStart
            } else if p("lifetime") || p("experimental.noalias") || p("dbg.") || p("donothing") || p("prefetch") || p("invariant") || p("x86.sse2.pause") {
                Sp::Skip
            } else if p("assume") {
                Sp::AssumeI
            } else if p("trap") || p("debugtrap") || p("ubsantrap") {
                Sp::Trap
            } else if p("expect") {
                Sp::Expect
            } else if p("umax") {
                Sp::UMax
            } else if p("umin") {
                Sp::UMin
            } else if p("smax") {
                Sp::SMax
            } else if p("smin") {
                Sp::SMin
            } else if p("uadd.with") {
                Sp::Ovf(Op::Add, false)
            } else if p("usub.with") {
                Sp::Ovf(Op::Sub, false)
            } else if p("umul.with") {
                Sp::Ovf(Op::Mul, false)
            } else if p("sadd.with") {
                Sp::Ovf(Op::Add, true)
            } else if p("ssub.with") {
                Sp::Ovf(Op::Sub, true)
            } else if p("smul.with") {
                Sp::Ovf(Op::Mul, true)
            } else if p("uadd.sat") {
                Sp::Sat(Op::Add, false)
            } else if p("usub.sat") {
                Sp::Sat(Op::Sub, false)
            } else if p("sadd.sat") {
                Sp::Sat(Op::Add, true)
            } else if p("ssub.sat") {
                Sp::Sat(Op::Sub, true)
            } else if p("ctpop") {
                Sp::Ctpop
            } else if p("ctlz") {
                Sp::Ctlz
            } else if p("cttz") {
                Sp::Cttz
            } else if p("bswap") {
                Sp::Bswap
            } else if p("bitreverse") {
                Sp::Bitrev
            } else if p("fshl") {
                Sp::Fshl
            } else if p("fshr") {
                Sp::Fshr
            } else if p("abs") {
                Sp::Abs
            } else if p("ucmp") {
                Sp::Ucmp
            } else if p("scmp") {
                Sp::Scmp
            } else if p("vector.reduce.add") {
                Sp::RedAdd
            } else if p("vector.reduce.or") {
                Sp::RedOr
            } else if p("vector.reduce.and") {
                Sp::RedAnd
            } else if p("threadlocal.address") {
                Sp::TlsAddr
            } else if p("ptrmask") {
                Sp::PtrMask
            } else if p("load.relative") {
                Sp::LoadRel
            } else if p("is.constant") {
                Sp::IsConst
            } else if p("objectsize") {
                Sp::ObjSize
            } else if p("x86.sse2.pmovmskb") {
                Sp::MoveMask
            } else if p("eh.typeid") {
                Sp::EhTypeId
            } else {
                Sp::None
            };
        }
        match n {
            "memcpy" => return Sp::Memcpy,
            "memmove" => return Sp::Memmove,
            "memset" => return Sp::Memset,
            "memcmp" => return Sp::Memcmp,
            "bcmp" => return Sp::Bcmp,
            "strlen" => return Sp::Strlen,
            "abort" | "__rust_alloc_error_handler" | "rust_oom" | "__rg_oom" => return Sp::Abort,
            "rust_begin_unwind" | "_Unwind_RaiseException" | "rust_panic" => return Sp::Raise,
            _ => {}
        }
        if n.contains("4core9panicking") {
            return if ["nounwind", "panic_cannot_unwind", "panic_in_cleanup", "misaligned_pointer", "null_pointer"]
                .iter()
                .any(|k| n.contains(k))
            {
                Sp::Abort
            } else {
                Sp::Raise
            };
        }
        if n.contains("3std9panicking") || n.contains("_3std5panic") {
            if n.contains("panicking9panicking") || n.contains("panic_count") {
                return Sp::Panicking;
            }
            if n.contains("begin_panic") || n.contains("rust_panic") || n.contains("resume_unwind") || n.contains("panic_with_hook") {
                return Sp::Raise;
            }
        }
        if n.contains("handle_alloc_error") || n.contains("8rust_oom") || n.contains("7process5abort") || n.contains("alloc_error_handler") {
            return Sp::Abort;
        }
        if n.contains("hashmap_random_keys") {
            return Sp::RandKeys;
        }
        if !has_body && n.contains("thread8panicking") {
            return Sp::Panicking;
        }
        Sp::None
    }
    fn push_frame(&mut self, st: &mut State, f: Rc<Func>, args: Vec<V>, catch: bool) -> R<()> {
        if st.frames.len() > 400 {
            return viol("hang", "stack overflow (more than 400 frames)");
        }
        self.fn_hit.insert(f.id);
        let mut regs = vec![V::U; f.nregs as usize];
        for (i, a) in args.into_iter().enumerate() {
            if i < f.nparams as usize {
                regs[i] = a;
            }
        }
        let stack0 = st.mem.stack.len();
        st.frames.push(Frame { f, bi: 0, ii: 0, regs, stack0, catch });
        Ok(())
    }
    /// Return from the top frame to its caller.
    fn pop_ret(&mut self, st: &mut State, v: V) -> R<()> {
        let fr = st.frames.pop().unwrap();
        st.mem.stack.truncate(fr.stack0);
        if st.frames.is_empty() {
            return Err(End::Done);
        }
        let v = if fr.catch { V::I(0) } else { v };
        self.finish_call(st, v)
    }
    fn finish_call(&mut self, st: &mut State, v: V) -> R<()> {
        let top = st.frames.last_mut().unwrap();
        let f = top.f.clone();
        if let Inst::Call { dst, inv, .. } = &f.blocks[top.bi as usize].insts[top.ii as usize] {
            if *dst != u32::MAX {
                top.regs[*dst as usize] = v;
            }
            match inv {
                Some((n, _)) => {
                    let n = *n;
                    self.jump(st, n);
                }
                None => top.ii += 1,
            }
            st.dec.clear();
            st.deci = 0;
            Ok(())
        } else {
            err("return to a non-call")
        }
    }
    fn jump(&mut self, st: &mut State, b: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.bi;
        let f = fr.f.clone();
        let blk = &f.blocks[b as usize];
        match blk.phis.len() {
            0 => {}
            1 => {
                let p = &blk.phis[0];
                if let Some((_, o)) = p.inc.iter().find(|(l, _)| *l == from) {
                    let v = Self::get(fr, o).clone();
                    fr.regs[p.dst as usize] = v;
                }
            }
            _ => {
                let vals: Vec<V> = blk
                    .phis
                    .iter()
                    .map(|p| p.inc.iter().find(|(l, _)| *l == from).map(|(_, o)| Self::get(fr, o).clone()).unwrap_or(V::U))
                    .collect();
                for (p, v) in blk.phis.iter().zip(vals) {
                    fr.regs[p.dst as usize] = v;
                }
            }
        }
        fr.bi = b;
        fr.ii = 0;
    }
    /// Unwind from the current instruction of the top frame (`here`: that instruction may itself be an invoke).
    fn unwind(&mut self, st: &mut State, mut here: bool) -> R<()> {
        st.dec.clear();
        st.deci = 0;
        loop {
            if here {
                let top = st.frames.last().unwrap();
                if let Inst::Call { inv: Some((_, u)), .. } = &top.f.blocks[top.bi as usize].insts[top.ii as usize] {
                    let u = *u;
                    st.lp = V::A(Rc::new(vec![V::I(0x1000_0100), V::I(1)]));
                    self.jump(st, u);
                    return Ok(());
                }
            }
            let fr = st.frames.pop().unwrap();
            st.mem.stack.truncate(fr.stack0);
            if st.frames.is_empty() {
                return viol("panic", "a panic escaped the operation under test");
            }
            if fr.catch {
                st.panicking -= 1;
                return self.finish_call(st, V::I(1));
            }
            here = true;
        }
    }
    pub fn loc(&self, st: &State) -> (String, Vec<String>) {
        let mut first = String::new();
        let mut v = vec![];
        for fr in st.frames.iter().rev() {
            let b = &fr.f.blocks[fr.bi as usize];
            let d = b.dbg.get(fr.ii as usize).copied().unwrap_or(0);
            if d != 0 {
                for (_, nm, file, line) in self.m.loc_chain(d) {
                    let s = format!("{} ({}:{})", short(&nm), file, line);
                    if first.is_empty() && (file.contains("/repo/src") || file.starts_with("src/")) {
                        first = format!("{}:{}", file.rsplit("/repo/").next().unwrap(), line);
                    }
                    if v.len() < 24 {
                        v.push(s);
                    }
                }
            } else if v.len() < 24 {
                v.push(short(&fr.f.name));
            }
        }
        (first, v)
    }

    fn call(&mut self, st: &mut State, f: &Callee, args: &[(Ty, Opnd)], ret: &Ty) -> R<Flow> {
        let id = match f {
            Callee::F(id) => *id,
            Callee::P(o) => {
                let v = Self::get(st.frames.last().unwrap(), o).clone();
                let a = self.concretize(st, &v, 64, "a call target")?;
                match self.m.fn_at(a) {
                    Some(id) => id,
                    None => return viol("memory", "call through an invalid function pointer"),
                }
            }
        };
        let sp = self.classify(id);
        if sp == Sp::None {
            if let Some(fun) = self.m.func(id, &mut self.x) {
                let fr = st.frames.last().unwrap();
                let av = args.iter().map(|(_, o)| Self::get(fr, o).clone()).collect();
                self.push_frame(st, fun, av, false)?;
                return Ok(Flow::Frame);
            }
            return err(format!("call of unmodelled external function {}", self.m.fns[id as usize].name));
        }
        let a: Vec<V> = {
            let fr = st.frames.last().unwrap();
            args.iter().map(|(_, o)| Self::get(fr, o).clone()).collect()
        };
        match sp {
            Sp::Raise => {
                if self.o.trace {
                    eprintln!("raise in {:?}", self.loc(st).1);
                }
                st.panicking += 1;
                if st.panicking > 20 {
                    return viol("hang", "unbounded nested panics");
                }
                self.unwind(st, true)?;
                return Ok(Flow::Frame);
            }
            Sp::Abort => {
                return viol("abort", format!("process abort: {}", short(self.m.fns[id as usize].name)));
            }
            Sp::Trap => return viol("abort", "trap instruction"),
            Sp::Try => {
                let fp = self.concretize(st, &a[0], 64, "a call target")?;
                let fid = match self.m.fn_at(fp) {
                    Some(i) => i,
                    None => return err("vf_try target"),
                };
                let fun = self.m.func(fid, &mut self.x).unwrap();
                self.push_frame(st, fun, vec![a[1].clone()], true)?;
                return Ok(Flow::Frame);
            }
            _ => {}
        }
        let v = self.special_call(st, sp, &a, args, ret)?;
        self.finish_call(st, v)?;
        Ok(Flow::Frame)
    }
    fn w0(args: &[(Ty, Opnd)]) -> u32 {
        match &args[0].0 {
            Ty::Vec(_, e) => e.bits() as u32,
            t => t.bits() as u32,
        }
    }
    fn new_input(&mut self, st: &mut State, w: u32) -> E {
        let nm = format!("in{}", st.inputs.len());
        let v = self.x.var(&nm, w);
        st.vars.push(v);
        v
    }
    fn special_call(&mut self, st: &mut State, sp: Sp, a: &[V], args: &[(Ty, Opnd)], ret: &Ty) -> R<V> {
        Ok(match sp {
            Sp::Skip | Sp::HintBlackBox => V::U,
            Sp::Any => {
                // vf_any(bits) -> u64
                let w = self.concretize(st, &a[0], 32, "width")? as u32;
                let e = self.new_input(st, w);
                let z = self.x.zext(e, 64);
                let v = self.v(z);
                st.inputs.push(v.clone());
                v
            }
            Sp::Range => {
                // vf_range(lo, hi) inclusive
                let lo = self.concretize(st, &a[0], 64, "lo")?;
                let hi = self.concretize(st, &a[1], 64, "hi")?;
                if lo > hi {
                    return Err(End::Infeasible);
                }
                let v = if lo == hi {
                    V::I(lo)
                } else {
                    let w = 64 - hi.leading_zeros();
                    let w = if w <= 8 { 8 } else if w <= 16 { 16 } else if w <= 32 { 32 } else { 64 };
                    let e = self.new_input(st, w);
                    let l = self.x.cst(lo as u128, w);
                    let h = self.x.cst(hi as u128, w);
                    let c1 = self.x.bin(Op::Ule, l, e);
                    let c2 = self.x.bin(Op::Ule, e, h);
                    let c = self.x.bin(Op::And, c1, c2);
                    self.assume(st, c)?;
                    let z = self.x.zext(e, 64);
                    self.v(z)
                };
                st.inputs.push(v.clone());
                v
            }
            Sp::Choose => {
                let n = self.concretize(st, &a[0], 64, "n")?;
                let mut k = n - 1;
                // decisions carry no constraint: every alternative is feasible
                for i in 0..n - 1 {
                    if self.nondet(st) {
                        k = i;
                        break;
                    }
                }
                st.inputs.push(V::I(k));
                V::I(k)
            }
            Sp::Concretize => V::I(self.concretize(st, &a[0], 64, "vf_concretize")?),
            Sp::Assume => {
                let e = self.e(&a[0], Self::w0(args));
                let e = if self.x.w(e) > 1 { self.x.trunc(e, 1) } else { e };
                self.assume(st, e)?;
                V::U
            }
            Sp::Check => {
                self.checks += 1;
                let n = self.concretize(st, &a[2], 64, "len")?;
                let p = self.concretize(st, &a[1], 64, "ptr")?;
                let w = Self::w0(args);
                let e = self.e(&a[0], w);
                let e = if w > 1 { self.x.trunc(e, 1) } else { e };
                if self.x.as_const(e) != Some(1) {
                    let msg = self.cstr(st, p, n)?;
                    self.check_taint(st, e, &format!("check '{}'", msg))?;
                    self.checks_solver += 1;
                    let bad = self.x.not(e);
                    self.forbid(st, bad, "check", &msg)?;
                }
                V::U
            }
            Sp::Cover => {
                let n = self.concretize(st, &a[1], 64, "len")?;
                let p = self.concretize(st, &a[0], 64, "ptr")?;
                let s = self.cstr(st, p, n)?;
                let id = match self.cover_ids.iter().position(|x| *x == s) {
                    Some(i) => i,
                    None => {
                        self.cover_ids.push(s);
                        self.cover_ids.len() - 1
                    }
                } as u32;
                if !st.covers.contains(&id) {
                    st.covers.push(id);
                }
                V::U
            }
            Sp::Trace => {
                if self.o.trace {
                    let n = self.concretize(st, &a[1], 64, "len")?;
                    let p = self.concretize(st, &a[0], 64, "ptr")?;
                    let s = self.cstr(st, p, n)?;
                    let s = format!("{} {:?}", s, if let V::E(e) = a[2] { self.x.show(e) } else { format!("{:?}", a[2]) });
                    eprintln!("  trace {}", s);
                    st.trace.push(s);
                }
                V::U
            }
            Sp::Obs => {
                if let V::E(e) = a[0] {
                    self.check_taint(st, e, "an observed value")?;
                }
                if let V::U = a[0] {
                    return viol("uninit", "an observed value is uninitialised or moved-out memory");
                }
                st.obs.push(a[0].clone());
                V::U
            }
            Sp::Alloc => self.do_alloc(st, &a[0], &a[1])?,
            Sp::Free => {
                self.do_free(st, &a[0], &a[1], &a[2])?;
                V::U
            }
            Sp::Fault => {
                st.fault = self.concretize(st, &a[0], 64, "mode")?;
                st.fault_max = self.concretize(st, &a[1], 64, "max")?;
                st.fault_base = st.fails;
                V::U
            }
            Sp::Fails => V::I(st.fails),
            Sp::Allocs => V::I(st.allocs),
            Sp::Live => V::I(st.live),
            Sp::LiveBytes => match st.live_sym {
                None => V::I(st.live_bytes),
                Some(e) => {
                    let c = self.x.cst(st.live_bytes as u128, 64);
                    let s = self.x.bin(Op::Add, e, c);
                    match self.x.as_const(s) {
                        Some(n) => V::I(n as u64),
                        None => V::E(s),
                    }
                }
            },
            Sp::LeakOk => {
                st.leak_ok = true;
                V::U
            }
            Sp::Param => {
                let i = self.concretize(st, &a[0], 64, "i")? as usize;
                V::I(self.o.params.get(i).copied().unwrap_or(0))
            }
            Sp::Symbolic => V::I(1),
            Sp::Panicking => V::I((st.panicking > 0) as u64),
            Sp::Memcpy | Sp::Memmove => {
                let n = self.concretize(st, &a[2], args[2].0.bits() as u32, "a copy length")?;
                let d = self.concretize(st, &a[0], 64, "a copy destination")?;
                let s = self.concretize(st, &a[1], 64, "a copy source")?;
                if sp == Sp::Memcpy && n > 0 && d != s && (if d < s { s - d } else { d - s }) < n {
                    return viol("memory", "overlapping copy_nonoverlapping");
                }
                self.copy(st, d, s, n)?;
                V::I(d)
            }
            Sp::Memset => {
                let n = self.concretize(st, &a[2], args[2].0.bits() as u32, "a fill length")?;
                let d = self.concretize(st, &a[0], 64, "a fill destination")?;
                if n > 0 {
                    let (p, off) = self.access(st, d, n, 1, true)?;
                    let w = args[1].0.bits() as u32;
                    match &a[1] {
                        V::I(b) => {
                            let b = *b as u8;
                            Self::obj_mut(st, p).put_conc(off as usize, &vec![b; n as usize]);
                        }
                        V::U => Self::obj_mut(st, p).put_undef(off as usize, n as usize),
                        v => {
                            let e = self.e(v, w);
                            let e = if w > 8 { self.x.trunc(e, 8) } else { e };
                            let o = Self::obj_mut(st, p);
                            for i in 0..n as usize {
                                o.put_sym(off as usize + i, e);
                            }
                        }
                    }
                }
                V::I(d)
            }
            Sp::Bcmp | Sp::Memcmp => {
                let n = self.concretize(st, &a[2], 64, "a compare length")?;
                let p = self.concretize(st, &a[0], 64, "a compare operand")?;
                let q = self.concretize(st, &a[1], 64, "a compare operand")?;
                let w = ret.bits() as u32;
                if sp == Sp::Bcmp {
                    let mut all = self.x.cst(1, 1);
                    for i in 0..n {
                        let x = self.load(st, p + i, &Ty::Int(8), 1)?;
                        let y = self.load(st, q + i, &Ty::Int(8), 1)?;
                        let c = self.icmp(Pred::Eq, 8, &x, &y)?;
                        let c = self.e(&c, 1);
                        all = self.x.bin(Op::And, all, c);
                    }
                    let ne = self.x.not(all);
                    let z = self.x.zext(ne, w);
                    self.v(z)
                } else {
                    for i in 0..n {
                        let x = self.load(st, p + i, &Ty::Int(8), 1)?;
                        let y = self.load(st, q + i, &Ty::Int(8), 1)?;
                        let c = self.icmp(Pred::Eq, 8, &x, &y)?;
                        if !self.decide(st, &c, "memcmp")? {
                            let l = self.icmp(Pred::Ult, 8, &x, &y)?;
                            return Ok(V::I(if self.decide(st, &l, "memcmp")? { m64(w) } else { 1 }));
                        }
                    }
                    V::I(0)
                }
            }
            Sp::Strlen => {
                let p = self.concretize(st, &a[0], 64, "strlen")?;
                let mut n = 0;
                loop {
                    let b = self.load(st, p + n, &Ty::Int(8), 1)?;
                    if self.concretize(st, &b, 8, "strlen")? == 0 {
                        break;
                    }
                    n += 1;
                }
                V::I(n)
            }
            Sp::LifeStart => {
                let p = match a.last() {
                    Some(V::I(p)) => *p,
                    _ => return Ok(V::U),
                };
                if let Some(Place::Stack(i)) = Mem::place(p) {
                    if let Some(o) = st.mem.stack.get_mut(i) {
                        if o.base == p {
                            let o = Rc::make_mut(o);
                            let n = o.size as usize;
                            o.put_undef(0, n);
                        }
                    }
                }
                V::U
            }
            Sp::AssumeI => {
                if let V::U = a[0] {
                    return viol("uninit", "a compiler assumption depends on uninitialised memory");
                }
                let e = self.e(&a[0], 1);
                self.check_taint(st, e, "a compiler assumption")?;
                let bad = self.x.not(e);
                self.forbid(st, bad, "ub", "a compiler assumption (llvm.assume) is violated")?;
                V::U
            }
            Sp::Expect => a[0].clone(),
            Sp::UMax | Sp::UMin | Sp::SMax | Sp::SMin => {
                let w = Self::w0(args);
                if let (V::A(x), V::A(y)) = (&a[0], &a[1]) {
                    let mut v = vec![];
                    for i in 0..x.len() {
                        v.push(self.minmax(sp, w, &x[i], &y[i])?);
                    }
                    return Ok(V::A(Rc::new(v)));
                }
                self.minmax(sp, w, &a[0], &a[1])?
            }
            Sp::Ovf(op, signed) => {
                let w = Self::w0(args);
                if let (V::I(x), V::I(y)) = (&a[0], &a[1]) {
                    let (x, y) = (*x as u128, *y as u128);
                    let (r, o) = if signed {
                        let (p, q) = (sx(x, w), sx(y, w));
                        let r = match op {
                            Op::Add => p + q,
                            Op::Sub => p - q,
                            _ => p * q,
                        };
                        (r as u128 & mask(w), sx(r as u128 & mask(w), w) != r)
                    } else {
                        match op {
                            Op::Add => ((x + y) & mask(w), x + y > mask(w)),
                            Op::Sub => (x.wrapping_sub(y) & mask(w), y > x),
                            _ => ((x * y) & mask(w), x * y > mask(w)),
                        }
                    };
                    return Ok(V::A(Rc::new(vec![V::I(r as u64), V::I(o as u64)])));
                }
                let (x, y) = (self.e(&a[0], w), self.e(&a[1], w));
                let r = self.x.bin(op, x, y);
                let o = match (op, signed) {
                    (Op::Add, false) => self.x.bin(Op::Ult, r, x),
                    (Op::Sub, false) => self.x.bin(Op::Ult, x, y),
                    (Op::Mul, false) if self.x.as_const(y).is_some() || self.x.as_const(x).is_some() => {
                        // x*k overflows iff x > MAX/k
                        let (k, v) = match self.x.as_const(y) {
                            Some(k) => (k, x),
                            None => (self.x.as_const(x).unwrap_or(0), y),
                        };
                        if k == 0 {
                            self.x.cst(0, 1)
                        } else {
                            let lim = self.x.cst(mask(w) / k, w);
                            self.x.bin(Op::Ult, lim, v)
                        }
                    }
                    _ => {
                        if w > 64 {
                            return err("128-bit overflow arithmetic");
                        }
                        let (xx, yy) = if signed {
                            (self.x.sext(x, 2 * w), self.x.sext(y, 2 * w))
                        } else {
                            (self.x.zext(x, 2 * w), self.x.zext(y, 2 * w))
                        };
                        if op == Op::Mul && !signed {
                            let p = self.x.bin(op, xx, yy);
                            let h = self.x.extract(p, 2 * w - 1, w);
                            let z = self.x.cst(0, w);
                            let q = self.x.bin(Op::Eq, h, z);
                            self.x.not(q)
                        } else {
                            let p = self.x.bin(op, xx, yy);
                            let q = self.x.trunc(p, w);
                            let back = if signed { self.x.sext(q, 2 * w) } else { self.x.zext(q, 2 * w) };
                            let c = self.x.bin(Op::Eq, p, back);
                            self.x.not(c)
                        }
                    }
                };
                V::A(Rc::new(vec![self.v(r), self.v(o)]))
            }
            Sp::Sat(op, signed) => {
                let w = Self::w0(args);
                if signed {
                    return err("signed saturating arithmetic");
                }
                if let (V::A(x), V::A(y)) = (&a[0], &a[1]) {
                    let mut v = vec![];
                    for i in 0..x.len() {
                        v.push(self.satop(op, w, &x[i], &y[i]));
                    }
                    return Ok(V::A(Rc::new(v)));
                }
                self.satop(op, w, &a[0], &a[1])
            }
            Sp::Ctpop | Sp::Ctlz | Sp::Cttz | Sp::Bswap | Sp::Bitrev => {
                let w = Self::w0(args);
                if let V::U = a[0] {
                    return Ok(V::U);
                }
                let n = match &a[0] {
                    V::I(n) => *n as u128,
                    V::E(e) => match self.x.as_const(*e) {
                        Some(c) => c,
                        None => return self.sym_bits(sp, w, *e, a.get(1)),
                    },
                    _ => return err("vector bit operation"),
                };
                let r = match sp {
                    Sp::Ctpop => n.count_ones() as u128,
                    Sp::Ctlz => {
                        if n == 0 && matches!(a[1], V::I(1)) {
                            return Ok(V::U);
                        }
                        (n.leading_zeros() - (128 - w)) as u128
                    }
                    Sp::Cttz => {
                        if n == 0 {
                            if matches!(a[1], V::I(1)) {
                                return Ok(V::U);
                            }
                            w as u128
                        } else {
                            n.trailing_zeros() as u128
                        }
                    }
                    Sp::Bswap => n.swap_bytes() >> (128 - w),
                    _ => n.reverse_bits() >> (128 - w),
                };
                let e = self.x.cst(r, w);
                self.v(e)
            }
            Sp::Fshl | Sp::Fshr => {
                let w = Self::w0(args);
                let k = match &a[2] {
                    V::I(k) => (*k as u32) % w,
                    _ => return err("funnel shift by a symbolic amount"),
                };
                let (x, y) = (self.e(&a[0], w), self.e(&a[1], w));
                let r = if k == 0 {
                    if sp == Sp::Fshl { x } else { y }
                } else {
                    let k = if sp == Sp::Fshl { k } else { w - k };
                    let h = self.x.extract(x, w - 1 - k, 0);
                    let l = self.x.extract(y, w - 1, w - k);
                    self.x.concat(h, l)
                };
                self.v(r)
            }
            Sp::Abs => {
                let w = Self::w0(args);
                let x = self.e(&a[0], w);
                let z = self.x.cst(0, w);
                let n = self.x.bin(Op::Sub, z, x);
                let c = self.x.bin(Op::Slt, x, z);
                let r = self.x.ite(c, n, x);
                self.v(r)
            }
            Sp::Ucmp | Sp::Scmp => {
                let w = Self::w0(args);
                let rw = ret.bits() as u32;
                let (x, y) = (self.e(&a[0], w), self.e(&a[1], w));
                let lt = self.x.bin(if sp == Sp::Ucmp { Op::Ult } else { Op::Slt }, x, y);
                let eq = self.x.bin(Op::Eq, x, y);
                let (m1, z, p1) = (self.x.cst(u128::MAX, rw), self.x.cst(0, rw), self.x.cst(1, rw));
                let r = self.x.ite(eq, z, p1);
                let r = self.x.ite(lt, m1, r);
                self.v(r)
            }
            Sp::RedAdd | Sp::RedOr | Sp::RedAnd => {
                let w = Self::w0(args);
                let op = match sp {
                    Sp::RedAdd => Op::Add,
                    Sp::RedOr => Op::Or,
                    _ => Op::And,
                };
                if let V::A(l) = &a[0] {
                    let mut r = l[0].clone();
                    for x in &l[1..] {
                        r = self.binop(st, op, w, &r, x)?;
                    }
                    r
                } else {
                    V::U
                }
            }
            Sp::TlsAddr => a[0].clone(),
            Sp::PtrMask => self.binop(st, Op::And, 64, &a[0], &a[1])?,
            Sp::LoadRel => {
                let p = self.concretize(st, &a[0], 64, "table")?;
                let o = self.concretize(st, &a[1], 64, "table")?;
                let d = self.load(st, p.wrapping_add(o), &Ty::Int(32), 4)?;
                let d = self.concretize(st, &d, 32, "table")?;
                V::I(p.wrapping_add(d as i32 as i64 as u64))
            }
            Sp::IsConst => V::I(0),
            Sp::ObjSize => V::I(u64::MAX),
            Sp::EhTypeId => V::I(1),
            Sp::RandKeys => {
                // fixed keys: { i64, i64 } by value or through sret
                if ret.is_agg() {
                    V::A(Rc::new(vec![V::I(0x0123456789abcdef), V::I(0xfedcba9876543210)]))
                } else if let Some(V::I(p)) = a.get(0) {
                    self.store(st, *p, &Ty::Int(64), &V::I(0x0123456789abcdef), 1)?;
                    self.store(st, *p + 8, &Ty::Int(64), &V::I(0xfedcba9876543210), 1)?;
                    V::U
                } else {
                    return err("hashmap_random_keys shape");
                }
            }
            Sp::MoveMask => {
                if let V::A(l) = &a[0] {
                    let mut r: Option<E> = None;
                    for x in l.iter() {
                        let e = self.e(x, 8);
                        let b = self.x.extract(e, 7, 7);
                        r = Some(match r {
                            None => b,
                            Some(p) => self.x.concat(b, p),
                        });
                    }
                    let z = self.x.zext(r.unwrap(), 32);
                    self.v(z)
                } else {
                    V::U
                }
            }
            Sp::None | Sp::Raise | Sp::Abort | Sp::Trap | Sp::Try => unreachable!(),
        })
    }
    fn minmax(&mut self, sp: Sp, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::U, _) | (_, V::U) = (a, b) {
            return Ok(V::U);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let c = self.x.bin(if matches!(sp, Sp::UMax | Sp::UMin) { Op::Ult } else { Op::Slt }, x, y);
        let r = if matches!(sp, Sp::UMin | Sp::SMin) { self.x.ite(c, x, y) } else { self.x.ite(c, y, x) };
        Ok(self.v(r))
    }
    fn satop(&mut self, op: Op, w: u32, a: &V, b: &V) -> V {
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = self.x.bin(op, x, y);
        let (o, k) = if op == Op::Add {
            (self.x.bin(Op::Ult, r, x), self.x.cst(mask(w), w))
        } else {
            (self.x.bin(Op::Ult, x, y), self.x.cst(0, w))
        };
        let r = self.x.ite(o, k, r);
        self.v(r)
    }
    fn sym_bits(&mut self, sp: Sp, w: u32, e: E, _z: Option<&V>) -> R<V> {
        match sp {
            Sp::Ctpop => {
                let mut r = self.x.cst(0, w);
                for i in 0..w {
                    let b = self.x.extract(e, i, i);
                    let b = self.x.zext(b, w);
                    r = self.x.bin(Op::Add, r, b);
                }
                Ok(self.v(r))
            }
            Sp::Ctlz | Sp::Cttz => {
                let mut r = self.x.cst(w as u128, w);
                for k in 0..w {
                    // the last assignment wins: scan from the far end
                    let i = if sp == Sp::Ctlz { k } else { w - 1 - k };
                    let b = self.x.extract(e, i, i);
                    let val = if sp == Sp::Ctlz { w - 1 - i } else { i };
                    let v = self.x.cst(val as u128, w);
                    r = self.x.ite(b, v, r);
                }
                Ok(self.v(r))
            }
            Sp::Bswap => {
                let n = w / 8;
                let mut r = self.x.extract(e, 7, 0);
                for i in 1..n {
                    let b = self.x.extract(e, i * 8 + 7, i * 8);
                    r = self.x.concat(r, b);
                }
                Ok(self.v(r))
            }
            _ => err("bit reverse of a symbolic value"),
        }
    }
    /// An unconstrained binary choice (both sides always feasible).
    fn nondet(&mut self, st: &mut State) -> bool {
        if st.deci < st.dec.len() {
            st.deci += 1;
            return st.dec[st.deci - 1].val;
        }
        let mut alt = st.clone();
        alt.dec.push(Dec { val: false, k: 0 });
        alt.deci = 0;
        self.work.push(alt);
        self.forks += 1;
        st.dec.push(Dec { val: true, k: 0 });
        st.deci += 1;
        true
    }
    fn do_alloc(&mut self, st: &mut State, size: &V, align: &V) -> R<V> {
        let al = self.concretize(st, align, 64, "an alignment")?;
        let se = match size {
            V::I(n) => {
                if *n == 0 {
                    return viol("memory", "zero-size allocation request");
                }
                if *n > self.o.cap {
                    if st.panicking == 0 && st.fault != 0 {
                        st.fails += 1;
                    }
                    return Ok(V::I(0));
                }
                None
            }
            V::E(e) => {
                let z = self.x.cst(0, 64);
                let bad = self.x.bin(Op::Eq, *e, z);
                self.forbid(st, bad, "memory", "zero-size allocation request")?;
                let cap = self.x.cst(self.o.cap as u128, 64);
                let big = self.x.bin(Op::Ult, cap, *e);
                if self.decide_e(st, big, "an allocation size")? {
                    if st.panicking == 0 && st.fault != 0 {
                        st.fails += 1;
                    }
                    return Ok(V::I(0));
                }
                Some(*e)
            }
            _ => return viol("uninit", "allocation size is uninitialised"),
        };
        if !al.is_power_of_two() {
            return viol("memory", "allocation alignment is not a power of two");
        }
        if st.panicking == 0 && st.fault != 0 {
            // 1: each may fail (at most `fault_max` of them), 2: once one failed all fail, 3: all fail
            let fail = match st.fault {
                3 => true,
                2 if st.fails > st.fault_base => true,
                _ => {
                    if st.fault == 2 || st.fails - st.fault_base < st.fault_max {
                        let f = self.nondet(st);
                        st.inputs.push(V::I(f as u64));
                        f
                    } else {
                        false
                    }
                }
            };
            if fail {
                st.fails += 1;
                return Ok(V::I(0));
            }
        }
        let n = if let V::I(n) = size { *n } else { 0 };
        let p = st.mem.alloc(n, se, al);
        if st.panicking == 0 {
            st.live += 1;
            st.live_bytes += n;
            if let Some(e) = se {
                st.live_sym = Some(match st.live_sym {
                    Some(o) => self.x.bin(Op::Add, o, e),
                    None => e,
                });
            }
            st.allocs += 1;
        } else {
            st.untracked.insert(p);
        }
        Ok(V::I(p))
    }
    fn do_free(&mut self, st: &mut State, p: &V, size: &V, align: &V) -> R<()> {
        let a = self.concretize(st, p, 64, "a freed pointer")?;
        let al = self.concretize(st, align, 64, "an alignment")?;
        match Mem::place(a) {
            Some(Place::Heap(i)) => match st.mem.heap.get(i) {
                Some((Some(o), _)) => {
                    if o.base != a {
                        return viol("memory", "free of a pointer into the middle of an allocation");
                    }
                    let o = o.clone();
                    let e1 = self.e(size, 64);
                    let e2 = match o.size_e {
                        Some(e) => e,
                        None => self.x.cst(o.size as u128, 64),
                    };
                    let eq = self.x.bin(Op::Eq, e1, e2);
                    let bad = self.x.not(eq);
                    self.forbid(st, bad, "memory", "free with a size different from the allocation's")?;
                    if o.align != al {
                        return viol("memory", "free with an alignment different from the allocation's");
                    }
                    let n = if o.size_e.is_some() { 0 } else { o.size };
                    st.mem.heap[i] = (None, o.size);
                    if !st.untracked.remove(&a) {
                        st.live -= 1;
                        st.live_bytes -= n;
                        if let (Some(e), Some(o)) = (o.size_e, st.live_sym) {
                            st.live_sym = if e == o { None } else { Some(self.x.bin(Op::Sub, o, e)) };
                        }
                    }
                    Ok(())
                }
                Some((None, _)) => viol("memory", "double free"),
                None => viol("memory", "free of an invalid pointer"),
            },
            _ => viol("memory", "free of a pointer that was not allocated"),
        }
    }

    // ------------------------------------------------------------ stepping
    fn step(&mut self, st: &mut State, inst: &Inst) -> R<Flow> {
        macro_rules! fr {
            () => {
                st.frames.last_mut().unwrap()
            };
        }
        macro_rules! val {
            ($o:expr) => {
                match $o {
                    Opnd::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
                    Opnd::C(v) => v.clone(),
                }
            };
        }
        match inst {
            Inst::Bin { op, w, a, b, dst } => {
                let (x, y) = (val!(a), val!(b));
                let r = self.binop(st, *op, *w, &x, &y)?;
                fr!().regs[*dst as usize] = r;
                Ok(Flow::Next)
            }
            Inst::ICmp { p, w, a, b, dst } => {
                let (x, y) = (val!(a), val!(b));
                let r = self.icmp(*p, *w, &x, &y)?;
                fr!().regs[*dst as usize] = r;
                Ok(Flow::Next)
            }
            Inst::Load { ty, addr, align, dst } => {
                let a = val!(addr);
                let a = self.concretize(st, &a, 64, "a load address")?;
                let v = self.load(st, a, ty, *align as u64)?;
                fr!().regs[*dst as usize] = v;
                Ok(Flow::Next)
            }
            Inst::Store { ty, val, addr, align } => {
                let a = val!(addr);
                let a = self.concretize(st, &a, 64, "a store address")?;
                let v = val!(val);
                self.store(st, a, ty, &v, *align as u64)?;
                Ok(Flow::Next)
            }
            Inst::Gep { base, off, terms, dst } => {
                let b = val!(base);
                let mut acc = match b {
                    V::I(b) => V::I(b.wrapping_add(*off as u64)),
                    b => self.binop(st, Op::Add, 64, &b, &V::I(*off as u64))?,
                };
                for (o, w, scale) in terms {
                    let t = val!(o);
                    if let (V::I(x), V::I(n)) = (&acc, &t) {
                        acc = V::I(x.wrapping_add((sx(*n as u128, *w) as i64 as u64).wrapping_mul(*scale as u64)));
                    } else {
                        let e = self.e(&t, *w);
                        let e = self.x.sext(e, 64);
                        let k = self.x.cst(*scale as u64 as u128, 64);
                        let p = self.x.bin(Op::Mul, e, k);
                        let p = self.v(p);
                        acc = self.binop(st, Op::Add, 64, &acc, &p)?;
                    }
                }
                fr!().regs[*dst as usize] = acc;
                Ok(Flow::Next)
            }
            Inst::Alloca { size, align, dst } => {
                let p = st.mem.push_stack(*size, *align);
                fr!().regs[*dst as usize] = V::I(p);
                Ok(Flow::Next)
            }
            Inst::Cast { k, from, to, a, dst } => {
                let x = val!(a);
                let r = self.cast(*k, from, to, &x)?;
                fr!().regs[*dst as usize] = r;
                Ok(Flow::Next)
            }
            Inst::Select { ty, c, a, b, dst } => {
                let cv = val!(c);
                let r = match &cv {
                    V::I(n) => {
                        if *n & 1 != 0 {
                            val!(a)
                        } else {
                            val!(b)
                        }
                    }
                    V::U => V::U,
                    V::A(l) => {
                        let (x, y) = (val!(a), val!(b));
                        let mut v = vec![];
                        for i in 0..l.len() {
                            let xi = if let V::A(x) = &x { x[i].clone() } else { V::U };
                            let yi = if let V::A(y) = &y { y[i].clone() } else { V::U };
                            let q = match &l[i] {
                                V::I(n) => {
                                    if *n & 1 != 0 {
                                        xi
                                    } else {
                                        yi
                                    }
                                }
                                V::E(c) => {
                                    let w = ty.elem(0).bits() as u32;
                                    let (p, q) = (self.e(&xi, w), self.e(&yi, w));
                                    let r = self.x.ite(*c, p, q);
                                    self.v(r)
                                }
                                _ => V::U,
                            };
                            v.push(q);
                        }
                        V::A(Rc::new(v))
                    }
                    V::E(e) => {
                        let (x, y) = (val!(a), val!(b));
                        let scalar = matches!(ty, Ty::Int(_)) && !matches!(x, V::U) && !matches!(y, V::U);
                        if scalar {
                            let w = ty.bits() as u32;
                            let (p, q) = (self.e(&x, w), self.e(&y, w));
                            let r = self.x.ite(*e, p, q);
                            self.v(r)
                        } else if self.decide_e(st, *e, "a selection")? {
                            x
                        } else {
                            y
                        }
                    }
                };
                fr!().regs[*dst as usize] = r;
                Ok(Flow::Next)
            }
            Inst::Freeze { ty, a, dst } => {
                let x = val!(a);
                let r = match x {
                    V::U if ty.is_agg() => return err("freeze of an undefined aggregate"),
                    V::U => {
                        let e = self.x.undef(ty.bits() as u32);
                        let mut memo = HashMap::new();
                        let r = self.x.rename_undef(e, false, &mut memo);
                        self.v(r)
                    }
                    V::E(e) => {
                        let mut memo = HashMap::new();
                        let r = self.x.rename_undef(e, false, &mut memo);
                        self.v(r)
                    }
                    v => v,
                };
                if let V::E(e) = r {
                    // frozen values become ordinary unknowns of the path
                    let (mut seen, mut l) = (HashSet::new(), vec![]);
                    self.x.leaves(e, &mut seen, &mut l);
                    for q in l {
                        if !st.vars.contains(&q) {
                            st.vars.push(q);
                        }
                    }
                }
                fr!().regs[*dst as usize] = r;
                Ok(Flow::Next)
            }
            Inst::Call { f, args, ret, .. } => self.call(st, f, args, ret),
            Inst::Br(b) => Ok(Flow::Jump(*b)),
            Inst::CondBr { c, t, f } => {
                let cv = val!(c);
                Ok(Flow::Jump(if self.decide(st, &cv, "a branch")? { *t } else { *f }))
            }
            Inst::Switch { w, v, d, cases } => {
                let x = val!(v);
                match &x {
                    V::I(n) => {
                        for (k, l) in cases {
                            if k == n {
                                return Ok(Flow::Jump(*l));
                            }
                        }
                        Ok(Flow::Jump(*d))
                    }
                    V::U => viol("uninit", "a switch depends on uninitialised or moved-out memory"),
                    _ => {
                        let e = self.e(&x, *w);
                        for (k, l) in cases {
                            let kc = self.x.cst(*k as u128, *w);
                            let c = self.x.bin(Op::Eq, e, kc);
                            if self.decide_e(st, c, "a switch")? {
                                return Ok(Flow::Jump(*l));
                            }
                        }
                        Ok(Flow::Jump(*d))
                    }
                }
            }
            Inst::Ret(v) => {
                let r = match v {
                    Some(o) => val!(o),
                    None => V::U,
                };
                self.pop_ret(st, r)?;
                Ok(Flow::Frame)
            }
            Inst::Unreachable => viol("ub", "unreachable code was reached"),
            Inst::Resume(_) => {
                let fr = st.frames.pop().unwrap();
                st.mem.stack.truncate(fr.stack0);
                if st.frames.is_empty() {
                    return viol("panic", "a panic escaped the operation under test");
                }
                if fr.catch {
                    st.panicking -= 1;
                    st.dec.clear();
                    st.deci = 0;
                    self.finish_call(st, V::I(1))?;
                } else {
                    self.unwind(st, true)?;
                }
                Ok(Flow::Frame)
            }
            Inst::LandingPad { dst } => {
                let lp = st.lp.clone();
                fr!().regs[*dst as usize] = lp;
                Ok(Flow::Next)
            }
            Inst::ExtractValue { a, idx, dst } => {
                let mut v = val!(a);
                for i in idx {
                    v = match v {
                        V::A(l) => l[*i as usize].clone(),
                        _ => V::U,
                    };
                }
                fr!().regs[*dst as usize] = v;
                Ok(Flow::Next)
            }
            Inst::InsertValue { ty, a, v, idx, dst } => {
                let base = val!(a);
                let nv = val!(v);
                fn ins(t: &Ty, b: &V, idx: &[u32], nv: V) -> V {
                    if idx.is_empty() {
                        return nv;
                    }
                    let mut l = match b {
                        V::A(l) => (**l).clone(),
                        _ => vec![V::U; t.elems()],
                    };
                    let i = idx[0] as usize;
                    l[i] = ins(t.elem(i), &l[i], &idx[1..], nv);
                    V::A(Rc::new(l))
                }
                let r = ins(ty, &base, idx, nv);
                fr!().regs[*dst as usize] = r;
                Ok(Flow::Next)
            }
            Inst::AtomicRmw { op, ty, addr, val, dst } => {
                let a = val!(addr);
                let a = self.concretize(st, &a, 64, "an atomic address")?;
                let v = val!(val);
                let w = ty.bits() as u32;
                let old = self.load(st, a, ty, ty.size())?;
                let new = match op {
                    Rmw::Xchg => v,
                    Rmw::Bin(o) => self.binop(st, *o, w, &old, &v)?,
                    Rmw::Nand => {
                        let r = self.binop(st, Op::And, w, &old, &v)?;
                        self.binop(st, Op::Xor, w, &r, &V::I(m64(w)))?
                    }
                    Rmw::Max => self.minmax(Sp::SMax, w, &old, &v)?,
                    Rmw::Min => self.minmax(Sp::SMin, w, &old, &v)?,
                    Rmw::UMax => self.minmax(Sp::UMax, w, &old, &v)?,
                    Rmw::UMin => self.minmax(Sp::UMin, w, &old, &v)?,
                };
                self.store(st, a, ty, &new, ty.size())?;
                if *dst != u32::MAX {
                    fr!().regs[*dst as usize] = old;
                }
                Ok(Flow::Next)
            }
            Inst::CmpXchg { ty, addr, cmp, new, dst } => {
                let a = val!(addr);
                let a = self.concretize(st, &a, 64, "an atomic address")?;
                let (c, n) = (val!(cmp), val!(new));
                let old = self.load(st, a, ty, ty.size())?;
                let eq = self.icmp(Pred::Eq, ty.bits() as u32, &old, &c)?;
                let ok = self.decide(st, &eq, "a compare-exchange")?;
                if ok {
                    self.store(st, a, ty, &n, ty.size())?;
                }
                fr!().regs[*dst as usize] = V::A(Rc::new(vec![old, V::I(ok as u64)]));
                Ok(Flow::Next)
            }
            Inst::Fence => Ok(Flow::Next),
            Inst::ExtractElem { a, i, dst } => {
                let x = val!(a);
                let iv = val!(i);
                let k = self.concretize(st, &iv, 64, "a vector index")? as usize;
                let r = match x {
                    V::A(l) => l.get(k).cloned().unwrap_or(V::U),
                    _ => V::U,
                };
                fr!().regs[*dst as usize] = r;
                Ok(Flow::Next)
            }
            Inst::InsertElem { ty, a, v, i, dst } => {
                let x = val!(a);
                let nv = val!(v);
                let iv = val!(i);
                let k = self.concretize(st, &iv, 64, "a vector index")? as usize;
                let mut l = match x {
                    V::A(l) => (*l).clone(),
                    _ => vec![V::U; ty.elems()],
                };
                if k < l.len() {
                    l[k] = nv;
                }
                fr!().regs[*dst as usize] = V::A(Rc::new(l));
                Ok(Flow::Next)
            }
            Inst::Shuffle { n, a, b, m, dst } => {
                let (x, y) = (val!(a), val!(b));
                let n = *n as usize;
                let pick = |v: &V, i: usize| if let V::A(l) = v { l[i].clone() } else { V::U };
                let l = m
                    .iter()
                    .map(|k| match k {
                        Some(k) if (*k as usize) < n => pick(&x, *k as usize),
                        Some(k) => pick(&y, *k as usize - n),
                        None => V::U,
                    })
                    .collect();
                fr!().regs[*dst as usize] = V::A(Rc::new(l));
                Ok(Flow::Next)
            }
            Inst::Unsup(s) => err(format!("unsupported instruction {}", s)),
        }
    }

    fn run_path(&mut self, st: &mut State) -> End {
        let mut n0 = st.steps;
        loop {
            let (f, mut bi, mut ii) = {
                let t = st.frames.last().unwrap();
                (t.f.clone(), t.bi, t.ii)
            };
            'frame: loop {
                let blk = &f.blocks[bi as usize];
                let inst = &blk.insts[ii as usize];
                self.cov[blk.dbg[ii as usize] as usize] = true;
                st.steps += 1;
                if st.steps - n0 > 65536 {
                    self.steps += st.steps - n0;
                    n0 = st.steps;
                    if self.t0.elapsed().as_secs_f64() > self.o.time_s {
                        return End::Trunc("time budget".into());
                    }
                }
                if st.steps > self.o.max_steps {
                    self.steps += st.steps - n0;
                    return End::Viol("hang".into(), "no termination within the step bound".into());
                }
                match self.step(st, inst) {
                    Ok(Flow::Next) => {
                        ii += 1;
                        let t = st.frames.last_mut().unwrap();
                        t.ii = ii;
                        if !st.dec.is_empty() {
                            st.dec.clear();
                        }
                        st.deci = 0;
                    }
                    Ok(Flow::Jump(b)) => {
                        if !st.dec.is_empty() {
                            st.dec.clear();
                        }
                        st.deci = 0;
                        self.jump(st, b);
                        bi = b;
                        ii = 0;
                    }
                    Ok(Flow::Frame) => {
                        st.dec.clear();
                        st.deci = 0;
                        break 'frame;
                    }
                    Err(e) => {
                        self.steps += st.steps - n0;
                        return e;
                    }
                }
            }
        }
    }

    fn inputs_of(&self, st: &State) -> Vec<u64> {
        let mut memo = HashMap::new();
        st.inputs
            .iter()
            .map(|v| match v {
                V::I(n) => *n,
                V::E(e) => self.x.eval(*e, &st.model, &mut memo) as u64,
                _ => 0,
            })
            .collect()
    }

    pub fn run(&mut self, entry: &str) -> Result<(), String> {
        let id = *self.m.fn_ix.get(entry).ok_or(format!("no entry {}", entry))?;
        let f = self.m.func(id, &mut self.x).ok_or("entry has no body")?;
        let mut st = State {
            frames: vec![],
            mem: Mem::new(),
            pc: vec![],
            facts: HashMap::new(),
            ranges: HashMap::new(),
            implied: vec![],
            model: Rc::new(Model::new()),
            dec: vec![],
            deci: 0,
            inputs: vec![],
            vars: vec![],
            obs: vec![],
            covers: vec![],
            steps: 0,
            lp: V::U,
            panicking: 0,
            fault: 0,
            fault_max: 0,
            fault_base: 0,
            fails: 0,
            allocs: 0,
            live: 0,
            live_bytes: 0,
            live_sym: None,
            untracked: HashSet::new(),
            leak_ok: false,
            trace: vec![],
        };
        let _ = self.push_frame(&mut st, f, vec![], false);
        self.work.push(st);
        let mut rng = self.o.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234567;
        while let Some(mut st) = self.work.pop() {
            if self.t0.elapsed().as_secs_f64() > self.o.time_s {
                self.exhausted = false;
                *self.trunc.entry("time budget".into()).or_insert(0) += 1 + self.work.len() as u64;
                break;
            }
            if self.paths >= self.o.max_paths {
                self.exhausted = false;
                *self.trunc.entry("path budget".into()).or_insert(0) += 1 + self.work.len() as u64;
                break;
            }
            let mut end = self.run_path(&mut st);
            if let End::Done = end {
                if !st.leak_ok && st.live != 0 {
                    end = End::Viol("leak".into(), format!("{} heap blocks still allocated after every value was dropped", st.live));
                }
            }
            if let End::Done = end {
                if let Err(e) = self.confirm(&st) {
                    end = e;
                }
            }
            self.pc_max = self.pc_max.max(st.pc.len());
            self.vars_max = self.vars_max.max(st.vars.len());
            match end {
                End::Done => {
                    self.paths += 1;
                    for c in &st.covers {
                        *self.covers.entry(self.cover_ids[*c as usize].clone()).or_insert(0) += 1;
                    }
                    // reservoir sampling of completed paths
                    rng ^= rng << 13;
                    rng ^= rng >> 7;
                    rng ^= rng << 17;
                    let slot = if self.samples.len() < self.o.samples {
                        self.samples.push(Sample { inputs: vec![], obs: vec![] });
                        Some(self.samples.len() - 1)
                    } else {
                        let k = (rng % self.paths) as usize;
                        if k < self.o.samples {
                            Some(k)
                        } else {
                            None
                        }
                    };
                    if let Some(k) = slot {
                        let inputs = self.inputs_of(&st);
                        let mut memo = HashMap::new();
                        let obs = st
                            .obs
                            .iter()
                            .map(|v| match v {
                                V::I(n) => *n,
                                V::E(e) => self.x.eval(*e, &st.model, &mut memo) as u64,
                                _ => 0,
                            })
                            .collect();
                        self.samples[k] = Sample { inputs, obs };
                    }
                }
                End::Infeasible => self.infeasible += 1,
                End::Viol(kind, msg) => {
                    self.paths += 1;
                    self.viol_paths += 1;
                    let (loc, stack) = if st.frames.is_empty() { (String::new(), vec![]) } else { self.loc(&st) };
                    let dup = self.viols.iter().filter(|v| v.kind == kind && v.msg == msg).count();
                    if dup < 2 {
                        let inputs = self.inputs_of(&st);
                        self.viols.push(Violation { kind, msg, loc, inputs, stack });
                    }
                    if self.viols.len() >= self.o.max_viol || self.viol_paths > 200 {
                        self.exhausted = false;
                        *self.trunc.entry("stopped after violations".into()).or_insert(0) += 1;
                        break;
                    }
                }
                End::Err(m) => {
                    self.paths += 1;
                    self.exhausted = false;
                    let (_, stack) = if st.frames.is_empty() { (String::new(), vec![]) } else { self.loc(&st) };
                    let m = format!("{} [{}]", m, stack.iter().take(4).cloned().collect::<Vec<_>>().join(" < "));
                    *self.errors.entry(m).or_insert(0) += 1;
                    if self.errors.values().sum::<u64>() > 50 {
                        break;
                    }
                }
                End::Trunc(m) => {
                    self.paths += 1;
                    self.exhausted = false;
                    *self.trunc.entry(m).or_insert(0) += 1;
                }
            }
        }
        Ok(())
    }
}

/// Readable form of a mangled name (good enough for reports).
pub fn short(n: &str) -> String {
    if let Some(r) = n.strip_prefix("_ZN") {
        let mut out: Vec<String> = vec![];
        let b = r.as_bytes();
        let mut i = 0;
        while i < b.len() && b[i].is_ascii_digit() {
            let mut k = 0usize;
            while i < b.len() && b[i].is_ascii_digit() {
                k = k * 10 + (b[i] - b'0') as usize;
                i += 1;
            }
            if i + k > b.len() {
                break;
            }
            out.push(r[i..i + k].to_string());
            i += k;
        }
        if out.last().map_or(false, |s| s.len() == 17 && s.starts_with('h')) {
            out.pop();
        }
        let s = out.join("::");
        return s
            .replace("$LT$", "<")
            .replace("$GT$", ">")
            .replace("$C$", ",")
            .replace("$RF$", "&")
            .replace("$u20$", " ")
            .replace("$u7b$", "{")
            .replace("$u7d$", "}")
            .replace("$BP$", "*")
            .replace("$LP$", "(")
            .replace("$RP$", ")")
            .replace("$u5b$", "[")
            .replace("$u5d$", "]")
            .replace("..", "::");
    }
    n.to_string()
}

impl Ty {
    pub fn size_of_access(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w + 7) / 8) as u64,
            _ => self.size(),
        }
    }
}
