//! Minimal hand-written binding to libz3 and an incremental solver kept in step with a path condition.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, f: extern "C" fn(P, c_int));
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, r: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_numeral_uint64(c: P, a: P, r: *mut u64) -> bool;
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_ast_to_string(c: P, a: P) -> *const c_char;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
}
extern "C" fn on_error(_c: P, e: c_int) {
    eprintln!("fcsym: z3 error {}", e);
    std::process::exit(3);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

pub type Model = HashMap<u32, u128>;

pub struct Solver {
    c: P,
    s: P,
    bv: HashMap<E, P>,
    bl: HashMap<E, P>,
    stack: Vec<E>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub dump: Option<(String, u64)>,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let k = CString::new("timeout").unwrap();
            let v = CString::new(timeout_ms.to_string()).unwrap();
            Z3_global_param_set(k.as_ptr(), v.as_ptr());
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, on_error);
            let s = Z3_mk_solver(c);
            Z3_solver_inc_ref(c, s);
            Solver { c, s, bv: HashMap::new(), bl: HashMap::new(), stack: vec![], queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, dump: None }
        }
    }
    fn sort(&self, w: u32) -> P {
        unsafe { Z3_mk_bv_sort(self.c, w) }
    }
    fn boolean(&mut self, x: &Ctx, e: E) -> P {
        if let Some(&p) = self.bl.get(&e) {
            return p;
        }
        let n = x.n(e);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if x.as_const(e) == Some(1) {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::And | Op::Or | Op::Xor => {
                    let a = self.boolean(x, n.a);
                    if n.op == Op::Xor && x.as_const(n.b) == Some(1) {
                        Z3_mk_not(c, a)
                    } else {
                        let b = self.boolean(x, n.b);
                        let ar = [a, b];
                        match n.op {
                            Op::And => Z3_mk_and(c, 2, ar.as_ptr()),
                            Op::Or => Z3_mk_or(c, 2, ar.as_ptr()),
                            _ => Z3_mk_xor(c, a, b),
                        }
                    }
                }
                Op::Eq if x.w(n.a) == 1 => {
                    let a = self.boolean(x, n.a);
                    let b = self.boolean(x, n.b);
                    Z3_mk_eq(c, a, b)
                }
                Op::Eq => {
                    let a = self.term(x, n.a);
                    let b = self.term(x, n.b);
                    Z3_mk_eq(c, a, b)
                }
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let a = self.term(x, n.a);
                    let b = self.term(x, n.b);
                    match n.op {
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                Op::Ite => {
                    let a = self.boolean(x, n.a);
                    let b = self.boolean(x, n.b);
                    let d = self.boolean(x, n.c);
                    Z3_mk_ite(c, a, b, d)
                }
                _ => {
                    let t = self.term(x, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, t, one)
                }
            }
        };
        self.bl.insert(e, r);
        r
    }
    fn num(&self, v: u128, w: u32) -> P {
        let s = CString::new(v.to_string()).unwrap();
        unsafe { Z3_mk_numeral(self.c, s.as_ptr(), self.sort(w)) }
    }
    fn term(&mut self, x: &Ctx, e: E) -> P {
        if let Some(&p) = self.bv.get(&e) {
            return p;
        }
        let n = x.n(e);
        let c = self.c;
        let w = n.w as u32;
        let r = unsafe {
            match n.op {
                Op::Const => self.num(x.as_const(e).unwrap(), w),
                Op::Var | Op::Undef => {
                    let nm = CString::new(format!("{}!{}", x.vars[n.a as usize].name, n.a)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), self.sort(w))
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.boolean(x, e);
                    let one = self.num(1, 1);
                    let z = self.num(0, 1);
                    Z3_mk_ite(c, b, one, z)
                }
                Op::Ite => {
                    let p = self.boolean(x, n.a);
                    let a = self.term(x, n.b);
                    let b = self.term(x, n.c);
                    Z3_mk_ite(c, p, a, b)
                }
                Op::Extract => {
                    let a = self.term(x, n.a);
                    Z3_mk_extract(c, n.b + w - 1, n.b, a)
                }
                Op::SExt => {
                    let a = self.term(x, n.a);
                    Z3_mk_sign_ext(c, w - x.w(n.a), a)
                }
                op => {
                    let a = self.term(x, n.a);
                    let b = self.term(x, n.b);
                    match op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.bv.insert(e, r);
        r
    }
    fn sync(&mut self, x: &Ctx, pc: &[E]) {
        let common = self.stack.iter().zip(pc).take_while(|(a, b)| a == b).count();
        unsafe {
            if self.stack.len() > common {
                Z3_solver_pop(self.c, self.s, (self.stack.len() - common) as c_uint);
                self.stack.truncate(common);
            }
            for &e in &pc[common..] {
                let b = self.boolean(x, e);
                Z3_solver_push(self.c, self.s);
                Z3_solver_assert(self.c, self.s, b);
                self.stack.push(e);
            }
        }
    }
    /// Is `pc` together with `extra` satisfiable? On `Sat` the model assigns every variable in `want`.
    pub fn check(&mut self, x: &Ctx, pc: &[E], extra: &[E], want: &[E]) -> (Sat, Option<Model>) {
        let t0 = Instant::now();
        self.sync(x, pc);
        let r;
        let mut model = None;
        unsafe {
            if !extra.is_empty() {
                Z3_solver_push(self.c, self.s);
                for &e in extra {
                    let b = self.boolean(x, e);
                    Z3_solver_assert(self.c, self.s, b);
                }
            }
            r = match Z3_solver_check(self.c, self.s) {
                1 => Sat::Sat,
                -1 => Sat::Unsat,
                _ => Sat::Unknown,
            };
            if let Some((dir, n)) = &mut self.dump {
                if self.queries % 7 == 0 && *n < 200 && r != Sat::Unknown {
                    let txt = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
                    let _ = std::fs::write(
                        format!("{}/q{}_{}.smt2", dir, n, if r == Sat::Sat { "sat" } else { "unsat" }),
                        format!("(set-logic QF_BV)\n{}(check-sat)\n", txt),
                    );
                    *n += 1;
                }
            }
            if r == Sat::Sat {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                let mut mm = Model::new();
                for &v in want {
                    let t = self.term(x, v);
                    let mut out: P = std::ptr::null_mut();
                    if Z3_model_eval(self.c, m, t, true, &mut out) {
                        let mut u = 0u64;
                        let val = if x.w(v) <= 64 && Z3_get_numeral_uint64(self.c, out, &mut u) {
                            u as u128
                        } else {
                            std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.c, out))
                                .to_str()
                                .unwrap()
                                .parse()
                                .unwrap_or(0)
                        };
                        mm.insert(x.n(v).a, val);
                    }
                }
                Z3_model_dec_ref(self.c, m);
                model = Some(mm);
            }
            if !extra.is_empty() {
                Z3_solver_pop(self.c, self.s, 1);
            }
        }
        self.queries += 1;
        match r {
            Sat::Sat => self.sat += 1,
            Sat::Unsat => self.unsat += 1,
            Sat::Unknown => self.unknown += 1,
        }
        self.time += t0.elapsed().as_secs_f64();
        (r, model)
    }
    #[allow(dead_code)]
    pub fn text(&mut self, x: &Ctx, e: E) -> String {
        let b = self.boolean(x, e);
        unsafe { std::ffi::CStr::from_ptr(Z3_ast_to_string(self.c, b)).to_string_lossy().into_owned() }
    }
}
