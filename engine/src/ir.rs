//! Lazy parser for textual LLVM IR (the dialect printed by LLVM 19 .. 23).
use crate::expr::{mask, sx, Ctx, Op, E};
use std::collections::HashMap;
use std::rc::Rc;

/// A runtime value: concrete (<= 64 bits), symbolic, undefined, or an aggregate/vector.
#[derive(Clone, Debug)]
pub enum V {
    I(u64),
    E(E),
    U,
    A(Rc<Vec<V>>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(u32),
    Ptr,
    Float(u32),
    Void,
    Arr(u64, Rc<Ty>),
    Vec(u32, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match (*w + 7) / 8 {
                0 | 1 => 1,
                2 => 2,
                3 | 4 => 4,
                5..=8 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(w) => (*w / 8) as u64,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (t.bits() * *n as u64 / 8).max(1).next_power_of_two(),
            Ty::Struct(_, true) => 1,
            Ty::Struct(f, false) => f.iter().map(|t| t.align()).max().unwrap_or(1),
            _ => 1,
        }
    }
    pub fn bits(&self) -> u64 {
        match self {
            Ty::Int(w) | Ty::Float(w) => *w as u64,
            Ty::Ptr => 64,
            _ => self.size() * 8,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w + 7) / 8) as u64;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w / 8) as u64,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (t.bits() * *n as u64 + 7) / 8,
            Ty::Struct(..) => {
                let (offs, end) = self.layout();
                let _ = offs;
                let a = self.align();
                (end + a - 1) / a * a
            }
            _ => 0,
        }
    }
    /// Field offsets and unpadded end of a struct.
    pub fn layout(&self) -> (Vec<u64>, u64) {
        if let Ty::Struct(f, packed) = self {
            let mut o = 0;
            let mut v = vec![];
            for t in f.iter() {
                if !packed {
                    let a = t.align();
                    o = (o + a - 1) / a * a;
                }
                v.push(o);
                o += t.size();
            }
            (v, o)
        } else {
            (vec![], 0)
        }
    }
    pub fn elems(&self) -> usize {
        match self {
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            Ty::Struct(f, _) => f.len(),
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            Ty::Struct(f, _) => &f[i],
            _ => self,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..))
    }
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    C(V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    Bit,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw {
    Xchg,
    Bin(Op),
    Nand,
    Max,
    Min,
    UMax,
    UMin,
}
#[derive(Clone, Debug)]
pub enum Callee {
    F(u32),
    P(Opnd),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: Op, w: u32, a: Opnd, b: Opnd, dst: u32 },
    ICmp { p: Pred, w: u32, a: Opnd, b: Opnd, dst: u32 },
    Load { ty: Ty, addr: Opnd, align: u32, dst: u32 },
    Store { ty: Ty, val: Opnd, addr: Opnd, align: u32 },
    Gep { base: Opnd, off: i64, terms: Vec<(Opnd, u32, i64)>, dst: u32 },
    Alloca { size: u64, align: u64, dst: u32 },
    Cast { k: CastK, from: Ty, to: Ty, a: Opnd, dst: u32 },
    Select { ty: Ty, c: Opnd, a: Opnd, b: Opnd, dst: u32 },
    Freeze { ty: Ty, a: Opnd, dst: u32 },
    Call { f: Callee, args: Vec<(Ty, Opnd)>, ret: Ty, dst: u32, inv: Option<(u32, u32)> },
    Br(u32),
    CondBr { c: Opnd, t: u32, f: u32 },
    Switch { w: u32, v: Opnd, d: u32, cases: Vec<(u64, u32)> },
    Ret(Option<Opnd>),
    Unreachable,
    Resume(Opnd),
    LandingPad { dst: u32 },
    ExtractValue { a: Opnd, idx: Vec<u32>, dst: u32 },
    InsertValue { ty: Ty, a: Opnd, v: Opnd, idx: Vec<u32>, dst: u32 },
    AtomicRmw { op: Rmw, ty: Ty, addr: Opnd, val: Opnd, dst: u32 },
    CmpXchg { ty: Ty, addr: Opnd, cmp: Opnd, new: Opnd, dst: u32 },
    Fence,
    ExtractElem { a: Opnd, i: Opnd, dst: u32 },
    InsertElem { ty: Ty, a: Opnd, v: Opnd, i: Opnd, dst: u32 },
    Shuffle { n: u32, a: Opnd, b: Opnd, m: Vec<Option<u32>>, dst: u32 },
    Unsup(String),
}

#[derive(Debug)]
pub struct Phi {
    pub dst: u32,
    pub inc: Vec<(u32, Opnd)>,
}
#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
    pub dbg: Vec<u32>,
}
#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub name: String,
    pub nparams: u32,
    pub param_ty: Vec<Ty>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    W(&'static str),
    L(&'static str),
    G(&'static str),
    M(&'static str),
    S(Vec<u8>),
    A(&'static str),
    P(u8),
    Lab(&'static str),
    NL,
    Dots,
}

pub struct FnInfo {
    pub name: &'static str,
    /// byte range of the text from `define` to the closing brace; `None` for a declaration
    pub body: Option<(usize, usize)>,
    pub parsed: Option<Rc<Func>>,
    pub dbg: u32,
}
pub struct GlobInfo {
    pub name: &'static str,
    pub line: (usize, usize),
    pub addr: u64,
    pub constant: bool,
    pub external: bool,
}

pub const FN_BASE: u64 = 0x0010_0000_0000;
pub const GLOB_BASE: u64 = 0x3000_0000_0000;
pub const SLOT: u64 = 1 << 24;

pub struct Module {
    pub text: &'static str,
    pub fns: Vec<FnInfo>,
    pub fn_ix: HashMap<&'static str, u32>,
    pub globs: Vec<GlobInfo>,
    glob_ix: HashMap<&'static str, u32>,
    alias: HashMap<&'static str, (usize, usize)>,
    types: HashMap<&'static str, (usize, usize)>,
    pub meta: HashMap<u32, (usize, usize)>,
}

fn ident_end(b: &[u8], mut i: usize) -> usize {
    while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'_' | b'.' | b'$' | b'-')) {
        i += 1;
    }
    i
}

/// name following a sigil at `i` (after the sigil); returns (name, end)
fn name_at(t: &'static str, i: usize) -> (&'static str, usize) {
    let b = t.as_bytes();
    if i < b.len() && b[i] == b'"' {
        let mut j = i + 1;
        while b[j] != b'"' {
            j += 1;
        }
        (&t[i + 1..j], j + 1)
    } else {
        let j = ident_end(b, i);
        (&t[i..j], j)
    }
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && i + 2 <= b.len() - 1 {
            if b[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
                continue;
            }
            let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
            if let Ok(x) = u8::from_str_radix(h, 16) {
                v.push(x);
                i += 3;
                continue;
            }
        }
        v.push(b[i]);
        i += 1;
    }
    v
}

pub fn lex(t: &'static str, start: usize, end: usize) -> Vec<Tok> {
    let b = t.as_bytes();
    let mut i = start;
    let mut out = vec![];
    while i < end {
        let c = b[i];
        match c {
            b'\n' => {
                if out.last() != Some(&Tok::NL) {
                    out.push(Tok::NL);
                }
                i += 1;
            }
            b' ' | b'\t' | b'\r' => i += 1,
            b';' => {
                while i < end && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' => {
                let (n, j) = name_at(t, i + 1);
                out.push(Tok::L(n));
                i = j;
            }
            b'@' => {
                let (n, j) = name_at(t, i + 1);
                out.push(Tok::G(n));
                i = j;
            }
            b'!' => {
                if b[i + 1] == b'"' {
                    let (_, j) = name_at(t, i + 1);
                    out.push(Tok::M(""));
                    i = j;
                } else {
                    let (n, j) = name_at(t, i + 1);
                    out.push(Tok::M(n));
                    i = j;
                }
            }
            b'#' => {
                let (n, j) = name_at(t, i + 1);
                if n.starts_with("dbg_") {
                    // debug record: ignore the line
                    i = j;
                    while i < end && b[i] != b'\n' {
                        i += 1;
                    }
                } else {
                    out.push(Tok::A(n));
                    i = j;
                }
            }
            b'"' => {
                let (n, j) = name_at(t, i);
                if j < end && b[j] == b':' {
                    out.push(Tok::Lab(n));
                    i = j + 1;
                } else {
                    out.push(Tok::S(unescape(n)));
                    i = j;
                }
            }
            b'c' if b[i + 1] == b'"' => {
                let (n, j) = name_at(t, i + 1);
                out.push(Tok::W("c"));
                out.push(Tok::S(unescape(n)));
                i = j;
            }
            b'.' if b[i + 1] == b'.' => {
                out.push(Tok::Dots);
                i += 3;
            }
            _ if c.is_ascii_alphanumeric() || c == b'_' || c == b'-' || c == b'.' || c == b'$' => {
                let mut j = ident_end(b, i);
                if j < end && b[j] == b'+' && b[i].is_ascii_digit() || (j < end && b[j] == b'+' && c == b'-') {
                    // float exponent
                    j = ident_end(b, j + 1);
                }
                let w = &t[i..j];
                if j < end && b[j] == b':' {
                    out.push(Tok::Lab(w));
                    i = j + 1;
                } else {
                    out.push(Tok::W(w));
                    i = j;
                }
            }
            _ => {
                out.push(Tok::P(c));
                i += 1;
            }
        }
    }
    out.push(Tok::NL);
    out
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(
            String::from_utf8_lossy(&std::fs::read(path).unwrap_or_else(|e| {
                eprintln!("fcsym: {}: {}", path, e);
                std::process::exit(3)
            }))
            .into_owned()
            .into_boxed_str(),
        );
        let mut m = Module {
            text,
            fns: vec![],
            fn_ix: HashMap::new(),
            globs: vec![],
            glob_ix: HashMap::new(),
            alias: HashMap::new(),
            types: HashMap::new(),
            meta: HashMap::new(),
        };
        let b = text.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let e = text[i..].find('\n').map(|x| i + x).unwrap_or(b.len());
            let line = &text[i..e];
            let mut next = e + 1;
            if line.starts_with("define ") {
                let at = line.find('@').unwrap();
                let (n, _) = name_at(text, i + at + 1);
                let close = text[e..].find("\n}").map(|x| e + x).unwrap();
                let dbg = line.rfind("!dbg !").map_or(0, |p| {
                    line[p + 6..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0)
                });
                m.add_fn(n, Some((i, close)), dbg);
                next = close + 3;
            } else if line.starts_with("declare ") {
                let at = line.find('@').unwrap();
                let (n, _) = name_at(text, i + at + 1);
                m.add_fn(n, None, 0);
            } else if line.starts_with('@') {
                let (n, j) = name_at(text, i + 1);
                let rest = &text[j..e];
                let words: Vec<&str> = rest.split_whitespace().take(14).collect();
                if words.contains(&"alias") {
                    m.alias.insert(n, (j, e));
                } else {
                    let ix = m.globs.len() as u32;
                    let k = words.iter().position(|w| *w == "global" || *w == "constant");
                    m.globs.push(GlobInfo {
                        name: n,
                        line: (j, e),
                        addr: GLOB_BASE + ix as u64 * SLOT,
                        constant: k.map_or(false, |k| words[k] == "constant"),
                        external: words.iter().any(|w| *w == "external" || *w == "extern_weak"),
                    });
                    m.glob_ix.insert(n, ix);
                }
            } else if line.starts_with('!') {
                if let Some(eq) = line.find(" = ") {
                    if let Ok(n) = line[1..eq].parse::<u32>() {
                        m.meta.insert(n, (i + eq + 3, e));
                    }
                }
            } else if line.starts_with('%') {
                let (n, j) = name_at(text, i + 1);
                m.types.insert(n, (j, e));
            }
            i = next;
        }
        m
    }
    fn add_fn(&mut self, n: &'static str, body: Option<(usize, usize)>, dbg: u32) {
        let ix = self.fns.len() as u32;
        self.fns.push(FnInfo { name: n, body, parsed: None, dbg });
        self.fn_ix.insert(n, ix);
    }
    pub fn fn_at(&self, addr: u64) -> Option<u32> {
        if addr >= FN_BASE && (addr - FN_BASE) % 64 == 0 && (addr - FN_BASE) / 64 < self.fns.len() as u64 {
            Some(((addr - FN_BASE) / 64) as u32)
        } else {
            None
        }
    }
    fn sym(&mut self, n: &'static str, x: &mut Ctx) -> u64 {
        if let Some(&i) = self.fn_ix.get(n) {
            return FN_BASE + i as u64 * 64;
        }
        if let Some(&i) = self.glob_ix.get(n) {
            return self.globs[i as usize].addr;
        }
        if let Some(&(s, e)) = self.alias.get(n) {
            let toks = lex(self.text, s, e);
            let p = toks.iter().rposition(|t| matches!(t, Tok::G(_))).unwrap();
            if let Tok::G(t) = toks[p] {
                return self.sym(t, x);
            }
        }
        // unknown symbol: a fresh declaration
        self.add_fn(n, None, 0);
        self.sym(n, x)
    }
    pub fn func(&mut self, id: u32, x: &mut Ctx) -> Option<Rc<Func>> {
        if let Some(f) = &self.fns[id as usize].parsed {
            return Some(f.clone());
        }
        let (s, e) = self.fns[id as usize].body?;
        let toks = lex(self.text, s, e);
        let name = self.fns[id as usize].name.to_string();
        let mut p = Parser { m: self, x, t: toks, i: 0, regs: HashMap::new(), labs: HashMap::new() };
        let f = Rc::new(p.function(id, name));
        self.fns[id as usize].parsed = Some(f.clone());
        Some(f)
    }
    /// Type and initial value of a global.
    pub fn global_init(&mut self, ix: u32, x: &mut Ctx) -> (Ty, Option<V>, u64) {
        let (s, e) = self.globs[ix as usize].line;
        let toks = lex(self.text, s, e);
        let ext = self.globs[ix as usize].external;
        let mut p = Parser { m: self, x, t: toks, i: 0, regs: HashMap::new(), labs: HashMap::new() };
        loop {
            match p.next() {
                Tok::W("global") | Tok::W("constant") => break,
                Tok::NL => panic!("bad global"),
                _ => {}
            }
        }
        let ty = p.ty();
        let v = if ext { None } else { Some(p.cst(&ty)) };
        let mut align = ty.align();
        while p.i + 1 < p.t.len() {
            if p.t[p.i] == Tok::W("align") {
                if let Tok::W(n) = p.t[p.i + 1] {
                    align = n.parse().unwrap();
                }
            }
            p.i += 1;
        }
        (ty, v, align)
    }
    // ---- debug info -------------------------------------------------------
    fn mtext(&self, id: u32) -> &'static str {
        self.meta.get(&id).map_or("", |&(s, e)| &self.text[s..e])
    }
    fn mfield(t: &str, k: &str) -> Option<u32> {
        let pat = format!("{}: !", k);
        let mut from = 0;
        while let Some(p) = t[from..].find(&pat) {
            let p = from + p;
            if p == 0 || matches!(t.as_bytes()[p - 1], b'(' | b' ') {
                return t[p + pat.len()..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok();
            }
            from = p + 1;
        }
        None
    }
    fn mnum(t: &str, k: &str) -> u32 {
        t.find(&format!("{}: ", k))
            .map_or(0, |p| t[p + k.len() + 2..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0))
    }
    fn mstr(t: &str, k: &str) -> String {
        t.find(&format!("{}: \"", k)).map_or(String::new(), |p| {
            let r = &t[p + k.len() + 3..];
            r[..r.find('"').unwrap_or(0)].to_string()
        })
    }
    /// (linkage name, file) of the subprogram enclosing a scope, and the source file of the scope itself
    fn scope_fn(&self, mut s: u32) -> (u32, String) {
        loop {
            let t = self.mtext(s);
            if t.contains("DISubprogram(") {
                let file = Self::mfield(t, "file").map(|f| Self::mstr(self.mtext(f), "filename")).unwrap_or_default();
                return (s, file);
            }
            match Self::mfield(t, "scope") {
                Some(n) if n != s => s = n,
                _ => return (s, String::new()),
            }
        }
    }
    /// Walk a location and its inlining chain: (subprogram, function name, file, line)
    pub fn loc_chain(&self, mut loc: u32) -> Vec<(u32, String, String, u32)> {
        let mut v = vec![];
        for _ in 0..200 {
            let t = self.mtext(loc);
            if !t.contains("DILocation(") {
                break;
            }
            let line = Self::mnum(t, "line");
            if let Some(sc) = Self::mfield(t, "scope") {
                let (sp, file) = self.scope_fn(sc);
                let st = self.mtext(sp);
                let mut nm = Self::mstr(st, "linkageName");
                if nm.is_empty() {
                    nm = Self::mstr(st, "name");
                }
                v.push((sp, nm, file, line));
            }
            match Self::mfield(t, "inlinedAt") {
                Some(n) => loc = n,
                None => break,
            }
        }
        v
    }
}

struct Parser<'a> {
    m: &'a mut Module,
    x: &'a mut Ctx,
    t: Vec<Tok>,
    i: usize,
    regs: HashMap<&'static str, u32>,
    labs: HashMap<&'static str, u32>,
}

impl<'a> Parser<'a> {
    fn peek(&self) -> &Tok {
        &self.t[self.i.min(self.t.len() - 1)]
    }
    fn next(&mut self) -> Tok {
        let t = self.t[self.i.min(self.t.len() - 1)].clone();
        self.i += 1;
        t
    }
    fn is_p(&self, c: u8) -> bool {
        *self.peek() == Tok::P(c)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            self.fail(&format!("expected '{}'", c as char));
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if let Tok::W(x) = self.peek() {
            if *x == w {
                self.i += 1;
                return true;
            }
        }
        false
    }
    fn fail(&self, why: &str) -> ! {
        let lo = self.i.saturating_sub(14);
        let hi = (self.i + 6).min(self.t.len());
        panic!("IR parse error: {} near {:?}", why, &self.t[lo..hi]);
    }
    fn reg(&mut self, n: &'static str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn lab(&mut self, n: &'static str) -> u32 {
        let k = self.labs.len() as u32;
        *self.labs.entry(n).or_insert(k)
    }
    fn is_ty(t: &Tok) -> bool {
        match t {
            Tok::W(w) => {
                matches!(*w, "ptr" | "void" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "label" | "metadata" | "token" | "bfloat")
                    || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') | Tok::L(_) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> Ty {
        match self.next() {
            Tok::W(w) => match w {
                "ptr" => {
                    if self.eat_w("addrspace") {
                        self.parens();
                    }
                    Ty::Ptr
                }
                "void" => Ty::Void,
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "half" | "bfloat" => Ty::Float(16),
                "fp128" => Ty::Float(128),
                "x86_fp80" => Ty::Float(80),
                "label" | "metadata" | "token" => Ty::Other,
                "opaque" => Ty::Other,
                _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| self.fail("type"))),
                _ => self.fail("type"),
            },
            Tok::L(n) => {
                let (s, e) = *self.m.types.get(n).unwrap_or_else(|| self.fail("named type"));
                let toks = lex(self.m.text, s, e);
                let mut p = Parser { m: self.m, x: self.x, t: toks, i: 0, regs: HashMap::new(), labs: HashMap::new() };
                p.expect(b'=');
                p.eat_w("type");
                p.ty()
            }
            Tok::P(b'[') => {
                let n = self.int() as u64;
                self.eat_w("x");
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P(b'{') => self.struct_ty(false),
            Tok::P(b'<') => {
                if self.eat(b'{') {
                    let t = self.struct_ty(true);
                    self.expect(b'>');
                    t
                } else {
                    let n = self.int() as u32;
                    self.eat_w("x");
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            _ => {
                self.i -= 1;
                self.fail("type")
            }
        }
    }
    fn struct_ty(&mut self, packed: bool) -> Ty {
        let mut f = vec![];
        while !self.eat(b'}') {
            f.push(self.ty());
            self.eat(b',');
        }
        Ty::Struct(Rc::new(f), packed)
    }
    fn int(&mut self) -> i128 {
        match self.next() {
            Tok::W(w) => w.parse().unwrap_or_else(|_| {
                // i128 unsigned range is printed signed; anything else is an error
                self.fail("integer")
            }),
            _ => self.fail("integer"),
        }
    }
    /// skip a balanced parenthesised group (the opening one is next)
    fn parens(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::NL => self.fail("unbalanced"),
                _ => {}
            }
        }
    }
    fn undef(&mut self) -> V {
        V::U
    }
    fn zero(&mut self, t: &Ty) -> V {
        match t {
            Ty::Int(w) if *w > 64 => V::E(self.x.cst(0, *w)),
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => {
                let v: Vec<V> = (0..t.elems()).map(|i| self.zero(t.elem(i))).collect();
                V::A(Rc::new(v))
            }
            _ => V::I(0),
        }
    }
    fn list(&mut self, close: u8) -> V {
        let mut v = vec![];
        while !self.eat(close) {
            let t = self.ty();
            v.push(self.cst(&t));
            self.eat(b',');
        }
        V::A(Rc::new(v))
    }
    /// constant of type `t`
    fn cst(&mut self, t: &Ty) -> V {
        match self.next() {
            Tok::G(n) => V::I(self.m.sym(n, self.x)),
            Tok::P(b'{') => self.list(b'}'),
            Tok::P(b'[') => self.list(b']'),
            Tok::P(b'<') => {
                if self.eat(b'{') {
                    let v = self.list(b'}');
                    self.expect(b'>');
                    v
                } else {
                    self.list(b'>')
                }
            }
            Tok::W("c") => {
                if let Tok::S(s) = self.next() {
                    V::A(Rc::new(s.into_iter().map(|c| V::I(c as u64)).collect()))
                } else {
                    self.fail("string")
                }
            }
            Tok::W(w) => match w {
                "true" => V::I(1),
                "false" | "null" | "none" => V::I(0),
                "undef" | "poison" => self.undef(),
                "zeroinitializer" => self.zero(t),
                "splat" => {
                    self.expect(b'(');
                    let et = self.ty();
                    let v = self.cst(&et);
                    self.expect(b')');
                    V::A(Rc::new(vec![v; t.elems()]))
                }
                "getelementptr" => {
                    while let Tok::W(_) = self.peek() {
                        if Self::is_ty(self.peek()) {
                            break;
                        }
                        self.i += 1;
                        if self.is_p(b'(') && matches!(self.t[self.i - 1], Tok::W("inrange")) {
                            self.parens();
                        }
                    }
                    self.expect(b'(');
                    let et = self.ty();
                    self.expect(b',');
                    let pt = self.ty();
                    let base = self.cst(&pt);
                    let mut idx = vec![];
                    while self.eat(b',') {
                        self.eat_w("inrange");
                        let it = self.ty();
                        let v = self.cst(&it);
                        if let (V::I(v), Ty::Int(w)) = (&v, &it) {
                            idx.push(sx(*v as u128, *w) as i64);
                        } else {
                            self.fail("gep index");
                        }
                    }
                    self.expect(b')');
                    let mut off = 0i64;
                    let mut cur = et.clone();
                    for (k, i) in idx.iter().enumerate() {
                        if k == 0 {
                            off += i * et.size() as i64;
                        } else if let Ty::Struct(..) = cur {
                            off += cur.layout().0[*i as usize] as i64;
                            cur = cur.elem(*i as usize).clone();
                        } else {
                            cur = cur.elem(0).clone();
                            off += i * cur.size() as i64;
                        }
                    }
                    match base {
                        V::I(b) => V::I(b.wrapping_add(off as u64)),
                        v => v,
                    }
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" | "zext" | "ptrtoaddr" => {
                    self.expect(b'(');
                    let ft = self.ty();
                    let v = self.cst(&ft);
                    self.eat_w("to");
                    let tt = self.ty();
                    self.expect(b')');
                    match v {
                        V::I(b) => V::I(b & mask(tt.bits().min(64) as u32) as u64),
                        v => v,
                    }
                }
                "add" | "sub" | "xor" | "mul" | "and" | "or" | "shl" => {
                    while let Tok::W(_) = self.peek() {
                        self.i += 1;
                    }
                    self.expect(b'(');
                    let t1 = self.ty();
                    let a = self.cst(&t1);
                    self.expect(b',');
                    let t2 = self.ty();
                    let b = self.cst(&t2);
                    self.expect(b')');
                    match (a, b) {
                        (V::I(a), V::I(b)) => {
                            let r = match w {
                                "add" => a.wrapping_add(b),
                                "sub" => a.wrapping_sub(b),
                                "mul" => a.wrapping_mul(b),
                                "xor" => a ^ b,
                                "and" => a & b,
                                "or" => a | b,
                                _ => a << b,
                            };
                            V::I(r & mask(t1.bits() as u32) as u64)
                        }
                        _ => V::U,
                    }
                }
                "dso_local_equivalent" | "no_cfi" => self.cst(t),
                _ => {
                    if let Ty::Float(fw) = t {
                        let bits = if let Some(h) = w.strip_prefix("0x") {
                            u64::from_str_radix(h.trim_start_matches(|c: char| !c.is_ascii_hexdigit()), 16).unwrap_or(0)
                        } else {
                            w.parse::<f64>().unwrap_or(0.0).to_bits()
                        };
                        return V::I(if *fw == 32 { (f64::from_bits(bits) as f32).to_bits() as u64 } else { bits });
                    }
                    let wd = t.bits() as u32;
                    match w.parse::<i128>() {
                        Ok(n) => {
                            let n = (n as u128) & mask(wd);
                            if wd > 64 {
                                V::E(self.x.cst(n, wd))
                            } else {
                                V::I(n as u64)
                            }
                        }
                        Err(_) => {
                            if let Ok(n) = w.parse::<u128>() {
                                V::E(self.x.cst(n, wd))
                            } else {
                                self.fail("constant")
                            }
                        }
                    }
                }
            },
            _ => {
                self.i -= 1;
                self.fail("constant")
            }
        }
    }
    fn opnd(&mut self, t: &Ty) -> Opnd {
        if let Tok::L(n) = *self.peek() {
            self.i += 1;
            return Opnd::R(self.reg(n));
        }
        Opnd::C(self.cst(t))
    }
    fn tv(&mut self) -> (Ty, Opnd) {
        let t = self.ty();
        let o = self.opnd(&t);
        (t, o)
    }
    fn label(&mut self) -> u32 {
        self.eat_w("label");
        if let Tok::L(n) = self.next() {
            self.lab(n)
        } else {
            self.fail("label")
        }
    }
    fn skip_line(&mut self) -> (u32, u32) {
        // returns (dbg, align) found in the trailing part
        let mut dbg = 0;
        let mut align = 0;
        loop {
            match self.next() {
                Tok::NL => return (dbg, align),
                Tok::M("dbg") => {
                    if let Tok::M(n) = *self.peek() {
                        dbg = n.parse().unwrap_or(0);
                    }
                }
                Tok::W("align") => {
                    if let Tok::W(n) = *self.peek() {
                        align = n.parse().unwrap_or(0);
                    }
                }
                _ => {}
            }
        }
    }
    fn function(&mut self, id: u32, name: String) -> Func {
        // header
        loop {
            match self.next() {
                Tok::G(_) => break,
                Tok::P(b'(') => {
                    self.i -= 1;
                    self.parens();
                }
                _ => {}
            }
        }
        self.expect(b'(');
        let mut nparams = 0;
        let mut param_ty = vec![];
        let mut anon = 0;
        while !self.eat(b')') {
            if let Tok::Dots = self.peek() {
                self.i += 1;
                continue;
            }
            param_ty.push(self.ty());
            let mut named = None;
            loop {
                match self.peek().clone() {
                    Tok::P(b',') | Tok::P(b')') => break,
                    Tok::P(b'(') => self.parens(),
                    Tok::L(n) => {
                        named = Some(n);
                        self.i += 1;
                    }
                    _ => self.i += 1,
                }
            }
            let n = match named {
                Some(n) => {
                    if n.bytes().all(|c| c.is_ascii_digit()) {
                        anon += 1;
                    }
                    n
                }
                None => {
                    anon += 1;
                    Box::leak((anon - 1).to_string().into_boxed_str())
                }
            };
            let r = self.reg(n);
            assert_eq!(r, nparams);
            nparams += 1;
            self.eat(b',');
        }
        while *self.peek() != Tok::NL {
            self.i += 1;
        }
        // Blocks
        let mut blocks: HashMap<u32, Block> = HashMap::new();
        let mut cur: Option<u32> = None;
        let mut blk = Block::default();
        let n = self.t.len();
        let mut order = 0;
        while self.i < n {
            match self.peek().clone() {
                Tok::NL => {
                    self.i += 1;
                }
                Tok::Lab(l) => {
                    self.i += 1;
                    if let Some(c) = cur {
                        blocks.insert(c, std::mem::take(&mut blk));
                    }
                    let k = self.lab(l);
                    if order == 0 {
                        assert_eq!(k, 0);
                    }
                    order += 1;
                    cur = Some(k);
                }
                Tok::P(b'}') => break,
                _ => {
                    if cur.is_none() {
                        // unnamed entry block: its number follows the parameters
                        let l: &'static str = Box::leak(anon.to_string().into_boxed_str());
                        cur = Some(self.lab(l));
                        order += 1;
                    }
                    self.inst(&mut blk);
                }
            }
        }
        if let Some(c) = cur {
            blocks.insert(c, blk);
        }
        let nb = self.labs.len();
        let mut v = Vec::with_capacity(nb);
        for i in 0..nb {
            v.push(blocks.remove(&(i as u32)).unwrap_or_else(|| panic!("missing block in {}", name)));
        }
        Func { id, name, nparams, param_ty, nregs: self.regs.len() as u32, blocks: v }
    }
    fn flags(&mut self) {
        while let Tok::W(w) = self.peek() {
            match *w {
                "nuw" | "nsw" | "exact" | "inbounds" | "nusw" | "disjoint" | "nneg" | "samesign" | "volatile" | "atomic" | "fast"
                | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "weak" => self.i += 1,
                "inrange" => {
                    self.i += 1;
                    self.parens();
                }
                _ => break,
            }
        }
    }
    fn inst(&mut self, blk: &mut Block) {
        let start = self.i;
        let mut dst = u32::MAX;
        if let Tok::L(n) = *self.peek() {
            if self.t[self.i + 1] == Tok::P(b'=') {
                dst = self.reg(n);
                self.i += 2;
            }
        }
        let op = match self.next() {
            Tok::W(w) => w,
            _ => {
                self.i -= 1;
                self.fail("instruction")
            }
        };
        let mut dbg = None;
        let bin = |o: &str| -> Option<Op> {
            Some(match o {
                "add" => Op::Add,
                "sub" => Op::Sub,
                "mul" => Op::Mul,
                "udiv" => Op::UDiv,
                "sdiv" => Op::SDiv,
                "urem" => Op::URem,
                "srem" => Op::SRem,
                "and" => Op::And,
                "or" => Op::Or,
                "xor" => Op::Xor,
                "shl" => Op::Shl,
                "lshr" => Op::LShr,
                "ashr" => Op::AShr,
                _ => return None,
            })
        };
        let ins = match op {
            _ if bin(op).is_some() => {
                self.flags();
                let (t, a) = self.tv();
                self.expect(b',');
                let b = self.opnd(&t);
                let w = if let Ty::Vec(_, e) = &t { e.bits() } else { t.bits() } as u32;
                Inst::Bin { op: bin(op).unwrap(), w, a, b, dst }
            }
            "icmp" => {
                self.flags();
                let p = match self.next() {
                    Tok::W("eq") => Pred::Eq,
                    Tok::W("ne") => Pred::Ne,
                    Tok::W("ult") => Pred::Ult,
                    Tok::W("ule") => Pred::Ule,
                    Tok::W("ugt") => Pred::Ugt,
                    Tok::W("uge") => Pred::Uge,
                    Tok::W("slt") => Pred::Slt,
                    Tok::W("sle") => Pred::Sle,
                    Tok::W("sgt") => Pred::Sgt,
                    Tok::W("sge") => Pred::Sge,
                    _ => self.fail("icmp"),
                };
                let (t, a) = self.tv();
                self.expect(b',');
                let b = self.opnd(&t);
                let w = if let Ty::Vec(_, e) = &t { e.bits() } else { t.bits() } as u32;
                Inst::ICmp { p, w, a, b, dst }
            }
            "load" => {
                self.flags();
                let ty = self.ty();
                self.expect(b',');
                let (_, addr) = self.tv();
                let (d, al) = self.skip_line();
                dbg = Some(d);
                Inst::Load { ty, addr, align: al.max(1), dst }
            }
            "store" => {
                self.flags();
                let (ty, val) = self.tv();
                self.expect(b',');
                let (_, addr) = self.tv();
                let (d, al) = self.skip_line();
                dbg = Some(d);
                Inst::Store { ty, val, addr, align: al.max(1) }
            }
            "getelementptr" => {
                self.flags();
                let et = self.ty();
                self.expect(b',');
                let (bt, base) = self.tv();
                if let Ty::Vec(..) = bt {
                    Inst::Unsup("vector gep".into())
                } else {
                    let mut off = 0i64;
                    let mut terms = vec![];
                    let mut cur = et.clone();
                    let mut k = 0;
                    while self.is_p(b',') {
                        if let Tok::M(_) = self.t[self.i + 1] {
                            break;
                        }
                        self.i += 1;
                        let (it, iv) = self.tv();
                        let iw = it.bits() as u32;
                        let scale;
                        if k == 0 {
                            scale = et.size() as i64;
                        } else if let Ty::Struct(..) = cur {
                            if let Opnd::C(V::I(n)) = iv {
                                off += cur.layout().0[n as usize] as i64;
                                cur = cur.elem(n as usize).clone();
                                k += 1;
                                continue;
                            } else {
                                self.fail("struct gep")
                            }
                        } else {
                            cur = cur.elem(0).clone();
                            scale = cur.size() as i64;
                        }
                        match iv {
                            Opnd::C(V::I(n)) => off = off.wrapping_add((sx(n as u128, iw) as i64).wrapping_mul(scale)),
                            o => terms.push((o, iw, scale)),
                        }
                        k += 1;
                    }
                    Inst::Gep { base, off, terms, dst }
                }
            }
            "alloca" => {
                self.eat_w("inalloca");
                let ty = self.ty();
                let mut count = 1u64;
                if self.is_p(b',') {
                    if Self::is_ty(&self.t[self.i + 1]) {
                        self.i += 1;
                        let (_, c) = self.tv();
                        if let Opnd::C(V::I(n)) = c {
                            count = n;
                        } else {
                            count = u64::MAX;
                        }
                    }
                }
                let (d, al) = self.skip_line();
                dbg = Some(d);
                if count == u64::MAX {
                    Inst::Unsup("dynamic alloca".into())
                } else {
                    Inst::Alloca { size: ty.size() * count, align: (al as u64).max(ty.align()), dst }
                }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                self.flags();
                let (from, a) = self.tv();
                self.eat_w("to");
                let to = self.ty();
                let k = match op {
                    "trunc" => CastK::Trunc,
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    "bitcast" | "addrspacecast" => CastK::Bit,
                    _ => {
                        if from.bits() > to.bits() {
                            CastK::Trunc
                        } else {
                            CastK::ZExt
                        }
                    }
                };
                Inst::Cast { k, from, to, a, dst }
            }
            "select" => {
                self.flags();
                let (_, c) = self.tv();
                self.expect(b',');
                let (ty, a) = self.tv();
                self.expect(b',');
                let (_, b) = self.tv();
                Inst::Select { ty, c, a, b, dst }
            }
            "freeze" => {
                let (ty, a) = self.tv();
                Inst::Freeze { ty, a, dst }
            }
            "phi" => {
                self.flags();
                let t = self.ty();
                let mut inc = vec![];
                while self.eat(b'[') {
                    let v = self.opnd(&t);
                    self.expect(b',');
                    let l = self.label();
                    self.expect(b']');
                    inc.push((l, v));
                    if self.is_p(b',') && self.t[self.i + 1] == Tok::P(b'[') {
                        self.i += 1;
                    }
                }
                self.skip_line();
                blk.phis.push(Phi { dst, inc });
                return;
            }
            "br" => {
                if self.eat_w("label") {
                    Inst::Br(self.label())
                } else {
                    let (_, c) = self.tv();
                    self.expect(b',');
                    let t = self.label();
                    self.expect(b',');
                    let f = self.label();
                    Inst::CondBr { c, t, f }
                }
            }
            "switch" => {
                let (t, v) = self.tv();
                self.expect(b',');
                let d = self.label();
                self.expect(b'[');
                let mut cases = vec![];
                loop {
                    match self.peek() {
                        Tok::NL => self.i += 1,
                        Tok::P(b']') => {
                            self.i += 1;
                            break;
                        }
                        _ => {
                            let (_, c) = self.tv();
                            self.expect(b',');
                            let l = self.label();
                            match c {
                                Opnd::C(V::I(n)) => cases.push((n, l)),
                                _ => self.fail("switch case"),
                            }
                        }
                    }
                }
                Inst::Switch { w: t.bits() as u32, v, d, cases }
            }
            "ret" => {
                if self.eat_w("void") {
                    Inst::Ret(None)
                } else {
                    let (_, v) = self.tv();
                    Inst::Ret(Some(v))
                }
            }
            "unreachable" => Inst::Unreachable,
            "resume" => {
                let (_, v) = self.tv();
                Inst::Resume(v)
            }
            "landingpad" => {
                self.ty();
                let (d, _) = self.skip_line();
                dbg = Some(d);
                loop {
                    match self.peek() {
                        Tok::W("cleanup") | Tok::W("catch") | Tok::W("filter") => {
                            let (d2, _) = self.skip_line();
                            if d2 != 0 {
                                dbg = Some(d2);
                            }
                        }
                        _ => break,
                    }
                }
                Inst::LandingPad { dst }
            }
            "extractvalue" => {
                let (_, a) = self.tv();
                let idx = self.idxs();
                Inst::ExtractValue { a, idx, dst }
            }
            "insertvalue" => {
                let (ty, a) = self.tv();
                self.expect(b',');
                let (_, v) = self.tv();
                let idx = self.idxs();
                Inst::InsertValue { ty, a, v, idx, dst }
            }
            "atomicrmw" => {
                self.flags();
                let op = match self.next() {
                    Tok::W("xchg") => Some(Rmw::Xchg),
                    Tok::W("add") => Some(Rmw::Bin(Op::Add)),
                    Tok::W("sub") => Some(Rmw::Bin(Op::Sub)),
                    Tok::W("and") => Some(Rmw::Bin(Op::And)),
                    Tok::W("or") => Some(Rmw::Bin(Op::Or)),
                    Tok::W("xor") => Some(Rmw::Bin(Op::Xor)),
                    Tok::W("nand") => Some(Rmw::Nand),
                    Tok::W("max") => Some(Rmw::Max),
                    Tok::W("min") => Some(Rmw::Min),
                    Tok::W("umax") => Some(Rmw::UMax),
                    Tok::W("umin") => Some(Rmw::UMin),
                    _ => None,
                };
                let (_, addr) = self.tv();
                self.expect(b',');
                let (ty, val) = self.tv();
                match op {
                    Some(op) => Inst::AtomicRmw { op, ty, addr, val, dst },
                    None => Inst::Unsup("atomicrmw".into()),
                }
            }
            "cmpxchg" => {
                self.flags();
                let (_, addr) = self.tv();
                self.expect(b',');
                let (ty, cmp) = self.tv();
                self.expect(b',');
                let (_, new) = self.tv();
                Inst::CmpXchg { ty, addr, cmp, new, dst }
            }
            "fence" => Inst::Fence,
            "extractelement" => {
                let (_, a) = self.tv();
                self.expect(b',');
                let (_, i) = self.tv();
                Inst::ExtractElem { a, i, dst }
            }
            "insertelement" => {
                let (ty, a) = self.tv();
                self.expect(b',');
                let (_, v) = self.tv();
                self.expect(b',');
                let (_, i) = self.tv();
                Inst::InsertElem { ty, a, v, i, dst }
            }
            "shufflevector" => {
                let (ty, a) = self.tv();
                self.expect(b',');
                let (_, b) = self.tv();
                self.expect(b',');
                let (_, mk) = self.tv();
                let m = match mk {
                    Opnd::C(V::A(v)) => v.iter().map(|x| if let V::I(n) = x { Some(*n as u32) } else { None }).collect(),
                    _ => vec![],
                };
                Inst::Shuffle { n: ty.elems() as u32, a, b, m, dst }
            }
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                if matches!(op, "tail" | "musttail" | "notail") {
                    self.eat_w("call");
                }
                // calling convention, return attributes
                loop {
                    if Self::is_ty(self.peek()) {
                        break;
                    }
                    match self.next() {
                        Tok::W("align") | Tok::W("cc") => {
                            self.i += 1;
                        }
                        Tok::W(_) | Tok::A(_) => {
                            if self.is_p(b'(') {
                                self.parens();
                            }
                        }
                        _ => self.fail("call"),
                    }
                }
                let ret = self.ty();
                if self.is_p(b'(') {
                    self.parens();
                }
                let f = match self.peek().clone() {
                    Tok::G(n) => {
                        self.i += 1;
                        let a = self.m.sym(n, self.x);
                        match self.m.fn_at(a) {
                            Some(id) => Callee::F(id),
                            None => Callee::P(Opnd::C(V::I(a))),
                        }
                    }
                    Tok::L(n) => {
                        self.i += 1;
                        Callee::P(Opnd::R(self.reg(n)))
                    }
                    Tok::W("asm") => {
                        while !self.is_p(b'(') {
                            self.i += 1;
                        }
                        self.parens();
                        let (d, _) = self.skip_line();
                        blk.insts.push(Inst::Unsup("inline asm".into()));
                        blk.dbg.push(d);
                        return;
                    }
                    _ => {
                        let o = self.opnd(&Ty::Ptr);
                        Callee::P(o)
                    }
                };
                self.expect(b'(');
                let mut args = vec![];
                while !self.eat(b')') {
                    if let Tok::W("metadata") = self.peek() {
                        // metadata argument: skip to ',' or ')'
                        self.i += 1;
                        let mut d = 0;
                        loop {
                            match self.peek() {
                                Tok::P(b'(') | Tok::P(b'{') => d += 1,
                                Tok::P(b'}') => d -= 1,
                                Tok::P(b')') if d == 0 => break,
                                Tok::P(b')') => d -= 1,
                                Tok::P(b',') if d == 0 => break,
                                _ => {}
                            }
                            self.i += 1;
                        }
                        self.eat(b',');
                        continue;
                    }
                    let t = self.ty();
                    // parameter attributes
                    loop {
                        match self.peek() {
                            Tok::W("align") => self.i += 2,
                            Tok::W(w)
                                if w.as_bytes()[0].is_ascii_lowercase()
                                    && !matches!(
                                        *w,
                                        "true" | "false" | "null" | "none" | "undef" | "poison" | "zeroinitializer" | "splat" | "c"
                                            | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "add" | "sub" | "xor" | "trunc"
                                            | "blockaddress"
                                    ) =>
                            {
                                self.i += 1;
                                if self.is_p(b'(') {
                                    self.parens();
                                }
                            }
                            Tok::A(_) => self.i += 1,
                            _ => break,
                        }
                    }
                    let o = self.opnd(&t);
                    args.push((t, o));
                    self.eat(b',');
                }
                let inv = if op == "invoke" {
                    loop {
                        match self.next() {
                            Tok::W("to") => break,
                            _ => {}
                        }
                    }
                    let a = self.label();
                    self.eat_w("unwind");
                    let b = self.label();
                    Some((a, b))
                } else {
                    None
                };
                Inst::Call { f, args, ret, dst, inv }
            }
            other => Inst::Unsup(other.to_string()),
        };
        let d = match dbg {
            Some(d) => d,
            None => self.skip_line().0,
        };
        debug_assert!(self.i > start);
        blk.insts.push(ins);
        blk.dbg.push(d);
    }
    fn idxs(&mut self) -> Vec<u32> {
        let mut v = vec![];
        while self.is_p(b',') {
            if let Tok::W(n) = self.t[self.i + 1] {
                if let Ok(n) = n.parse() {
                    v.push(n);
                    self.i += 2;
                    continue;
                }
            }
            break;
        }
        v
    }
}
