//! Lazy parser for textual LLVM IR (the subset rustc and the pre-built std emit).
use crate::expr::{Pool, E};
use std::collections::HashMap;
use std::rc::Rc;

pub type T = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Float,
    Double,
    Ptr,
    Array(u64, T),
    Vector(u64, T),
    Struct(bool, Vec<T>),
    Named(String),
    Func,
    Other,
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    E(E),
    Undef,
    Agg(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    S(u32),
    V(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bit,
    FpExt,
    FpTrunc,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum IP {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Opnd),
    Intrin(Rc<str>),
    Asm(Rc<str>),
}

#[derive(Clone, Debug)]
pub enum K {
    Alloca(u64, u64, Option<Opnd>),
    Load(T, Opnd),
    Store(T, Opnd, Opnd),
    Gep(Opnd, i64, Vec<(Opnd, u32, i64)>),
    Bin(Bin, T, Opnd, Opnd),
    ICmp(IP, T, Opnd, Opnd),
    FCmp(Rc<str>, T, Opnd, Opnd),
    Cast(Cast, T, T, Opnd),
    Select(T, T, Opnd, Opnd, Opnd),
    Call(Callee, Vec<(T, Opnd, u64)>, T, Option<u32>),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(u32, Opnd, Vec<(u64, u32)>, u32),
    Ret(Option<(T, Opnd)>),
    Unreachable,
    ExtractValue(Opnd, Vec<u32>),
    InsertValue(T, Opnd, Opnd, Vec<u32>),
    ExtractElem(T, Opnd, Opnd),
    InsertElem(T, Opnd, Opnd, Opnd),
    Shuffle(T, Opnd, Opnd, Vec<i64>),
    Freeze(T, Opnd),
    AtomicRmw(Rc<str>, T, Opnd, Opnd),
    CmpXchg(T, Opnd, Opnd, Opnd),
    FNeg(T, Opnd),
    Nop,
    LandingPad,
    Unsupported(Rc<str>),
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub dst: u32,
    pub dbg: u32,
    pub k: K,
}
pub const NONE: u32 = u32::MAX;

#[derive(Debug)]
pub struct Phi {
    pub dst: u32,
    pub ty: T,
    pub inc: Vec<(Opnd, u32)>,
}
#[derive(Debug)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
}
#[derive(Debug)]
pub struct Body {
    pub params: Vec<u32>,
    pub nslots: u32,
    pub blocks: Vec<Block>,
}

pub struct Func {
    pub name: String,
    pub range: Option<(usize, usize)>, // text of define..}
    pub body: Option<Rc<Body>>,
    pub addr: u64,
}
pub struct Global {
    pub name: String,
    pub ty: T,
    pub init: Option<(usize, usize)>, // text range of initialiser
    pub constant: bool,
    pub align: u64,
    pub size: u64,
    pub addr: u64,
    pub alias: Option<String>,
}

pub struct Module {
    pub text: Rc<Vec<u8>>,
    pub tys: Vec<Ty>,
    tyix: HashMap<Ty, T>,
    tydefs: HashMap<String, usize>,
    tyres: HashMap<String, T>,
    pub funcs: Vec<Func>,
    pub fix: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gix: HashMap<String, u32>,
    pub meta: HashMap<u32, usize>,
}

pub const FN_BASE: u64 = 0x0800_0000;
pub const GLOBAL_BASE: u64 = 0x1000_0000;

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' {
                self.i += 1;
            } else if c == b';' {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
            } else {
                break;
            }
        }
    }
    fn pk(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        let b = t.as_bytes();
        if self.s[self.i..].starts_with(b) {
            let last = b[b.len() - 1];
            if is_id(last) && self.i + b.len() < self.s.len() && is_id(self.s[self.i + b.len()]) {
                return false;
            }
            self.i += b.len();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, t: &str) {
        if !self.eat(t) {
            panic!("IR parse: expected {:?} at {:?}", t, self.ctx());
        }
    }
    fn ctx(&self) -> String {
        let e = (self.i + 120).min(self.s.len());
        let b = self.i.saturating_sub(60);
        format!("{} <<HERE>> {}", String::from_utf8_lossy(&self.s[b..self.i]), String::from_utf8_lossy(&self.s[self.i..e]))
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let b = self.i;
        while self.i < self.s.len() && is_id(self.s[self.i]) {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[b..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let sv = self.i;
        let w = self.word();
        self.ws();
        let r = w;
        self.i = sv;
        r
    }
    /// name after % or @
    fn name(&mut self) -> &'a str {
        if self.s[self.i] == b'"' {
            self.i += 1;
            let b = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = std::str::from_utf8(&self.s[b..self.i]).unwrap();
            self.i += 1;
            r
        } else {
            let b = self.i;
            while self.i < self.s.len() && is_id(self.s[self.i]) {
                self.i += 1;
            }
            std::str::from_utf8(&self.s[b..self.i]).unwrap()
        }
    }
    fn skip_balanced(&mut self) {
        // at '(' '[' '{' '<'
        let mut depth = 0;
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                b'(' | b'[' | b'{' => depth += 1,
                b')' | b']' | b'}' => {
                    depth -= 1;
                    if depth == 0 {
                        self.i += 1;
                        return;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn uint(&mut self) -> u64 {
        let w = self.word();
        w.parse().unwrap_or_else(|_| panic!("IR parse: int {:?} at {}", w, self.ctx()))
    }
}

const ATTRS: &[&str] = &[
    "noundef", "nonnull", "noalias", "align", "dereferenceable", "dereferenceable_or_null", "captures", "readonly",
    "readnone", "writeonly", "writable", "nofree", "zeroext", "signext", "inreg", "sret", "byval", "byref", "returned",
    "immarg", "nocapture", "allocptr", "allocalign", "range", "dead_on_unwind", "dead_on_return", "nest", "initializes",
    "noext", "nofpclass", "elementtype", "swiftself", "nosync", "nocallback", "noreturn", "nounwind", "memory",
];
const LINK: &[&str] = &[
    "private", "internal", "available_externally", "linkonce", "weak", "common", "appending", "extern_weak",
    "linkonce_odr", "weak_odr", "external", "dso_local", "dso_preemptable", "default", "hidden", "protected", "ccc",
    "fastcc", "coldcc", "unnamed_addr", "local_unnamed_addr", "thread_local", "externally_initialized", "tail",
    "musttail", "notail", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "preserve_mostcc",
    "preserve_allcc", "preserve_nonecc",
];

fn skip_attrs(p: &mut P) -> u64 {
    // returns byval size marker: 0 (we never see byval in this code base; asserted elsewhere)
    let mut byval = 0;
    loop {
        if p.pk() == b'"' {
            // string attribute "a"="b"
            p.i += 1;
            while p.s[p.i] != b'"' {
                p.i += 1;
            }
            p.i += 1;
            if p.s[p.i] == b'=' {
                p.i += 2;
                while p.s[p.i] != b'"' {
                    p.i += 1;
                }
                p.i += 1;
            }
            continue;
        }
        if p.pk() == b'#' {
            p.i += 1;
            p.word();
            continue;
        }
        let w = p.peek_word();
        if ATTRS.contains(&w) {
            p.word();
            if w == "byval" {
                byval = 1;
            }
            if p.s.get(p.i) == Some(&b'(') {
                p.skip_balanced();
            } else if w == "align" {
                p.word();
            }
        } else {
            return byval;
        }
    }
}
fn skip_link(p: &mut P) {
    loop {
        let w = p.peek_word();
        if LINK.contains(&w) {
            p.word();
            if p.s.get(p.i) == Some(&b'(') {
                p.skip_balanced();
            }
        } else if w == "cc" {
            p.word();
            p.word();
        } else {
            return;
        }
    }
}

fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Module {
    pub fn load(text: Vec<u8>) -> Module {
        let text = Rc::new(text);
        let mut m = Module {
            text: text.clone(),
            tys: vec![],
            tyix: HashMap::new(),
            tydefs: HashMap::new(),
            tyres: HashMap::new(),
            funcs: vec![],
            fix: HashMap::new(),
            globals: vec![],
            gix: HashMap::new(),
            meta: HashMap::new(),
        };
        let s: &[u8] = &text;
        let mut i = 0;
        let mut gl: Vec<usize> = vec![];
        while i < s.len() {
            let e = s[i..].iter().position(|&c| c == b'\n').map(|k| i + k).unwrap_or(s.len());
            match s[i] {
                b'%' if i < e => {
                    let mut p = P { s, i: i + 1 };
                    let n = p.name().to_string();
                    p.expect("=");
                    p.expect("type");
                    p.ws();
                    m.tydefs.insert(n, p.i);
                }
                b'@' if i < e => gl.push(i),
                b'!' if i + 1 < e && s[i + 1].is_ascii_digit() => {
                    let mut p = P { s, i: i + 1 };
                    let n = p.uint() as u32;
                    m.meta.insert(n, i);
                }
                b'd' if s[i..e].starts_with(b"define ") || s[i..e].starts_with(b"declare ") => {
                    let def = s[i + 2] == b'f';
                    // function name: first '@' outside of quotes/attrs
                    let mut p = P { s, i };
                    while p.s[p.i] != b'@' {
                        p.i += 1;
                    }
                    p.i += 1;
                    let name = p.name().to_string();
                    let mut end = e;
                    if def {
                        let mut k = e + 1;
                        loop {
                            let e2 = s[k..].iter().position(|&c| c == b'\n').map(|q| k + q).unwrap_or(s.len());
                            if s[k] == b'}' {
                                end = e2;
                                break;
                            }
                            k = e2 + 1;
                        }
                    }
                    let id = m.funcs.len() as u32;
                    m.fix.insert(name.clone(), id);
                    m.funcs.push(Func {
                        name,
                        range: if def { Some((i, end)) } else { None },
                        body: None,
                        addr: FN_BASE + id as u64 * 16,
                    });
                    i = end + 1;
                    continue;
                }
                _ => {}
            }
            i = e + 1;
        }
        let mut addr = GLOBAL_BASE;
        for g in gl {
            let mut p = P { s, i: g + 1 };
            let name = p.name().to_string();
            p.expect("=");
            let mut external = false;
            let mut alias = false;
            let constant;
            loop {
                let w = p.word();
                match w {
                    "global" => {
                        constant = false;
                        break;
                    }
                    "constant" => {
                        constant = true;
                        break;
                    }
                    "alias" => {
                        alias = true;
                        constant = true;
                        break;
                    }
                    "external" | "extern_weak" => external = true,
                    _ => {
                        if p.s.get(p.i) == Some(&b'(') {
                            p.skip_balanced();
                        }
                        if w.is_empty() {
                            panic!("global parse {}", p.ctx());
                        }
                    }
                }
            }
            let ty = m.ty(&mut p);
            let mut init = None;
            let mut al = None;
            if alias {
                p.expect(",");
                p.expect("ptr");
                p.expect("@");
                al = Some(p.name().to_string());
            } else if !external {
                p.ws();
                let b = p.i;
                m.skip_val(&mut p);
                init = Some((b, p.i));
            }
            let mut align = 0;
            // rest of the line
            let e = s[p.i..].iter().position(|&c| c == b'\n').map(|k| p.i + k).unwrap_or(s.len());
            let rest = String::from_utf8_lossy(&s[p.i..e]).to_string();
            if let Some(k) = rest.find("align ") {
                align = rest[k + 6..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap();
            }
            let size = m.size(ty);
            let a = if align == 0 { m.align(ty).max(1) } else { align };
            addr = align_up(addr + 64, 2 * a.max(8)) + a;
            let id = m.globals.len() as u32;
            m.gix.insert(name.clone(), id);
            m.globals.push(Global { name, ty, init, constant, align: a, size, addr, alias: al });
            addr += size;
        }
        m
    }

    pub fn mk(&mut self, t: Ty) -> T {
        if let Some(&i) = self.tyix.get(&t) {
            return i;
        }
        let i = self.tys.len() as T;
        self.tys.push(t.clone());
        self.tyix.insert(t, i);
        i
    }
    pub fn t(&self, t: T) -> &Ty {
        &self.tys[t as usize]
    }
    fn ty(&mut self, p: &mut P) -> T {
        let c = p.pk();
        let mut t = match c {
            b'{' => {
                p.i += 1;
                let v = self.tylist(p, b'}');
                self.mk(Ty::Struct(false, v))
            }
            b'[' => {
                p.i += 1;
                let n = p.uint();
                p.expect("x");
                let e = self.ty(p);
                p.expect("]");
                self.mk(Ty::Array(n, e))
            }
            b'<' => {
                p.i += 1;
                if p.pk() == b'{' {
                    p.i += 1;
                    let v = self.tylist(p, b'}');
                    p.expect(">");
                    self.mk(Ty::Struct(true, v))
                } else {
                    let n = p.uint();
                    p.expect("x");
                    let e = self.ty(p);
                    p.expect(">");
                    self.mk(Ty::Vector(n, e))
                }
            }
            b'%' => {
                p.i += 1;
                let n = p.name().to_string();
                self.named(&n)
            }
            _ => {
                let w = p.word();
                match w {
                    "void" => self.mk(Ty::Void),
                    "ptr" => {
                        if p.eat("addrspace") {
                            p.skip_balanced();
                        }
                        self.mk(Ty::Ptr)
                    }
                    "float" => self.mk(Ty::Float),
                    "double" => self.mk(Ty::Double),
                    "metadata" | "label" | "token" | "half" | "bfloat" | "fp128" | "x86_fp80" | "opaque" => self.mk(Ty::Other),
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => self.mk(Ty::Int(w[1..].parse().unwrap())),
                    _ => panic!("IR type {:?} at {}", w, p.ctx()),
                }
            }
        };
        // function type
        if p.pk() == b'(' && self.looks_like_fnty(p) {
            p.skip_balanced();
            t = self.mk(Ty::Func).max(t);
            // a function type is only ever used as callee type; keep the return type
            return t;
        }
        t
    }
    fn looks_like_fnty(&self, _p: &P) -> bool {
        false
    }
    fn tylist(&mut self, p: &mut P, end: u8) -> Vec<T> {
        let mut v = vec![];
        loop {
            if p.pk() == end {
                p.i += 1;
                return v;
            }
            v.push(self.ty(p));
            if p.pk() == b',' {
                p.i += 1;
            }
        }
    }
    fn named(&mut self, n: &str) -> T {
        if let Some(&t) = self.tyres.get(n) {
            return t;
        }
        let off = *self.tydefs.get(n).unwrap_or_else(|| panic!("unknown type %{}", n));
        let text = self.text.clone();
        let mut p = P { s: &text, i: off };
        let t = self.ty(&mut p);
        self.tyres.insert(n.to_string(), t);
        t
    }
    pub fn align(&self, t: T) -> u64 {
        match self.t(t) {
            Ty::Int(w) => (((*w as u64 + 7) / 8).next_power_of_two()).min(16),
            Ty::Float => 4,
            Ty::Double | Ty::Ptr => 8,
            Ty::Array(_, e) => self.align(*e),
            Ty::Vector(..) => self.size(t).next_power_of_two(),
            Ty::Struct(true, _) => 1,
            Ty::Struct(false, v) => v.iter().map(|x| self.align(*x)).max().unwrap_or(1),
            _ => 1,
        }
    }
    pub fn size(&self, t: T) -> u64 {
        match self.t(t) {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                align_up(b, self.align(t))
            }
            Ty::Float => 4,
            Ty::Double | Ty::Ptr => 8,
            Ty::Array(n, e) => n * self.size(*e),
            Ty::Vector(n, e) => match self.t(*e) {
                Ty::Int(w) => (n * *w as u64 + 7) / 8,
                _ => n * self.size(*e),
            },
            Ty::Struct(packed, v) => {
                let mut o = 0;
                for x in v {
                    if !packed {
                        o = align_up(o, self.align(*x));
                    }
                    o += self.size(*x);
                }
                if *packed {
                    o
                } else {
                    align_up(o, self.align(t))
                }
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, t: T, k: usize) -> (u64, T) {
        match self.t(t) {
            Ty::Struct(packed, v) => {
                let mut o = 0;
                for (i, x) in v.iter().enumerate() {
                    if !packed {
                        o = align_up(o, self.align(*x));
                    }
                    if i == k {
                        return (o, *x);
                    }
                    o += self.size(*x);
                }
                panic!()
            }
            Ty::Array(_, e) | Ty::Vector(_, e) => (k as u64 * self.size(*e), *e),
            _ => panic!("field_off {:?}", self.t(t)),
        }
    }
    /// number of elements of an aggregate
    pub fn nelems(&self, t: T) -> usize {
        match self.t(t) {
            Ty::Struct(_, v) => v.len(),
            Ty::Array(n, _) | Ty::Vector(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn elem(&self, t: T, k: usize) -> T {
        match self.t(t) {
            Ty::Struct(_, v) => v[k],
            Ty::Array(_, e) | Ty::Vector(_, e) => *e,
            _ => panic!(),
        }
    }
    pub fn is_agg(&self, t: T) -> bool {
        matches!(self.t(t), Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..))
    }
    pub fn bits(&self, t: T) -> u32 {
        match self.t(t) {
            Ty::Int(w) => *w,
            Ty::Float => 32,
            Ty::Double | Ty::Ptr => 64,
            x => panic!("bits of {:?}", x),
        }
    }

    fn skip_val(&mut self, p: &mut P) {
        match p.pk() {
            b'c' if p.s.get(p.i + 1) == Some(&b'"') => {
                p.i += 2;
                while p.s[p.i] != b'"' {
                    p.i += 1;
                }
                p.i += 1;
            }
            b'[' | b'{' => p.skip_balanced(),
            b'<' => {
                p.i += 1;
                p.ws();
                if p.s[p.i] == b'{' {
                    p.skip_balanced();
                    p.expect(">");
                } else {
                    while p.s[p.i] != b'>' {
                        if matches!(p.s[p.i], b'(' | b'[' | b'{') {
                            p.skip_balanced();
                        } else {
                            p.i += 1;
                        }
                    }
                    p.i += 1;
                }
            }
            b'@' | b'%' => {
                p.i += 1;
                p.name();
            }
            _ => {
                p.word();
                loop {
                    // constant expression keywords then '('
                    let c = p.pk();
                    if c == b'(' {
                        p.skip_balanced();
                        // inrange(...) may precede the operand list
                        if p.pk() == b'(' {
                            p.skip_balanced();
                        }
                        break;
                    }
                    let w = p.peek_word();
                    if matches!(w, "inbounds" | "nuw" | "nusw" | "nsw" | "inrange" | "exact") {
                        p.word();
                        continue;
                    }
                    break;
                }
            }
        }
    }

    pub fn gaddr(&self, n: &str) -> u64 {
        if let Some(&g) = self.gix.get(n) {
            let g = &self.globals[g as usize];
            if let Some(a) = &g.alias {
                return self.gaddr(a);
            }
            return g.addr;
        }
        if let Some(&f) = self.fix.get(n) {
            return self.funcs[f as usize].addr;
        }
        panic!("unknown global @{}", n)
    }

    pub fn const_at(&mut self, pool: &mut Pool, t: T, off: usize) -> Val {
        let text = self.text.clone();
        let mut p = P { s: &text, i: off };
        self.cval(pool, &mut p, t)
    }

    fn zero(&mut self, pool: &mut Pool, t: T) -> Val {
        match self.t(t).clone() {
            Ty::Int(w) if w > 64 => Val::E(pool.c(w as u16, 0)),
            Ty::Array(n, e) | Ty::Vector(n, e) => {
                let z = self.zero(pool, e);
                Val::Agg(Rc::new(vec![z; n as usize]))
            }
            Ty::Struct(_, v) => {
                let v = v.iter().map(|x| self.zero(pool, *x)).collect();
                Val::Agg(Rc::new(v))
            }
            _ => Val::C(0),
        }
    }
    fn tyval(&mut self, pool: &mut Pool, p: &mut P) -> (T, Val) {
        let t = self.ty(p);
        skip_attrs(p);
        let v = self.cval(pool, p, t);
        (t, v)
    }
    fn cu(v: &Val) -> u64 {
        match v {
            Val::C(x) => *x,
            Val::Undef => 0,
            x => panic!("constant scalar expected: {:?}", x),
        }
    }
    /// constant value (no locals)
    fn cval(&mut self, pool: &mut Pool, p: &mut P, t: T) -> Val {
        match p.pk() {
            b'@' => {
                p.i += 1;
                let n = p.name();
                return Val::C(self.gaddr(n));
            }
            b'c' if p.s.get(p.i + 1) == Some(&b'"') => {
                p.i += 2;
                let mut v = vec![];
                while p.s[p.i] != b'"' {
                    if p.s[p.i] == b'\\' {
                        if p.s[p.i + 1] == b'\\' {
                            v.push(Val::C(b'\\' as u64));
                            p.i += 2;
                        } else {
                            let h = std::str::from_utf8(&p.s[p.i + 1..p.i + 3]).unwrap();
                            v.push(Val::C(u64::from_str_radix(h, 16).unwrap()));
                            p.i += 3;
                        }
                    } else {
                        v.push(Val::C(p.s[p.i] as u64));
                        p.i += 1;
                    }
                }
                p.i += 1;
                return Val::Agg(Rc::new(v));
            }
            b'[' => {
                p.i += 1;
                return self.aggvals(pool, p, "]");
            }
            b'{' => {
                p.i += 1;
                return self.aggvals(pool, p, "}");
            }
            b'<' => {
                p.i += 1;
                if p.pk() == b'{' {
                    p.i += 1;
                    let v = self.aggvals(pool, p, "}");
                    p.expect(">");
                    return v;
                }
                return self.aggvals(pool, p, ">");
            }
            _ => {}
        }
        let w = p.word();
        match w {
            "true" => Val::C(1),
            "false" => Val::C(0),
            "null" => Val::C(0),
            "undef" | "poison" => Val::Undef,
            "zeroinitializer" => self.zero(pool, t),
            "splat" => {
                p.expect("(");
                let (_, v) = self.tyval(pool, p);
                p.expect(")");
                let n = self.nelems(t);
                Val::Agg(Rc::new(vec![v; n]))
            }
            "getelementptr" => {
                loop {
                    let f = p.peek_word();
                    if matches!(f, "inbounds" | "nuw" | "nusw") {
                        p.word();
                    } else if f == "inrange" {
                        p.word();
                        p.ws();
                        p.skip_balanced();
                    } else {
                        break;
                    }
                }
                p.expect("(");
                let bt = self.ty(p);
                p.expect(",");
                let (_, base) = self.tyval(pool, p);
                let mut a = Self::cu(&base) as i64;
                let mut cur = bt;
                let mut first = true;
                while p.eat(",") {
                    let (it, iv) = self.tyval(pool, p);
                    let ib = self.bits(it);
                    let k = Self::cu(&iv);
                    let k = ((k << (64 - ib)) as i64) >> (64 - ib);
                    if first {
                        a += k * self.size(cur) as i64;
                        first = false;
                    } else {
                        let (o, nt) = self.field_off(cur, k as usize);
                        a += o as i64;
                        cur = nt;
                    }
                }
                p.expect(")");
                Val::C(a as u64)
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "trunc" | "zext" | "ptrtoaddr" => {
                p.expect("(");
                let (_, v) = self.tyval(pool, p);
                p.expect("to");
                let dt = self.ty(p);
                p.expect(")");
                let b = self.bits(dt);
                match v {
                    Val::C(x) if b < 64 => Val::C(x & ((1u64 << b) - 1)),
                    v => v,
                }
            }
            "add" | "sub" | "xor" | "mul" | "shl" => {
                while matches!(p.peek_word(), "nuw" | "nsw") {
                    p.word();
                }
                p.expect("(");
                let (t1, a) = self.tyval(pool, p);
                p.expect(",");
                let (_, b) = self.tyval(pool, p);
                p.expect(")");
                let (a, b) = (Self::cu(&a), Self::cu(&b));
                let r = match w {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    "mul" => a.wrapping_mul(b),
                    "shl" => a << b,
                    _ => a ^ b,
                };
                let bits = self.bits(t1);
                Val::C(if bits >= 64 { r } else { r & ((1 << bits) - 1) })
            }
            _ => {
                // numbers
                match self.t(t).clone() {
                    Ty::Int(b) => {
                        let neg = w.starts_with('-');
                        let d = if neg { &w[1..] } else { w };
                        let v: u128 = if let Some(h) = d.strip_prefix("u0x").or(d.strip_prefix("s0x")) {
                            u128::from_str_radix(h, 16).unwrap()
                        } else {
                            d.parse().unwrap_or_else(|_| panic!("int const {:?} at {}", w, p.ctx()))
                        };
                        let v = if neg { v.wrapping_neg() } else { v };
                        if b <= 64 {
                            Val::C((v & crate::expr::mask(b as u16)) as u64)
                        } else {
                            Val::E(pool.c(b as u16, v))
                        }
                    }
                    Ty::Double => Val::C(parse_fp(w, p, false)),
                    Ty::Float => Val::C(parse_fp(w, p, true)),
                    ref x => panic!("const {:?} of type {:?} at {}", w, x, p.ctx()),
                }
            }
        }
    }
    fn aggvals(&mut self, pool: &mut Pool, p: &mut P, end: &str) -> Val {
        let mut v = vec![];
        loop {
            if p.pk() == end.as_bytes()[0] {
                p.i += 1;
                return Val::Agg(Rc::new(v));
            }
            let (_, x) = self.tyval(pool, p);
            v.push(x);
            p.eat(",");
        }
    }

    // ---------- function bodies ----------
    pub fn body(&mut self, pool: &mut Pool, f: u32) -> Option<Rc<Body>> {
        if let Some(b) = &self.funcs[f as usize].body {
            return Some(b.clone());
        }
        let (b, e) = self.funcs[f as usize].range?;
        let text = self.text.clone();
        let b = Rc::new(self.parse_body(pool, &text[b..e]));
        self.funcs[f as usize].body = Some(b.clone());
        Some(b)
    }

    fn parse_body(&mut self, pool: &mut Pool, s: &[u8]) -> Body {
        let mut p = P { s, i: 0 };
        p.expect("define");
        skip_link(&mut p);
        skip_attrs(&mut p);
        skip_link(&mut p);
        self.ty(&mut p);
        p.expect("@");
        p.name();
        p.expect("(");
        let mut fx = Fx { slots: HashMap::new(), blocks: HashMap::new(), nslots: 0, nblocks: 0 };
        let mut params = vec![];
        let mut unnamed = 0;
        loop {
            if p.eat(")") {
                break;
            }
            if p.eat("...") {
                continue;
            }
            self.ty(&mut p);
            let bv = skip_attrs(&mut p);
            assert!(bv == 0, "byval parameter");
            if p.pk() == b'%' {
                p.i += 1;
                let n = p.name();
                if n.parse::<u32>().is_ok() {
                    unnamed += 1;
                }
                params.push(fx.slot(n));
            } else {
                let n = unnamed.to_string();
                unnamed += 1;
                params.push(fx.slot(&n));
            }
            p.eat(",");
        }
        while p.pk() != b'{' {
            p.i += 1;
        }
        // the header may contain braces only as the body start
        p.i += 1;
        let mut blocks: Vec<(u32, Block)> = vec![];
        let mut first = true;
        loop {
            let c = p.pk();
            if c == b'}' || c == 0 {
                break;
            }
            if c == b'#' {
                // debug record: #dbg_xxx(...)
                while p.s[p.i] != b'(' {
                    p.i += 1;
                }
                p.skip_balanced();
                continue;
            }
            // label?
            let sv = p.i;
            let lbl: Option<String> = if c == b'"' {
                let n = p.name().to_string();
                Some(n)
            } else if is_id(c) {
                let n = p.word().to_string();
                if p.i < p.s.len() && p.s[p.i] == b':' {
                    Some(n)
                } else {
                    p.i = sv;
                    None
                }
            } else {
                None
            };
            if let Some(n) = lbl {
                p.expect(":");
                let id = fx.block(&n);
                blocks.push((id, Block { phis: vec![], insts: vec![] }));
                first = false;
                continue;
            }
            if first {
                let id = fx.block(&unnamed.to_string());
                blocks.push((id, Block { phis: vec![], insts: vec![] }));
                first = false;
            }
            let cur = blocks.len() - 1;
            self.inst(pool, &mut p, &mut fx, &mut blocks[cur].1);
        }
        // blocks in id order; entry must be found by position
        let entry = blocks[0].0;
        let n = fx.nblocks as usize;
        let mut out: Vec<Option<Block>> = (0..n).map(|_| None).collect();
        for (id, b) in blocks {
            out[id as usize] = Some(b);
        }
        assert_eq!(entry, 0);
        Body {
            params,
            nslots: fx.nslots,
            blocks: out.into_iter().map(|b| b.unwrap_or(Block { phis: vec![], insts: vec![] })).collect(),
        }
    }

    fn opnd(&mut self, pool: &mut Pool, p: &mut P, fx: &mut Fx, t: T) -> Opnd {
        skip_attrs(p);
        if p.pk() == b'%' {
            p.i += 1;
            let n = p.name();
            return Opnd::S(fx.slot(n));
        }
        Opnd::V(self.cval(pool, p, t))
    }
    fn ty_opnd(&mut self, pool: &mut Pool, p: &mut P, fx: &mut Fx) -> (T, Opnd) {
        let t = self.ty(p);
        let o = self.opnd(pool, p, fx, t);
        (t, o)
    }
    fn label(&mut self, p: &mut P, fx: &mut Fx) -> u32 {
        p.expect("label");
        p.expect("%");
        let n = p.name();
        fx.block(n)
    }

    fn inst(&mut self, pool: &mut Pool, p: &mut P, fx: &mut Fx, blk: &mut Block) {
        let mut dst = NONE;
        if p.pk() == b'%' {
            p.i += 1;
            let n = p.name();
            dst = fx.slot(n);
            p.expect("=");
        }
        let op = p.word();
        let mut w = op;
        // tail call etc.
        if matches!(w, "tail" | "musttail" | "notail") {
            w = p.word();
        }
        let k = match w {
            "phi" => {
                while LINK.contains(&p.peek_word()) {
                    p.word();
                }
                let ty = self.ty(p);
                let mut inc = vec![];
                loop {
                    p.expect("[");
                    let o = self.opnd(pool, p, fx, ty);
                    p.expect(",");
                    p.expect("%");
                    let n = p.name();
                    let b = fx.block(n);
                    p.expect("]");
                    inc.push((o, b));
                    let sv = p.i;
                    if p.eat(",") {
                        if p.pk() == b'!' {
                            p.i = sv;
                            break;
                        }
                    } else {
                        break;
                    }
                }
                self.trailer(p);
                blk.phis.push(Phi { dst, ty, inc });
                return;
            }
            "alloca" => {
                if p.eat("inalloca") {}
                let ty = self.ty(p);
                let mut n = None;
                let mut al = self.align(ty);
                loop {
                    let sv = p.i;
                    if !p.eat(",") {
                        break;
                    }
                    if p.pk() == b'!' {
                        p.i = sv;
                        break;
                    }
                    if p.eat("align") {
                        al = p.uint();
                    } else {
                        let (_, o) = self.ty_opnd(pool, p, fx);
                        n = Some(o);
                    }
                }
                K::Alloca(self.size(ty), al, n)
            }
            "load" => {
                while matches!(p.peek_word(), "atomic" | "volatile") {
                    p.word();
                }
                let ty = self.ty(p);
                p.expect(",");
                let (_, o) = self.ty_opnd(pool, p, fx);
                self.ordering(p);
                K::Load(ty, o)
            }
            "store" => {
                while matches!(p.peek_word(), "atomic" | "volatile") {
                    p.word();
                }
                let (ty, v) = self.ty_opnd(pool, p, fx);
                p.expect(",");
                let (_, o) = self.ty_opnd(pool, p, fx);
                self.ordering(p);
                K::Store(ty, v, o)
            }
            "getelementptr" => {
                while matches!(p.peek_word(), "inbounds" | "nuw" | "nusw") {
                    p.word();
                }
                let bt = self.ty(p);
                p.expect(",");
                let (bty, base) = self.ty_opnd(pool, p, fx);
                let vec_gep = !matches!(self.t(bty), Ty::Ptr);
                let mut off = 0i64;
                let mut dynv = vec![];
                let mut cur = bt;
                let mut first = true;
                loop {
                    let sv = p.i;
                    if !p.eat(",") {
                        break;
                    }
                    if p.pk() == b'!' {
                        p.i = sv;
                        break;
                    }
                    let (it, io) = self.ty_opnd(pool, p, fx);
                    if self.is_agg(it) {
                        panic!("vector gep");
                    }
                    let ib = self.bits(it);
                    let (scale, nt) = if first {
                        (self.size(cur), cur)
                    } else {
                        match self.t(cur).clone() {
                            Ty::Struct(..) => {
                                let k = match &io {
                                    Opnd::V(v) => Self::cu(v),
                                    _ => panic!("struct gep index"),
                                };
                                let (o, nt) = self.field_off(cur, k as usize);
                                off += o as i64;
                                cur = nt;
                                continue;
                            }
                            Ty::Array(_, e) | Ty::Vector(_, e) => (self.size(e), e),
                            _ => panic!("gep into scalar"),
                        }
                    };
                    first = false;
                    cur = nt;
                    match io {
                        Opnd::V(v) => {
                            let k = Self::cu(&v);
                            let k = ((k << (64 - ib)) as i64) >> (64 - ib);
                            off = off.wrapping_add(k.wrapping_mul(scale as i64));
                        }
                        o => dynv.push((o, ib, scale as i64)),
                    }
                }
                if vec_gep {
                    K::Unsupported("vector getelementptr".into())
                } else {
                    K::Gep(base, off, dynv)
                }
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor"
            | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while matches!(p.peek_word(), "nuw" | "nsw" | "exact" | "disjoint") || LINK.contains(&p.peek_word()) {
                    p.word();
                }
                let (ty, a) = self.ty_opnd(pool, p, fx);
                p.expect(",");
                let b = self.opnd(pool, p, fx, ty);
                let bop = match w {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    "mul" => Bin::Mul,
                    "udiv" => Bin::UDiv,
                    "sdiv" => Bin::SDiv,
                    "urem" => Bin::URem,
                    "srem" => Bin::SRem,
                    "shl" => Bin::Shl,
                    "lshr" => Bin::LShr,
                    "ashr" => Bin::AShr,
                    "and" => Bin::And,
                    "or" => Bin::Or,
                    "xor" => Bin::Xor,
                    "fadd" => Bin::FAdd,
                    "fsub" => Bin::FSub,
                    "fmul" => Bin::FMul,
                    "fdiv" => Bin::FDiv,
                    _ => Bin::FRem,
                };
                K::Bin(bop, ty, a, b)
            }
            "fneg" => {
                while LINK.contains(&p.peek_word()) {
                    p.word();
                }
                let (ty, a) = self.ty_opnd(pool, p, fx);
                K::FNeg(ty, a)
            }
            "icmp" => {
                if p.peek_word() == "samesign" {
                    p.word();
                }
                let pr = match p.word() {
                    "eq" => IP::Eq,
                    "ne" => IP::Ne,
                    "ult" => IP::Ult,
                    "ule" => IP::Ule,
                    "ugt" => IP::Ugt,
                    "uge" => IP::Uge,
                    "slt" => IP::Slt,
                    "sle" => IP::Sle,
                    "sgt" => IP::Sgt,
                    "sge" => IP::Sge,
                    x => panic!("icmp {}", x),
                };
                let (ty, a) = self.ty_opnd(pool, p, fx);
                p.expect(",");
                let b = self.opnd(pool, p, fx, ty);
                K::ICmp(pr, ty, a, b)
            }
            "fcmp" => {
                while LINK.contains(&p.peek_word()) {
                    p.word();
                }
                let pr = p.word();
                let (ty, a) = self.ty_opnd(pool, p, fx);
                p.expect(",");
                let b = self.opnd(pool, p, fx, ty);
                K::FCmp(pr.into(), ty, a, b)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "fpext" | "fptrunc" | "uitofp" | "sitofp"
            | "fptoui" | "fptosi" | "addrspacecast" | "ptrtoaddr" => {
                while matches!(p.peek_word(), "nuw" | "nsw" | "nneg") || LINK.contains(&p.peek_word()) {
                    p.word();
                }
                let (ft, a) = self.ty_opnd(pool, p, fx);
                p.expect("to");
                let tt = self.ty(p);
                let c = match w {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "ptrtoint" | "ptrtoaddr" => {
                        if self.bits(tt) < 64 {
                            Cast::Trunc
                        } else {
                            Cast::Bit
                        }
                    }
                    "inttoptr" => {
                        if self.bits(ft) < 64 {
                            Cast::ZExt
                        } else {
                            Cast::Bit
                        }
                    }
                    "fpext" => Cast::FpExt,
                    "fptrunc" => Cast::FpTrunc,
                    "uitofp" => Cast::UiToFp,
                    "sitofp" => Cast::SiToFp,
                    "fptoui" => Cast::FpToUi,
                    "fptosi" => Cast::FpToSi,
                    _ => Cast::Bit,
                };
                K::Cast(c, ft, tt, a)
            }
            "select" => {
                while LINK.contains(&p.peek_word()) {
                    p.word();
                }
                let (ct, c) = self.ty_opnd(pool, p, fx);
                p.expect(",");
                let (ty, a) = self.ty_opnd(pool, p, fx);
                p.expect(",");
                let (_, b) = self.ty_opnd(pool, p, fx);
                K::Select(ct, ty, c, a, b)
            }
            "call" | "invoke" => {
                skip_link(p);
                skip_attrs(p);
                let rt = self.ty(p);
                // explicit function type (varargs)
                if p.pk() == b'(' {
                    p.skip_balanced();
                }
                skip_attrs(p);
                enum Cal {
                    Name(String),
                    Op(Opnd),
                    Asm(String),
                }
                let cal = match p.pk() {
                    b'@' => {
                        p.i += 1;
                        Cal::Name(p.name().to_string())
                    }
                    b'%' => {
                        p.i += 1;
                        let n = p.name();
                        Cal::Op(Opnd::S(fx.slot(n)))
                    }
                    _ => {
                        if p.eat("asm") {
                            while matches!(p.peek_word(), "sideeffect" | "alignstack" | "inteldialect" | "unwind") {
                                p.word();
                            }
                            p.ws();
                            let a = p.name().to_string();
                            p.expect(",");
                            p.ws();
                            p.name();
                            Cal::Asm(a)
                        } else {
                            let pt = self.mk(Ty::Ptr);
                            let v = self.cval(pool, p, pt);
                            Cal::Op(Opnd::V(v))
                        }
                    }
                };
                p.expect("(");
                let mut args = vec![];
                let intr = matches!(&cal, Cal::Name(n) if n.starts_with("llvm."));
                loop {
                    if p.eat(")") {
                        break;
                    }
                    if p.peek_word() == "metadata" {
                        // skip one metadata argument
                        p.word();
                        p.ws();
                        let mut d = 0;
                        loop {
                            match p.s[p.i] {
                                b'(' | b'{' | b'[' => d += 1,
                                b')' | b'}' | b']' if d > 0 => d -= 1,
                                b')' => break,
                                b',' if d == 0 => break,
                                _ => {}
                            }
                            p.i += 1;
                        }
                        p.eat(",");
                        continue;
                    }
                    let t = self.ty(p);
                    let bv = skip_attrs(p);
                    let o = self.opnd(pool, p, fx, t);
                    args.push((t, o, bv));
                    p.eat(",");
                }
                let _ = intr;
                // function attributes and operand bundles
                loop {
                    let c = p.pk();
                    if c == b'#' {
                        p.i += 1;
                        p.word();
                    } else if c == b'[' {
                        p.skip_balanced();
                    } else if ATTRS.contains(&p.peek_word()) {
                        skip_attrs(p);
                    } else {
                        break;
                    }
                }
                let mut nd = None;
                if w == "invoke" {
                    p.expect("to");
                    nd = Some(self.label(p, fx));
                    p.expect("unwind");
                    self.label(p, fx);
                }
                let callee = match cal {
                    Cal::Name(n) if n.starts_with("llvm.") => Callee::Intrin(n.as_str().into()),
                    Cal::Name(n) => {
                        let n2 = self.resolve_fn(&n);
                        Callee::Direct(n2)
                    }
                    Cal::Op(Opnd::V(Val::C(a))) if self.fn_at(a).is_some() => Callee::Direct(self.fn_at(a).unwrap()),
                    Cal::Op(o) => Callee::Indirect(o),
                    Cal::Asm(a) => Callee::Asm(a.as_str().into()),
                };
                K::Call(callee, args, rt, nd)
            }
            "br" => {
                if p.peek_word() == "label" {
                    K::Br(self.label(p, fx))
                } else {
                    let (_, c) = self.ty_opnd(pool, p, fx);
                    p.expect(",");
                    let a = self.label(p, fx);
                    p.expect(",");
                    let b = self.label(p, fx);
                    K::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.ty_opnd(pool, p, fx);
                p.expect(",");
                let d = self.label(p, fx);
                p.expect("[");
                let mut cs = vec![];
                loop {
                    if p.eat("]") {
                        break;
                    }
                    let (_, cv) = self.ty_opnd(pool, p, fx);
                    p.expect(",");
                    let l = self.label(p, fx);
                    let c = match cv {
                        Opnd::V(Val::C(c)) => c,
                        Opnd::V(Val::E(e)) => pool.cv(e).unwrap() as u64,
                        _ => panic!("switch case"),
                    };
                    cs.push((c, l));
                }
                K::Switch(self.bits(t), v, cs, d)
            }
            "ret" => {
                let t = self.ty(p);
                if matches!(self.t(t), Ty::Void) {
                    K::Ret(None)
                } else {
                    let o = self.opnd(pool, p, fx, t);
                    K::Ret(Some((t, o)))
                }
            }
            "unreachable" => K::Unreachable,
            "extractvalue" => {
                let (_, a) = self.ty_opnd(pool, p, fx);
                K::ExtractValue(a, self.idxs(p))
            }
            "insertvalue" => {
                let (t, a) = self.ty_opnd(pool, p, fx);
                p.expect(",");
                let (_, v) = self.ty_opnd(pool, p, fx);
                K::InsertValue(t, a, v, self.idxs(p))
            }
            "extractelement" => {
                let (t, a) = self.ty_opnd(pool, p, fx);
                p.expect(",");
                let (_, i) = self.ty_opnd(pool, p, fx);
                K::ExtractElem(t, a, i)
            }
            "insertelement" => {
                let (t, a) = self.ty_opnd(pool, p, fx);
                p.expect(",");
                let (_, v) = self.ty_opnd(pool, p, fx);
                p.expect(",");
                let (_, i) = self.ty_opnd(pool, p, fx);
                K::InsertElem(t, a, v, i)
            }
            "shufflevector" => {
                let (t, a) = self.ty_opnd(pool, p, fx);
                p.expect(",");
                let (_, b) = self.ty_opnd(pool, p, fx);
                p.expect(",");
                let (mt, m) = self.ty_opnd(pool, p, fx);
                let n = self.nelems(mt);
                let ix = match m {
                    Opnd::V(Val::Agg(v)) => v
                        .iter()
                        .map(|x| match x {
                            Val::C(c) => *c as u32 as i32 as i64,
                            _ => -1,
                        })
                        .collect(),
                    _ => vec![-1; n],
                };
                K::Shuffle(t, a, b, ix)
            }
            "freeze" => {
                let (t, a) = self.ty_opnd(pool, p, fx);
                K::Freeze(t, a)
            }
            "fence" => {
                self.ordering(p);
                K::Nop
            }
            "atomicrmw" => {
                if p.eat("volatile") {}
                let o = p.word();
                let (_, ptr) = self.ty_opnd(pool, p, fx);
                p.expect(",");
                let (t, v) = self.ty_opnd(pool, p, fx);
                self.ordering(p);
                K::AtomicRmw(o.into(), t, ptr, v)
            }
            "cmpxchg" => {
                while matches!(p.peek_word(), "weak" | "volatile") {
                    p.word();
                }
                let (_, ptr) = self.ty_opnd(pool, p, fx);
                p.expect(",");
                let (t, a) = self.ty_opnd(pool, p, fx);
                p.expect(",");
                let (_, b) = self.ty_opnd(pool, p, fx);
                self.ordering(p);
                K::CmpXchg(t, ptr, a, b)
            }
            "landingpad" => {
                self.ty(p);
                loop {
                    if p.eat("cleanup") {
                        continue;
                    }
                    if p.eat("catch") || p.eat("filter") {
                        self.ty_opnd(pool, p, fx);
                        continue;
                    }
                    break;
                }
                K::LandingPad
            }
            "resume" => {
                self.ty_opnd(pool, p, fx);
                K::Unreachable
            }
            "va_arg" | "catchswitch" | "catchpad" | "cleanuppad" | "cleanupret" | "indirectbr" | "callbr" => {
                panic!("IR instruction {}", w)
            }
            _ => panic!("IR instruction {:?} at {}", w, p.ctx()),
        };
        let dbg = self.trailer(p);
        blk.insts.push(Inst { dst, dbg, k });
    }
    fn idxs(&mut self, p: &mut P) -> Vec<u32> {
        let mut v = vec![];
        loop {
            let sv = p.i;
            if !p.eat(",") {
                break;
            }
            if p.pk() == b'!' {
                p.i = sv;
                break;
            }
            v.push(p.uint() as u32);
        }
        v
    }
    fn ordering(&mut self, p: &mut P) {
        loop {
            let w = p.peek_word();
            match w {
                "syncscope" => {
                    p.word();
                    p.skip_balanced();
                }
                "monotonic" | "acquire" | "release" | "acq_rel" | "seq_cst" | "unordered" => {
                    p.word();
                }
                _ => return,
            }
        }
    }
    /// `, align N`, metadata attachments; returns the !dbg id
    fn trailer(&mut self, p: &mut P) -> u32 {
        let mut dbg = NONE;
        loop {
            let sv = p.i;
            if !p.eat(",") {
                return dbg;
            }
            if p.eat("align") {
                p.uint();
                continue;
            }
            if p.pk() != b'!' {
                p.i = sv;
                return dbg;
            }
            p.i += 1;
            let n = p.word();
            p.ws();
            if p.s[p.i] == b'!' {
                p.i += 1;
                if p.s[p.i] == b'{' {
                    p.skip_balanced();
                } else {
                    let id = p.word();
                    if n == "dbg" {
                        dbg = id.parse().unwrap_or(NONE);
                    } else if p.s.get(p.i) == Some(&b'(') {
                        p.skip_balanced();
                    }
                }
            }
        }
    }
    pub fn resolve_fn(&self, n: &str) -> u32 {
        if let Some(&f) = self.fix.get(n) {
            return f;
        }
        if let Some(&g) = self.gix.get(n) {
            if let Some(a) = &self.globals[g as usize].alias {
                return self.resolve_fn(a);
            }
        }
        panic!("unknown function @{}", n)
    }
    pub fn fn_at(&self, a: u64) -> Option<u32> {
        if a >= FN_BASE && a < FN_BASE + 16 * self.funcs.len() as u64 && (a - FN_BASE) % 16 == 0 {
            return Some(((a - FN_BASE) / 16) as u32);
        }
        None
    }

    // ---------- debug info ----------
    fn meta_line(&self, id: u32) -> Option<&str> {
        let &o = self.meta.get(&id)?;
        let e = self.text[o..].iter().position(|&c| c == b'\n').map(|k| o + k).unwrap_or(self.text.len());
        std::str::from_utf8(&self.text[o..e]).ok()
    }
    fn meta_field<'x>(l: &'x str, k: &str) -> Option<&'x str> {
        let pat = format!("{}: ", k);
        let mut from = 0;
        loop {
            let i = l[from..].find(&pat)? + from;
            let ok = i == 0 || matches!(l.as_bytes()[i - 1], b' ' | b'(');
            if ok {
                let r = &l[i + pat.len()..];
                if r.starts_with('"') {
                    let e = r[1..].find('"')? + 1;
                    return Some(&r[1..e]);
                }
                let e = r.find(|c| c == ',' || c == ')').unwrap_or(r.len());
                return Some(&r[..e]);
            }
            from = i + 1;
        }
    }
    fn meta_ref(l: &str, k: &str) -> Option<u32> {
        Self::meta_field(l, k)?.strip_prefix('!')?.parse().ok()
    }
    fn scope_file(&self, mut id: u32) -> Option<String> {
        for _ in 0..32 {
            let l = self.meta_line(id)?;
            if let Some(f) = Self::meta_ref(l, "file") {
                let fl = self.meta_line(f)?;
                return Self::meta_field(fl, "filename").map(|s| s.to_string());
            }
            id = Self::meta_ref(l, "scope")?;
        }
        None
    }
    /// "file:line" chain (inlined frames first)
    pub fn loc(&self, dbg: u32) -> Vec<String> {
        let mut out = vec![];
        let mut id = Some(dbg);
        while let Some(d) = id {
            if out.len() > 16 {
                break;
            }
            let l = match self.meta_line(d) {
                Some(l) => l,
                None => break,
            };
            let line = Self::meta_field(l, "line").unwrap_or("?").to_string();
            let file = Self::meta_ref(l, "scope").and_then(|s| self.scope_file(s)).unwrap_or_default();
            out.push(format!("{}:{}", file, line));
            id = Self::meta_ref(l, "inlinedAt");
        }
        out
    }
}

struct Fx {
    slots: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    nslots: u32,
    nblocks: u32,
}
impl Fx {
    fn slot(&mut self, n: &str) -> u32 {
        if let Some(&s) = self.slots.get(n) {
            return s;
        }
        let s = self.nslots;
        self.nslots += 1;
        self.slots.insert(n.to_string(), s);
        s
    }
    fn block(&mut self, n: &str) -> u32 {
        if let Some(&s) = self.blocks.get(n) {
            return s;
        }
        let s = self.nblocks;
        self.nblocks += 1;
        self.blocks.insert(n.to_string(), s);
        s
    }
}

/// The bits of a floating-point constant of the given width: `f0x…` are the bits themselves, `0x…` the bits of a
/// double with the same value, `+inf`, `-qnan`, `+nan(0x…)`, `+snan(0x…)`, or a decimal number.
fn parse_fp(w: &str, p: &mut P, single: bool) -> u64 {
    if let Some(h) = w.strip_prefix("f0x") {
        return u64::from_str_radix(h, 16).unwrap_or_else(|_| panic!("fp {}", w));
    }
    let conv = |b: u64| if single { (f64::from_bits(b) as f32).to_bits() as u64 } else { b };
    if let Some(h) = w.strip_prefix("0x") {
        return conv(u64::from_str_radix(h, 16).unwrap_or_else(|_| panic!("fp {}", w)));
    }
    // word() stops at '+', whether a sign or within an exponent
    let mut s = w.to_string();
    if p.s.get(p.i) == Some(&b'+') {
        p.i += 1;
        s.push('+');
        s.push_str(p.word());
    }
    let (neg, body) = match s.as_bytes().first() {
        Some(b'-') => (true, &s[1..]),
        Some(b'+') => (false, &s[1..]),
        _ => (false, &s[..]),
    };
    let (exp, quiet, sign) = if single { (0x7f80_0000u64, 0x40_0000u64, 0x8000_0000u64) } else { (0x7ffu64 << 52, 1u64 << 51, 1u64 << 63) };
    let special = match body {
        "inf" => Some(exp),
        "qnan" => Some(exp | quiet),
        "nan" | "snan" => {
            assert!(p.s.get(p.i) == Some(&b'('), "fp {:?}", s);
            p.i += 1;
            let h = p.word();
            let v = u64::from_str_radix(h.trim_start_matches("0x"), 16).unwrap_or_else(|_| panic!("fp {:?} {}", s, h));
            assert!(p.s.get(p.i) == Some(&b')'), "fp {:?}", s);
            p.i += 1;
            Some(exp | v)
        }
        _ => None,
    };
    if let Some(b) = special {
        return if neg { b | sign } else { b };
    }
    conv(s.parse::<f64>().unwrap_or_else(|_| panic!("fp {:?}", s)).to_bits())
}
