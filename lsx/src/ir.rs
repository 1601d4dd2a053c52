//! Textual LLVM IR -> compact instructions.
use crate::expr::{N, V};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Int(u32), Ptr, Void, Arr(u64, Box<Ty>), Struct(Vec<Ty>, bool), Other(String) }
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(ts, packed) => if *packed { 1 } else { ts.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
            Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(ts, _) => { let o = self.offsets(); let e = ts.last().map(|t| o[ts.len() - 1] + t.size()).unwrap_or(0); let a = self.align(); (e + a - 1) / a * a }
            _ => 0,
        }
    }
    pub fn offsets(&self) -> Vec<u64> {
        let Ty::Struct(ts, packed) = self else { panic!() };
        let (mut o, mut r) = (0, vec![]);
        for t in ts {
            if !packed { let a = t.align(); o = (o + a - 1) / a * a }
            r.push(o);
            o += t.size();
        }
        r
    }
    pub fn width(&self) -> u8 { match self { Ty::Int(w) if *w <= 128 => *w as u8, Ty::Ptr => 64, _ => 0 } }
}

#[derive(Clone, Debug)]
pub enum Const { Int(N), Sym(u32, i64), Undef, Zero, Bytes(Vec<u8>), Agg(Vec<(Ty, Const)>), Bad(String) }
#[derive(Clone, Debug)]
pub enum Val { V(V), A(Rc<Vec<Val>>) }
#[derive(Clone, Debug)]
pub enum Opd { R(u32), K(Val), Bad(Rc<String>) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Ind(Opd) }
#[derive(Clone, Debug)]
pub enum I {
    Alloca { dst: u32, size: u64 },
    Load { dst: u32, ty: Rc<Ty>, p: Opd },
    Store { ty: Rc<Ty>, v: Opd, p: Opd },
    Gep { dst: u32, base: Opd, off: i64, terms: Vec<(Opd, u8, u64)> },
    Bin { op: B, w: u8, dst: u32, a: Opd, b: Opd },
    Icmp { p: Pred, w: u8, dst: u32, a: Opd, b: Opd },
    ZExt { dst: u32, from: u8, to: u8, a: Opd },
    SExt { dst: u32, from: u8, to: u8, a: Opd },
    Trunc { dst: u32, from: u8, to: u8, a: Opd },
    Copy { dst: u32, a: Opd },
    Freeze { dst: u32, a: Opd },
    Select { dst: u32, c: Opd, w: u8, ptr: bool, a: Opd, b: Opd },
    Extract { dst: u32, a: Opd, idx: Vec<usize> },
    Insert { dst: u32, a: Opd, v: Opd, idx: Vec<usize> },
    Call { dst: Option<u32>, f: Callee, args: Vec<(Opd, u8)>, inv: Option<(u32, u32)>, noreturn: bool },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch { w: u8, v: Opd, default: u32, cases: Vec<(N, u32)> },
    Ret(Option<Opd>),
    Unreachable,
    Resume,
    LandingPad { dst: u32, abort: bool },
    Bad(String),
}
#[derive(Clone, Debug, Default)]
pub struct Block { pub phis: Vec<(u32, Vec<(u32, Opd)>)>, pub code: Vec<I> }
pub struct Func { pub name: String, pub pretty: String, pub params: Vec<u32>, pub nregs: u32, pub blocks: Vec<Block> }
pub struct Global { pub size: u64, pub init: Option<(Ty, Const)> }

#[derive(Default)]
pub struct Program {
    pub syms: Vec<String>,
    pub index: HashMap<String, u32>,
    pub funcs: HashMap<u32, Func>,
    pub globals: HashMap<u32, Global>,
    pub noreturn: HashSet<u32>,
}
pub fn addr(sym: u32) -> u64 { (sym as u64 + 1) << 32 }

#[derive(Clone, Debug, PartialEq)]
enum T { W(String), L(String), G(String), S(Vec<u8>), P(char), Label(String), Meta, Attr(String), Nl, Eof, Q }

fn lex(src: &str) -> (Vec<T>, HashMap<usize, String>) {
    let s = src.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    let mut comments = HashMap::new(); // index of the next token -> last comment line
    let id = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    let quoted = |i: &mut usize| {
        let st = *i + 1;
        let mut j = st;
        while s[j] != b'"' { j += 1 }
        *i = j + 1;
        let raw = &s[st..j];
        let mut r = Vec::new();
        let mut k = 0;
        while k < raw.len() {
            if raw[k] == b'\\' {
                if raw[k + 1] == b'\\' { r.push(b'\\'); k += 2; continue }
                r.push(u8::from_str_radix(std::str::from_utf8(&raw[k + 1..k + 3]).unwrap(), 16).unwrap());
                k += 3;
            } else { r.push(raw[k]); k += 1 }
        }
        r
    };
    while i < s.len() {
        let c = s[i];
        let bol = i == 0 || s[i - 1] == b'\n';
        match c {
            b'\n' => { out.push(T::Nl); i += 1 }
            b' ' | b'\t' | b'\r' => i += 1,
            b';' => {
                let st = i + 1;
                while i < s.len() && s[i] != b'\n' { i += 1 }
                if bol {
                    comments.insert(out.len() + 1, src[st..i].trim().to_string());
                }
            }
            b'%' | b'@' => {
                i += 1;
                let name = if s[i] == b'"' { String::from_utf8_lossy(&quoted(&mut i)).into_owned() } else {
                    let st = i;
                    while i < s.len() && id(s[i]) { i += 1 }
                    src[st..i].to_string()
                };
                out.push(if c == b'%' { T::L(name) } else { T::G(name) });
            }
            b'"' => {
                let q = quoted(&mut i);
                if i < s.len() && s[i] == b':' && bol_label(&out) { out.push(T::Label(String::from_utf8_lossy(&q).into_owned())); i += 1 }
                else if matches!(out.last(), Some(T::W(w)) if w == "asm" || w == "sideeffect") { out.push(T::S(q)) } else { out.push(T::Q) }
            }
            b'!' => {
                i += 1;
                while i < s.len() && (id(s[i]) || s[i] == b'\\') { i += 1 }
                out.push(T::Meta)
            }
            b'#' => { let st = i + 1; i += 1; while i < s.len() && id(s[i]) { i += 1 } out.push(T::Attr(src[st..i].to_string())) }
            b'c' if s[i + 1] == b'"' => { i += 1; let q = quoted(&mut i); out.push(T::S(q)) }
            _ if id(c) => {
                let st = i;
                while i < s.len() && id(s[i]) { i += 1 }
                let w = src[st..i].to_string();
                if i < s.len() && s[i] == b':' && bol { i += 1; out.push(T::Label(w)) } else { out.push(T::W(w)) }
            }
            _ => { out.push(T::P(c as char)); i += 1 }
        }
    }
    out.push(T::Eof);
    (out, comments)
}
fn bol_label(out: &[T]) -> bool { matches!(out.last(), None | Some(T::Nl)) }

pub struct Parser<'a> {
    t: Vec<T>, i: usize, comments: HashMap<usize, String>,
    prog: &'a mut Program, modno: usize, local: HashSet<String>,
    named: HashMap<String, Ty>,
    regs: HashMap<String, u32>, blocks: HashMap<String, u32>,
}

pub fn parse(prog: &mut Program, src: &str, modno: usize) -> Result<(), String> {
    let (t, comments) = lex(src);
    let mut p = Parser { t, i: 0, comments, prog, modno, local: HashSet::new(), named: HashMap::new(), regs: HashMap::new(), blocks: HashMap::new() };
    p.prescan();
    p.module()
}

impl<'a> Parser<'a> {
    fn pk(&self) -> &T { &self.t[self.i] }
    fn pk2(&self) -> &T { self.t.get(self.i + 1).unwrap_or(&T::Eof) }
    fn nx(&mut self) -> T { let t = self.t[self.i].clone(); self.i += 1; t }
    fn w(&self, s: &str) -> bool { matches!(self.pk(), T::W(x) if x == s) }
    fn p(&self, c: char) -> bool { *self.pk() == T::P(c) }
    fn eat(&mut self, c: char) -> bool { if self.p(c) { self.i += 1; true } else { false } }
    fn eatw(&mut self, s: &str) -> bool { if self.w(s) { self.i += 1; true } else { false } }
    fn line_end(&mut self) { while !matches!(self.pk(), T::Nl | T::Eof) { self.i += 1 } }
    fn err<X>(&self, m: &str) -> Result<X, String> {
        Err(format!("{} near {:?}", m, &self.t[self.i.saturating_sub(6)..(self.i + 6).min(self.t.len())]))
    }
    fn prescan(&mut self) {
        for k in 0..self.t.len() {
            match &self.t[k] {
                T::G(n) if self.t.get(k + 1) == Some(&T::P('=')) => {
                    if let Some(T::W(w)) = self.t.get(k + 2) { if w == "private" || w == "internal" { self.local.insert(n.clone()); } }
                }
                T::W(d) if d == "define" => {
                    let mut j = k + 1;
                    let mut priv_ = false;
                    while !matches!(self.t[j], T::G(_) | T::Nl | T::Eof) {
                        if let T::W(w) = &self.t[j] { if w == "private" || w == "internal" { priv_ = true } }
                        j += 1;
                    }
                    if let T::G(n) = &self.t[j] { if priv_ { self.local.insert(n.clone()); } }
                }
                // named types
                T::L(n) if matches!(self.t.get(k + 1), Some(T::P('='))) && matches!(self.t.get(k + 2), Some(T::W(w)) if w == "type") => {
                    self.named.insert(n.clone(), Ty::Other(n.clone()));
                }
                _ => {}
            }
        }
    }
    fn sym(&mut self, n: &str) -> u32 {
        let key = if self.local.contains(n) { format!("{}${}", self.modno, n) } else { n.to_string() };
        if let Some(&s) = self.prog.index.get(&key) { return s }
        let s = self.prog.syms.len() as u32;
        self.prog.syms.push(key.clone());
        self.prog.index.insert(key, s);
        s
    }
    fn is_type(&self) -> bool {
        match self.pk() {
            T::W(w) => w == "ptr" || w == "void" || w == "float" || w == "double" || w == "half" || w == "fp128" || w == "x86_fp80" || w == "label" || w == "metadata" || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit())),
            T::P(c) => *c == '{' || *c == '[' || *c == '<',
            T::L(n) => self.named.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> Result<Ty, String> {
        let t = match self.nx() {
            T::W(w) if w == "ptr" => {
                if self.w("addrspace") { self.i += 4 }
                Ty::Ptr
            }
            T::W(w) if w == "void" => Ty::Void,
            T::W(w) if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
            T::W(w) => Ty::Other(w),
            T::L(n) => self.named.get(&n).cloned().unwrap_or(Ty::Other(n)),
            T::P('{') => self.fields('}', false)?,
            T::P('[') => self.array(']')?,
            T::P('<') => {
                if self.eat('{') { let s = self.fields('}', true)?; if !self.eat('>') { return self.err("expected >") } s }
                else { let a = self.array('>')?; Ty::Other(format!("vector {:?}", a)) }
            }
            _ => { self.i -= 1; return self.err("type expected") }
        };
        Ok(t)
    }
    fn fields(&mut self, close: char, packed: bool) -> Result<Ty, String> {
        let mut v = vec![];
        if self.eat(close) { return Ok(Ty::Struct(v, packed)) }
        loop {
            v.push(self.ty()?);
            if self.eat(close) { return Ok(Ty::Struct(v, packed)) }
            if !self.eat(',') { return self.err("expected , in a type") }
        }
    }
    fn array(&mut self, close: char) -> Result<Ty, String> {
        let T::W(n) = self.nx() else { return self.err("array length") };
        if !self.eatw("x") { return self.err("expected x") }
        let t = self.ty()?;
        if !self.eat(close) { return self.err("array close") }
        Ok(Ty::Arr(n.parse().map_err(|_| "array length".to_string())?, Box::new(t)))
    }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.nx() {
                T::P('(') => d += 1,
                T::P(')') => { d -= 1; if d == 0 { return } }
                T::Eof => return,
                _ => {}
            }
        }
    }
    /// attributes between a type and its value
    fn attrs(&mut self) {
        loop {
            match self.pk().clone() {
                T::Attr(_) | T::Q => { self.i += 1; if self.eat('=') { self.i += 1 } }
                T::W(w) => {
                    if w == "align" { self.i += 1; if self.p('(') { self.skip_parens() } else { self.i += 1 } continue }
                    if self.value_word(&w) { return }
                    self.i += 1;
                    if self.p('(') { self.skip_parens() }
                }
                _ => return,
            }
        }
    }
    fn value_word(&self, w: &str) -> bool {
        matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "add" | "sub" | "mul" | "xor" | "splat" | "trunc" | "none" | "asm" | "blockaddress" | "dso_local_equivalent" | "no_cfi" | "addrspacecast")
            || w.bytes().next().map_or(false, |b| b.is_ascii_digit() || b == b'-')
    }
    fn constant(&mut self, ty: &Ty) -> Result<Const, String> {
        Ok(match self.nx() {
            T::W(w) => match w.as_str() {
                "true" => Const::Int(1),
                "false" => Const::Int(0),
                "null" | "none" => Const::Int(0),
                "undef" | "poison" => Const::Undef,
                "zeroinitializer" => Const::Zero,
                "getelementptr" => {
                    while !self.p('(') { self.i += 1; if self.p('(') && matches!(self.t[self.i - 1], T::W(ref x) if x == "inrange") { self.skip_parens() } }
                    self.i += 1;
                    let t = self.ty()?;
                    if !self.eat(',') { return self.err("gep constant") }
                    let bt = self.ty()?;
                    let base = self.constant(&bt)?;
                    let mut off = 0i64;
                    let mut cur = t;
                    let mut first = true;
                    while self.eat(',') {
                        self.eatw("inrange");
                        let it = self.ty()?;
                        let Const::Int(k) = self.constant(&it)? else { return Ok(Const::Bad("gep".into())) };
                        let k = crate::expr::sx(k, it.width()) as i64;
                        if first { off += k * cur.size() as i64; first = false } else {
                            match cur.clone() {
                                Ty::Arr(_, e) => { off += k * e.size() as i64; cur = *e }
                                Ty::Struct(ts, _) => { off += cur.offsets()[k as usize] as i64; cur = ts[k as usize].clone() }
                                _ => return Ok(Const::Bad("gep".into())),
                            }
                        }
                    }
                    if !self.eat(')') { return self.err("gep constant )") }
                    match base { Const::Sym(s, o) => Const::Sym(s, o + off), Const::Int(b) => Const::Int((b as i64 + off) as u64 as N), _ => Const::Bad("gep base".into()) }
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "addrspacecast" => {
                    if !self.eat('(') { return self.err("cast constant") }
                    let t = self.ty()?;
                    let c = self.constant(&t)?;
                    self.eatw("to");
                    self.ty()?;
                    if !self.eat(')') { return self.err("cast constant )") }
                    c
                }
                "add" | "sub" | "mul" | "xor" | "trunc" => {
                    while matches!(self.pk(), T::W(w) if matches!(w.as_str(), "nuw" | "nsw")) { self.i += 1 }
                    if !self.eat('(') { return self.err("constant expression") }
                    let num = |c: Const| match c { Const::Int(x) => Some(x), Const::Zero => Some(0), Const::Sym(s, o) => Some((addr(s) as i64 + o) as u64 as N), _ => None };
                    let t = self.ty()?;
                    let x = self.constant(&t)?;
                    if w == "trunc" { self.eatw("to"); let u = self.ty()?; if !self.eat(')') { return self.err("constant expression )") } return Ok(match num(x) { Some(x) => Const::Int(x & crate::expr::mask(u.width())), None => Const::Bad(w) }) }
                    if !self.eat(',') { return self.err("constant expression ,") }
                    let u = self.ty()?;
                    let y = self.constant(&u)?;
                    if !self.eat(')') { return self.err("constant expression )") }
                    match (num(x), num(y)) {
                        (Some(x), Some(y)) => Const::Int(match w.as_str() { "add" => x.wrapping_add(y), "sub" => x.wrapping_sub(y), "mul" => x.wrapping_mul(y), _ => x ^ y } & crate::expr::mask(t.width())),
                        _ => Const::Bad(w),
                    }
                }
                "splat" | "blockaddress" | "dso_local_equivalent" | "no_cfi" | "asm" => {
                    while !self.p('(') && !matches!(self.pk(), T::Nl) { self.i += 1 }
                    if self.p('(') { self.skip_parens() }
                    Const::Bad(format!("constant expression {}", w))
                }
                _ => {
                    if let Ok(x) = w.parse::<i128>() {
                        let wd = match ty { Ty::Int(n) => *n, _ => 64 };
                        if wd > 128 {
                            // keep the bytes
                            let b = x.to_le_bytes();
                            Const::Bytes(b[..(wd as usize + 7) / 8].to_vec())
                        } else { Const::Int(x as N & crate::expr::mask(wd as u8)) }
                    } else { Const::Bad(w) }
                }
            },
            T::G(n) => { let s = self.sym(&n); Const::Sym(s, 0) }
            T::S(b) => Const::Bytes(b),
            T::P('{') => Const::Agg(self.elems('}')?),
            T::P('[') => Const::Agg(self.elems(']')?),
            T::P('<') => {
                if self.eat('{') { let e = self.elems('}')?; self.eat('>'); Const::Agg(e) }
                else { let _ = self.elems('>')?; Const::Bad("vector".into()) }
            }
            _ => { self.i -= 1; return self.err("constant expected") }
        })
    }
    fn elems(&mut self, close: char) -> Result<Vec<(Ty, Const)>, String> {
        let mut v = vec![];
        if self.eat(close) { return Ok(v) }
        loop {
            let t = self.ty()?;
            let c = self.constant(&t)?;
            v.push((t, c));
            if self.eat(close) { return Ok(v) }
            if !self.eat(',') { return self.err("aggregate") }
        }
    }
    pub fn to_val(ty: &Ty, c: &Const) -> Result<Val, String> {
        Ok(match (ty, c) {
            (Ty::Struct(ts, _), Const::Zero) => Val::A(Rc::new(ts.iter().map(|t| Self::to_val(t, &Const::Zero)).collect::<Result<_, _>>()?)),
            (Ty::Struct(ts, _), Const::Undef) => Val::A(Rc::new(ts.iter().map(|t| Self::to_val(t, &Const::Undef)).collect::<Result<_, _>>()?)),
            (Ty::Arr(n, t), Const::Zero | Const::Undef) => { let v = Self::to_val(t, c)?; Val::A(Rc::new(vec![v; *n as usize])) }
            (_, Const::Agg(v)) => Val::A(Rc::new(v.iter().map(|(t, c)| Self::to_val(t, c)).collect::<Result<_, _>>()?)),
            (Ty::Arr(..), Const::Bytes(b)) => Val::A(Rc::new(b.iter().map(|x| Val::V(V::C(*x as N))).collect())),
            (Ty::Int(w), _) if *w > 128 => match c {
                Const::Undef => Val::V(V::U),
                _ => return Err(format!("i{} constant", w)),
            },
            (Ty::Int(_) | Ty::Ptr, Const::Int(x)) => Val::V(V::C(*x)),
            (Ty::Int(_) | Ty::Ptr, Const::Zero) => Val::V(V::C(0)),
            (_, Const::Undef) => Val::V(V::U),
            (_, Const::Sym(s, o)) => Val::V(V::C((addr(*s) as i64 + o) as u64 as N)),
            (t, c) => return Err(format!("constant {:?} of type {:?}", c, t)),
        })
    }
    fn reg(&mut self, n: &str) -> u32 { let k = self.regs.len() as u32; *self.regs.entry(n.to_string()).or_insert(k) }
    fn blk(&mut self, n: &str) -> u32 { let k = self.blocks.len() as u32; *self.blocks.entry(n.to_string()).or_insert(k) }
    fn val(&mut self, ty: &Ty) -> Result<Opd, String> {
        if let T::L(n) = self.pk().clone() { self.i += 1; return Ok(Opd::R(self.reg(&n))) }
        let c = self.constant(ty)?;
        Ok(match Self::to_val(ty, &c) { Ok(v) => Opd::K(v), Err(m) => Opd::Bad(Rc::new(m)) })
    }
    fn tyval(&mut self) -> Result<(Ty, Opd), String> {
        let t = self.ty()?;
        self.attrs();
        let v = self.val(&t)?;
        Ok((t, v))
    }
    fn label(&mut self) -> Result<u32, String> {
        if !self.eatw("label") { return self.err("label") }
        let T::L(n) = self.nx() else { return self.err("label name") };
        Ok(self.blk(&n))
    }
    fn comma(&mut self) -> Result<(), String> { if self.eat(',') { Ok(()) } else { self.err("comma") } }

    fn module(&mut self) -> Result<(), String> {
        let mut attr_noreturn: HashSet<String> = HashSet::new();
        // attribute groups come last: scan for them first
        for k in 0..self.t.len() {
            if let (T::W(w), Some(T::Attr(n))) = (&self.t[k], self.t.get(k + 1)) {
                if w == "attributes" {
                    let mut j = k;
                    while !matches!(self.t[j], T::Nl | T::Eof) { if matches!(&self.t[j], T::W(x) if x == "noreturn") { attr_noreturn.insert(n.clone()); } j += 1 }
                }
            }
        }
        loop {
            let at = self.i;
            match self.nx() {
                T::Eof => return Ok(()),
                T::Nl => {}
                T::L(n) if self.p('=') && matches!(self.pk2(), T::W(w) if w == "type") => {
                    self.i += 2;
                    let t = if self.w("opaque") { self.i += 1; Ty::Other(n.clone()) } else { self.ty()? };
                    self.named.insert(n, t);
                    self.line_end();
                }
                T::G(n) if self.p('=') => {
                    self.i += 1;
                    let mut external = false;
                    let mut alias = false;
                    while let T::W(w) = self.pk().clone() {
                        if self.is_type() { break }
                        if w == "external" || w == "extern_weak" { external = true }
                        if w == "alias" || w == "ifunc" { alias = true }
                        self.i += 1;
                        if self.p('(') { self.skip_parens() }
                        if w == "global" || w == "constant" { break }
                    }
                    let s = self.sym(&n);
                    if alias { self.line_end(); continue }
                    let t = self.ty()?;
                    if external { self.prog.globals.entry(s).or_insert(Global { size: t.size(), init: None }); }
                    else {
                        let c = self.constant(&t)?;
                        let known = matches!(self.prog.globals.get(&s), Some(g) if g.init.is_some());
                        if !known { self.prog.globals.insert(s, Global { size: t.size(), init: Some((t, c)) }); }
                    }
                    self.line_end();
                }
                T::W(w) if w == "declare" => {
                    let mut j = self.i;
                    let mut name = None;
                    let mut nr = false;
                    while !matches!(self.t[j], T::Nl | T::Eof) {
                        match &self.t[j] {
                            T::G(n) if name.is_none() => name = Some(n.clone()),
                            T::Attr(a) if attr_noreturn.contains(a) => nr = true,
                            _ => {}
                        }
                        j += 1;
                    }
                    let s = self.sym(&name.unwrap());
                    if nr { self.prog.noreturn.insert(s); }
                    self.i = j;
                }
                T::W(w) if w == "define" => {
                    let pretty = self.pretty(at);
                    let f = self.function(pretty)?;
                    let s = self.prog.index[&f.name];
                    self.prog.funcs.entry(s).or_insert(f);
                }
                _ => self.line_end(),
            }
        }
    }
    fn pretty(&self, at: usize) -> String {
        // the comment lines before a definition: "; path" then "; Function Attrs: ..."
        let mut k = at;
        let mut best = String::new();
        while k > 0 {
            if let Some(c) = self.comments.get(&k) { if !c.starts_with("Function Attrs") && !c.is_empty() { best = c.clone(); break } }
            if self.t[k - 1] != T::Nl { break }
            k -= 1;
        }
        if best.is_empty() { if let Some(c) = self.comments.get(&at) { if !c.starts_with("Function Attrs") { best = c.clone() } } }
        best
    }
    fn function(&mut self, pretty: String) -> Result<Func, String> {
        self.regs.clear();
        self.blocks.clear();
        // linkage and return attributes
        while !self.is_type() {
            if matches!(self.pk(), T::Eof | T::Nl) { return self.err("function type") }
            let al = self.w("align");
            self.i += 1;
            if al { self.i += 1 }
            if self.p('(') { self.skip_parens() }
        }
        self.ty()?;
        let T::G(name) = self.nx() else { return self.err("function name") };
        let s = self.sym(&name);
        if !self.eat('(') { return self.err("parameters") }
        let mut params = vec![];
        while !self.eat(')') {
            if self.p('.') || matches!(self.pk(), T::W(w) if w.starts_with("...")) { self.i += 1; continue }
            self.ty()?;
            self.attrs();
            let T::L(n) = self.nx() else { return self.err("parameter name") };
            params.push(self.reg(&n));
            self.eat(',');
        }
        // the body starts at '{' at the end of this line
        while !(self.p('{') && matches!(self.pk2(), T::Nl)) { self.i += 1 }
        self.i += 2;
        let mut blocks: Vec<Block> = vec![];
        let mut cur: Option<u32> = None;
        loop {
            match self.pk().clone() {
                T::Nl => { self.i += 1 }
                T::P('}') => { self.i += 1; break }
                T::Label(n) => {
                    self.i += 1;
                    cur = Some(self.blk(&n));
                }
                T::Eof => return self.err("end of file in a function"),
                _ => {
                    let b = match cur { Some(b) => b, None => { let b = self.blk("\u{1}entry"); cur = Some(b); b } };
                    let start = self.i;
                    let mut phi = None;
                    let ins = match self.instr(&mut phi) {
                        Ok(x) => x,
                        Err(m) => { self.i = start; Some(I::Bad(m)) }
                    };
                    self.line_end();
                    while blocks.len() <= b as usize { blocks.push(Block::default()) }
                    if let Some(p) = phi { blocks[b as usize].phis.push(p) }
                    if let Some(x) = ins { blocks[b as usize].code.push(x) }
                }
            }
        }
        while blocks.len() < self.blocks.len() { blocks.push(Block::default()) }
        Ok(Func { name: self.prog.syms[s as usize].clone(), pretty, params, nregs: self.regs.len() as u32, blocks })
    }
    fn instr(&mut self, phi: &mut Option<(u32, Vec<(u32, Opd)>)>) -> Result<Option<I>, String> {
        let mut dst = None;
        if let (T::L(n), T::P('=')) = (self.pk().clone(), self.pk2().clone()) { self.i += 2; dst = Some(self.reg(&n)) }
        let T::W(mut op) = self.nx() else { return self.err("opcode") };
        while matches!(op.as_str(), "tail" | "musttail" | "notail") { let T::W(o) = self.nx() else { return self.err("opcode") }; op = o }
        let d = dst.unwrap_or(u32::MAX);
        let bin = |o: &str| Some(match o { "add" => B::Add, "sub" => B::Sub, "mul" => B::Mul, "udiv" => B::UDiv, "sdiv" => B::SDiv, "urem" => B::URem, "srem" => B::SRem, "and" => B::And, "or" => B::Or, "xor" => B::Xor, "shl" => B::Shl, "lshr" => B::LShr, "ashr" => B::AShr, _ => return None });
        if let Some(b) = bin(&op) {
            while matches!(self.pk(), T::W(w) if matches!(w.as_str(), "nuw" | "nsw" | "exact" | "disjoint")) { self.i += 1 }
            let t = self.ty()?;
            let x = self.val(&t)?;
            self.comma()?;
            let y = self.val(&t)?;
            if t.width() == 0 { return Ok(Some(I::Bad(format!("{} on {:?}", op, t)))) }
            return Ok(Some(I::Bin { op: b, w: t.width(), dst: d, a: x, b: y }));
        }
        Ok(Some(match op.as_str() {
            "alloca" => {
                let t = self.ty()?;
                let mut n = 1;
                if self.eat(',') { if self.is_type() { let (_, v) = self.tyval()?; match v { Opd::K(Val::V(V::C(x))) => n = x as u64, _ => return Ok(Some(I::Bad("alloca".into()))) } } }
                I::Alloca { dst: d, size: t.size() * n }
            }
            "load" => {
                while matches!(self.pk(), T::W(w) if matches!(w.as_str(), "volatile" | "atomic")) { self.i += 1 }
                let t = self.ty()?;
                self.comma()?;
                let (_, p) = self.tyval()?;
                I::Load { dst: d, ty: Rc::new(t), p }
            }
            "store" => {
                while matches!(self.pk(), T::W(w) if matches!(w.as_str(), "volatile" | "atomic")) { self.i += 1 }
                let (t, v) = self.tyval()?;
                self.comma()?;
                let (_, p) = self.tyval()?;
                I::Store { ty: Rc::new(t), v, p }
            }
            "getelementptr" => {
                while matches!(self.pk(), T::W(w) if matches!(w.as_str(), "inbounds" | "nuw" | "nusw")) { self.i += 1 }
                let mut cur = self.ty()?;
                self.comma()?;
                let (bt, base) = self.tyval()?;
                if bt != Ty::Ptr { return self.err("vector gep") }
                let mut off = 0i64;
                let mut terms = vec![];
                let mut first = true;
                while self.p(',') && !matches!(self.pk2(), T::Meta) {
                    self.i += 1;
                    let (it, v) = self.tyval()?;
                    let scale = if first { first = false; cur.size() } else {
                        match cur.clone() {
                            Ty::Arr(_, e) => { cur = *e; cur.size() }
                            Ty::Struct(ts, _) => {
                                let Opd::K(Val::V(V::C(k))) = v else { return self.err("struct index") };
                                off += cur.offsets()[k as usize] as i64;
                                cur = ts[k as usize].clone();
                                continue;
                            }
                            _ => return self.err("gep type"),
                        }
                    };
                    match v {
                        Opd::K(Val::V(V::C(k))) => off = off.wrapping_add((crate::expr::sx(k, it.width()) as i64).wrapping_mul(scale as i64)),
                        v => terms.push((v, it.width(), scale)),
                    }
                }
                I::Gep { dst: d, base, off, terms }
            }
            "icmp" => {
                self.eatw("samesign");
                let T::W(p) = self.nx() else { return self.err("predicate") };
                let p = match p.as_str() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle,
                    "samesign" => return self.err("predicate"), _ => return self.err("predicate") };
                let t = self.ty()?;
                let x = self.val(&t)?;
                self.comma()?;
                let y = self.val(&t)?;
                if t.width() == 0 { return Ok(Some(I::Bad(format!("icmp on {:?}", t)))) }
                I::Icmp { p, w: t.width(), dst: d, a: x, b: y }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                while matches!(self.pk(), T::W(w) if matches!(w.as_str(), "nneg" | "nuw" | "nsw")) { self.i += 1 }
                let (t, a) = self.tyval()?;
                if !self.eatw("to") { return self.err("to") }
                let u = self.ty()?;
                let (from, to) = (t.width(), u.width());
                if from == 0 || to == 0 { return Ok(Some(I::Bad(format!("{} {:?} to {:?}", op, t, u)))) }
                match op.as_str() {
                    "sext" => I::SExt { dst: d, from, to, a },
                    _ if to > from => I::ZExt { dst: d, from, to, a },
                    _ if to < from => I::Trunc { dst: d, from, to, a },
                    _ => I::Copy { dst: d, a },
                }
            }
            "freeze" => { let (_, a) = self.tyval()?; I::Freeze { dst: d, a } }
            "select" => {
                let (ct, c) = self.tyval()?;
                if ct != Ty::Int(1) { return self.err("vector select") }
                self.comma()?;
                let (t, a) = self.tyval()?;
                self.comma()?;
                let (_, b) = self.tyval()?;
                I::Select { dst: d, c, w: t.width(), ptr: t == Ty::Ptr, a, b }
            }
            "extractvalue" => {
                let (_, a) = self.tyval()?;
                I::Extract { dst: d, a, idx: self.indices()? }
            }
            "insertvalue" => {
                let (_, a) = self.tyval()?;
                self.comma()?;
                let (_, v) = self.tyval()?;
                I::Insert { dst: d, a, v, idx: self.indices()? }
            }
            "phi" => {
                let t = self.ty()?;
                let mut v = vec![];
                loop {
                    if !self.eat('[') { return self.err("phi") }
                    let x = self.val(&t)?;
                    self.comma()?;
                    let T::L(n) = self.nx() else { return self.err("phi label") };
                    let b = self.blk(&n);
                    v.push((b, x));
                    if !self.eat(']') { return self.err("phi ]") }
                    if !(self.p(',') && *self.pk2() == T::P('[')) { break }
                    self.i += 1;
                }
                *phi = Some((d, v));
                return Ok(None);
            }
            "br" => {
                if self.w("label") { I::Br(self.label()?) } else {
                    let (_, c) = self.tyval()?;
                    self.comma()?;
                    let a = self.label()?;
                    self.comma()?;
                    let b = self.label()?;
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyval()?;
                self.comma()?;
                let default = self.label()?;
                if !self.eat('[') { return self.err("switch") }
                let mut cases = vec![];
                loop {
                    while *self.pk() == T::Nl { self.i += 1 }
                    if self.eat(']') { break }
                    let (_, k) = self.tyval()?;
                    self.comma()?;
                    let l = self.label()?;
                    let Opd::K(Val::V(V::C(x))) = k else { return self.err("switch case") };
                    cases.push((x, l));
                }
                if t.width() == 0 { return Ok(Some(I::Bad("wide switch".into()))) }
                I::Switch { w: t.width(), v, default, cases }
            }
            "ret" => { if self.w("void") { I::Ret(None) } else { let (_, v) = self.tyval()?; I::Ret(Some(v)) } }
            "unreachable" => I::Unreachable,
            "resume" => I::Resume,
            "landingpad" => {
                self.ty()?;
                self.line_end();
                let mut abort = false;
                loop {
                    // clauses on the following lines
                    let save = self.i;
                    while *self.pk() == T::Nl { self.i += 1 }
                    if self.w("cleanup") || self.w("catch") { self.line_end() }
                    else if self.w("filter") { abort = true; self.line_end() }
                    else { self.i = save; break }
                }
                I::LandingPad { dst: d, abort }
            }
            "call" | "invoke" => {
                // calling convention, return attributes
                while !self.is_type() {
                    if matches!(self.pk(), T::Nl | T::Eof) { return self.err("call type") }
                    let al = self.w("align");
                    self.i += 1;
                    if al { self.i += 1 }
                    if self.p('(') { self.skip_parens() }
                }
                let _ret = self.ty()?;
                if self.p('(') { self.skip_parens() } // function type
                let f = match self.nx() {
                    T::G(n) => {
                        if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n.starts_with("llvm.donothing") {
                            if op == "call" { return Ok(None) }
                        }
                        Callee::Fn(self.sym(&n))
                    }
                    T::L(n) => Callee::Ind(Opd::R(self.reg(&n))),
                    T::W(w) if w == "asm" => {
                        // an empty template (black_box) does nothing
                        while !matches!(self.pk(), T::S(_) | T::Nl | T::Eof) { self.i += 1 }
                        if op == "call" && _ret == Ty::Void && matches!(self.pk(), T::S(s) if s.is_empty()) { return Ok(None) }
                        return Ok(Some(I::Bad("inline assembly".into())));
                    }
                    _ => return self.err("callee"),
                };
                if !self.eat('(') { return self.err("arguments") }
                let mut args = vec![];
                while !self.eat(')') {
                    if self.w("metadata") { let mut depth = 0; loop { match self.pk() { T::P('(') => depth += 1, T::P(')') if depth == 0 => break, T::P(')') => depth -= 1, T::P(',') if depth == 0 => break, _ => {} } self.i += 1 } }
                    else {
                        let t = self.ty()?;
                        self.attrs();
                        let v = self.val(&t)?;
                        args.push((v, if t == Ty::Ptr { 0 } else { t.width() }));
                    }
                    self.eat(',');
                }
                let mut inv = None;
                let mut noreturn = false;
                if op == "invoke" {
                    while !self.w("to") { if matches!(self.pk(), T::Eof) { return self.err("invoke") } self.i += 1 }
                    self.i += 1;
                    let a = self.label()?;
                    if !self.eatw("unwind") { return self.err("unwind") }
                    let b = self.label()?;
                    inv = Some((a, b));
                } else {
                    let mut j = self.i;
                    while !matches!(self.t[j], T::Nl | T::Eof) { if matches!(&self.t[j], T::W(x) if x == "noreturn") { noreturn = true } j += 1 }
                }
                I::Call { dst, f, args, inv, noreturn }
            }
            o => I::Bad(format!("instruction {}", o)),
        }))
    }
    fn indices(&mut self) -> Result<Vec<usize>, String> {
        let mut v = vec![];
        while self.p(',') && matches!(self.pk2(), T::W(w) if w.bytes().all(|b| b.is_ascii_digit())) {
            self.i += 1;
            let T::W(k) = self.nx() else { unreachable!() };
            v.push(k.parse().unwrap());
        }
        if v.is_empty() { return self.err("indices") }
        Ok(v)
    }
}
