//! Hash-consed bit-vector expressions (width <= 128), folding, evaluation under
//! a model and translation to Z3.
use crate::z3::*;
use std::collections::HashMap;
use std::time::Instant;

pub type E = u32;
pub type N = u128;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum V { C(N), S(E), U } // constant, symbolic, undefined (uninitialised or poison)

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op { Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
              Eq, Ult, Ule, Slt, Sle, Ite, ZExt, SExt, Extract, Concat }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u8, pub a: V, pub b: V, pub c: V, pub wa: u8 }

pub fn mask(w: u8) -> N { if w >= 128 { !0 } else { (1 << w) - 1 } }
pub fn sx(v: N, w: u8) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

pub struct Model { pub vals: Vec<u64>, id: u64 }
static IDS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
impl Model {
    pub fn new(vals: Vec<u64>) -> Model { Model { vals, id: IDS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) } }
    pub fn copy(&self) -> Model { Model::new(self.vals.clone()) }
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    bits: Vec<(N, N)>, // known bits: mask, value
    memo: Vec<(u64, N)>, // model, value under it
    table: HashMap<Node, E>,
    pub z: P, pub solver: P,
    bv: Vec<P>, bl: Vec<P>,
    pub queries: u64, pub unsat: u64, pub solver_ns: u128,
    pub depth: usize,
    pub widths: Vec<u8>, // of the variables
}
unsafe impl Send for Ctx {}
extern "C" fn on_error(_: P, code: u32) { eprintln!("z3 error {}", code); std::process::abort() }

pub fn fold(op: Op, w: u8, wa: u8, a: N, b: N, c: N) -> Option<N> {
    let m = mask(w);
    Some(match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x >= 0 { m } else { 1 } } else { x.wrapping_div(y) as N & m } }
        Op::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as N & m } }
        Op::And => a & b, Op::Or => a | b, Op::Xor => a ^ b,
        Op::Shl => if b >= w as N { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as N { 0 } else { a >> b },
        Op::AShr => { let s = if b >= w as N { w as N - 1 } else { b }; (sx(a, w) >> s) as N & m }
        Op::Eq => (a == b) as N,
        Op::Ult => (a < b) as N, Op::Ule => (a <= b) as N,
        Op::Slt => (sx(a, wa) < sx(b, wa)) as N, Op::Sle => (sx(a, wa) <= sx(b, wa)) as N,
        Op::Ite => if a & 1 == 1 { b } else { c },
        Op::ZExt => a, Op::SExt => sx(a, wa) as N & m,
        Op::Extract => (a >> b) & m, // b = low bit
        Op::Concat => a << (w - wa) | b, // wa = width of a (high part)
        Op::Var => return None,
    })
}

impl Ctx {
    pub fn new() -> Ctx {
        unsafe {
            let cfg = Z3_mk_config();
            let z = Z3_mk_context(cfg);
            Z3_set_error_handler(z, Some(on_error));
            let solver = Z3_mk_simple_solver(z);
            Z3_solver_inc_ref(z, solver);
            // a query without an answer in time makes the run inconclusive
            let par = Z3_mk_params(z);
            Z3_params_inc_ref(z, par);
            Z3_params_set_uint(z, par, Z3_mk_string_symbol(z, b"timeout\0".as_ptr() as *const _), 60_000);
            Z3_solver_set_params(z, solver, par);
            Ctx { nodes: vec![], bits: vec![], memo: vec![], table: HashMap::new(), z, solver, bv: vec![], bl: vec![], queries: 0, unsat: 0, solver_ns: 0, depth: 0, widths: vec![] }
        }
    }
    pub fn w(&self, e: E) -> u8 { self.nodes[e as usize].w }
    pub fn var(&mut self, k: usize, w: u8) -> V {
        if self.widths.len() <= k { self.widths.resize(k + 1, 0) }
        assert!(self.widths[k] == 0 || self.widths[k] == w || true);
        self.widths[k] = w;
        self.intern(Node { op: Op::Var, w, a: V::C(k as N), b: V::U, c: V::U, wa: 0 })
    }
    fn known(&self, v: V) -> (N, N) {
        match v { V::C(x) => (!0, x), V::S(e) => self.bits[e as usize], V::U => (0, 0) }
    }
    fn intern(&mut self, n: Node) -> V {
        if let Some(&e) = self.table.get(&n) { return V::S(e) }
        let m = mask(n.w);
        let (ka, va) = self.known(n.a);
        let (kb, vb) = self.known(n.b);
        let (k, v) = match n.op {
            Op::And => { let k = (ka & kb) | (ka & !va) | (kb & !vb); (k, va & vb) }
            Op::Or => { let k = (ka & kb) | (ka & va) | (kb & vb); (k, va | vb) }
            Op::Xor => (ka & kb, va ^ vb),
            Op::Shl => match n.b { V::C(s) if s < 128 => ((ka << s) | (((1 as N) << s) - 1), va << s), _ => (0, 0) },
            Op::LShr => match n.b { V::C(s) if s < 128 => { let kk = ka | !mask(n.w); ((kk >> s) | !((!0 as N) >> s), (va & m) >> s) } _ => (0, 0) },
            Op::ZExt => (ka | !mask(n.wa), va & mask(n.wa)),
            Op::Extract => match n.b { V::C(s) => (ka >> s, va >> s), _ => (0, 0) },
            Op::Concat => { let lw = n.w - n.wa; ((ka << lw) | (kb & mask(lw)), (va << lw) | (vb & mask(lw))) }
            Op::Ite => { let (kc, vc) = self.known(n.c); (kb & kc & !(vb ^ vc), vb) }
            _ => (0, 0),
        };
        let k = k & m;
        let v = v & k;
        if k == m { return V::C(v) }
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.bits.push((k, v));
        self.memo.push((0, 0));
        self.bv.push(std::ptr::null_mut());
        self.bl.push(std::ptr::null_mut());
        self.table.insert(n, e);
        V::S(e)
    }
    /// wa: width of the first operand where it differs from w
    pub fn mk(&mut self, op: Op, w: u8, wa: u8, a: V, b: V, c: V) -> V {
        let is = |v: V, x: N| v == V::C(x);
        let m = mask(w);
        match op {
            Op::Ite => {
                match a { V::C(x) => return if x & 1 == 1 { b } else { c }, V::U => return V::U, _ => {} }
                if b == c { return b }
                if b == V::U || c == V::U { return V::U }
                if w == 1 {
                    if is(b, 1) && is(c, 0) { return a }
                    if is(b, 0) && is(c, 1) { return self.not(a) }
                    if is(b, 1) { return self.mk(Op::Or, 1, 1, a, c, V::U) }
                    if is(c, 0) { return self.mk(Op::And, 1, 1, a, b, V::U) }
                    if is(b, 0) { let n = self.not(a); return self.mk(Op::And, 1, 1, n, c, V::U) }
                    if is(c, 1) { let n = self.not(a); return self.mk(Op::Or, 1, 1, n, b, V::U) }
                }
                return self.intern(Node { op, w, a, b, c, wa: 1 });
            }
            Op::ZExt | Op::SExt | Op::Extract => {
                if a == V::U { return V::U }
                if let V::C(x) = a { let s = if let V::C(s) = b { s } else { 0 }; return V::C(fold(op, w, wa, x, s, 0).unwrap()) }
                if let V::S(e) = a {
                    let n = self.nodes[e as usize];
                    if op == Op::Extract {
                        let V::C(lo) = b else { unreachable!() };
                        if lo == 0 && n.w == w { return a }
                        match n.op {
                            Op::Extract => { let V::C(l2) = n.b else { unreachable!() }; return self.mk(Op::Extract, w, n.wa, n.a, V::C(lo + l2), V::U) }
                            Op::Concat => {
                                let lw = n.w - n.wa;
                                if lo as u8 >= lw { return self.extract(n.a, n.wa, lo as u8 - lw, w) }
                                if lo as u8 + w <= lw { return self.extract(n.b, lw, lo as u8, w) }
                            }
                            Op::ZExt => {
                                if lo as u8 >= n.wa { return V::C(0) }
                                if lo as u8 + w <= n.wa { return self.extract(n.a, n.wa, lo as u8, w) }
                            }
                            _ => {}
                        }
                    }
                    if op == Op::ZExt && n.op == Op::ZExt { return self.mk(Op::ZExt, w, n.wa, n.a, V::U, V::U) }
                }
                return self.intern(Node { op, w, a, b, c: V::U, wa });
            }
            _ => {}
        }
        if a == V::U || b == V::U { return V::U }
        if let (V::C(x), V::C(y)) = (a, b) { return V::C(fold(op, w, wa, x, y, 0).unwrap()) }
        match op {
            Op::Add | Op::Or | Op::Xor => { if is(a, 0) { return b } if is(b, 0) { return a } }
            Op::Sub | Op::Shl | Op::LShr | Op::AShr => if is(b, 0) { return a },
            Op::And => { if is(a, m) { return b } if is(b, m) { return a } if is(a, 0) || is(b, 0) { return V::C(0) } }
            Op::Mul => { if is(a, 1) { return b } if is(b, 1) { return a } if is(a, 0) || is(b, 0) { return V::C(0) } }
            Op::UDiv => if is(b, 1) { return a },
            _ => {}
        }
        if a == b {
            match op {
                Op::Eq | Op::Ule | Op::Sle => return V::C(1),
                Op::Ult | Op::Slt | Op::Xor | Op::Sub => return V::C(0),
                Op::And | Op::Or => return a,
                _ => {}
            }
        }
        if op == Op::Or && (is(a, m) || is(b, m)) { return V::C(m) }
        if op == Op::Xor && w == 1 && is(b, 1) {
            if let V::S(e) = a { let n = self.nodes[e as usize]; if n.op == Op::Xor && n.b == V::C(1) { return n.a } }
        }
        if op == Op::Eq && wa == 1 {
            if is(b, 1) { return a }
            if is(b, 0) { return self.not(a) }
        }
        // comparison of (ite c k1 k2) with a constant
        if matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) {
            if let (V::S(e), V::C(_)) = (a, b) {
                let n = self.nodes[e as usize];
                if n.op == Op::Ite && (matches!(n.b, V::C(_)) || matches!(n.c, V::C(_))) {
                    let x = self.mk(op, 1, wa, n.b, b, V::U);
                    let y = self.mk(op, 1, wa, n.c, b, V::U);
                    return self.mk(Op::Ite, 1, 1, n.a, x, y);
                }
            }
            if let (V::C(_), V::S(e)) = (a, b) {
                let n = self.nodes[e as usize];
                if n.op == Op::Ite && (matches!(n.b, V::C(_)) || matches!(n.c, V::C(_))) {
                    let x = self.mk(op, 1, wa, a, n.b, V::U);
                    let y = self.mk(op, 1, wa, a, n.c, V::U);
                    return self.mk(Op::Ite, 1, 1, n.a, x, y);
                }
            }
            // known bits decide equality with a different value
            if op == Op::Eq {
                let (ka, va) = self.known(a);
                let (kb, vb) = self.known(b);
                if (va ^ vb) & ka & kb & mask(wa) != 0 { return V::C(0) }
            }
        }
        let (a, b) = match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq => match (a, b) {
                (V::C(_), _) => (b, a),
                (V::S(x), V::S(y)) if x > y => (b, a),
                _ => (a, b),
            },
            _ => (a, b),
        };
        self.intern(Node { op, w, a, b, c: V::U, wa })
    }
    pub fn not(&mut self, a: V) -> V { self.mk(Op::Xor, 1, 1, a, V::C(1), V::U) }
    pub fn extract(&mut self, a: V, wa: u8, lo: u8, w: u8) -> V { self.mk(Op::Extract, w, wa, a, V::C(lo as N), V::U) }
    pub fn concat(&mut self, hi: V, whi: u8, lo: V, wlo: u8) -> V {
        if hi == V::U || lo == V::U { return V::U }
        // extract(e, k+wlo..) ++ extract(e, k..) = extract(e, k..)
        if let (V::S(h), V::S(l)) = (hi, lo) {
            let (x, y) = (self.nodes[h as usize], self.nodes[l as usize]);
            if x.op == Op::Extract && y.op == Op::Extract && x.a == y.a {
                if let (V::C(xl), V::C(yl)) = (x.b, y.b) {
                    if xl == yl + wlo as N { return self.extract(x.a, x.wa, yl as u8, whi + wlo) }
                }
            }
        }
        if let (V::C(h), V::C(l)) = (hi, lo) { return V::C(h << wlo | l) }
        self.intern(Node { op: Op::Concat, w: whi + wlo, a: hi, b: lo, c: V::U, wa: whi })
    }
    pub fn eval(&mut self, v: V, m: &Model) -> N {
        match v {
            V::C(x) => x,
            V::U => 0,
            V::S(e) => {
                let e = e as usize;
                if self.memo[e].0 == m.id { return self.memo[e].1 }
                let n = self.nodes[e];
                let r = if n.op == Op::Var {
                    let V::C(k) = n.a else { unreachable!() };
                    m.vals.get(k as usize).copied().unwrap_or(0) as N & mask(n.w)
                } else if n.op == Op::Ite {
                    if self.eval(n.a, m) & 1 == 1 { self.eval(n.b, m) } else { self.eval(n.c, m) }
                } else {
                    let a = self.eval(n.a, m);
                    let b = if n.b == V::U { 0 } else { self.eval(n.b, m) };
                    fold(n.op, n.w, n.wa, a, b, 0).unwrap()
                };
                self.memo[e] = (m.id, r);
                r
            }
        }
    }
    unsafe fn numeral(&self, v: N, w: u8) -> P {
        let v = v & mask(w);
        if w <= 64 { return Z3_mk_unsigned_int64(self.z, v as u64, Z3_mk_bv_sort(self.z, w as u32)) }
        let hi = Z3_mk_unsigned_int64(self.z, (v >> 64) as u64, Z3_mk_bv_sort(self.z, w as u32 - 64));
        Z3_mk_concat(self.z, hi, Z3_mk_unsigned_int64(self.z, v as u64, Z3_mk_bv_sort(self.z, 64)))
    }
    unsafe fn bv(&mut self, v: V, w: u8) -> P {
        let e = match v { V::C(x) => return self.numeral(x, w), V::U => panic!("undefined value in a query"), V::S(e) => e as usize };
        if !self.bv[e].is_null() { return self.bv[e] }
        let n = self.nodes[e];
        let z = self.z;
        let bin = |s: &mut Ctx, f: unsafe fn(P, P, P) -> P| { let a = s.bv(n.a, n.w); let b = s.bv(n.b, n.w); f(z, a, b) };
        let r = match n.op {
            Op::Var => {
                let V::C(k) = n.a else { unreachable!() };
                let name = std::ffi::CString::new(format!("v{}_{}", k, n.w)).unwrap();
                Z3_mk_const(z, Z3_mk_string_symbol(z, name.as_ptr()), Z3_mk_bv_sort(z, n.w as u32))
            }
            Op::Add => bin(self, Z3_mk_bvadd), Op::Sub => bin(self, Z3_mk_bvsub), Op::Mul => bin(self, Z3_mk_bvmul),
            Op::UDiv => bin(self, Z3_mk_bvudiv), Op::SDiv => bin(self, Z3_mk_bvsdiv),
            Op::URem => bin(self, Z3_mk_bvurem), Op::SRem => bin(self, Z3_mk_bvsrem),
            Op::And if n.w > 1 => bin(self, Z3_mk_bvand), Op::Or if n.w > 1 => bin(self, Z3_mk_bvor), Op::Xor if n.w > 1 => bin(self, Z3_mk_bvxor),
            Op::Shl => bin(self, Z3_mk_bvshl), Op::LShr => bin(self, Z3_mk_bvlshr), Op::AShr => bin(self, Z3_mk_bvashr),
            Op::Ite if n.w > 1 => { let c = self.bool(n.a); let a = self.bv(n.b, n.w); let b = self.bv(n.c, n.w); Z3_mk_ite(z, c, a, b) }
            Op::ZExt => { let a = self.bv(n.a, n.wa); Z3_mk_zero_ext(z, (n.w - n.wa) as u32, a) }
            Op::SExt => { let a = self.bv(n.a, n.wa); Z3_mk_sign_ext(z, (n.w - n.wa) as u32, a) }
            Op::Extract => { let V::C(lo) = n.b else { unreachable!() }; let a = self.bv(n.a, n.wa); Z3_mk_extract(z, lo as u32 + n.w as u32 - 1, lo as u32, a) }
            Op::Concat => { let a = self.bv(n.a, n.wa); let b = self.bv(n.b, n.w - n.wa); Z3_mk_concat(z, a, b) }
            _ => { let b = self.bool(V::S(e as E)); Z3_mk_ite(z, b, self.numeral(1, 1), self.numeral(0, 1)) }
        };
        self.bv[e] = r;
        r
    }
    /// a one-bit value as a Boolean
    unsafe fn bool(&mut self, v: V) -> P {
        let z = self.z;
        let e = match v { V::C(x) => return if x & 1 == 1 { Z3_mk_true(z) } else { Z3_mk_not(z, Z3_mk_true(z)) }, V::U => panic!("undefined value in a query"), V::S(e) => e as usize };
        if !self.bl[e].is_null() { return self.bl[e] }
        let n = self.nodes[e];
        let cmp = |s: &mut Ctx, f: unsafe fn(P, P, P) -> P| { let a = s.bv(n.a, n.wa); let b = s.bv(n.b, n.wa); f(z, a, b) };
        let r = match n.op {
            Op::Eq if n.wa == 1 => { let a = self.bool(n.a); let b = self.bool(n.b); Z3_mk_eq(z, a, b) }
            Op::Eq => cmp(self, Z3_mk_eq), Op::Ult => cmp(self, Z3_mk_bvult), Op::Ule => cmp(self, Z3_mk_bvule),
            Op::Slt => cmp(self, Z3_mk_bvslt), Op::Sle => cmp(self, Z3_mk_bvsle),
            Op::And => { let a = [self.bool(n.a), self.bool(n.b)]; Z3_mk_and(z, 2, a.as_ptr()) }
            Op::Or => { let a = [self.bool(n.a), self.bool(n.b)]; Z3_mk_or(z, 2, a.as_ptr()) }
            Op::Xor => { if n.b == V::C(1) { let a = self.bool(n.a); Z3_mk_not(z, a) } else { let a = self.bool(n.a); let b = self.bool(n.b); Z3_mk_xor(z, a, b) } }
            Op::Ite => { let c = self.bool(n.a); let a = self.bool(n.b); let b = self.bool(n.c); Z3_mk_ite(z, c, a, b) }
            _ => { let b = self.bv(V::S(e as E), 1); Z3_mk_eq(z, b, self.numeral(1, 1)) }
        };
        self.bl[e] = r;
        r
    }
    pub fn push(&mut self) { let t = Instant::now(); unsafe { Z3_solver_push(self.z, self.solver) } self.depth += 1; self.solver_ns += t.elapsed().as_nanos() }
    pub fn pop(&mut self, n: usize) { let t = Instant::now(); if n > 0 { unsafe { Z3_solver_pop(self.z, self.solver, n as u32) } self.depth -= n } self.solver_ns += t.elapsed().as_nanos() }
    pub fn assert(&mut self, c: V) { let t = Instant::now(); unsafe { let b = self.bool(c); Z3_solver_assert(self.z, self.solver, b) } self.solver_ns += t.elapsed().as_nanos() }
    /// Is the current set of assertions satisfiable? None: the solver gave up.
    pub fn check(&mut self) -> Option<Option<Model>> {
        let t = Instant::now();
        unsafe {
            let r = Z3_solver_check(self.z, self.solver);
            self.queries += 1;
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.z, self.solver);
                    Z3_model_inc_ref(self.z, m);
                    let mut vals = Vec::with_capacity(self.widths.len());
                    for k in 0..self.widths.len() {
                        let w = self.widths[k];
                        let mut v = 0u64;
                        if w > 0 {
                            let e = self.var(k, w);
                            let a = self.bv(e, w);
                            let mut o = std::ptr::null_mut();
                            if Z3_model_eval(self.z, m, a, true, &mut o) { Z3_get_numeral_uint64(self.z, o, &mut v); }
                        }
                        vals.push(v);
                    }
                    Z3_model_dec_ref(self.z, m);
                    Some(Some(Model::new(vals)))
                }
                -1 => { self.unsat += 1; Some(None) }
                _ => None,
            };
            self.solver_ns += t.elapsed().as_nanos();
            out
        }
    }
    /// Satisfiable together with `c`?
    pub fn check_with(&mut self, c: V) -> Option<Option<Model>> {
        match c { V::C(0) => return Some(None), _ => {} }
        self.push();
        self.assert(c);
        let r = self.check();
        self.pop(1);
        r
    }
}
impl Drop for Ctx { fn drop(&mut self) { unsafe { Z3_del_context(self.z) } } }
