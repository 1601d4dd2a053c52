//! Path-wise symbolic execution of the compiled program.
use crate::expr::*;
use crate::ir::{addr, Callee, Const, Func, Opd, Pred, Program, Ty, Val, B, I};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Prim {
    U8, U64, Fork, Depth, Assume, Cover, Check, Unwind, Try, MemCpy, MemSet, LlAssume, Expect, UMin, UMax, SMin, SMax, USubSat, UAddSat, SSubSat, SAddSat,
    UAddO, USubO, UMulO, SAddO, SSubO, SMulO, Ctpop, Ctlz, Cttz, Bswap, BitRev, UCmp, SCmp, Abs, Fshl, Fshr, Nop, Trap, Alloc, AllocZ, Realloc, Dealloc, Panic, Abort, PtrMask, IsConst, Bcmp, Unknown,
}
fn prim(name: &str, noreturn: bool) -> Prim {
    let ll = |p: &str| name.starts_with(&format!("llvm.{}.", p));
    match name {
        "lsx_u8" => return Prim::U8, "lsx_u64" => return Prim::U64, "lsx_fork" => return Prim::Fork, "lsx_depth" => return Prim::Depth, "lsx_assume" => return Prim::Assume, "lsx_cover" => return Prim::Cover,
        "lsx_check" => return Prim::Check, "lsx_unwind" => return Prim::Unwind, "lsx_try" => return Prim::Try,
        "llvm.assume" => return Prim::LlAssume, "llvm.trap" => return Prim::Trap,
        "memcpy" | "memmove" => return Prim::MemCpy, "memset" => return Prim::MemSet, "bcmp" | "memcmp" => return Prim::Bcmp,
        _ => {}
    }
    let table: &[(&str, Prim)] = &[("memcpy", Prim::MemCpy), ("memmove", Prim::MemCpy), ("memset", Prim::MemSet), ("expect", Prim::Expect), ("umin", Prim::UMin), ("umax", Prim::UMax), ("smin", Prim::SMin), ("smax", Prim::SMax),
        ("usub.sat", Prim::USubSat), ("uadd.sat", Prim::UAddSat), ("ssub.sat", Prim::SSubSat), ("sadd.sat", Prim::SAddSat), ("uadd.with.overflow", Prim::UAddO), ("usub.with.overflow", Prim::USubO), ("umul.with.overflow", Prim::UMulO),
        ("sadd.with.overflow", Prim::SAddO), ("ssub.with.overflow", Prim::SSubO), ("smul.with.overflow", Prim::SMulO), ("ctpop", Prim::Ctpop), ("ctlz", Prim::Ctlz), ("cttz", Prim::Cttz),
        ("bswap", Prim::Bswap), ("bitreverse", Prim::BitRev), ("ucmp", Prim::UCmp), ("scmp", Prim::SCmp), ("abs", Prim::Abs), ("fshl", Prim::Fshl), ("fshr", Prim::Fshr), ("lifetime", Prim::Nop), ("invariant", Prim::Nop), ("experimental.noalias", Prim::Nop),
        ("ptrmask", Prim::PtrMask), ("is.constant", Prim::IsConst)];
    for (p, k) in table { if ll(p) { return *k } }
    if name.contains("___rust_alloc_zeroed") { return Prim::AllocZ }
    if name.contains("___rust_no_alloc_shim") { return Prim::Nop }
    if name.contains("___rust_realloc") { return Prim::Realloc }
    if name.contains("___rust_dealloc") { return Prim::Dealloc }
    if name.contains("___rust_alloc") && !name.contains("error") { return Prim::Alloc }
    if name.contains("nounwind") || name.contains("cannot_unwind") || name.contains("in_cleanup") || name.contains("null_reference") || name.contains("misaligned") || name.contains("5abort") || name == "abort" { return Prim::Abort }
    if noreturn { return Prim::Panic }
    Prim::Unknown
}

pub enum Stop { End, Prune, Cut, Violation(String), Hang(String), Error(String), Timeout }
type R<X> = Result<X, Stop>;
fn viol<X>(m: impl Into<String>) -> R<X> { Err(Stop::Violation(m.into())) }
fn bad<X>(m: impl Into<String>) -> R<X> { Err(Stop::Error(m.into())) }

struct Ev { kind: Kind, scoped: bool, depth: usize }
enum Kind { Br(bool, Option<Model>), Assume, Conc(u64) }
#[derive(Clone, Copy)]
pub enum PEv { Br(bool, bool), Assume, Conc(u64) }
pub struct Job { pub harness: usize, pub prefix: Vec<PEv> }

#[derive(Default)]
pub struct Outcome {
    pub paths: u64, pub pruned: u64, pub steps: u64, pub queries: u64, pub unsat: u64, pub solver_ns: u128, pub branches: u64,
    pub covers: BTreeMap<String, bool>, pub checks: BTreeMap<String, u64>, pub functions: BTreeSet<String>,
    pub violation: Option<(String, Vec<String>, bool)>, pub error: Option<String>, pub timeout: bool, pub jobs: u64, pub max_vars: u64, pub max_steps: u64,
    pub finished_s: f64,
}
pub struct Shared {
    pub queue: Mutex<(Vec<Job>, usize)>, // jobs, busy workers
    pub cv: Condvar,
    pub hungry: AtomicUsize,
    pub results: Vec<Mutex<Outcome>>,
    pub stop: Vec<AtomicBool>,
    pub names: Vec<String>,
    pub start: Instant,
    pub deadline: Instant,
    pub step_limit: u64,
}

struct Obj { cells: Rc<Vec<V>>, alive: bool, ro: bool }
struct Frame { f: Rc<Func>, block: u32, ip: usize, prev: u32, regs: Vec<Val>, allocas: Vec<usize>, marker: bool }

pub struct Machine {
    funcs: Vec<Option<Rc<Func>>>,
    prims: Vec<Prim>,
    syms: Vec<String>,
    base: Vec<(Rc<Vec<V>>, bool, bool)>, // cells, alive, read-only
    ctx: Ctx,
    shared: Arc<Shared>,
    // path state
    objs: Vec<Obj>,
    frames: Vec<Frame>,
    events: Vec<Ev>, pos: usize, asserted: usize,
    model: Option<Model>,
    nvars: usize,
    pending: Vec<(V, String)>,
    steps: u64, branches: u64,
    covered: HashMap<String, bool>,
    checks: HashMap<String, u64>,
    seen: Vec<bool>,
    payload: u64, payload_msg: String,
    refuses: bool,
    harness: usize,
}

fn cells(ty: &Ty, c: &Const, out: &mut [V]) -> Result<(), String> {
    match (ty, c) {
        (_, Const::Zero) => out.iter_mut().for_each(|x| *x = V::C(0)),
        (_, Const::Undef) => {}
        (_, Const::Bytes(b)) => for (x, y) in out.iter_mut().zip(b) { *x = V::C(*y as N) },
        (Ty::Struct(..), Const::Agg(v)) => { let o = ty.offsets(); for (k, (t, c)) in v.iter().enumerate() { let s = t.size() as usize; cells(t, c, &mut out[o[k] as usize..o[k] as usize + s])? } }
        (Ty::Arr(..), Const::Agg(v)) => { let mut o = 0; for (t, c) in v { let s = t.size() as usize; cells(t, c, &mut out[o..o + s])?; o += s } }
        (_, Const::Int(x)) => for (k, y) in out.iter_mut().enumerate() { *y = V::C(if k < 16 { x >> (8 * k) & 255 } else { 0 }) },
        (_, Const::Sym(s, o)) => { let a = (addr(*s) as i64 + o) as u64 as N; for (k, y) in out.iter_mut().enumerate() { *y = V::C(a >> (8 * k) & 255) } }
        (t, c) => return Err(format!("{:?} {:?}", t, c)),
    }
    Ok(())
}

impl Machine {
    pub fn new(mut p: Program, shared: Arc<Shared>) -> Machine {
        let n = p.syms.len();
        let mut funcs: Vec<Option<Rc<Func>>> = (0..n).map(|_| None).collect();
        for (s, f) in p.funcs.drain() { funcs[s as usize] = Some(Rc::new(f)) }
        let prims = (0..n).map(|s| prim(&p.syms[s], p.noreturn.contains(&(s as u32)))).collect();
        let mut base = vec![(Rc::new(vec![]), false, true)];
        for s in 0..n {
            base.push(match p.globals.get(&(s as u32)) {
                Some(g) => {
                    let mut v = vec![V::U; g.size as usize];
                    let ok = match &g.init { Some((t, c)) => cells(t, c, &mut v).is_ok(), None => false };
                    (Rc::new(v), ok, false)
                }
                None => (Rc::new(vec![]), false, true),
            });
        }
        let nf = funcs.len();
        Machine { funcs, prims, syms: p.syms, base, ctx: Ctx::new(), shared, objs: vec![], frames: vec![], events: vec![], pos: 0, asserted: 0, model: None, nvars: 0, pending: vec![],
                  steps: 0, branches: 0, covered: HashMap::new(), checks: HashMap::new(), seen: vec![false; nf], payload: 0, payload_msg: String::new(), refuses: false, harness: usize::MAX }
    }
    pub fn find(&self, pretty: &str) -> Option<u32> {
        self.funcs.iter().position(|f| f.as_ref().map_or(false, |f| f.pretty == pretty || f.name == pretty)).map(|x| x as u32)
    }
    pub fn pretty_names(&self) -> Vec<String> { self.funcs.iter().flatten().map(|f| f.pretty.clone()).collect() }
    /// messages of the cover points reachable from a function in the call graph
    pub fn static_covers(&self, root: u32) -> BTreeSet<String> {
        let mut out = BTreeSet::new();
        let mut todo = vec![root];
        let mut seen = vec![false; self.funcs.len()];
        let mut visit = |v: &Val, todo: &mut Vec<u32>| if let Val::V(V::C(x)) = v { let s = (x >> 32) as usize; if x & 0xffff_ffff == 0 && s >= 1 && s <= self.funcs.len() && self.funcs[s - 1].is_some() { todo.push(s as u32 - 1) } };
        while let Some(s) = todo.pop() {
            if std::mem::replace(&mut seen[s as usize], true) { continue }
            let Some(f) = &self.funcs[s as usize] else { continue };
            for b in &f.blocks { for i in &b.code {
                match i {
                    I::Call { f, args, .. } => {
                        if let Callee::Fn(s) = f {
                            todo.push(*s);
                            if self.prims[*s as usize] == Prim::Cover && self.syms[*s as usize] == "lsx_cover" {
                                if let (Opd::K(Val::V(V::C(p))), Opd::K(Val::V(V::C(n)))) = (&args[1].0, &args[2].0) {
                                    let o = &self.base[(p >> 32) as usize].0;
                                    out.insert(o[..*n as usize].iter().map(|v| if let V::C(x) = v { *x as u8 as char } else { '?' }).collect());
                                }
                            }
                        }
                        for (a, w) in args { if let (Opd::K(v), 0) = (a, *w) { visit(v, &mut todo) } }
                    }
                    I::Store { ty, v: Opd::K(v), .. } if **ty == Ty::Ptr => visit(v, &mut todo),
                    _ => {}
                }
            } }
        }
        out
    }

    // ---- decisions ---------------------------------------------------------
    fn fresh(&self) -> bool { self.pos >= self.events.len() }
    fn need_model(&mut self) -> R<()> {
        if self.model.is_none() {
            match self.ctx.check() {
                Some(Some(m)) => self.model = Some(m),
                Some(None) => return Err(Stop::Prune),
                None => return bad("the solver gave up"),
            }
        }
        Ok(())
    }
    fn eval(&mut self, v: V) -> N { let m = self.model.as_ref().unwrap(); self.ctx.eval(v, m) }
    fn branch(&mut self, c: V) -> R<bool> {
        match c { V::C(x) => return Ok(x & 1 == 1), V::U => return viol("a decision depends on an uninitialised or undefined value"), V::S(_) => {} }
        if !self.fresh() {
            let k = self.pos;
            self.pos += 1;
            let Kind::Br(taken, _) = self.events[k].kind else { return bad("replay diverged") };
            if k >= self.asserted {
                if self.events[k].scoped {
                    let a = if taken { c } else { self.ctx.not(c) };
                    self.ctx.push();
                    self.ctx.assert(a);
                }
                self.asserted = k + 1;
            }
            return Ok(taken);
        }
        self.branches += 1;
        self.need_model()?;
        let side = self.eval(c) & 1 == 1;
        let nc = self.ctx.not(c);
        let (mine, other) = if side { (c, nc) } else { (nc, c) };
        let alt = match self.ctx.check_with(other) { None => return bad("the solver gave up"), Some(x) => x };
        let depth = self.ctx.depth;
        let scoped = alt.is_some();
        if scoped { self.ctx.push(); self.ctx.assert(mine) }
        self.events.push(Ev { kind: Kind::Br(side, alt), scoped, depth });
        self.pos = self.events.len();
        self.asserted = self.pos;
        Ok(side)
    }
    fn assume(&mut self, c: V) -> R<()> {
        match c { V::C(x) => return if x & 1 == 1 { Ok(()) } else { self.flush()?; Err(Stop::Cut) }, V::U => return viol("an assumption about an undefined value"), _ => {} }
        self.flush()?;
        if !self.fresh() {
            let k = self.pos;
            self.pos += 1;
            if !matches!(self.events[k].kind, Kind::Assume) { return bad("replay diverged") }
            if k >= self.asserted { self.ctx.assert(c); self.asserted = k + 1 }
            return Ok(());
        }
        self.need_model()?;
        if self.eval(c) & 1 == 0 {
            match self.ctx.check_with(c) {
                None => return bad("the solver gave up"),
                Some(None) => return Err(Stop::Cut),
                Some(Some(m)) => self.model = Some(m),
            }
        }
        self.ctx.assert(c);
        let depth = self.ctx.depth;
        self.events.push(Ev { kind: Kind::Assume, scoped: false, depth });
        self.pos = self.events.len();
        self.asserted = self.pos;
        Ok(())
    }
    fn concretise(&mut self, v: V, w: u8) -> R<u64> {
        let e = match v { V::C(x) => return Ok(x as u64), V::U => return viol("an address or length is an undefined value"), V::S(e) => e };
        loop {
            let x = if !self.fresh() {
                let Kind::Conc(x) = self.events[self.pos].kind else { return bad("replay diverged") };
                if self.pos >= self.asserted { self.asserted = self.pos + 1 }
                self.pos += 1;
                x
            } else {
                self.need_model()?;
                let x = self.eval(v) as u64;
                let depth = self.ctx.depth;
                self.events.push(Ev { kind: Kind::Conc(x), scoped: false, depth });
                self.pos = self.events.len();
                self.asserted = self.pos;
                x
            };
            let c = self.ctx.mk(Op::Eq, 1, w, V::S(e), V::C(x as N), V::U);
            if self.branch(c)? { return Ok(x) }
        }
    }
    fn flush(&mut self) -> R<()> {
        if self.pending.is_empty() { return Ok(()) }
        let p = std::mem::take(&mut self.pending);
        if !self.fresh() { return Ok(()) }
        let mut all = V::C(1);
        for (c, _) in &p { all = self.ctx.mk(Op::And, 1, 1, all, *c, V::U) }
        self.need_model()?;
        let mut found = None;
        if self.eval(all) & 1 == 0 { found = Some(self.model.as_ref().unwrap().copy()) }
        else {
            let n = self.ctx.not(all);
            match self.ctx.check_with(n) { None => return bad("the solver gave up"), Some(x) => found = x.or(found) }
        }
        if let Some(m) = found {
            let mut msg = String::new();
            for (c, t) in &p { if self.ctx.eval(*c, &m) & 1 == 0 { msg = t.clone(); break } }
            self.model = Some(m);
            return viol(msg);
        }
        Ok(())
    }
    fn check(&mut self, c: V, msg: String) -> R<()> {
        if self.fresh() { *self.checks.entry(msg.clone()).or_insert(0) += 1 }
        match c {
            V::C(x) if x & 1 == 1 => Ok(()),
            V::C(_) => viol(msg),
            V::U => viol(format!("{} (undefined value)", msg)),
            V::S(_) => { self.pending.push((c, msg)); Ok(()) }
        }
    }
    fn cover(&mut self, c: V, msg: String) -> R<()> {
        if !self.fresh() || self.covered.get(&msg).copied().unwrap_or(false) { return Ok(()) }
        if self.shared.results[self.harness].lock().unwrap().covers.get(&msg).copied().unwrap_or(false) { self.covered.insert(msg, true); return Ok(()) }
        let hit = match c {
            V::C(x) => x & 1 == 1,
            V::U => return viol("a cover point depends on an undefined value"),
            V::S(_) => { self.need_model()?; self.eval(c) & 1 == 1 || match self.ctx.check_with(c) { None => return bad("the solver gave up"), Some(x) => x.is_some() } }
        };
        if hit {
            self.covered.insert(msg.clone(), true);
            self.shared.results[self.harness].lock().unwrap().covers.insert(msg, true);
        }
        Ok(())
    }

    // ---- memory ------------------------------------------------------------
    fn new_obj(&mut self, size: u64) -> u64 {
        let id = self.objs.len() as u64;
        self.objs.push(Obj { cells: Rc::new(vec![V::U; size as usize]), alive: true, ro: false });
        id
    }
    fn place(&mut self, p: V, len: u64, write: bool) -> R<(usize, usize)> {
        let a = self.concretise(p, 64)?;
        let (id, off) = ((a >> 32) as usize, a & 0xffff_ffff);
        let what = if write { "write" } else { "read" };
        if id == 0 || id >= self.objs.len() { return viol(format!("{} of {} bytes through an invalid pointer {:#x}", what, len, a)) }
        let o = &self.objs[id];
        if !o.alive { return if id <= self.syms.len() { bad(format!("access to {}", self.syms[id - 1])) } else { viol(format!("{} of {} bytes of memory that is no longer alive", what, len)) } }
        if off + len > o.cells.len() as u64 { return viol(format!("{} of {} bytes at offset {} of an object of {} bytes", what, len, off as i32, o.cells.len())) }
        if write && o.ro { return viol("write to constant memory") }
        Ok((id, off as usize))
    }
    fn load(&mut self, ty: &Ty, p: V) -> R<Val> {
        match ty {
            Ty::Int(w) if *w > 64 => {
                let n = (*w as u64 + 7) / 8;
                let (id, off) = self.place(p, n, false)?;
                let cs = self.objs[id].cells[off..off + n as usize].to_vec();
                // with undefined bytes, or too wide to compute with: only moved around
                if *w > 128 || *w % 8 != 0 || cs.iter().any(|c| *c == V::U) { return Ok(Val::A(Rc::new(cs.into_iter().map(Val::V).collect()))) }
                let mut acc = cs[0];
                for (k, c) in cs.iter().enumerate().skip(1) { acc = self.ctx.concat(*c, 8, acc, 8 * k as u8) }
                Ok(Val::V(acc))
            }
            Ty::Int(_) | Ty::Ptr => {
                let w = ty.width();
                let n = (w as u64 + 7) / 8;
                let (id, off) = self.place(p, n, false)?;
                let cs = &self.objs[id].cells[off..off + n as usize];
                if cs.iter().all(|c| matches!(c, V::C(_))) {
                    let mut x: N = 0;
                    for (k, c) in cs.iter().enumerate() { if let V::C(b) = c { x |= b << (8 * k) } }
                    return Ok(Val::V(V::C(x & mask(w))));
                }
                if cs.iter().all(|c| *c == V::U) { return Ok(Val::V(V::U)) }
                let v: Vec<V> = cs.iter().map(|c| if *c == V::U { V::C(0) } else { *c }).collect();
                let mut acc = v[0];
                for (k, c) in v.iter().enumerate().skip(1) { acc = self.ctx.concat(*c, 8, acc, 8 * k as u8) }
                if w % 8 != 0 { acc = self.ctx.extract(acc, 8 * n as u8, 0, w) }
                Ok(Val::V(acc))
            }
            Ty::Struct(ts, _) => {
                let o = ty.offsets();
                let mut r = vec![];
                for (t, o) in ts.iter().zip(o) { let q = self.add64(p, o); r.push(self.load(t, q)?) }
                Ok(Val::A(Rc::new(r)))
            }
            Ty::Arr(n, t) => {
                let mut r = vec![];
                for k in 0..*n { let q = self.add64(p, k * t.size()); r.push(self.load(t, q)?) }
                Ok(Val::A(Rc::new(r)))
            }
            t => bad(format!("load of {:?}", t)),
        }
    }
    fn store(&mut self, ty: &Ty, v: &Val, p: V) -> R<()> {
        match (ty, v) {
            (Ty::Int(w), Val::A(bs)) if *w > 64 => {
                let (id, off) = self.place(p, bs.len() as u64, true)?;
                let c = Rc::make_mut(&mut self.objs[id].cells);
                for (k, b) in bs.iter().enumerate() { if let Val::V(x) = b { c[off + k] = *x } }
                Ok(())
            }
            (Ty::Int(_) | Ty::Ptr, Val::V(v)) => {
                let w = ty.width();
                let n = if w == 0 { ty.size() } else { (w as u64 + 7) / 8 };
                let (id, off) = self.place(p, n, true)?;
                if n == 1 && w == 8 { Rc::make_mut(&mut self.objs[id].cells)[off] = *v; return Ok(()) }
                for k in 0..n as usize {
                    let b = match v {
                        V::C(x) => V::C(if k < 16 { x >> (8 * k) & 255 } else { 0 }),
                        V::U => V::U,
                        V::S(_) if w < 8 => self.ctx.mk(Op::ZExt, 8, w, *v, V::U, V::U),
                        V::S(_) => { let lo = 8 * k as u8; let bits = (w - lo).min(8); let e = self.ctx.extract(*v, w, lo, bits); if bits < 8 { self.ctx.mk(Op::ZExt, 8, bits, e, V::U, V::U) } else { e } }
                    };
                    Rc::make_mut(&mut self.objs[id].cells)[off + k] = b;
                }
                Ok(())
            }
            (Ty::Struct(ts, _), Val::A(vs)) => {
                let o = ty.offsets();
                for ((t, o), v) in ts.iter().zip(o).zip(vs.iter()) { let q = self.add64(p, o); self.store(t, v, q)? }
                Ok(())
            }
            (Ty::Arr(_, t), Val::A(vs)) => {
                for (k, v) in vs.iter().enumerate() { let q = self.add64(p, k as u64 * t.size()); self.store(t, v, q)? }
                Ok(())
            }
            (t, v) => bad(format!("store of {:?} as {:?}", v, t)),
        }
    }
    fn add64(&mut self, a: V, k: u64) -> V { self.ctx.mk(Op::Add, 64, 64, a, V::C(k as N), V::U) }
    fn string(&self, p: u64, n: u64) -> String {
        let (id, off) = ((p >> 32) as usize, (p & 0xffff_ffff) as usize);
        self.objs[id].cells[off..off + n as usize].iter().map(|c| if let V::C(b) = c { *b as u8 as char } else { '?' }).collect()
    }

    // ---- instructions ------------------------------------------------------
    fn get(&self, o: &Opd) -> R<Val> {
        match o {
            Opd::R(k) => Ok(self.frames.last().unwrap().regs[*k as usize].clone()),
            Opd::K(v) => Ok(v.clone()),
            Opd::Bad(m) => bad(format!("operand: {}", m)),
        }
    }
    fn val(&self, o: &Opd) -> R<V> {
        match o {
            Opd::R(k) => match &self.frames.last().unwrap().regs[*k as usize] { Val::V(v) => Ok(*v), Val::A(_) => bad("aggregate where a scalar is expected") },
            Opd::K(Val::V(v)) => Ok(*v),
            Opd::K(_) => bad("aggregate constant"),
            Opd::Bad(m) => bad(format!("operand: {}", m)),
        }
    }
    fn set(&mut self, d: u32, v: Val) { self.frames.last_mut().unwrap().regs[d as usize] = v }
    fn enter(&mut self, s: u32, args: Vec<Val>, marker: bool) -> R<()> {
        let f = self.funcs[s as usize].clone().unwrap();
        if self.frames.len() > 3000 { return Err(Stop::Hang("recursion deeper than 3000 calls".into())) }
        self.seen[s as usize] = true;
        let mut regs = vec![Val::V(V::U); f.nregs as usize];
        for (p, a) in f.params.iter().zip(args) { regs[*p as usize] = a }
        self.frames.push(Frame { f, block: 0, ip: 0, prev: 0, regs, allocas: vec![], marker });
        Ok(())
    }
    fn leave(&mut self) -> Frame {
        let f = self.frames.pop().unwrap();
        for a in &f.allocas { self.objs[*a].alive = false }
        f
    }
    fn jump(&mut self, b: u32) -> R<()> {
        let fr = self.frames.last().unwrap();
        let from = fr.block;
        let f = fr.f.clone();
        let phis = &f.blocks[b as usize].phis;
        if !phis.is_empty() {
            let mut vals = Vec::with_capacity(phis.len());
            for (d, ins) in phis {
                let Some((_, o)) = ins.iter().find(|x| x.0 == from) else { return bad("phi without this predecessor") };
                vals.push((*d, self.get(o)?));
            }
            for (d, v) in vals { self.set(d, v) }
        }
        let fr = self.frames.last_mut().unwrap();
        fr.prev = from;
        fr.block = b;
        fr.ip = 0;
        Ok(())
    }
    /// after a call returned: store the result and go on
    fn resume_after_call(&mut self, v: Option<Val>) -> R<()> {
        let fr = self.frames.last().unwrap();
        let f = fr.f.clone();
        let I::Call { dst, inv, .. } = &f.blocks[fr.block as usize].code[fr.ip] else { return bad("return to something that is not a call") };
        if let (Some(d), Some(v)) = (dst, v) { self.set(*d, v) }
        match inv { Some((n, _)) => self.jump(*n), None => { self.frames.last_mut().unwrap().ip += 1; Ok(()) } }
    }
    fn unwind(&mut self) -> R<()> {
        // the frame on top is the one whose call unwinds
        loop {
            let Some(fr) = self.frames.last() else {
                if self.refuses { return Err(Stop::End) }
                return viol(format!("panics: {}", self.payload_msg));
            };
            let f = fr.f.clone();
            if let I::Call { inv: Some((_, u)), .. } = &f.blocks[fr.block as usize].code[fr.ip] { return self.jump(*u) }
            let fr = self.leave();
            if fr.marker { let p = self.payload; return self.resume_after_call(Some(Val::V(V::C(p as N)))) }
        }
    }
    fn cmp(&mut self, p: Pred, w: u8, a: V, b: V) -> V {
        let (op, x, y, neg) = match p {
            Pred::Eq => (Op::Eq, a, b, false), Pred::Ne => (Op::Eq, a, b, true),
            Pred::Ult => (Op::Ult, a, b, false), Pred::Uge => (Op::Ult, a, b, true),
            Pred::Ule => (Op::Ule, a, b, false), Pred::Ugt => (Op::Ule, a, b, true),
            Pred::Slt => (Op::Slt, a, b, false), Pred::Sge => (Op::Slt, a, b, true),
            Pred::Sle => (Op::Sle, a, b, false), Pred::Sgt => (Op::Sle, a, b, true),
        };
        let c = self.ctx.mk(op, 1, w, x, y, V::U);
        if neg { self.ctx.not(c) } else { c }
    }
    fn run(&mut self) -> Stop {
        loop {
            let fr = self.frames.last().unwrap();
            let f = fr.f.clone();
            let (mut block, mut ip, depth) = (fr.block, fr.ip, self.frames.len());
            loop {
                self.steps += 1;
                if self.steps > self.shared.step_limit { return Stop::Hang(format!("does not end within {} instructions", self.shared.step_limit)) }
                let Some(i) = f.blocks[block as usize].code.get(ip) else { return Stop::Error("end of block".into()) };
                if let Err(s) = self.step(i) { return s }
                if self.frames.len() != depth { break }
                let fr = self.frames.last().unwrap();
                if !Rc::ptr_eq(&fr.f, &f) { break }
                block = fr.block;
                ip = fr.ip;
            }
        }
    }
    fn next(&mut self) { self.frames.last_mut().unwrap().ip += 1 }
    fn step(&mut self, i: &I) -> R<()> {
        match i {
            I::Load { dst, ty, p } => { let p = self.val(p)?; let v = self.load(ty, p)?; self.set(*dst, v); self.next() }
            I::Store { ty, v, p } => { let v = self.get(v)?; let p = self.val(p)?; self.store(ty, &v, p)?; self.next() }
            I::Gep { dst, base, off, terms } => {
                let mut a = self.val(base)?;
                for (o, w, scale) in terms {
                    let mut v = self.val(o)?;
                    if *w < 64 { v = self.ctx.mk(Op::SExt, 64, *w, v, V::U, V::U) }
                    v = self.ctx.mk(Op::Mul, 64, 64, v, V::C(*scale as N), V::U);
                    a = self.ctx.mk(Op::Add, 64, 64, a, v, V::U);
                }
                a = self.add64(a, *off as u64);
                self.set(*dst, Val::V(a));
                self.next()
            }
            I::Bin { op, w, dst, a, b } => {
                let (a, b) = (self.val(a)?, self.val(b)?);
                if matches!(op, B::UDiv | B::SDiv | B::URem | B::SRem) {
                    let z = self.ctx.mk(Op::Eq, 1, *w, b, V::C(0), V::U);
                    if self.branch(z)? { return viol("division by zero") }
                }
                let op = match op { B::Add => Op::Add, B::Sub => Op::Sub, B::Mul => Op::Mul, B::UDiv => Op::UDiv, B::SDiv => Op::SDiv, B::URem => Op::URem, B::SRem => Op::SRem, B::And => Op::And, B::Or => Op::Or, B::Xor => Op::Xor, B::Shl => Op::Shl, B::LShr => Op::LShr, B::AShr => Op::AShr };
                // an absorbing operand decides whatever the undefined other one is
                let v = match (op, a, b) {
                    (Op::And | Op::Or, V::U, x) | (Op::And | Op::Or, x, V::U) if x != V::U => {
                        let k = if op == Op::And { 0 } else { mask(*w) };
                        let e = self.ctx.mk(Op::Eq, 1, *w, x, V::C(k), V::U);
                        if self.branch(e)? { V::C(k) } else { V::U }
                    }
                    _ => self.ctx.mk(op, *w, *w, a, b, V::U),
                };
                self.set(*dst, Val::V(v));
                self.next()
            }
            I::Icmp { p, w, dst, a, b } => { let (a, b) = (self.val(a)?, self.val(b)?); let v = self.cmp(*p, *w, a, b); self.set(*dst, Val::V(v)); self.next() }
            I::ZExt { dst, from, to, a } => { let a = self.val(a)?; let v = self.ctx.mk(Op::ZExt, *to, *from, a, V::U, V::U); self.set(*dst, Val::V(v)); self.next() }
            I::SExt { dst, from, to, a } => { let a = self.val(a)?; let v = self.ctx.mk(Op::SExt, *to, *from, a, V::U, V::U); self.set(*dst, Val::V(v)); self.next() }
            I::Trunc { dst, from, to, a } => { let a = self.val(a)?; let v = self.ctx.extract(a, *from, 0, *to); self.set(*dst, Val::V(v)); self.next() }
            I::Copy { dst, a } => { let v = self.get(a)?; self.set(*dst, v); self.next() }
            I::Freeze { dst, a } => { let v = self.get(a)?; self.set(*dst, if let Val::V(V::U) = v { Val::V(V::C(0)) } else { v }); self.next() }
            I::Select { dst, c, w, ptr, a, b } => {
                let c = self.val(c)?;
                let (x, y) = (self.get(a)?, self.get(b)?);
                let v = match (c, &x, &y) {
                    (V::C(k), _, _) => if k & 1 == 1 { x } else { y },
                    (V::S(_), Val::V(p), Val::V(q)) if !*ptr && *w < 64 && *w > 0 && *p != V::U && *q != V::U => Val::V(self.ctx.mk(Op::Ite, *w, 1, c, *p, *q)),
                    (V::U, _, _) => Val::V(V::U),
                    _ => if self.branch(c)? { x } else { y },
                };
                self.set(*dst, v);
                self.next()
            }
            I::Extract { dst, a, idx } => {
                let mut v = self.get(a)?;
                for k in idx { v = match v { Val::A(ref e) => e[*k].clone(), Val::V(V::U) => Val::V(V::U), _ => return bad("extractvalue") } }
                self.set(*dst, v);
                self.next()
            }
            I::Insert { dst, a, v, idx } => {
                fn ins(t: &Val, idx: &[usize], v: Val) -> Option<Val> {
                    if idx.is_empty() { return Some(v) }
                    let Val::A(e) = t else { return None };
                    let mut e = (**e).clone();
                    e[idx[0]] = ins(&e[idx[0]], &idx[1..], v)?;
                    Some(Val::A(Rc::new(e)))
                }
                let (t, v) = (self.get(a)?, self.get(v)?);
                let Some(r) = ins(&t, idx, v) else { return bad("insertvalue") };
                self.set(*dst, r);
                self.next()
            }
            I::Br(b) => self.jump(*b)?,
            I::CondBr(c, a, b) => { let c = self.val(c)?; let t = self.branch(c)?; self.jump(if t { *a } else { *b })? }
            I::Switch { w, v, default, cases } => {
                let v = self.val(v)?;
                if v == V::U { return viol("a switch depends on an uninitialised or undefined value") }
                let mut to = *default;
                for (k, b) in cases {
                    let c = self.ctx.mk(Op::Eq, 1, *w, v, V::C(*k), V::U);
                    if self.branch(c)? { to = *b; break }
                }
                self.jump(to)?
            }
            I::Alloca { dst, size } => {
                let id = self.new_obj(*size);
                self.frames.last_mut().unwrap().allocas.push(id as usize);
                self.set(*dst, Val::V(V::C((id << 32) as N)));
                self.next()
            }
            I::Ret(v) => {
                let v = match v { Some(o) => Some(self.get(o)?), None => None };
                let fr = self.leave();
                if self.frames.is_empty() { return Err(Stop::End) }
                self.resume_after_call(if fr.marker { Some(Val::V(V::C(0))) } else { v })?
            }
            I::Unreachable => return viol("reaches a point that must be unreachable (undefined behaviour)"),
            I::LandingPad { dst, abort } => {
                if *abort { return viol(format!("aborts: a panic where unwinding is not allowed ({})", self.payload_msg)) }
                self.set(*dst, Val::A(Rc::new(vec![Val::V(V::C(0)), Val::V(V::C(0))])));
                self.next()
            }
            I::Resume => {
                let fr = self.leave();
                if fr.marker { let p = self.payload; return self.resume_after_call(Some(Val::V(V::C(p as N)))) }
                return self.unwind();
            }
            I::Bad(m) => return bad(m.clone()),
            I::Call { f, args, noreturn, .. } => {
                let s = match f {
                    Callee::Fn(s) => *s,
                    Callee::Ind(o) => {
                        let p = self.val(o)?;
                        let a = self.concretise(p, 64)?;
                        let s = (a >> 32) as usize;
                        if a & 0xffff_ffff != 0 || s == 0 || s > self.funcs.len() { return viol("call through an invalid function pointer") }
                        s as u32 - 1
                    }
                };
                if self.funcs[s as usize].is_some() {
                    let mut v = Vec::with_capacity(args.len());
                    for (a, _) in args { v.push(self.get(a)?) }
                    return self.enter(s, v, false);
                }
                return self.primitive(s, args, *noreturn);
            }
        }
        Ok(())
    }
    fn primitive(&mut self, s: u32, args: &[(Opd, u8)], noreturn: bool) -> R<()> {
        let mut k = self.prims[s as usize];
        if k == Prim::Unknown && noreturn { k = Prim::Panic }
        let w = args.first().map_or(0, |a| a.1);
        let two = |m: &Machine| -> R<(V, V)> { Ok((m.val(&args[0].0)?, m.val(&args[1].0)?)) };
        let pair = |a: V, b: V| Some(Val::A(Rc::new(vec![Val::V(a), Val::V(b)])));
        let r: Option<Val> = match k {
            Prim::U8 | Prim::U64 => {
                let n = self.nvars;
                self.nvars += 1;
                Some(Val::V(self.ctx.var(n, if k == Prim::U8 { 8 } else { 64 })))
            }
            Prim::Fork => { let v = self.val(&args[0].0)?; let v = self.concretise(v, w)?; Some(Val::V(V::C(v as N))) }
            Prim::Depth => Some(Val::V(V::C(self.frames.len() as N))),
            Prim::Assume => { let c = self.val(&args[0].0)?; let c = self.to_bool(c, w); self.assume(c)?; None }
            Prim::Cover | Prim::Check => {
                let c = self.val(&args[0].0)?;
                let c = self.to_bool(c, w);
                let p = self.val(&args[1].0)?;
                let n = self.val(&args[2].0)?;
                let (p, n) = (self.concretise(p, 64)?, self.concretise(n, 64)?);
                let m = self.string(p, n);
                if k == Prim::Cover { self.cover(c, m)? } else { self.check(c, m)? }
                None
            }
            Prim::Unwind => { self.payload = 1; self.payload_msg = "the caller's own panic".into(); return self.unwind() }
            Prim::Panic => {
                self.payload = 2;
                let at = self.frames.iter().rev().map(|f| f.f.pretty.clone()).find(|p| !p.starts_with("core::") && !p.starts_with("<core") && !p.is_empty()).unwrap_or_default();
                self.payload_msg = format!("{} in {}", short(&self.syms[s as usize]), at);
                return self.unwind();
            }
            Prim::Abort | Prim::Trap => {
                let at = self.frames.iter().rev().map(|f| f.f.pretty.clone()).take(3).collect::<Vec<_>>().join(" < ");
                return viol(format!("aborts: {} in {}", short(&self.syms[s as usize]), at));
            }
            Prim::Try => {
                let (f, d) = two(self)?;
                let a = self.concretise(f, 64)?;
                let s = (a >> 32) as u32;
                if s == 0 || self.funcs[s as usize - 1].is_none() { return bad("lsx_try") }
                return self.enter(s - 1, vec![Val::V(d)], true);
            }
            Prim::MemCpy => {
                let (d, s) = two(self)?;
                let n = self.val(&args[2].0)?;
                let n = self.concretise(n, 64)?;
                if n > 0 {
                    let (so, sf) = self.place(s, n, false)?;
                    let (to, tf) = self.place(d, n, true)?;
                    let data: Vec<V> = self.objs[so].cells[sf..sf + n as usize].to_vec();
                    Rc::make_mut(&mut self.objs[to].cells)[tf..tf + n as usize].copy_from_slice(&data);
                }
                Some(Val::V(d))
            }
            Prim::MemSet => {
                let (d, b) = two(self)?;
                let n = self.val(&args[2].0)?;
                let n = self.concretise(n, 64)?;
                if n > 0 {
                    let (to, tf) = self.place(d, n, true)?;
                    Rc::make_mut(&mut self.objs[to].cells)[tf..tf + n as usize].fill(b);
                }
                Some(Val::V(d))
            }
            Prim::LlAssume => {
                let c = self.val(&args[0].0)?;
                if let V::C(0) = c { return viol("undefined behaviour: an assumption of the compiler is false") }
                if let V::S(_) = c { self.check(c, "an assumption of the compiler holds".into())? }
                None
            }
            Prim::Bcmp => {
                let (a, b) = two(self)?;
                let n = self.val(&args[2].0)?;
                let n = self.concretise(n, 64)?;
                let mut diff = V::C(0);
                if n > 0 {
                    let (x, xf) = self.place(a, n, false)?;
                    let (y, yf) = self.place(b, n, false)?;
                    for k in (0..n as usize).rev() {
                        let (p, q) = (self.objs[x].cells[xf + k], self.objs[y].cells[yf + k]);
                        let (l, e) = (self.ctx.mk(Op::Ult, 1, 8, p, q, V::U), self.ctx.mk(Op::Eq, 1, 8, p, q, V::U));
                        let d = self.ctx.mk(Op::Ite, 32, 1, l, V::C(0xffff_ffff), V::C(1));
                        diff = self.ctx.mk(Op::Ite, 32, 1, e, diff, d);
                    }
                }
                Some(Val::V(diff))
            }
            Prim::Expect => Some(self.get(&args[0].0)?),
            Prim::PtrMask => { let (a, b) = two(self)?; Some(Val::V(self.ctx.mk(Op::And, 64, 64, a, b, V::U))) }
            Prim::IsConst => Some(Val::V(V::C(0))),
            Prim::UMin | Prim::UMax | Prim::SMin | Prim::SMax => {
                let (a, b) = two(self)?;
                let op = if matches!(k, Prim::UMin | Prim::UMax) { Op::Ult } else { Op::Slt };
                let c = self.ctx.mk(op, 1, w, a, b, V::U);
                let (x, y) = if matches!(k, Prim::UMin | Prim::SMin) { (a, b) } else { (b, a) };
                Some(Val::V(self.ctx.mk(Op::Ite, w, 1, c, x, y)))
            }
            Prim::USubSat => { let (a, b) = two(self)?; let c = self.ctx.mk(Op::Ult, 1, w, a, b, V::U); let d = self.ctx.mk(Op::Sub, w, w, a, b, V::U); Some(Val::V(self.ctx.mk(Op::Ite, w, 1, c, V::C(0), d))) }
            Prim::UAddSat => { let (a, b) = two(self)?; let d = self.ctx.mk(Op::Add, w, w, a, b, V::U); let c = self.ctx.mk(Op::Ult, 1, w, d, a, V::U); Some(Val::V(self.ctx.mk(Op::Ite, w, 1, c, V::C(mask(w)), d))) }
            Prim::UAddO => { let (a, b) = two(self)?; let d = self.ctx.mk(Op::Add, w, w, a, b, V::U); let c = self.ctx.mk(Op::Ult, 1, w, d, a, V::U); pair(d, c) }
            Prim::USubO => { let (a, b) = two(self)?; let d = self.ctx.mk(Op::Sub, w, w, a, b, V::U); let c = self.ctx.mk(Op::Ult, 1, w, a, b, V::U); pair(d, c) }
            Prim::SAddO | Prim::SSubO | Prim::SAddSat | Prim::SSubSat => {
                let (a, b) = two(self)?;
                let add = matches!(k, Prim::SAddO | Prim::SAddSat);
                let op = if add { Op::Add } else { Op::Sub };
                let d = self.ctx.mk(op, w, w, a, b, V::U);
                // overflow iff the sign of the result contradicts the operands
                let (x, y) = (self.ctx.mk(Op::Xor, w, w, a, d, V::U), self.ctx.mk(Op::Xor, w, w, b, if add { d } else { a }, V::U));
                let o = self.ctx.mk(Op::And, w, w, x, y, V::U);
                let c = self.ctx.extract(o, w, w - 1, 1);
                if matches!(k, Prim::SAddO | Prim::SSubO) { pair(d, c) } else {
                    // saturates towards the sign of the first operand
                    let neg = self.ctx.extract(a, w, w - 1, 1);
                    let min = (1 as N) << (w - 1);
                    let s = self.ctx.mk(Op::Ite, w, 1, neg, V::C(min), V::C(min - 1));
                    Some(Val::V(self.ctx.mk(Op::Ite, w, 1, c, s, d)))
                }
            }
            Prim::UMulO | Prim::SMulO => {
                let (a, b) = two(self)?;
                if let (V::C(x), V::C(y), true) = (a, b, w <= 64) {
                    let p = if k == Prim::UMulO { (x * y) as i128 } else { sx(x, w) * sx(y, w) };
                    let o = if k == Prim::UMulO { p as N > mask(w) } else { p != sx(p as N & mask(w), w) };
                    pair(V::C(p as N & mask(w)), V::C(o as N))
                } else if w <= 32 || w <= 64 && k == Prim::SMulO {
                    let ext = if k == Prim::UMulO { Op::ZExt } else { Op::SExt };
                    let (x, y) = (self.ctx.mk(ext, 2 * w, w, a, V::U, V::U), self.ctx.mk(ext, 2 * w, w, b, V::U, V::U));
                    let p = self.ctx.mk(Op::Mul, 2 * w, 2 * w, x, y, V::U);
                    let d = self.ctx.extract(p, 2 * w, 0, w);
                    let back = self.ctx.mk(ext, 2 * w, w, d, V::U, V::U);
                    let same = self.ctx.mk(Op::Eq, 1, 2 * w, back, p, V::U);
                    let c = self.ctx.not(same);
                    pair(d, c)
                } else if a == V::U || b == V::U { pair(V::U, V::U) }
                else {
                    // 64 bit: a*b overflows iff b != 0 and (a*b)/b != a (unsigned); make one operand concrete for signed
                    if k == Prim::SMulO { return bad("signed 128-bit multiplication of symbolic values") }
                    let d = self.ctx.mk(Op::Mul, w, w, a, b, V::U);
                    let q = self.ctx.mk(Op::UDiv, w, w, d, b, V::U);
                    let same = self.ctx.mk(Op::Eq, 1, w, q, a, V::U);
                    let z = self.ctx.mk(Op::Eq, 1, w, b, V::C(0), V::U);
                    let ok = self.ctx.mk(Op::Or, 1, 1, same, z, V::U);
                    let c = self.ctx.not(ok);
                    pair(d, c)
                }
            }
            Prim::UCmp | Prim::SCmp => {
                let (a, b) = two(self)?;
                let l = self.ctx.mk(if k == Prim::UCmp { Op::Ult } else { Op::Slt }, 1, w, a, b, V::U);
                let e = self.ctx.mk(Op::Eq, 1, w, a, b, V::U);
                let x = self.ctx.mk(Op::Ite, 8, 1, e, V::C(0), V::C(1));
                Some(Val::V(self.ctx.mk(Op::Ite, 8, 1, l, V::C(0xff), x)))
            }
            Prim::Abs => {
                let a = self.val(&args[0].0)?;
                let n = self.ctx.mk(Op::Sub, w, w, V::C(0), a, V::U);
                let c = self.ctx.mk(Op::Slt, 1, w, a, V::C(0), V::U);
                Some(Val::V(self.ctx.mk(Op::Ite, w, 1, c, n, a)))
            }
            Prim::Ctpop => {
                let a = self.val(&args[0].0)?;
                let mut r = V::C(0);
                if let V::C(x) = a { r = V::C(x.count_ones() as N) } else {
                    for k in 0..w { let b = self.ctx.extract(a, w, k, 1); let z = if w > 1 { self.ctx.mk(Op::ZExt, w, 1, b, V::U, V::U) } else { b }; r = self.ctx.mk(Op::Add, w, w, r, z, V::U) }
                }
                Some(Val::V(r))
            }
            Prim::Ctlz | Prim::Cttz => {
                let a = self.val(&args[0].0)?;
                let mut r = V::C(w as N);
                for j in 0..w {
                    let bit = if k == Prim::Ctlz { j } else { w - 1 - j };
                    let n = if k == Prim::Ctlz { w - 1 - j } else { w - 1 - j };
                    let b = self.ctx.extract(a, w, bit, 1);
                    r = self.ctx.mk(Op::Ite, w, 1, b, V::C(n as N), r);
                }
                Some(Val::V(r))
            }
            Prim::Nop => None,
            Prim::Alloc | Prim::AllocZ => {
                let n = self.val(&args[0].0)?;
                let n = self.concretise(n, 64)?;
                if n > 1 << 24 { return bad("large allocation") }
                let id = self.new_obj(n);
                if k == Prim::AllocZ { Rc::make_mut(&mut self.objs[id as usize].cells).fill(V::C(0)) }
                Some(Val::V(V::C((id << 32) as N)))
            }
            Prim::Realloc => {
                let p = self.val(&args[0].0)?;
                let n = self.val(&args[3].0)?;
                let n = self.concretise(n, 64)?;
                let (id, off) = self.place(p, 0, true)?;
                if off != 0 { return viol("realloc of an inner pointer") }
                let new = self.new_obj(n);
                let old = self.objs[id].cells.clone();
                let m = (n as usize).min(old.len());
                Rc::make_mut(&mut self.objs[new as usize].cells)[..m].copy_from_slice(&old[..m]);
                self.objs[id].alive = false;
                Some(Val::V(V::C((new << 32) as N)))
            }
            Prim::Dealloc => {
                let p = self.val(&args[0].0)?;
                let (id, off) = self.place(p, 0, true)?;
                if off != 0 { return viol("deallocation of an inner pointer") }
                self.objs[id].alive = false;
                None
            }
            Prim::Bswap | Prim::BitRev => {
                let a = self.val(&args[0].0)?;
                let g = if k == Prim::Bswap { 8 } else { 1 };
                let mut acc = self.ctx.extract(a, w, 0, g);
                for j in 1..w / g { let b = self.ctx.extract(a, w, g * j, g); acc = self.ctx.concat(acc, g * j, b, g) }
                Some(Val::V(acc))
            }
            Prim::Fshl | Prim::Fshr => {
                let (a, b) = two(self)?;
                let s = self.val(&args[2].0)?;
                let m = self.ctx.mk(Op::URem, w, w, s, V::C(w as N), V::U);
                let r = self.ctx.mk(Op::Sub, w, w, V::C(w as N), m, V::U);
                // a shift by the whole width gives 0, so the zero case needs no special treatment
                let (x, y) = if k == Prim::Fshl { (self.ctx.mk(Op::Shl, w, w, a, m, V::U), self.ctx.mk(Op::LShr, w, w, b, r, V::U)) } else { (self.ctx.mk(Op::Shl, w, w, a, r, V::U), self.ctx.mk(Op::LShr, w, w, b, m, V::U)) };
                Some(Val::V(self.ctx.mk(Op::Or, w, w, x, y, V::U)))
            }
            Prim::Unknown => return bad(format!("call of {}", self.syms[s as usize])),
        };
        self.resume_after_call(r)
    }
    fn to_bool(&mut self, c: V, w: u8) -> V {
        if w == 1 { return c }
        let z = self.ctx.mk(Op::Eq, 1, w, c, V::C(0), V::U);
        self.ctx.not(z)
    }

    // ---- exploration -------------------------------------------------------
    fn one_path(&mut self, root: u32) -> Stop {
        self.objs.clear();
        for (c, alive, ro) in &self.base { self.objs.push(Obj { cells: c.clone(), alive: *alive, ro: *ro }) }
        self.frames.clear();
        self.pending.clear();
        self.pos = 0;
        self.nvars = 0;
        self.steps = 0;
        let s = match self.enter(root, vec![], false) { Ok(()) => self.run(), Err(s) => s };
        match s {
            Stop::End => match self.flush() { Ok(()) => Stop::End, Err(s) => s },
            s => s,
        }
    }
    fn values(&mut self) -> Vec<String> {
        let n = self.nvars;
        let m = self.model.as_ref().unwrap();
        (0..n).map(|k| {
            let v = m.vals.get(k).copied().unwrap_or(0);
            let w = self.ctx.widths[k];
            v.to_le_bytes()[..(w as usize + 7) / 8].iter().map(|b| format!("{:02x}", b)).collect()
        }).collect()
    }
    pub fn explore(&mut self, job: Job, root: u32) {
        let h = job.harness;
        let sh = self.shared.clone();
        if self.harness != h || self.ctx.nodes.len() > 3_000_000 {
            self.ctx = Ctx::new();
            self.harness = h;
            self.covered.clear();
        }
        self.refuses = sh.names[h].contains("refuses");
        self.ctx.pop(self.ctx.depth);
        self.ctx.push();
        self.events = job.prefix.iter().map(|p| match p {
            PEv::Br(t, s) => Ev { kind: Kind::Br(*t, None), scoped: *s, depth: 0 },
            PEv::Assume => Ev { kind: Kind::Assume, scoped: false, depth: 0 },
            PEv::Conc(v) => Ev { kind: Kind::Conc(*v), scoped: false, depth: 0 },
        }).collect();
        self.asserted = 0;
        self.model = None;
        self.ctx.queries = 0; self.ctx.unsat = 0; self.ctx.solver_ns = 0;
        self.branches = 0;
        self.seen.iter_mut().for_each(|x| *x = false);
        self.checks.clear();
        let mut out = Outcome::default();
        out.jobs = 1;
        loop {
            if sh.stop[h].load(Ordering::Relaxed) { break }
            if Instant::now() > sh.deadline { out.timeout = true; break }
            let s = self.one_path(root);
            out.steps += self.steps;
            out.max_steps = out.max_steps.max(self.steps);
            out.max_vars = out.max_vars.max(self.nvars as u64);
            match s {
                Stop::End => out.paths += 1,
                Stop::Cut | Stop::Prune => out.pruned += 1,
                Stop::Violation(m) | Stop::Hang(m) if { let _ = &m; self.need_model().is_err() } => out.pruned += 1,
                Stop::Violation(m) => { let v = self.values(); out.violation = Some((m, v, false)); sh.stop[h].store(true, Ordering::Relaxed); break }
                Stop::Hang(m) => { let v = self.values(); out.violation = Some((m, v, true)); sh.stop[h].store(true, Ordering::Relaxed); break }
                Stop::Timeout => { out.timeout = true; break }
                Stop::Error(m) => {
                    let at = self.frames.last().map_or(String::new(), |f| f.f.pretty.clone());
                    out.error = Some(format!("{} (in {})", m, at));
                    sh.stop[h].store(true, Ordering::Relaxed);
                    break
                }
            }
            // backtrack
            let mut more = false;
            while let Some(e) = self.events.pop() {
                if let Kind::Br(t, Some(m)) = e.kind {
                    let d = self.ctx.depth - e.depth;
                    self.ctx.pop(d);
                    self.asserted = self.events.len();
                    self.events.push(Ev { kind: Kind::Br(!t, None), scoped: true, depth: e.depth });
                    self.model = Some(m);
                    more = true;
                    break;
                }
            }
            if !more { break }
            // share work
            if sh.hungry.load(Ordering::Relaxed) > 0 {
                if let Some(k) = self.events.iter().position(|e| matches!(e.kind, Kind::Br(_, Some(_)))) {
                    let mut prefix: Vec<PEv> = self.events[..k].iter().map(|e| match e.kind { Kind::Br(t, _) => PEv::Br(t, e.scoped), Kind::Assume => PEv::Assume, Kind::Conc(v) => PEv::Conc(v) }).collect();
                    if let Kind::Br(t, alt) = &mut self.events[k].kind { prefix.push(PEv::Br(!*t, true)); *alt = None }
                    sh.hungry.fetch_sub(1, Ordering::Relaxed);
                    sh.queue.lock().unwrap().0.push(Job { harness: h, prefix });
                    sh.cv.notify_one();
                }
            }
        }
        self.ctx.pop(self.ctx.depth);
        let mut r = sh.results[h].lock().unwrap();
        r.paths += out.paths; r.pruned += out.pruned; r.steps += out.steps; r.jobs += 1;
        r.queries += self.ctx.queries; r.unsat += self.ctx.unsat; r.solver_ns += self.ctx.solver_ns; r.branches += self.branches;
        r.max_vars = r.max_vars.max(out.max_vars);
        r.max_steps = r.max_steps.max(out.max_steps);
        for (m, n) in self.checks.drain() { *r.checks.entry(m).or_insert(0) += n }
        for (k, s) in self.seen.iter().enumerate() { if *s { if let Some(f) = &self.funcs[k] { r.functions.insert(f.pretty.clone()); } } }
        if r.violation.is_none() { r.violation = out.violation }
        if r.error.is_none() { r.error = out.error }
        r.timeout |= out.timeout;
        r.finished_s = sh.start.elapsed().as_secs_f64();
    }
    pub fn work(&mut self, roots: &[u32]) {
        let sh = self.shared.clone();
        loop {
            let job = {
                let mut q = sh.queue.lock().unwrap();
                let mut waiting = false;
                loop {
                    if let Some(j) = q.0.pop() { q.1 += 1; break Some(j) }
                    if q.1 == 0 { sh.cv.notify_all(); break None }
                    if !waiting { sh.hungry.fetch_add(1, Ordering::Relaxed); waiting = true }
                    let (g, t) = sh.cv.wait_timeout(q, Duration::from_millis(20)).unwrap();
                    q = g;
                    if t.timed_out() && q.0.is_empty() && q.1 > 0 { let n = sh.hungry.load(Ordering::Relaxed); if n == 0 { sh.hungry.fetch_add(1, Ordering::Relaxed); } }
                }
            };
            let Some(j) = job else { return };
            let root = roots[j.harness];
            self.explore(j, root);
            let mut q = sh.queue.lock().unwrap();
            q.1 -= 1;
            if q.1 == 0 && q.0.is_empty() { sh.cv.notify_all() }
        }
    }
}
fn short(s: &str) -> String {
    // the readable tail of a mangled name
    let mut out = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit()) {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() { j += 1 }
            let n: usize = s[i..j].parse().unwrap_or(0);
            if n >= 3 && j + n <= b.len() && s[j..j + n].bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') { out.push(s[j..j + n].to_string()); i = j + n; continue }
            i = j;
        } else { i += 1 }
    }
    if out.is_empty() { s.to_string() } else { out.join("::") }
}
