//! Nondeterminism. Under Kani every call is one symbolic value; natively the
//! same harness is replayed from a list of concrete values (a solver
//! counterexample) or run with pseudo-random values (validation of the
//! harness against the real build).

#[cfg(kani)]
mod imp {
    pub fn usize_() -> usize { kani::any() }
    pub fn u64_() -> u64 { kani::any() }
    pub fn u8_() -> u8 { kani::any() }
    pub fn bool_() -> bool { kani::any() }
    pub fn assume(b: bool) { kani::assume(b) }
    /// any value at all; the argument is only a hint for random native runs
    pub fn near(_hint: usize) -> usize { kani::any() }
    /// any value `<= max`
    pub fn upto(max: usize) -> usize { let x: usize = kani::any(); kani::assume(x <= max); x }
    /// any value `<= max` (one symbolic byte)
    pub fn small(max: u8) -> usize { let x: u8 = kani::any(); kani::assume(x <= max); x as usize }
}

/// The path-wise engine: every call is one symbolic value.
#[cfg(lsx)]
mod imp {
    extern "C" {
        fn lsx_u8() -> u8;
        fn lsx_u64() -> u64;
        fn lsx_fork(x: u64) -> u64;
        fn lsx_depth() -> u64;
        fn lsx_assume(b: bool);
        fn lsx_cover(b: bool, p: *const u8, n: usize);
        fn lsx_check(b: bool, p: *const u8, n: usize);
    }
    extern "C-unwind" {
        fn lsx_unwind() -> !;
        fn lsx_try(f: unsafe extern "C-unwind" fn(*mut u8), d: *mut u8) -> i32;
    }
    pub fn usize_() -> usize { unsafe { lsx_u64() as usize } }
    pub fn u64_() -> u64 { unsafe { lsx_u64() } }
    pub fn u8_() -> u8 { unsafe { lsx_u8() } }
    pub fn bool_() -> bool { let b = u8_(); assume(b < 2); b == 1 }
    pub fn assume(b: bool) { unsafe { lsx_assume(b) } }
    pub fn near(_hint: usize) -> usize { usize_() }
    pub fn upto(max: usize) -> usize { let x = usize_(); assume(x <= max); x }
    pub fn small(max: u8) -> usize { let x = u8_(); assume(x <= max); x as usize }
    /// decide this value first: one path per value
    pub fn fork(x: usize) -> usize { unsafe { lsx_fork(x as u64) as usize } }
    #[inline(always)]
    pub fn check(b: bool, m: &'static str) { unsafe { lsx_check(b, m.as_ptr(), m.len()) } }
    #[inline(always)]
    pub fn cover(b: bool, m: &'static str) { unsafe { lsx_cover(b, m.as_ptr(), m.len()) } }
    /// how deep the stack is: calls under way (natively: KB in use)
    pub fn depth() -> usize { unsafe { lsx_depth() as usize } }
    /// a panic of the caller's own code (a callback, a comparison, ...)
    pub fn callback_panic() -> ! { unsafe { lsx_unwind() } }
    unsafe extern "C-unwind" fn thunk<F: FnOnce()>(d: *mut u8) { (*(d as *mut Option<F>)).take().unwrap()() }
    /// Run `f`; true if it ended by `callback_panic`. Any other panic is a violation.
    pub fn panics<F: FnOnce()>(f: F) -> bool {
        let mut o = Some(f);
        let r = unsafe { lsx_try(thunk::<F>, &mut o as *mut Option<F> as *mut u8) };
        check(r != 2, "panics on its own");
        r != 0
    }
}

#[cfg(not(any(kani, lsx)))]
mod imp {
    use std::cell::RefCell;
    pub struct AssumeFailed;
    pub enum Source { Values(Vec<Vec<u8>>, usize), Random(u64) }
    thread_local!(pub static SRC: RefCell<Source> = RefCell::new(Source::Values(Vec::new(), 0)));
    thread_local!(pub static TRACE: RefCell<Vec<Vec<u8>>> = RefCell::new(Vec::new()));

    fn rnd(s: &mut u64) -> u64 {
        // xorshift64*
        *s ^= *s >> 12; *s ^= *s << 25; *s ^= *s >> 27;
        s.wrapping_mul(0x2545F4914F6CDD1D)
    }
    fn draw(size: usize, gen: &mut dyn FnMut(&mut u64) -> u64) -> u64 {
        let v = SRC.with(|s| match &mut *s.borrow_mut() {
            Source::Values(v, pos) => {
                let mut b = [0u8; 8];
                if let Some(x) = v.get(*pos) {
                    for (d, s) in b.iter_mut().zip(x) { *d = *s; }
                }
                *pos += 1;
                u64::from_le_bytes(b)
            }
            Source::Random(s) => gen(s),
        });
        TRACE.with(|t| t.borrow_mut().push(v.to_le_bytes()[..size].to_vec()));
        v
    }
    pub fn usize_() -> usize {
        draw(8, &mut |s| match rnd(s) >> 61 {
            0 | 1 | 2 => (rnd(s) >> 60),
            3 => u64::MAX - (rnd(s) >> 60),
            4 => (i64::MAX as u64) - (rnd(s) >> 60),
            5 => rnd(s) >> (rnd(s) >> 58),
            _ => rnd(s) >> 32,
        }) as usize
    }
    pub fn u64_() -> u64 { draw(8, &mut |s| rnd(s)) }
    pub fn u8_() -> u8 { draw(1, &mut |s| rnd(s) >> 56) as u8 }
    pub fn bool_() -> bool { draw(1, &mut |s| rnd(s) >> 63) & 1 != 0 }
    pub fn assume(b: bool) { if !b { std::panic::panic_any(AssumeFailed) } }
    pub fn near(hint: usize) -> usize {
        draw(8, &mut |s| {
            let h = hint as u64;
            match rnd(s) >> 61 {
                0 => h.wrapping_add(rnd(s) >> 62),
                1 => h.wrapping_sub(rnd(s) >> 62),
                2 => rnd(s) >> 61,
                3 => u64::MAX - (rnd(s) >> 61),
                _ => if h == u64::MAX { rnd(s) } else { rnd(s) % (h + 1) },
            }
        }) as usize
    }
    pub fn upto(max: usize) -> usize {
        let x = draw(8, &mut |s| {
            let h = max as u64;
            match rnd(s) >> 61 {
                0 => h,
                1 => 0,
                _ => if h == u64::MAX { rnd(s) } else { rnd(s) % (h + 1) },
            }
        }) as usize;
        assume(x <= max);
        x
    }
    pub fn small(max: u8) -> usize {
        let x = draw(1, &mut |s| (rnd(s) >> 32) % (max as u64 + 1)) as usize;
        assume(x <= max as usize);
        x
    }
    pub fn fork(x: usize) -> usize { x }
    #[inline(never)]
    pub fn depth() -> usize { let x = 0u8; usize::MAX / 1024 - std::hint::black_box(&x) as *const u8 as usize / 1024 }
    pub struct CallbackPanic;
    pub fn callback_panic() -> ! { std::panic::panic_any(CallbackPanic) }
    pub fn panics<F: FnOnce()>(f: F) -> bool {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(()) => false,
            Err(p) => if p.is::<CallbackPanic>() { true } else { std::panic::resume_unwind(p) },
        }
    }
}
pub use imp::*;
