//! The few functions of libz3 that are used. Every worker thread loads a copy
//! of the library of its own: Z3 takes process-wide locks on every query.
#![allow(non_camel_case_types, non_snake_case)]
use std::cell::Cell;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
pub type P = *mut c_void;
extern "C" {
    fn dlopen(f: *const c_char, flags: c_int) -> P;
    fn dlsym(h: P, s: *const c_char) -> P;
}
thread_local! { static API: Cell<Option<&'static Api>> = Cell::new(None) }
/// Loads the library for the current thread.
pub fn load(lib: &str, scratch: &std::path::Path, k: usize) -> Result<(), String> {
    let copy = scratch.join(format!("libz3-{}-{}.so", std::process::id(), k));
    std::fs::copy(lib, &copy).map_err(|e| format!("{}: {}", lib, e))?;
    let c = CString::new(copy.to_str().unwrap()).unwrap();
    let h = unsafe { dlopen(c.as_ptr(), 2) };
    let _ = std::fs::remove_file(&copy);
    if h.is_null() { return Err(format!("{} cannot be loaded", lib)) }
    let a = Api::get(h)?;
    API.with(|x| x.set(Some(Box::leak(Box::new(a)))));
    Ok(())
}
macro_rules! api {
    ($(pub fn $n:ident($($p:ident: $t:ty),*) $(-> $r:ty)?;)*) => {
        struct Api { $($n: unsafe extern "C" fn($($t),*) $(-> $r)?),* }
        impl Api {
            fn get(h: P) -> Result<Api, String> {
                unsafe { Ok(Api { $($n: {
                    let s = dlsym(h, concat!(stringify!($n), "\0").as_ptr() as *const c_char);
                    if s.is_null() { return Err(concat!("libz3 has no ", stringify!($n)).to_string()) }
                    std::mem::transmute::<P, unsafe extern "C" fn($($t),*) $(-> $r)?>(s)
                }),* }) }
            }
        }
        $(#[inline] pub unsafe fn $n($($p: $t),*) $(-> $r)? { (API.with(|x| x.get()).expect("libz3 is loaded").$n)($($p),*) })*
    };
}
api! {
    pub fn Z3_mk_config() -> P;
    pub fn Z3_mk_context(c: P) -> P;
    pub fn Z3_del_context(c: P);
    pub fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    pub fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    pub fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    pub fn Z3_mk_const(c: P, sym: P, sort: P) -> P;
    pub fn Z3_mk_unsigned_int64(c: P, v: u64, sort: P) -> P;
    pub fn Z3_mk_true(c: P) -> P;
    pub fn Z3_mk_not(c: P, a: P) -> P;
    pub fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    pub fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    pub fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    pub fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    pub fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    pub fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    pub fn Z3_mk_simple_solver(c: P) -> P;
    pub fn Z3_solver_inc_ref(c: P, s: P);
    pub fn Z3_mk_params(c: P) -> P;
    pub fn Z3_params_inc_ref(c: P, p: P);
    pub fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    pub fn Z3_solver_set_params(c: P, s: P, p: P);
    pub fn Z3_solver_push(c: P, s: P);
    pub fn Z3_solver_pop(c: P, s: P, n: c_uint);
    pub fn Z3_solver_assert(c: P, s: P, a: P);
    pub fn Z3_solver_check(c: P, s: P) -> i32;
    pub fn Z3_solver_get_model(c: P, s: P) -> P;
    pub fn Z3_model_inc_ref(c: P, m: P);
    pub fn Z3_model_dec_ref(c: P, m: P);
    pub fn Z3_model_eval(c: P, m: P, a: P, complete: bool, out: *mut P) -> bool;
    pub fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
}
