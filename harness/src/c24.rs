//! C24 pointer-based searches and sorts (path-wise).
use crate::nd;
use crate::search::*;
use crate::sorting::*;
use indexing::algorithms::*;
use indexing::container_traits::Contiguous;
use indexing::pointer::*;
use indexing::{scope, Container, NonEmpty, Unknown};

const N: usize = crate::tier!(7, 8);
const P: usize = crate::tier!(7, 8);
const K: usize = crate::tier!(13, 16);
const L: usize = crate::tier!(16, 14);
const R: usize = crate::tier!(28, 38);
const S: usize = crate::tier!(40, 130);
const U: usize = crate::tier!(9, 14);

/// the pointer range of positions s..e
fn part<'id, T, A: Contiguous<Item = T>>(c: &Container<'id, A>, s: usize, e: usize) -> PRange<'id, T> {
    let mut it = c.pointer_range().into_iter();
    for _ in 0..s { it.next(); }
    for _ in e..c.len() { it.next_back(); }
    it.into_range()
}
/// a slice with an arbitrary partition point and run of equal elements
fn world<const E: usize, const C: usize>(n: usize, buf: &[Pos<E>; C]) -> (&[Pos<E>], usize, usize) {
    let v = &buf[..n];
    let hi = nd::upto(n);
    let lo = nd::upto(hi);
    setup(v, lo, hi);
    (v, lo, hi)
}
fn storage<const E: usize, const C: usize>() -> [Pos<E>; C] { std::array::from_fn(|_| Pos([0; E])) }
fn ord<const E: usize>(x: &Pos<E>) -> std::cmp::Ordering { order::<E>(x as *const _ as usize) }
fn lt<const E: usize>(x: &Pos<E>) -> bool { ord(x) == std::cmp::Ordering::Less }

fn whole<const E: usize>(which: u8) {
    let buf = storage::<E, S>();
    let n = nd::fork(nd::small(S as u8));
    let (v, lo, hi) = world(n, &buf);
    match which {
        0 => check_found(binary_search_by_prange(v, ord), lo, hi),
        1 => check_found(binary_search_by_pslice(v, ord), lo, hi),
        2 => check_lower(lower_bound_prange(v, &Pos::KEY), lo),
        _ => check_lower(lower_bound_pslice(v, lt), lo),
    }
    witness!(n == S && lo == hi && lo == S - 1, "absent, before the last");
    witness!(n == S && lo == S, "beyond all");
    witness!(n == S && lo == 3 && hi == S - 3, "many equal");
}
fn at<'id, T, A: Contiguous<Item = T>>(c: &Container<'id, A>, p: PIndex<'id, T, Unknown>) -> usize { c.distance_to(p) }
fn found<'id, T, A: Contiguous<Item = T>>(c: &Container<'id, A>, r: Result<PIndex<'id, T, NonEmpty>, PIndex<'id, T, Unknown>>) -> Result<usize, usize> {
    match r { Ok(p) => Ok(c.distance_to(p)), Err(p) => Err(c.distance_to(p)) }
}
/// searches in a part of a container: v[s..e]
fn sub(which: u8) {
    const E: usize = 2;
    let buf = storage::<E, U>();
    let n = nd::fork(nd::small(U as u8));
    let e = nd::fork(nd::small(U as u8));
    let s = nd::fork(nd::small(U as u8));
    nd::assume(s <= e && e <= n);
    let (v, lo, hi) = world(n, &buf);
    unsafe { FROM = s; TO = e; }
    // as seen from the part
    let (pl, ph) = (lo.max(s).min(e), hi.max(s).min(e));
    scope(v, |c| {
        let r = part(&c, s, e);
        let ne = nd::bool_();
        match (which, r.nonempty()) {
            (0, Ok(q)) if ne => check_found(found(&c, binary_search_by_prange_(q, &c, ord)), pl, ph),
            (0, _) => check_found(found(&c, binary_search_by_prange_(r, &c, ord)), pl, ph),
            (1, Ok(q)) if ne => check_found(found(&c, binary_search_by_pslice_(PSlice::from(q), &c, ord)), pl, ph),
            (1, _) => check_found(found(&c, binary_search_by_pslice_(PSlice::from(r), &c, ord)), pl, ph),
            (2, Ok(q)) if ne => check_lower(at(&c, lower_bound_prange_(q, &c, lt)), pl),
            (2, _) => check_lower(at(&c, lower_bound_prange_(r, &c, lt)), pl),
            (_, Ok(q)) if ne => check_lower(at(&c, lower_bound_pslice_(PSlice::from(q), &c, lt)), pl),
            _ => check_lower(at(&c, lower_bound_pslice_(PSlice::from(r), &c, lt)), pl),
        }
        witness!(n == U && s == 2 && e == U - 2 && lo == 3 && hi == 5 && ne, "inside");
        witness!(n == U && s == 2 && e == U - 2 && lo == 0 && hi == 1, "all greater");
        witness!(n == U && s == 2 && e == U - 2 && lo == U, "all less");
        witness!(s == e && s > 0, "empty");
    });
}
/// contradictory answers: only existing elements, an end, a position within
fn chaos(which: u8) {
    let buf = storage::<4, U>();
    let n = nd::fork(nd::small(U as u8));
    let v = &buf[..n];
    setup(v, 0, 0);
    unsafe { CHAOS = true; BUDGET = 4 * U; }
    let within = match which {
        0 => match binary_search_by_prange(v, ord) { Ok(k) => k < n, Err(k) => k <= n },
        1 => match binary_search_by_pslice(v, ord) { Ok(k) => k < n, Err(k) => k <= n },
        2 => lower_bound_prange(v, &Pos::KEY) <= n,
        _ => lower_bound_pslice(v, lt) <= n,
    };
    assert!(within, "a position within the slice");
    witness!(n == U && unsafe { CALLS } > 0, "end");
}
/// insertion sorts; the one that inserts at the lower bound puts a new element
/// before its equals, so it is not stable and does not say it is
fn inserted<const N: usize>(stable: bool, f: impl FnOnce(&mut [Elt])) {
    let n = nd::fork(nd::small(N as u8));
    let mut v = weak_orders::<N>();
    let old = v;
    f(&mut v[..n]);
    if stable { check_stable(&v, &old, n); } else { check_sorted(&v, &old, n); }
    witness!(n == N && v[0].tag() == N - 1 && v[N - 1].tag() == 0, "reversed");
    witness!(n == N && v[1].key() == v[2].key() && v[0].tag() == 4, "equal keys");
}
fn sized<T: Copy + PartialEq>(stable: bool, make: impl Fn(u8, usize) -> T, less: fn(&T, &T) -> bool, f: impl FnOnce(&mut [T])) {
    const N: usize = 4;
    let mut v = [make(0, 0); N];
    for k in 0..N { v[k] = make(nd::u8_(), k); }
    let old = v;
    f(&mut v);
    let mut at = [0usize; N];
    for k in 0..N {
        let mut found = N;
        for j in 0..N { if old[j] == v[k] { found = j; } }
        assert!(found < N, "elements are kept whole");
        at[k] = found;
        for j in 0..k { assert!(at[j] != found, "no element is duplicated, and none is lost"); }
        assert!(k == 0 || !less(&v[k], &v[k - 1]), "sorted");
        assert!(!stable || k == 0 || less(&v[k - 1], &v[k]) || at[k - 1] < at[k], "equal elements keep their order");
    }
    witness!(at[0] == N - 1 && at[N - 1] == 0, "reversed");
}

path_harnesses! {
    fn search_prange() { whole::<4>(0); }
    fn search_pslice() { whole::<4>(1); }
    fn lower_prange() { whole::<4>(2); }
    fn lower_pslice() { whole::<4>(3); }
    fn search_prange_bytes() { whole::<1>(0); }
    fn search_pslice_odd() { whole::<3>(1); }
    fn lower_prange_odd() { whole::<3>(2); }
    fn lower_pslice_bytes() { whole::<1>(3); }
    fn sub_search_prange() { sub(0); }
    fn sub_search_pslice() { sub(1); }
    fn sub_lower_prange() { sub(2); }
    fn sub_lower_pslice() { sub(3); }
    fn chaos_search_prange() { chaos(0); }
    fn chaos_search_pslice() { chaos(1); }
    fn chaos_lower_prange() { chaos(2); }
    fn chaos_lower_pslice() { chaos(3); }
    fn incomparable_lower() {
        const C: usize = 40;
        let buf: [Partial; C] = std::array::from_fn(|_| Partial(0));
        let n = nd::fork(nd::upto(C));
        let v = &buf[..n];
        let hi = nd::upto(n);
        let lo = nd::upto(hi);
        unsafe { BASE = v.as_ptr() as usize; LEN = n; LO = lo; HI = hi; CALLS = 0; }
        check_lower(lower_bound_prange(v, &Partial::KEY), lo);
        witness!(n == C && lo == 3 && hi == C - 3, "many incomparable");
    }
    fn real_values() {
        const N: usize = 6;
        let mut a = [0i8; N];
        for k in 0..N { a[k] = nd::u8_() as i8; nd::assume(k == 0 || a[k - 1] <= a[k]); }
        let n = nd::fork(nd::small(N as u8));
        let x = nd::u8_() as i8;
        let v = &a[..n];
        let (mut lo, mut hi) = (0, 0);
        for k in 0..n { if v[k] < x { lo += 1; } if v[k] <= x { hi += 1; } }
        let (lo, hi) = (nd::fork(lo), nd::fork(hi));
        check_found(binary_search_by_prange(v, |y| y.cmp(&x)), lo, hi);
        check_found(binary_search_by_pslice(v, |y| y.cmp(&x)), lo, hi);
        check_lower(lower_bound_prange(v, &x), lo);
        check_lower(lower_bound_pslice(v, |y| *y < x), lo);
        witness!(n == N && lo == 2 && hi == 4, "end");
    }
    fn insertion_lower() { inserted::<P>(false, |v| insertion_sort_prange_lower(v, less)); }
    fn insertion_index() { inserted::<P>(true, |v| insertion_sort_pointerindex(v, less)); }
    fn insertion_lower_long() { long::<L>(9, crate::tier!(1, 2), false, |v| insertion_sort_prange_lower(v, wless)); }
    fn insertion_index_long() { long::<L>(9, crate::tier!(1, 2), true, |v| insertion_sort_pointerindex(v, wless)); }
    fn insertion_lower_words() { sized(false, |x, k| (x as u32) << 16 | k as u32, |a, b| a >> 16 < b >> 16, |v| insertion_sort_prange_lower(v, |a, b| a >> 16 < b >> 16)); }
    fn insertion_index_words() { sized(true, |x, k| (x as u32) << 16 | k as u32, |a, b| a >> 16 < b >> 16, |v| insertion_sort_pointerindex(v, |a, b| a >> 16 < b >> 16)); }
    fn insertion_lower_odd() { sized(false, |x, k| [x, k as u8, 77], |a, b| a[0] < b[0], |v| insertion_sort_prange_lower(v, |a, b| a[0] < b[0])); }
    fn insertion_index_odd() { sized(true, |x, k| [x, k as u8, 77], |a, b| a[0] < b[0], |v| insertion_sort_pointerindex(v, |a, b| a[0] < b[0])); }
    fn quick() { unstable::<N>(|v| quicksort_prange(v)); }
    fn quick_two_keys() { few_keys::<K>(2, |v| quicksort_prange(v)); }
    fn quick_long() { long::<L>(9, 1, false, |v| quicksort_prange(v)); }
    fn real_quick() { long::<R>(24, 1, false, |v| quicksort_prange(v)); }
}
