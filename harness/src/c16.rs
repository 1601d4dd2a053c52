//! C16 searches over slices.
use crate::model::*;
use crate::nd;
use crate::search::*;
use indexing::algorithms::*;
use std::cmp::Ordering;

#[allow(dead_code)]
fn found<const S: usize>(max: usize) {
    let n = nd::upto(max);
    let (lo, hi) = (nd::upto(n), nd::upto(n));
    nd::assume(lo <= hi);
    let v = &*vast::<Pos<S>>(n);
    setup(v, lo, hi);
    let by = nd::bool_();
    let r = if by { binary_search_by(v, |x| order::<S>(x as *const _ as usize)) } else { binary_search(v, &Pos::KEY) };
    check_found(r, lo, hi);
    witness!(lo == hi && lo > max / 2, "absent");
    witness!(lo + 1 == hi && lo > max / 2 && r == Ok(lo), "unique");
    witness!(hi == n && lo + 5 < hi && !by, "many equal");
}
fn lower<const S: usize>(max: usize) {
    let n = nd::upto(max);
    let lo = nd::upto(n);
    let hi = nd::upto(n);
    nd::assume(lo <= hi);
    let v = &*vast::<Pos<S>>(n);
    setup(v, lo, hi);
    check_lower(lower_bound(v, &Pos::KEY), lo);
    witness!(lo == n && n > max / 2, "beyond all");
    witness!(lo == 0 && n > max / 2, "before all");
    witness!(lo > max / 2 && hi > lo + 1, "many equal");
}
fn lower_raw<const S: usize>(max: usize) {
    let n = nd::upto(max);
    let lo = nd::upto(n);
    let hi = nd::upto(n);
    nd::assume(lo <= hi);
    let v = &*vast::<Pos<S>>(n);
    setup(v, lo, hi);
    check_lower(lower_bound_raw_ptr(v, &Pos::KEY), lo);
    witness!(lo == n && n > max / 2, "beyond all");
    witness!(lo == 0 && n > max / 2, "before all");
    witness!(lo > max / 2 && hi > lo + 1, "many equal");
}
fn sorted<const N: usize>() -> [i8; N] {
    let mut a = [0i8; N];
    for k in 0..N {
        a[k] = nd::u8_() as i8;
        nd::assume(k == 0 || a[k - 1] <= a[k]);
    }
    a
}

harnesses! {
    #[cfg(feature = "thorough")]
    fn binary_search_bytes [9, 13] { found::<1>(crate::tier!(50, 1000)) }
    #[cfg(feature = "thorough")]
    fn binary_search_words [9, 13] { found::<4>(crate::tier!(50, 1000)) }
    fn lower_bound_bytes [11, 13] { lower::<1>(crate::tier!(200, 1000)) }
    fn lower_bound_words [11, 13] { lower::<4>(crate::tier!(200, 1000)) }
    fn lower_bound_raw_bytes [11, 13] { lower_raw::<1>(crate::tier!(200, 1000)) }
    fn lower_bound_raw_words [11, 13] { lower_raw::<4>(crate::tier!(200, 1000)) }
    // real values, real ordering
    fn values [8, 10] {
        const N: usize = crate::tier!(5, 7, 9);
        let a = sorted::<N>();
        let n = nd::small(N as u8);
        let x = nd::u8_() as i8;
        let v = &a[..n];
        let (mut lo, mut hi) = (0, 0);
        for k in 0..n { if v[k] < x { lo += 1; } if v[k] <= x { hi += 1; } }
        check_found(binary_search(v, &x), lo, hi);
        check_found(binary_search_by(v, |y| y.cmp(&x)), lo, hi);
        check_lower(lower_bound(v, &x), lo);
        check_lower(lower_bound_raw_ptr(v, &x), lo);
        witness!(n == N && lo == 2 && hi == 4, "end");
        witness!(n == N && lo == 3 && hi == 3, "absent");
    }
    // zero-sized elements have positions too
    fn zero_sized [9, 13] {
        let max = crate::tier!(50, 1000);
        let n = nd::upto(max);
        let v: &[Unit] = unsafe { std::slice::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), n) };
        let o = match nd::small(2) { 0 => Ordering::Less, 1 => Ordering::Equal, _ => Ordering::Greater };
        unsafe { UNIT = o; }
        let (lo, hi) = match o { Ordering::Less => (n, n), Ordering::Equal => (0, n), Ordering::Greater => (0, 0) };
        check_lower(lower_bound(v, &Unit), lo);
        check_lower(lower_bound_raw_ptr(v, &Unit), lo);
        check_found(binary_search_by(v, |_| o), lo, hi);
        witness!(o == Ordering::Less && n == max, "less");
        witness!(o == Ordering::Equal && n == max, "equal");
    }
}

struct Unit;
static mut UNIT: Ordering = Ordering::Equal;
impl PartialEq for Unit { fn eq(&self, _: &Unit) -> bool { unsafe { UNIT == Ordering::Equal } } }
impl PartialOrd for Unit { fn partial_cmp(&self, _: &Unit) -> Option<Ordering> { unsafe { Some(UNIT) } } }
