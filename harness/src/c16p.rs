//! C16 searches over slices (path-wise).
use crate::nd;
use crate::search::*;
use indexing::algorithms::*;
use std::cmp::Ordering;

const S: usize = crate::tier!(150, 400);
const U: usize = crate::tier!(12, 16);
const Z: usize = crate::tier!(150, 400);

fn storage<const E: usize, const C: usize>() -> [Pos<E>; C] { std::array::from_fn(|_| Pos([0; E])) }
fn ord<const E: usize>(x: &Pos<E>) -> Ordering { order::<E>(x as *const _ as usize) }

/// every length, every partition point and run of equal elements
fn whole<const E: usize>(which: u8) {
    let buf = storage::<E, S>();
    let n = nd::fork(nd::upto(S));
    let v = &buf[..n];
    let hi = nd::upto(n);
    let lo = nd::upto(hi);
    setup(v, lo, hi);
    match which {
        0 => check_found(binary_search(v, &Pos::KEY), lo, hi),
        1 => check_found(binary_search_by(v, ord), lo, hi),
        2 => check_lower(lower_bound(v, &Pos::KEY), lo),
        _ => check_lower(lower_bound_raw_ptr(v, &Pos::KEY), lo),
    }
    witness!(n == S && lo == hi && lo == S - 1, "absent, before the last");
    witness!(n == S && lo == S, "beyond all");
    witness!(n == S && lo == 3 && hi == S - 3, "many equal");
}
/// contradictory answers: only existing elements, an end, a position within
fn chaos(which: u8) {
    let buf = storage::<3, U>();
    let n = nd::fork(nd::small(U as u8));
    let v = &buf[..n];
    setup(v, 0, 0);
    unsafe { CHAOS = true; BUDGET = 4 * U; }
    let within = match which {
        0 => match binary_search(v, &Pos::KEY) { Ok(k) => k < n, Err(k) => k <= n },
        1 => match binary_search_by(v, ord) { Ok(k) => k < n, Err(k) => k <= n },
        2 => lower_bound(v, &Pos::KEY) <= n,
        _ => lower_bound_raw_ptr(v, &Pos::KEY) <= n,
    };
    assert!(within, "a position within the slice");
    witness!(n == U && unsafe { CALLS } > 0, "end");
}
/// what `binary_search_by` hands to its callback is the element; the answers are
/// of the elements' values, in any type that needs no order of its own
fn values_by_key() {
    const N: usize = crate::tier!(7, 9);
    let n = nd::fork(nd::small(N as u8));
    let mut a = [(0u8, 0u32, 0u64); N];
    for k in 0..n {
        a[k] = (nd::u8_(), k as u32, !(k as u64));
        nd::assume(k == 0 || a[k - 1].0 <= a[k].0);
    }
    let x = nd::u8_();
    let (mut lo, mut hi) = (0, 0);
    for k in 0..n { lo += (a[k].0 < x) as usize; hi += (a[k].0 <= x) as usize; }
    let r = binary_search_by(&a[..n], |e| {
        assert!(e.1 as usize + (e.2 as usize) == usize::MAX, "an element of the slice");
        e.0.cmp(&x)
    });
    check_found(r, lo, hi);
    witness!(n == N && lo == 2 && hi == 4, "equal");
    witness!(n == N && lo == 3 && hi == 3, "absent");
}

/// elements that are neither less than the key, nor equal, nor greater
fn incomparable(which: u8) {
    const C: usize = 40;
    let buf: [Partial; C] = std::array::from_fn(|_| Partial(0));
    let n = nd::fork(nd::upto(C));
    let v = &buf[..n];
    let hi = nd::upto(n);
    let lo = nd::upto(hi);
    unsafe { BASE = v.as_ptr() as usize; LEN = n; LO = lo; HI = hi; CALLS = 0; }
    check_lower(if which == 0 { lower_bound(v, &Partial::KEY) } else { lower_bound_raw_ptr(v, &Partial::KEY) }, lo);
    witness!(n == C && lo == 3 && hi == C - 3, "many incomparable");
}

struct Unit;
static mut UNIT: Ordering = Ordering::Equal;
impl PartialEq for Unit { fn eq(&self, o: &Unit) -> bool { self.cmp(o) == Ordering::Equal } }
impl Eq for Unit {}
impl PartialOrd for Unit { fn partial_cmp(&self, o: &Unit) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Unit { fn cmp(&self, _: &Unit) -> Ordering { unsafe { UNIT } } }
fn zero_sized_elements() {
    static CELLS: [Unit; Z] = [const { Unit }; Z];
    let n = nd::fork(nd::upto(Z));
    let v = &CELLS[..n];
    let o = match nd::small(2) { 0 => Ordering::Less, 1 => Ordering::Equal, _ => Ordering::Greater };
    unsafe { UNIT = o; }
    let (lo, hi) = match o { Ordering::Less => (n, n), Ordering::Equal => (0, n), Ordering::Greater => (0, 0) };
    match nd::small(3) {
        0 => check_lower(lower_bound(v, &Unit), lo),
        1 => check_lower(lower_bound_raw_ptr(v, &Unit), lo),
        2 => check_found(binary_search(v, &Unit), lo, hi),
        _ => check_found(binary_search_by(v, |_| o), lo, hi),
    }
    witness!(o == Ordering::Less && n == Z, "less");
    witness!(o == Ordering::Equal && n == Z, "equal");
    witness!(o == Ordering::Greater && n == Z, "greater");
}

path_harnesses! {
    fn binary_search_bytes() { whole::<1>(0); }
    fn binary_search_words() { whole::<4>(0); }
    fn binary_search_by_bytes() { whole::<1>(1); }
    fn binary_search_by_odd() { whole::<7>(1); }
    fn lower_bound_bytes() { whole::<1>(2); }
    fn lower_bound_wide() { whole::<24>(2); }
    fn lower_bound_raw_bytes() { whole::<1>(3); }
    fn lower_bound_raw_wide() { whole::<16>(3); }
    fn any_answers() { chaos(0); }
    fn any_answers_by() { chaos(1); }
    fn any_answers_lower() { chaos(2); }
    fn any_answers_lower_raw() { chaos(3); }
    fn incomparable_lower() { incomparable(0); }
    fn incomparable_lower_raw() { incomparable(1); }
    fn by_key() { values_by_key(); }
    fn zero_sized() { zero_sized_elements(); }
}
