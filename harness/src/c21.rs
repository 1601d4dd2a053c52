//! C21 misbehaving callbacks (path-wise): every call of the callback may
//! answer anything or panic.
use crate::nd;
use indexing::algorithms::*;
use indexing::scope;
use std::cmp::Ordering;

const N: usize = crate::tier!(7, 8);
const CAP: usize = 32;

/// An element that notices when it is dropped.
#[repr(C)]
pub struct Tok { id: u8, check: u16 }
/// where the elements are
static mut SPAN: [(usize, usize); 2] = [(0, 0); 2];
static mut DROPPED: bool = false;
static mut CALLS: usize = 0;
static mut LIMIT: usize = usize::MAX;
impl Drop for Tok { fn drop(&mut self) { unsafe { DROPPED = true; } } }

fn tok(id: usize) -> Tok { Tok { id: id as u8, check: 1000 + id as u16 } }
fn toks<const K: usize>(from: usize) -> std::mem::ManuallyDrop<[Tok; K]> {
    std::mem::ManuallyDrop::new(std::array::from_fn(|k| tok(from + k)))
}
fn start(a: &[Tok], b: &[Tok]) {
    unsafe {
        SPAN = [(a.as_ptr() as usize, a.len()), (b.as_ptr() as usize, b.len())];
        DROPPED = false;
        CALLS = 0;
        LIMIT = usize::MAX;
    }
}
/// Every element is in the storage exactly once.
fn audit() {
    unsafe {
        let mut seen = [false; CAP];
        let n = SPAN[0].1 + SPAN[1].1;
        for s in 0..2 {
            for k in 0..SPAN[s].1 {
                let t = &*(SPAN[s].0 as *const Tok).add(k);
                let id = t.id as usize;
                assert!(id < n && t.check == 1000 + id as u16, "elements are kept whole");
                assert!(!seen[id], "no element is duplicated, and none is lost");
                seen[id] = true;
            }
        }
        assert!(!DROPPED, "no element is dropped");
    }
}
/// The callback was handed this.
fn existing(t: &Tok) {
    unsafe {
        let a = t as *const Tok as usize;
        let within = |s: (usize, usize)| a >= s.0 && a < s.0 + s.1 * std::mem::size_of::<Tok>() && (a - s.0) % std::mem::size_of::<Tok>() == 0;
        assert!(within(SPAN[0]) || within(SPAN[1]), "the callback is handed existing elements");
    }
}
/// One call of the callback: the storage is complete, and then anything happens.
fn called() {
    audit();
    unsafe {
        CALLS += 1;
        nd::assume(CALLS <= LIMIT);
    }
}
fn answer1(a: &Tok) -> bool {
    existing(a);
    called();
    match nd::small(2) { 0 => false, 1 => true, _ => nd::callback_panic() }
}
fn answer(a: &Tok, b: &Tok) -> bool {
    existing(b);
    answer1(a)
}
impl PartialEq for Tok { fn eq(&self, o: &Tok) -> bool { answer(self, o) } }
impl Eq for Tok {}
impl PartialOrd for Tok {
    fn partial_cmp(&self, o: &Tok) -> Option<Ordering> { Some(self.cmp(o)) }
    fn lt(&self, o: &Tok) -> bool { answer(self, o) }
    fn le(&self, o: &Tok) -> bool { answer(self, o) }
    fn gt(&self, o: &Tok) -> bool { answer(self, o) }
    fn ge(&self, o: &Tok) -> bool { answer(self, o) }
}
impl Ord for Tok {
    fn cmp(&self, o: &Tok) -> Ordering {
        existing(self);
        existing(o);
        called();
        match nd::small(3) { 0 => Ordering::Less, 1 => Ordering::Equal, 2 => Ordering::Greater, _ => nd::callback_panic() }
    }
}

/// sorts and heaps: `f` may call the callback whenever it likes
fn torture<const K: usize>(limit: usize, f: impl FnOnce(&mut [Tok])) {
    let n = nd::fork(nd::small(K as u8));
    let mut v = toks::<K>(0);
    start(&v[..n], &[]);
    unsafe { LIMIT = limit; }
    let p = nd::panics(|| f(&mut v[..n]));
    audit();
    for k in n..K { assert!(v[k].id as usize == k, "elements outside are untouched"); }
    witness!(n == K && p && unsafe { CALLS } > 2, "a panic at a later call");
    witness!(n == K && (limit < usize::MAX || !p && v[0].id as usize == K - 1), "the last came first");
    witness!(n == K && p && unsafe { CALLS } == 1, "a panic at the first call");
}
fn merging<const K: usize, const M: usize>(ranges: bool) {
    let n = 1 + nd::fork(nd::small(K as u8 - 1));
    let m = nd::fork(nd::small(M as u8));
    let split = nd::fork(nd::small(K as u8));
    let mut v = toks::<K>(0);
    let mut b = toks::<M>(n);
    start(&v[..n], &b[..m]);
    let p = nd::panics(|| {
        let _ = if ranges { merge_internal_ranges(&mut v[..n], split, &mut b[..m]) } else { merge_internal_indices(&mut v[..n], split, &mut b[..m]) };
    });
    audit();
        witness!(n == K && m == M && p && unsafe { CALLS } > 1, "a panic at a later call");
    witness!(n == K && m == M && split == 2 && !p && v[K - 1].id == 1, "left to the end");
}

path_harnesses! {
    fn indexes() { torture::<N>(usize::MAX, |v| insertion_sort_indexes(v, answer)); }
    fn ranges() { torture::<N>(usize::MAX, |v| insertion_sort_ranges(v, answer)); }
    fn rust() { torture::<N>(usize::MAX, |v| insertion_sort_rust(v, answer)); }
    fn pointer_index() { torture::<N>(usize::MAX, |v| insertion_sort_pointerindex(v, answer)); }
    fn pointer_lower() { torture::<N>(usize::MAX, |v| insertion_sort_prange_lower(v, answer)); }
    fn twin() {
        const K: usize = crate::tier!(6, 7);
        let n = nd::fork(nd::small(K as u8));
        let mut v = toks::<K>(0);
        let mut u = toks::<K>(n);
        start(&v[..n], &u[..n]);
        let p = nd::panics(|| insertion_sort2_indexes(&mut v[..n], &mut u[..n], answer));
        audit();
        if !p { for k in 0..n { assert!(u[k].id == v[k].id + n as u8, "the second slice is permuted alike"); } }
        witness!(n == K && p && unsafe { CALLS } > 2, "a panic at a later call");
        witness!(n == K && !p && v[0].id as usize == K - 1, "the last came first");
    }
    fn heap() { torture::<{ crate::tier!(8, 10) }>(usize::MAX, |v| heapify(v)); }
    fn merge_ranges() { merging::<{ crate::tier!(8, 11) }, { crate::tier!(5, 6) }>(true); }
    fn merge_indices() { merging::<{ crate::tier!(8, 11) }, { crate::tier!(5, 6) }>(false); }
    // inconsistent answers may keep a quicksort going for ever: the first calls only
    fn quick_range() { torture::<{ crate::tier!(5, 6) }>(crate::tier!(14, 17), |v| quicksort_range(v)); }
    fn quick_bounds() { torture::<{ crate::tier!(5, 6) }>(crate::tier!(14, 17), |v| quicksort_bounds(v)); }
    fn quick_prange() { torture::<{ crate::tier!(5, 6) }>(crate::tier!(14, 17), |v| quicksort_prange(v)); }
    fn scans() {
        const K: usize = crate::tier!(6, 8);
        let n = 1 + nd::fork(nd::small(K as u8 - 1));
        let mut v = toks::<K>(0);
        start(&v[..n], &[]);
        let x = nd::fork(nd::small(K as u8 - 1));
        let y = nd::fork(nd::small(K as u8));
        nd::assume(x < n && x <= y && y <= n);
        let which = nd::fork(nd::small(7));
        let p = nd::panics(|| {
            scope(&mut v[..n], |c| {
                let i = c.vet(x).unwrap();
                let r = c.vet_range(x..y).unwrap();
                let (_, from) = c.split_at_pointer(c.pointer_range().into_iter().nth(x).unwrap());
                match which {
                    0 => { c.scan_from(i, answer1); }
                    1 => { c.scan_from_rev(i, answer1); }
                    2 => { c.scan_range(r, answer1); }
                    3 => { if let Ok(r) = r.nonempty() { c.scan_range(r, answer1); } }
                    4 => { c.scan_tail_(from.nonempty().unwrap().first(), answer1); }
                    5 => { c.scan_pointer_range(from, answer1); }
                    6 => { c.scan_pointer_range_rev(from, answer1); }
                    _ => { zip_all(&c, from) }
                }
            });
        });
        audit();
        for k in 0..n { assert!(v[k].id as usize == k, "a scan changes nothing"); }
        witness!(n == K && p && which == 0, "forward");
        witness!(n == K && p && which == 1, "backward");
        witness!(n == K && p && which == 2, "over a range");
        witness!(n == K && p && which == 4, "over the elements before a pointer");
        witness!(n == K && p && which == 5, "over a pointer range");
        witness!(n == K && p && which == 6, "over a pointer range, backward");
        witness!(n == K && p && which == 7, "zip");
    }
}
fn zip_all<'id, P>(c: &indexing::Container<'id, &mut [Tok]>, r: indexing::pointer::PRange<'id, Tok, P>) {
    indexing::pointer::zip(r, c, c.pointer_range(), c, |a, b| { answer(a, b); });
}
