//! Long slices for the properties whose other harnesses are bounded by a small
//! length (path-wise): regular contents with an arbitrary element, every pair
//! of lengths, far places.
use crate::model::is;
use crate::nd;
use crate::search::*;
use indexing::algorithms::*;
use indexing::container_traits::*;
use indexing::pointer::*;
use indexing::{scope, Container};
use std::cell::Cell;
use std::cmp::Ordering;
use std::mem::ManuallyDrop;

/// longest slice with a freely chosen arbitrary element, and longest of all
const FREE: usize = crate::tier!(36, 48);
const MAX: usize = crate::tier!(304, 1030);
const SHORT: usize = 17;
/// lengths beyond FREE
const FAR: &[usize] = crate::tier!(&[40, 50, 64, 65, 100, 128, 129, 256, 257, 300], &[56, 63, 64, 65, 80, 99, 100, 101, 127, 128, 129, 192, 200, 255, 256, 257, 300, 512, 513, 1000, 1025]);

pub trait Item: Sized + Ord {
    fn make(key: u16, tag: usize) -> Self;
    fn key(&self) -> u16;
    fn tag(&self) -> usize;
    fn whole(&self) -> bool;
}
static mut DROPPED: usize = 0;
/// four bytes
pub struct Thin(u32);
impl Item for Thin {
    fn make(key: u16, tag: usize) -> Thin { Thin((key as u32) << 16 | tag as u32) }
    fn key(&self) -> u16 { (self.0 >> 16) as u16 }
    fn tag(&self) -> usize { (self.0 & 0xffff) as usize }
    fn whole(&self) -> bool { true }
}
/// twenty-four bytes, with a destructor
pub struct Fat { a: u64, key: u16, tag: u16, b: u64 }
impl Item for Fat {
    fn make(key: u16, tag: usize) -> Fat { Fat { a: 5 * tag as u64, key, tag: tag as u16, b: !(tag as u64) } }
    fn key(&self) -> u16 { self.key }
    fn tag(&self) -> usize { self.tag as usize }
    fn whole(&self) -> bool { let t = self.tag as u64; self.a == 5 * t && self.b == !t }
}
impl Drop for Fat { fn drop(&mut self) { unsafe { DROPPED += 1; } } }
macro_rules! ordered { ($($t:ty)*) => { $(
    impl PartialEq for $t { fn eq(&self, o: &$t) -> bool { self.key() == o.key() } }
    impl Eq for $t {}
    impl PartialOrd for $t { fn partial_cmp(&self, o: &$t) -> Option<Ordering> { Some(self.cmp(o)) } }
    impl Ord for $t { fn cmp(&self, o: &$t) -> Ordering { self.key().cmp(&o.key()) } }
)* } }
ordered! { Thin Fat }
pub fn less<T: Item>(a: &T, b: &T) -> bool { a.key() < b.key() }

/// a length: all up to FREE, some beyond
fn length() -> usize {
    let k = nd::fork(nd::upto(FREE - SHORT + FAR.len()));
    if k <= FREE - SHORT { SHORT + k } else { FAR[k - 1 - (FREE - SHORT)] }
}
/// keys of a regular content; distinct keys differ by two
fn pattern(kind: usize, k: usize, n: usize) -> u16 {
    2 * match kind {
        0 => k + 1,
        1 => n - k,
        2 => 9,
        3 => if 2 * k < n { k + 1 } else { n - k },
        4 => if 2 * k < n { n - k } else { k + 1 },
        5 => 1 + k * 7 % 5,
        6 => 1 + k * 37 % n,
        _ => 1 + k / 3 + k % 8,
    } as u16
}
/// an arbitrary key, in one of three narrow windows for the long ones
fn any_key(n: usize) -> u16 {
    let x = nd::usize_();
    if n <= FREE { nd::assume(x <= 2 * n + 3); }
    else {
        let low = match nd::fork(nd::upto(2)) { 0 => 0, 1 => n, _ => 2 * n - 1 };
        nd::assume(x >= low && x <= low + 3);
    }
    x as u16
}
fn a_place(n: usize) -> usize {
    match nd::fork(nd::upto(4)) { 0 => 0, 1 => 1, 2 => n / 2, 3 => n - 2, _ => n - 1 }
}
fn contents<T: Item>(n: usize, quadratic: bool) -> (ManuallyDrop<Vec<T>>, [u16; MAX]) {
    let kind = nd::fork(nd::upto(7));
    if quadratic { nd::assume(n <= FREE || kind == 0 || kind == 5 || kind == 2 || n <= 65 && kind == 3); nd::assume(n <= 400 || kind == 0 || kind == 2); }
    let p = a_place(n);
    let mut keys = [0; MAX];
    for k in 0..n { keys[k] = pattern(kind, k, n); }
    keys[p] = any_key(n);
    let mut v = Vec::with_capacity(n);
    for k in 0..n { v.push(T::make(keys[k], k)); }
    unsafe { DROPPED = 0; }
    (ManuallyDrop::new(v), keys)
}
fn permutation<T: Item>(v: &[T], keys: &[u16], from: usize) {
    let mut seen = [false; MAX + 4];
    assert!(unsafe { DROPPED } == 0, "no element is dropped");
    for x in v {
        let t = x.tag().wrapping_sub(from);
        assert!(t < v.len() && !seen[t], "no element is lost or duplicated");
        assert!(x.whole() && x.key() == keys[t], "elements are kept whole");
        seen[t] = true;
    }
}
fn sorted<T: Item>(v: &[T], stable: bool) {
    for k in 1..v.len() {
        assert!(v[k - 1].key() <= v[k].key(), "sorted");
        assert!(!stable || v[k - 1].key() < v[k].key() || v[k - 1].tag() < v[k].tag(), "equal elements keep their order");
    }
}
fn sort<T: Item>(stable: bool, quadratic: bool, f: impl FnOnce(&mut [T])) {
    let n = length();
    let (mut v, keys) = contents::<T>(n, quadratic);
    f(&mut v[..]);
    permutation(&v[..], &keys, 0);
    sorted(&v[..], stable);
    witness!(n == FREE && v[0].tag() == n - 1, "last to front");
    witness!(n == FREE && v[0].tag() == n / 2, "middle to front");
    witness!(n == FAR[FAR.len() - 1] && v[0].tag() == n - 1, "last to front, far");
}
fn heap<T: Item>() {
    let n = length();
    let (mut v, keys) = contents::<T>(n, false);
    heapify(&mut v[..]);
    permutation(&v[..], &keys, 0);
    for k in 1..n { assert!(v[(k - 1) / 2].key() <= v[k].key(), "a parent is not greater than its child"); }
    witness!(n == FAR[FAR.len() - 1] && v[0].tag() == n - 1, "last to front");
}
fn twin<T: Item, U: Item>() {
    let n = length();
    let (mut v, keys) = contents::<T>(n, true);
    let mut other = [0; MAX];
    let mut u: ManuallyDrop<Vec<U>> = ManuallyDrop::new(Vec::with_capacity(n));
    for k in 0..n { other[k] = (k * 11 % 7) as u16; u.push(U::make(other[k], k)); }
    insertion_sort2_indexes(&mut v[..], &mut u[..], less);
    permutation(&v[..], &keys, 0);
    sorted(&v[..], true);
    permutation(&u[..], &other, 0);
    for k in 0..n { assert!(v[k].tag() == u[k].tag(), "the second slice is permuted alike"); }
    witness!(n == FREE && v[0].tag() == n - 1, "last to front");
}
fn merge<T: Item>(ranges: bool) {
    let n = length();
    let split = match nd::fork(nd::upto(6)) { 0 => 0, 1 => 1, 2 => n / 3, 3 => n / 2, 4 => n - n / 4, 5 => n - 1, _ => n };
    let m = split + match nd::fork(nd::upto(1)) { 0 => 0, _ => 3 };
    let kind = nd::fork(nd::upto(5));
    // two ascending sections
    let mut keys = [0u16; MAX];
    let mut more = [0u16; MAX + 4];
    for k in 0..n {
        let j = if k < split { k } else { k - split };
        keys[k] = 4 + 2 * match (kind, k < split) {
            (0, _) => j,
            (1, true) => j + n,
            (1, false) => j,
            (2, true) => j,
            (2, false) => j + n,
            (3, _) => 7,
            (4, true) => j / 4,
            (4, false) => j / 3,
            (_, true) => 3 * (j / 3),
            (_, false) => 5 * (j / 5),
        } as u16;
    }
    // one arbitrary element that keeps its section sorted
    let p = match nd::fork(nd::upto(3)) { 0 => 0, 1 => n / 2, 2 => if split < n { split } else { n - 1 }, _ => n - 1 };
    let x = nd::usize_();
    nd::assume(x <= 4 * n + 8);
    if p > 0 && p != split { nd::assume(x >= keys[p - 1] as usize); }
    if p + 1 < n && p + 1 != split { nd::assume(x <= keys[p + 1] as usize); }
    if n > FREE { let low = keys[p] as usize; nd::assume(x + 2 >= low && x <= low + 2); }
    keys[p] = x as u16;
    let mut v: ManuallyDrop<Vec<T>> = ManuallyDrop::new(Vec::with_capacity(n));
    for k in 0..n { v.push(T::make(keys[k], k)); }
    let mut b: ManuallyDrop<Vec<T>> = ManuallyDrop::new(Vec::with_capacity(m));
    for k in 0..m { more[k] = (k * 29 % 50) as u16; b.push(T::make(more[k], 1000 + k)); }
    unsafe { DROPPED = 0; }
    let r = if ranges { merge_internal_ranges(&mut v[..], split, &mut b[..]) } else { merge_internal_indices(&mut v[..], split, &mut b[..]) };
    assert!(r.is_ok(), "a split point within the data and the buffer is accepted");
    permutation(&v[..], &keys, 0);
    sorted(&v[..], true);
    permutation(&b[..], &more, 1000);
    witness!(n == FREE && v[0].tag() == split && split == n / 2, "the right section first");
    witness!(n == FAR[FAR.len() - 1] && split == n && m == n, "nothing on the right");
}

// ---- pairs of positions in long containers ---------------------------------
const PAIRS: usize = crate::tier!(34, 66);
fn zipped() {
    // every pair of lengths
    let mut v = [0u16; 2 * PAIRS + 3];
    let (a, b) = (nd::fork(nd::upto(PAIRS)), nd::fork(nd::upto(PAIRS)));
    let apart = nd::bool_();
    let (s, t) = (1, if apart { PAIRS + 2 } else { 2 });
    let base = v.as_ptr() as usize;
    scope(&mut v[..], |mut c| {
        let (r, q) = (some!(c.vet_range(s..s + a).ok()), some!(c.vet_range(t..t + b).ok()));
        let len = a.min(b);
        let mut k = 0;
        let go = |x: *mut u16, y: *mut u16| {
            assert!(k < len, "up to the shorter length");
            assert!(x as usize == base + (s + k) * 2 && y as usize == base + (t + k) * 2, "position pairs in order, from the starts");
            k += 1;
        };
        match (r.nonempty(), q.nonempty()) {
            (Ok(r), Ok(q)) => c.zip_mut_raw(r, q, go),
            _ => c.zip_mut_raw(r, q, go),
        }
        assert!(k == len, "every pair up to the shorter length");
        witness!(a == PAIRS && b == PAIRS - 1, "end");
    });
}
/// the pointer range of positions s..e
fn part<'id, T, A: Contiguous<Item = T>>(c: &Container<'id, A>, s: usize, e: usize) -> PRange<'id, T> {
    let mut it = c.pointer_range().into_iter();
    for _ in 0..s { it.next(); }
    for _ in e..c.len() { it.next_back(); }
    it.into_range()
}
fn pzipped<T, U>(v: &mut [T; PAIRS + 2], u: &mut [U; PAIRS + 2], exclusive: bool) {
    let (a, b) = (nd::fork(nd::upto(PAIRS)), nd::fork(nd::upto(PAIRS)));
    let (zv, zu) = (std::mem::size_of::<T>(), std::mem::size_of::<U>());
    let (bv, bu) = (v.as_ptr() as usize, u.as_ptr() as usize);
    let len = a.min(b);
    let mut k = 0;
    let mut go = |x: usize, y: usize| {
        assert!(k < len, "zip: as many pairs as the shorter range has");
        assert!(x == bv + (1 + k) * zv && y == bu + (2 + k) * zu, "zip: the elements in lock step");
        k += 1;
    };
    if exclusive {
        scope(&mut v[..a + 1], |mut c| scope(&mut u[..b + 2], |mut d| {
            let (r, q) = (part(&c, 1, a + 1), part(&d, 2, b + 2));
            zip(PSlice::from(r), &mut c, q, &mut d, |x, y| go(x as *mut T as usize, y as *mut U as usize));
        }));
    } else {
        scope(&v[..], |c| scope(&u[..], |d| {
            let (r, q) = (part(&c, 1, a + 1), part(&d, 2, b + 2));
            match (r.nonempty(), q.nonempty()) {
                (Ok(r), Ok(q)) => zip(r, &c, q, &d, |x, y| go(x as *const T as usize, y as *const U as usize)),
                _ => zip(r, &c, PSlice::from(q), &d, |x, y| go(x as *const T as usize, y as *const U as usize)),
            }
        }));
    }
    assert!(k == len, "zip: as many pairs as the shorter range has");
    witness!(a == PAIRS && b == PAIRS - 1, "end");
}
/// elements without a comparison chain: few arbitrary ones in distinct others
fn copied<T: Copy + PartialEq>(prange: bool, make: impl Fn(u8, usize) -> T) {
    let (a, b) = (nd::fork(nd::upto(PAIRS)), nd::fork(nd::upto(PAIRS)));
    let mut src: [T; PAIRS] = std::array::from_fn(|k| make(5, k));
    let mut dst: [T; PAIRS] = std::array::from_fn(|k| make(7, 100 + k));
    let p = match nd::fork(nd::upto(2)) { 0 => 0, 1 => a / 2, _ => PAIRS - 1 };
    src[p] = make(nd::u8_(), p);
    dst[p] = make(nd::u8_(), 100 + p);
    let (s0, d0) = (src, dst);
    if prange { copy_prange(&src[..a], &mut dst[..b]); } else { copy(&src[..a], &mut dst[..b]); }
    let len = a.min(b);
    for k in 0..PAIRS {
        assert!(src[k] == s0[k], "the source is untouched");
        assert!(dst[k] == if k < len { s0[k] } else { d0[k] }, "the common length is copied, nothing else");
    }
    witness!(a == PAIRS && b == PAIRS - 1, "end");
}
fn dotted(prange: bool) {
    let l = nd::fork(nd::upto(PAIRS));
    let g = match nd::fork(nd::upto(2)) { 0 => l, 1 => l + 1, _ => PAIRS };
    nd::assume(g <= PAIRS);
    let (a, b) = if nd::bool_() { (l, g) } else { (g, l) };
    let mut x: [i32; PAIRS] = std::array::from_fn(|k| (k as i32 * 37) % 101 - 50);
    let y: [i32; PAIRS] = std::array::from_fn(|k| 1000 - 13 * k as i32);
    let p = match nd::fork(nd::upto(2)) { 0 => 0, 1 => PAIRS / 2, _ => PAIRS - 1 };
    x[p] = nd::u8_() as i8 as i32;
    let mut want = 0;
    for k in 0..a.min(b) { want += x[k] * y[k]; }
    let got = if prange { zip_dot_i32_prange(&x[..a], &y[..b]) } else { zip_dot_i32(&x[..a], &y[..b]) };
    assert!(got == want, "the dot product of the common length");
    witness!(a == PAIRS && b == PAIRS - 1, "end");
}

// ---- far places ------------------------------------------------------------
const WIDE: usize = crate::tier!(300, 600);
/// three places out of the whole of a long container
fn far(n: usize) -> (usize, usize) {
    let at = |k| match k { 0 => 0, 1 => 1, 2 => n / 3, 3 => n / 2, 4 => n - 33, 5 => n - 2, _ => n - 1 };
    let e = nd::fork(nd::upto(6));
    let s = nd::fork(nd::upto(e));
    nd::assume(at(s) <= at(e));
    (at(s), at(e))
}
fn permuted<T: Item>() {
    let n = match nd::fork(nd::upto(4)) { 0 => 40, 1 => 65, 2 => 129, 3 => 257, _ => WIDE };
    let (s, e) = far(n);
    let what = nd::fork(nd::upto(5));
    let mut v: ManuallyDrop<Vec<T>> = ManuallyDrop::new(Vec::with_capacity(n));
    for k in 0..n { v.push(T::make((k * 3) as u16, k)); }
    let p = nd::upto(WIDE);
    nd::assume(p == s || p == e || p + 1 == e);
    unsafe { DROPPED = 0; }
    scope(&mut v[..], |mut c| {
        let (i, j) = (c.vet(s).unwrap(), c.vet(e).unwrap());
        let r = c.vet_range(s..e).unwrap();
        let q = part(&c, s, e + 1).nonempty().unwrap();
        match what {
            0 => c.swap(i, j),
            1 => c.rotate1_up(r),
            2 => c.rotate1_down(r),
            3 => c.rotate1_up(c.vet_range(s..e + 1).unwrap().nonempty().unwrap()),
            4 => c.swap_ptr(q.first(), q.last()),
            _ => c.rotate1_prange(q),
        }
    });
    assert!(unsafe { DROPPED } == 0, "no element is dropped");
    let up = what == 1 || what == 3 || what == 5;
    let last = if what == 1 || what == 2 { e.wrapping_sub(1) } else { e };
    for k in 0..n {
        let m = if what == 0 || what == 4 { if k == s { e } else if k == e { s } else { k } }
            else if s == e && what < 3 || k < s || k > last { k }
            else if up { if k == s { last } else { k - 1 } }
            else if k == last { s } else { k + 1 };
        assert!(v[k].tag() == m && v[k].key() == 3 * m as u16 && v[k].whole(), "exactly the documented permutation");
    }
    witness!(n == WIDE && what == 5 && s == 1 && e == n - 1, "rotated by a pointer range");
    witness!(n == WIDE && what == 3 && s == 0 && e == n - 1, "rotated up");
    witness!(n == WIDE && what == 2 && s == 1 && e == n - 1, "rotated down");
}
/// scans that stop at a far element
fn scanned<T>(cells: &[T], pointers: bool) {
    let n = cells.len();
    let (s, e) = far(n);
    let run = match nd::fork(nd::upto(5)) { 0 => 0, 1 => (e - s) / 3, 2 => (e - s) / 2, 3 => (e - s).saturating_sub(1), 4 => (e - s).saturating_sub(2), _ => e - s };
    let (stop, low) = (s + run, e - run);
    let z = std::mem::size_of::<T>();
    let base = cells.as_ptr() as usize;
    let at = |x: &T, k: usize| x as *const T as usize == base + k * z;
    scope(cells, |c| {
        let (mut k, mut j) = (s, e);
        let forward = |x: &T| { assert!(k <= stop && k < e && at(x, k), "consecutive elements, none after a rejection"); k += 1; k <= stop };
        let backward = |x: &T| { j -= 1; assert!(j + 1 >= low && j >= s && at(x, j), "consecutive elements, none after a rejection"); j >= low };
        if pointers {
            let r = part(&c, s, e);
            let there = |a: usize, l: usize, s: usize, e: usize| a == s && l == e - s;
            let (a, b) = c.scan_pointer_range(r, forward);
            assert!(there(c.distance_to(a.first()), a.len(), s, stop) && there(c.distance_to(b.first()), b.len(), stop, e), "split at the first rejected element");
            let (a, b) = c.scan_pointer_range_rev(r, backward);
            assert!(there(c.distance_to(a.first()), a.len(), s, low) && there(c.distance_to(b.first()), b.len(), low, e), "split after the last rejected element");
            if let Ok(q) = part(&c, e, n).nonempty() {
                let mut j = e;
                let got = c.scan_tail_(q.first(), |x| { j -= 1; assert!(j + 1 >= low && at(x, j), "consecutive elements, none after a rejection"); j >= low });
                if low > 0 { assert!(there(c.distance_to(got.first()), got.len(), low, e + 1), "the maximal accepted run before the element and the element"); }
            }
        } else {
            let r = some!(c.vet_range(s..e).ok());
            let (a, b) = c.scan_range(r, forward);
            assert!(is(a, s, stop) && is(b, stop, e), "split at the first rejected element");
            if let Ok(i) = c.vet(e) {
                let mut j = e;
                let got = c.scan_from_rev(i, |x| { j -= 1; assert!(j + 1 >= low && at(x, j), "consecutive elements, none after a rejection"); j >= low });
                assert!(is(got, low, e + 1), "the maximal accepted run before the index and the index");
            }
            if let (Ok(i), true) = (c.vet(s), s < stop) {
                let mut k = s + 1;
                let got = c.scan_from(i, |x| { assert!(k <= stop && k < n && at(x, k), "consecutive elements, none after a rejection"); k += 1; k <= stop });
                assert!(is(got, s, stop), "the index and the maximal accepted run after it");
            }
            let _ = backward;
        }
        assert!(k == if stop < e { stop + 1 } else { e }, "every element up to the first rejected is shown");
        assert!(!pointers || j == if low > s { low - 1 } else { s }, "every element down to the last rejected is shown");
        witness!(s == 1 && e == n - 1 && run == e - s - 1, "end");
    });
}
/// whole traversals of pointer ranges
fn traversed<T>(cells: &[T]) {
    let n = cells.len();
    let (s, e) = far(n);
    let z = std::mem::size_of::<T>();
    let base = cells.as_ptr() as usize;
    scope(cells, |c| {
        let r = part(&c, s, e);
        macro_rules! at { ($p:expr, $k:expr) => { $p.ptr() as usize == base + ($k) * z } }
        assert!(r.len() == e - s && r.is_empty() == (s == e), "the distance of its ends");
        let mut k = s;
        for p in r { assert!(at!(p, k), "in increasing order"); k += 1; }
        assert!(k == e, "every position");
        for p in r.into_iter().rev() { k -= 1; assert!(at!(p, k), "in decreasing order"); }
        assert!(k == s, "every position");
        let m = (e - s) / 3;
        let mut it = r.into_iter();
        assert!(it.size_hint() == (e - s, Some(e - s)), "the exact number");
        if s < e {
            assert!(at!(it.nth(m).unwrap(), s + m), "nth");
            let left = it.into_range();
            assert!(left.len() == e - s - m - 1, "nth consumes what it skips");
            let mut left = left.len();
            while let Some(p) = it.next_back() { assert!(left > 0 && at!(p, s + m + left), "from the back"); left -= 1; }
            assert!(left == 0 && it.next().is_none(), "every position left");
        }
        witness!(s == 1 && e == n - 1, "end");
    });
}

// ---- growing long vectors --------------------------------------------------
fn grown<T: Item>(owned: bool) {
    const K: usize = 4;
    let n = match nd::fork(nd::upto(6)) { 0 => 7, 1 => 16, 2 => 31, 3 => 32, 4 => 33, 5 => 64, _ => 128 };
    let spare = match nd::fork(nd::upto(2)) { 0 => 0, 1 => 1, _ => 8 };
    let at = |k| match k { 0 => 0, 1 => 1, 2 => n / 2, 3 => n - 1, _ => n };
    let e = nd::fork(nd::upto(4));
    let s = at(nd::fork(nd::upto(e)));
    let e = at(e);
    let steps = nd::fork(nd::upto(80));
    let mut v: Vec<T> = Vec::with_capacity(n + spare);
    let mut model = [0usize; MAX];
    for k in 0..n { v.push(T::make(7, k)); model[k] = k; }
    unsafe { DROPPED = 0; }
    if owned { scope(v, |c| grow::<T, _>(c, n, s, e, K, steps, &mut model)); }
    else {
        scope(&mut v, |c| grow::<T, _>(c, n, s, e, K, steps, &mut model));
        assert!(v.len() == n + K && unsafe { DROPPED } == 0, "no element is dropped");
        for k in 0..n + K { assert!(v[k].tag() == model[k] && v[k].whole(), "the storage ends up as the container was"); }
        let _ = ManuallyDrop::new(v);
    }
}
fn grow<'id, T: Item, A: Pushable<Item = T> + Contiguous<Item = T>>(c: Container<'id, A>, n: usize, s: usize, e: usize, times: usize, steps: usize, model: &mut [usize; MAX]) {
    let r = some!(c.vet_range(s..e).ok());
    let (front, back) = (r.first(), r.past_the_end());
    let mut c = c.only_index();
    let mut steps = steps;
    for k in 0..times {
        let len = n + k;
        let x = T::make(9, len);
        let at = match steps % 3 {
            0 => { let i = c.push(x); assert!(i.integer() == len, "push returns the index of the new last element"); len }
            1 => { c.insert(front, x); s }
            _ => { c.insert(back, x); e }
        };
        steps /= 3;
        let mut j = len;
        while j > at { model[j] = model[j - 1]; j -= 1; }
        model[at] = len;
        assert!(c.len() == len + 1 && unsafe { DROPPED } == 0, "one element more, none dropped");
        assert!(c[r].len() == e - s, "outstanding ranges stay usable");
    }
    for j in 0..n + times { assert!(c[..][j].tag() == model[j] && c[..][j].key() == (if model[j] < n { 7 } else { 9 }) && c[..][j].whole(), "the new elements are at their places, the others keep their order"); }
    for q in 0..e - s { assert!(c[r][q].tag() == model[s + q], "outstanding ranges denote the same positions"); }
    witness!(n == 128 && s == 1 && e == 127, "end");
}

// ---- panics ----------------------------------------------------------------
/// Answers by the keys, or without any order, and a panic at an arbitrary call.
static mut CALLS: usize = 0;
static mut FATAL: usize = 0;
static mut MOOD: usize = 0;
pub struct Moody { key: u16, tag: u16 }
impl Drop for Moody { fn drop(&mut self) { unsafe { DROPPED += 1; } } }
fn moody(a: &Moody, b: &Moody) -> Ordering {
    unsafe {
        let n = CALLS;
        CALLS += 1;
        // every early call may panic, and some later ones (FATAL == LIMIT: none)
        if if n < LIMIT { n == FATAL } else { n % 97 == 0 && LIMIT + n / 97 == FATAL } { nd::callback_panic() }
        match MOOD {
            0 => a.key.cmp(&b.key),
            1 => b.key.cmp(&a.key),
            2 => if n * n % 7 < 3 { Ordering::Less } else { Ordering::Greater },
            3 => if n % 5 < 4 { Ordering::Less } else { Ordering::Equal },
            _ => if n % 9 < 2 { Ordering::Less } else { Ordering::Greater },
        }
    }
}
impl PartialEq for Moody { fn eq(&self, o: &Moody) -> bool { moody(self, o) == Ordering::Equal } }
impl Eq for Moody {}
impl PartialOrd for Moody { fn partial_cmp(&self, o: &Moody) -> Option<Ordering> { Some(moody(self, o)) } }
impl Ord for Moody { fn cmp(&self, o: &Moody) -> Ordering { moody(self, o) } }
fn before(a: &Moody, b: &Moody) -> bool { moody(a, b) == Ordering::Less }
const LIMIT: usize = crate::tier!(160, 260);
fn torture(f: impl FnOnce(&mut [Moody], &mut [Moody])) {
    let n = match nd::fork(nd::upto(7)) { 0 => 12, 1 => 17, 2 => 20, 3 => 33, 4 => 40, 5 => 65, 6 => 129, _ => 300 };
    let kind = nd::fork(nd::upto(7));
    let half = n / 2;
    let make = |k: usize, from: usize| Moody { key: pattern(kind, k, n), tag: (from + k) as u16 };
    let mut v: ManuallyDrop<Vec<Moody>> = ManuallyDrop::new(Vec::with_capacity(n));
    for k in 0..n { v.push(make(k, 0)); }
    let mut u: ManuallyDrop<Vec<Moody>> = ManuallyDrop::new(Vec::with_capacity(n));
    for k in 0..n { u.push(make(k, 1000)); }
    let mood = nd::fork(nd::upto(4));
    nd::assume(n <= 40 || (kind == 1 || kind == 5 || kind == 6) && (mood == 0 || mood == 2 || n < 300));
    let fatal = nd::upto(LIMIT + 24);
    unsafe { DROPPED = 0; CALLS = 0; MOOD = mood; FATAL = fatal; }
    let p = nd::panics(|| f(&mut v[..], &mut u[..]));
    let _ = half;
    assert!(unsafe { DROPPED } == 0, "no element is dropped");
    let mut seen = [false; 2 * MAX];
    for x in v.iter().chain(u.iter()) {
        let t = x.tag as usize;
        assert!(t < n || t >= 1000 && t < 1000 + n, "elements are kept whole");
        let (k, slot) = if t < 1000 { (t, t) } else { (t - 1000, MAX + t - 1000) };
        assert!(x.key == pattern(kind, k, n) && !seen[slot], "no element is duplicated, and none is lost");
        seen[slot] = true;
    }
    witness!(n == 40 && p && fatal > 20, "a panic at a later call");
}

// ---- depth of recursion ----------------------------------------------------
const DEEP: usize = crate::tier!(600, 1000);
/// more calls (natively: KB of stack) than a logarithmic recursion needs, far
/// fewer than one per element
const DEPTH: usize = 140;
/// ordered by RANK, which the adversary settles as late as it can
#[derive(PartialEq, Eq)]
pub struct Late(usize);
static mut ADVERSARY: bool = false;
static mut RANK: [usize; DEEP] = [0; DEEP];
static mut SETTLED: usize = 0;
static mut CANDIDATE: usize = 0;
static mut DEEPEST: usize = 0;
impl PartialOrd for Late { fn partial_cmp(&self, o: &Late) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Late {
    fn cmp(&self, o: &Late) -> Ordering {
        let d = nd::depth();
        unsafe {
            if d > DEEPEST { DEEPEST = d }
            if ADVERSARY {
                // McIlroy, "A killer adversary for quicksort": the element that
                // looks like the pivot becomes the least one yet unsettled
                if RANK[self.0] == DEEP && RANK[o.0] == DEEP {
                    let k = if self.0 == CANDIDATE { self.0 } else { o.0 };
                    RANK[k] = SETTLED;
                    SETTLED += 1;
                }
                if RANK[self.0] == DEEP { CANDIDATE = self.0 } else if RANK[o.0] == DEEP { CANDIDATE = o.0 }
            }
            RANK[self.0].cmp(&RANK[o.0])
        }
    }
}
fn depth(f: impl FnOnce(&mut [Late])) {
    let kind = nd::fork(nd::upto(8));
    let p = a_place(DEEP);
    unsafe {
        ADVERSARY = kind == 8;
        SETTLED = 0;
        CANDIDATE = 0;
        for k in 0..DEEP { RANK[k] = if ADVERSARY { DEEP } else { pattern(kind, k, DEEP) as usize }; }
        if kind < 8 { RANK[p] = any_key(DEEP) as usize; } else { nd::assume(p == 0); }
    }
    let mut v = Vec::with_capacity(DEEP);
    for k in 0..DEEP { v.push(Late(k)); }
    let mut v = ManuallyDrop::new(v);
    let base = nd::depth();
    unsafe { DEEPEST = base; }
    f(&mut v[..]);
    let mut seen = [false; DEEP];
    for k in 0..DEEP {
        assert!(!seen[v[k].0], "no element is lost or duplicated");
        seen[v[k].0] = true;
        if k > 0 { assert!(unsafe { RANK[v[k - 1].0] <= RANK[v[k].0] }, "sorted"); }
    }
    assert!(unsafe { DEEPEST } - base <= DEPTH, "the recursion stays shallow");
    witness!(kind == 8, "adversary");
    witness!(kind == 2 && v[0].0 == DEEP - 1, "equal elements but the last, which comes first");
}

// ---- lengths beyond 65536 ---------------------------------------------------
const HUGE: usize = 65_600;
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct Num(u32);
fn nums(n: usize, f: impl Fn(usize) -> usize) -> ManuallyDrop<Vec<Num>> {
    let mut v: Vec<Num> = Vec::with_capacity(n);
    for k in 0..n { v.push(Num(f(k) as u32)); }
    ManuallyDrop::new(v)
}
fn huge_permuted(what: usize) {
    let s = nd::fork(nd::upto(1));
    let e = HUGE - 1;
    let mut v = nums(HUGE, |k| k);
    scope(&mut v[..], |mut c| {
        let r = c.vet_range(s..e).unwrap();
        match what {
            0 => c.rotate1_up(r),
            1 => c.rotate1_down(r),
            2 => { let q = part(&c, s, e).nonempty().unwrap(); c.rotate1_prange(q) }
            _ => { let q = part(&c, s, e).nonempty().unwrap(); c.swap_ptr(q.first(), q.last()) }
        }
    });
    for k in 0..HUGE {
        let m = if k < s || k >= e { k } else if what == 3 { if k == s { e - 1 } else if k == e - 1 { s } else { k } }
            else if what == 1 { if k == e - 1 { s } else { k + 1 } }
            else if k == s { e - 1 } else { k - 1 };
        assert!(v[k].0 == m as u32, "exactly the documented permutation");
    }
    witness!(s == 1, "end");
}
/// all in order but the last, which comes first
fn huge_sorted(f: impl FnOnce(&mut [Num])) {
    let mut v = nums(HUGE, |k| 2 * k + 1);
    let x = nd::fork(nd::upto(1));
    v[HUGE - 1] = Num(x as u32);
    f(&mut v[..]);
    for k in 0..HUGE { assert!(v[k].0 as usize == if k == 0 { x } else { 2 * k - 1 }, "sorted, and no element is lost or duplicated"); }
    witness!(x == 1, "end");
}
/// scrambled contents
fn scrambled(k: usize) -> usize { k * 25_717 % HUGE }
fn huge_quick(f: impl FnOnce(&mut [Num])) {
    let equal = if nd::fork(nd::upto(1)) == 1 { 4 } else { 1 };
    let mut v = nums(HUGE, |k| scrambled(k) / equal);
    f(&mut v[..]);
    for k in 0..HUGE { assert!(v[k].0 as usize == k / equal, "sorted, and no element is lost or duplicated"); }
    witness!(equal == 4, "end");
}
/// counts the comparisons and panics at one of them
#[derive(PartialEq, Eq)]
pub struct Fuse(u32);
impl Drop for Fuse { fn drop(&mut self) { unsafe { DROPPED += 1; } } }
impl PartialOrd for Fuse { fn partial_cmp(&self, o: &Fuse) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Fuse {
    fn cmp(&self, o: &Fuse) -> Ordering {
        unsafe {
            CALLS += 1;
            if CALLS == FATAL { nd::callback_panic() }
        }
        self.0.cmp(&o.0)
    }
}
/// how: 0 in order but the last, which comes first; 1 scrambled; 2 two sections
fn huge_fused(how: usize, f: impl FnOnce(&mut [Fuse], &mut [Fuse])) {
    let fatal = match nd::fork(nd::upto(3)) { 0 => 3, 1 => 40_000, 2 => 65_585, _ => 120_000 };
    let mut v: ManuallyDrop<Vec<Fuse>> = ManuallyDrop::new(Vec::with_capacity(HUGE));
    let mut u: ManuallyDrop<Vec<Fuse>> = ManuallyDrop::new(Vec::with_capacity(HUGE));
    for k in 0..HUGE {
        v.push(Fuse(match how { 0 => if k == HUGE - 1 { 0 } else { k + 1 }, 1 => scrambled(k), _ => if k < HUGE / 2 { 2 * k } else { 2 * (k - HUGE / 2) + 1 } } as u32));
        u.push(Fuse((HUGE + k) as u32));
    }
    unsafe { DROPPED = 0; CALLS = 0; FATAL = fatal; }
    let p = nd::panics(|| f(&mut v[..], &mut u[..]));
    assert!(unsafe { DROPPED } == 0, "no element is dropped");
    let mut seen = ManuallyDrop::new(Vec::with_capacity(2 * HUGE));
    for _ in 0..2 * HUGE { seen.push(Cell::new(false)); }
    for x in v.iter().chain(u.iter()) {
        let k = x.0 as usize;
        assert!(k < 2 * HUGE && !seen[k].replace(true), "no element is duplicated, and none is lost");
    }
    witness!(p && fatal == 40_000, "a panic in the middle");
}
fn huge_twin() {
    let mut v = nums(HUGE, |k| 2 * k + 2);
    let mut u = nums(HUGE, |k| k);
    let x = nd::fork(nd::upto(1));
    v[HUGE - 1] = Num(x as u32);
    insertion_sort2_indexes(&mut v[..], &mut u[..], |a, b| a < b);
    for k in 0..HUGE {
        let m = if k == 0 { HUGE - 1 } else { k - 1 };
        assert!(v[k].0 as usize == if k == 0 { x } else { 2 * m + 2 } && u[k].0 as usize == m, "sorted, the second slice is permuted alike");
    }
    witness!(x == 1, "end");
}
fn huge_heap() {
    let down = nd::fork(nd::upto(1)) == 1;
    let mut v = nums(HUGE, |k| if down { HUGE - k } else { k });
    heapify(&mut v[..]);
    let mut sum = 0u64;
    for k in 0..HUGE { sum += v[k].0 as u64; assert!(v[(k.max(1) - 1) / 2].0 <= v[k].0, "a parent is not greater than its child"); }
    let n = HUGE as u64;
    assert!(sum == if down { n * (n + 1) / 2 } else { n * (n - 1) / 2 }, "no element is lost or duplicated");
    witness!(down, "end");
}
fn huge_merged(ranges: bool) {
    // the right section has K elements, and comes first, last or after the first
    const K: usize = 20;
    let split = HUGE - K;
    let at = nd::fork(nd::upto(2));
    let mut v = nums(HUGE, |k| if k < split { 3 * k + 100 } else { k - split + match at { 0 => 0, 1 => 101, _ => 4 * HUGE } });
    let mut b = nums(split + 1, |k| 7 * k);
    let r = if ranges { merge_internal_ranges(&mut v[..], split, &mut b[..]) } else { merge_internal_indices(&mut v[..], split, &mut b[..]) };
    assert!(r.is_ok(), "a split point within the data and the buffer is accepted");
    let mut sum = 0u64;
    for k in 0..HUGE { sum += v[k].0 as u64; assert!(k == 0 || v[k - 1].0 <= v[k].0, "sorted"); }
    let mut want = 0u64;
    for k in 0..HUGE { want += if k < split { 3 * k + 100 } else { k - split + match at { 0 => 0, 1 => 101, _ => 4 * HUGE } } as u64; }
    assert!(sum == want, "no element is lost or duplicated");
    let mut rest = 0u64;
    for k in 0..split + 1 { rest += b[k].0 as u64; }
    let m = split as u64;
    assert!(rest == 7 * m * (m + 1) / 2, "the buffer has the elements it had");
    witness!(at == 1, "end");
}
fn huge_zipped() {
    let mut v = nums(2 * HUGE, |k| k);
    let (a, b) = match nd::fork(nd::upto(1)) { 0 => (HUGE - 3, HUGE - 1), _ => (HUGE - 1, HUGE - 3) };
    let base = v.as_ptr() as usize;
    scope(&mut v[..], |mut c| {
        let (r, q) = (c.vet_range(1..1 + a).unwrap(), c.vet_range(HUGE..HUGE + b).unwrap());
        let mut k = 0;
        c.zip_mut_raw(r, q, |x: *mut Num, y: *mut Num| {
            assert!(x as usize == base + (1 + k) * 4 && y as usize == base + (HUGE + k) * 4, "position pairs in order, from the starts");
            k += 1;
        });
        assert!(k == HUGE - 3, "every pair up to the shorter length");
        witness!(a > b, "end");
    });
}
fn huge_pzipped(exclusive: bool) {
    let mut v = nums(HUGE + 2, |k| k);
    let mut w: ManuallyDrop<Vec<[u8; 3]>> = ManuallyDrop::new(vec![[7, 8, 9]; HUGE + 2]);
    let (a, b) = match nd::fork(nd::upto(1)) { 0 => (HUGE - 3, HUGE - 1), _ => (HUGE - 1, HUGE - 3) };
    let (bv, bw) = (v.as_ptr() as usize, w.as_ptr() as usize);
    let mut k = 0;
    let mut go = |x: usize, y: usize| { assert!(x == bv + (1 + k) * 4 && y == bw + (2 + k) * 3, "zip: the elements in lock step"); k += 1; };
    if exclusive {
        scope(&mut v[..], |mut c| scope(&mut w[..], |mut d| {
            let (r, q) = (part(&c, 1, 1 + a), part(&d, 2, 2 + b));
            zip(PSlice::from(r), &mut c, q, &mut d, |x, y| go(x as *mut Num as usize, y as *mut [u8; 3] as usize));
        }));
    } else {
        scope(&v[..], |c| scope(&w[..], |d| {
            let (r, q) = (part(&c, 1, 1 + a), part(&d, 2, 2 + b));
            zip(r, &c, q, &d, |x, y| go(x as *const Num as usize, y as *const [u8; 3] as usize));
        }));
    }
    assert!(k == HUGE - 3, "zip: as many pairs as the shorter range has");
    witness!(a > b, "end");
}
fn huge_copied(prange: bool) {
    let src = nums(HUGE, |k| k);
    let mut dst = nums(HUGE, |_| 1 << 20);
    let len = HUGE - 2;
    let (a, b) = match nd::fork(nd::upto(1)) { 0 => (len, HUGE), _ => (HUGE, len) };
    if prange { copy_prange(&src[..a], &mut dst[..b]); } else { copy(&src[..a], &mut dst[..b]); }
    for k in 0..HUGE { assert!(dst[k].0 as usize == if k < len { k } else { 1 << 20 }, "the common length is copied, nothing else"); }
    witness!(a > b, "end");
}
fn huge_scanned(pointers: bool) {
    let v = nums(HUGE, |k| k);
    let (s, e) = (1, HUGE - 1);
    let run = match nd::fork(nd::upto(2)) { 0 => e - s - 1, 1 => e - s - 30, _ => e - s };
    let (stop, low) = (s + run, e - run);
    let base = v.as_ptr() as usize;
    let at = |x: &Num, k: usize| x as *const Num as usize == base + k * 4;
    scope(&v[..], |c| {
        let (mut k, mut j) = (s, e);
        let forward = |x: &Num| { assert!(k <= stop && k < e && at(x, k), "consecutive elements, none after a rejection"); k += 1; k <= stop };
        let backward = |x: &Num| { j -= 1; assert!(j + 1 >= low && j >= s && at(x, j), "consecutive elements, none after a rejection"); j >= low };
        if pointers {
            let r = part(&c, s, e);
            let (a, b) = c.scan_pointer_range(r, forward);
            assert!(c.distance_to(a.first()) == s && a.len() == run && c.distance_to(b.first()) == stop && b.len() == e - stop, "split at the first rejected element");
            let (a, b) = c.scan_pointer_range_rev(r, backward);
            assert!(c.distance_to(a.first()) == s && a.len() == low - s && c.distance_to(b.first()) == low && b.len() == run, "split after the last rejected element");
        } else {
            let r = c.vet_range(s..e).unwrap();
            let (a, b) = c.scan_range(r, forward);
            assert!(is(a, s, stop) && is(b, stop, e), "split at the first rejected element");
            let got = c.scan_from_rev(c.vet(e).unwrap(), backward_(base, low));
            assert!(is(got, low, e + 1), "the maximal accepted run before the index and the index");
            let got = c.scan_from(c.vet(s).unwrap(), |x| { !at(x, stop) });
            assert!(is(got, s, if run == e - s { e } else { stop }), "the index and the maximal accepted run after it");
            let _ = backward;
        }
        assert!(k == if stop < e { stop + 1 } else { e }, "every element up to the first rejected is shown");
        witness!(run == e - s - 1, "end");
    });
}
/// accepts down to position `low`
fn backward_(base: usize, low: usize) -> impl FnMut(&Num) -> bool { move |x| x as *const Num as usize >= base + low * 4 }
fn huge_traversed() {
    let v = nums(HUGE, |k| k);
    let (s, e) = (1, HUGE - 1);
    let base = v.as_ptr() as usize;
    let both = nd::fork(nd::upto(1)) == 1;
    scope(&v[..], |c| {
        let r = part(&c, s, e);
        assert!(r.len() == e - s, "the distance of its ends");
        let (mut k, mut j) = (s, e);
        let mut it = r.into_iter();
        loop {
            match it.next() { Some(p) => assert!(k < j && p.ptr() as usize == base + k * 4, "in increasing order"), None => break }
            k += 1;
            if both { match it.next_back() { Some(p) => assert!(k < j && p.ptr() as usize == base + (j - 1) * 4, "in decreasing order"), None => break } j -= 1; }
        }
        assert!(k == j, "every position");
        witness!(both, "end");
    });
}
fn huge_grown() {
    let mut v = ManuallyDrop::into_inner(nums(HUGE, |k| k));
    scope(&mut v, |c| {
        let (r, i) = (c.vet_range(1..HUGE - 1).unwrap(), c.vet(HUGE - 2).unwrap());
        let mut c = c.only_index();
        c.insert(r.first(), Num(1 << 20));
        c.insert(i, Num(1 << 21));
        let j = c.push(Num(1 << 22));
        assert!(j.integer() == HUGE + 2 && c[j].0 == 1 << 22 && c.len() == HUGE + 3, "push returns the index of the new last element");
    });
    for k in 0..HUGE + 3 {
        let want = if k == 1 { 1 << 20 } else if k == HUGE - 2 { 1 << 21 } else if k == HUGE + 2 { 1 << 22 } else if k == 0 { 0 } else if k < HUGE - 2 { k - 1 } else { k - 2 };
        assert!(v[k].0 as usize == want, "the new elements are at their places, the others keep their order");
    }
    witness!(nd::bool_(), "end");
}
fn huge_range() {
    let len = HUGE;
    let s = match nd::fork(nd::upto(1)) { 0 => 3, _ => crate::model::IMAX - len };
    scope(crate::model::Probe::new(crate::model::IMAX), |c| {
        let r = c.vet_range(s..s + len).unwrap();
        let (mut k, mut j) = (s, s + len);
        let mut it = r.into_iter();
        while let Some(i) = it.next() { assert!(i.integer() == k && k < j, "in increasing order"); k += 1; match it.next_back() { Some(i) => { j -= 1; assert!(i.integer() == j, "in decreasing order") } None => break } }
        assert!(k == j, "every index");
        witness!(s == 3, "end");
    });
}
fn huge_subdivided() {
    let len = HUGE;
    let (s, parts) = match nd::fork(nd::upto(3)) { 0 => (0, len), 1 => (9, len - 1), 2 => (9, len / 2 + 1), _ => (crate::model::IMAX - len, 300) };
    scope(crate::model::Probe::new(crate::model::IMAX), |c| {
        let r = c.vet_range(s..s + len).unwrap();
        let (mut at, mut count) = (s, 0);
        let lo = len / parts;
        for p in r.subdivide(parts) {
            let l = p.end() - p.start();
            assert!(p.start() == at && (l == lo || l == lo + 1), "consecutive chunks, lengths differ by at most one");
            at = p.end();
            count += 1;
        }
        assert!(count == parts && at == s + len, "exactly n chunks that cover the range");
        witness!(parts == 300, "end");
    });
}

// ---- searches in vast slices ------------------------------------------------
/// The elements are told apart by address, none is ever read. The partition
/// points are arbitrary within windows at the ends, around fractions and around
/// powers of two.
fn vast<const E: usize>(f: impl Fn(&[Pos<E>], usize, usize)) {
    let n: usize = match nd::fork(nd::upto(6)) { 0 => 1000, 1 => 65_534, 2 => 65_540, 3 => (1 << 31) + 3, 4 => (1 << 32) - 1, 5 => (1 << 32) + 9, _ => (1 << 40) + 1 };
    let v = unsafe { std::slice::from_raw_parts((1usize << 60) as *const Pos<E>, n) };
    let mid = match nd::fork(nd::upto(6)) { 0 => 2, 1 => n / 3, 2 => n / 2, 3 => n - 2, 4 => 1 << 16, 5 => 1 << 31, _ => 1 << 32 };
    nd::assume(mid <= n);
    let lo = nd::upto(n);
    nd::assume(lo + 2 >= mid && lo <= mid + 2);
    let hi = match nd::fork(nd::upto(3)) { 0 => lo, 1 => lo + 1, 2 => lo + n / 5, _ => n };
    nd::assume(hi <= n && hi >= lo);
    setup(v, lo, hi);
    unsafe { BUDGET = 200; }
    f(v, lo, hi);
    witness!(n == (1 << 40) + 1 && mid == n / 3 && lo == hi, "absent");
    witness!(n == (1 << 40) + 1 && mid == n - 2 && lo == n, "beyond all");
    witness!(n == 65_540 && mid == n / 2 && hi == n, "many equal");
}
fn ord<const E: usize>(x: &Pos<E>) -> Ordering { order::<E>(x as *const _ as usize) }
fn lt<const E: usize>(x: &Pos<E>) -> bool { ord(x) == Ordering::Less }

path_harnesses! {
    fn c16_vast_search() { vast::<4>(|v, lo, hi| check_found(binary_search(v, &Pos::KEY), lo, hi)) }
    fn c16_vast_search_by() { vast::<1>(|v, lo, hi| check_found(binary_search_by(v, ord), lo, hi)) }
    fn c16_vast_lower() { vast::<3>(|v, lo, _| check_lower(lower_bound(v, &Pos::KEY), lo)) }
    fn c16_vast_lower_raw() { vast::<24>(|v, lo, _| check_lower(lower_bound_raw_ptr(v, &Pos::KEY), lo)) }
    fn c24_vast_search_prange() { vast::<4>(|v, lo, hi| check_found(binary_search_by_prange(v, ord), lo, hi)) }
    fn c24_vast_search_pslice() { vast::<3>(|v, lo, hi| check_found(binary_search_by_pslice(v, ord), lo, hi)) }
    fn c24_vast_lower_prange() { vast::<1>(|v, lo, _| check_lower(lower_bound_prange(v, &Pos::KEY), lo)) }
    fn c24_vast_lower_pslice() { vast::<24>(|v, lo, _| check_lower(lower_bound_pslice(v, lt), lo)) }
    fn c08_huge() { huge_range() }
    fn c09_huge() { huge_subdivided() }
    fn c11_huge() { huge_scanned(false) }
    fn c12_huge_up() { huge_permuted(0) }
    fn c12_huge_down() { huge_permuted(1) }
    fn c13_huge() { huge_zipped() }
    fn c14_huge() { huge_grown() }
    fn c17_huge_indexes() { huge_sorted(|v| insertion_sort_indexes(v, |a, b| a < b)) }
    fn c17_huge_ranges() { huge_sorted(|v| insertion_sort_ranges(v, |a, b| a < b)) }
    fn c17_huge_rust() { huge_sorted(|v| insertion_sort_rust(v, |a, b| a < b)) }
    fn c17_huge_twin() { huge_twin() }
    fn c18_huge_range() { huge_quick(|v| quicksort_range(v)) }
    fn c18_huge_bounds() { huge_quick(|v| quicksort_bounds(v)) }
    fn c21_huge_indexes() { huge_fused(0, |v, _| insertion_sort_indexes(v, |a, b| a < b)) }
    fn c21_huge_ranges() { huge_fused(0, |v, _| insertion_sort_ranges(v, |a, b| a < b)) }
    fn c21_huge_rust() { huge_fused(0, |v, _| insertion_sort_rust(v, |a, b| a < b)) }
    fn c21_huge_index() { huge_fused(0, |v, _| insertion_sort_pointerindex(v, |a, b| a < b)) }
    fn c21_huge_lower() { huge_fused(0, |v, _| insertion_sort_prange_lower(v, |a, b| a < b)) }
    fn c21_huge_twin() { huge_fused(0, |v, u| insertion_sort2_indexes(v, u, |a, b| a < b)) }
    fn c21_huge_heap() { huge_fused(1, |v, _| heapify(v)) }
    fn c21_huge_merge_ranges() { huge_fused(2, |v, u| { let _ = merge_internal_ranges(v, HUGE / 2, u); }) }
    fn c21_huge_merge_indices() { huge_fused(2, |v, u| { let _ = merge_internal_indices(v, HUGE / 2, u); }) }
    fn c21_huge_quick_range() { huge_fused(1, |v, _| quicksort_range(v)) }
    fn c21_huge_quick_bounds() { huge_fused(1, |v, _| quicksort_bounds(v)) }
    fn c21_huge_quick_prange() { huge_fused(1, |v, _| quicksort_prange(v)) }
    fn c24_huge_quick() { huge_quick(|v| quicksort_prange(v)) }
    fn c19_huge() { huge_heap() }
    fn c20_huge_ranges() { huge_merged(true) }
    fn c20_huge_indices() { huge_merged(false) }
    fn c22_huge() { huge_traversed() }
    fn c23_huge_rotate() { huge_permuted(2) }
    fn c23_huge_swap() { huge_permuted(3) }
    fn c23_huge_scan() { huge_scanned(true) }
    fn c23_huge_zip() { huge_pzipped(false) }
    fn c23_huge_zip_exclusive() { huge_pzipped(true) }
    fn c23_huge_copy() { huge_copied(false) }
    fn c23_huge_copy_prange() { huge_copied(true) }
    fn c24_huge_index() { huge_sorted(|v| insertion_sort_pointerindex(v, |a, b| a < b)) }
    fn c24_huge_lower() { huge_sorted(|v| insertion_sort_prange_lower(v, |a, b| a < b)) }
    fn c11_words() { scanned(&[0u16; WIDE], false) }
    fn c11_odd() { scanned(&[[0u8; 12]; WIDE], false) }
    fn c12_thin() { permuted::<Thin>() }
    fn c12_fat() { permuted::<Fat>() }
    fn c13_zip() { zipped() }
    fn c14_thin() { grown::<Thin>(false) }
    fn c14_fat() { grown::<Fat>(true) }
    fn c17_indexes() { sort::<Thin>(true, true, |v| insertion_sort_indexes(v, less)) }
    fn c17_ranges() { sort::<Thin>(true, true, |v| insertion_sort_ranges(v, less)) }
    fn c17_rust() { sort::<Thin>(true, true, |v| insertion_sort_rust(v, less)) }
    fn c17_fat() { let w = nd::fork(nd::upto(2)); sort::<Fat>(true, true, |v| match w { 0 => insertion_sort_indexes(v, less), 1 => insertion_sort_ranges(v, less), _ => insertion_sort_rust(v, less) }) }
    fn c17_twin() { twin::<Thin, Fat>() }
    fn c18_range() { sort::<Thin>(false, false, |v| quicksort_range(v)) }
    fn c18_bounds() { sort::<Thin>(false, false, |v| quicksort_bounds(v)) }
    fn c18_fat() { let b = nd::bool_(); sort::<Fat>(false, false, |v| if b { quicksort_range(v) } else { quicksort_bounds(v) }) }
    fn c18_depth_range() { depth(|v| quicksort_range(v)) }
    fn c18_depth_bounds() { depth(|v| quicksort_bounds(v)) }
    fn c19_thin() { heap::<Thin>() }
    fn c19_fat() { heap::<Fat>() }
    fn c20_ranges() { merge::<Thin>(true) }
    fn c20_indices() { merge::<Thin>(false) }
    fn c20_fat() { merge::<Fat>(nd::bool_()) }
    fn c21_indexes() { torture(|v, _| insertion_sort_indexes(v, before)) }
    fn c21_ranges() { torture(|v, _| insertion_sort_ranges(v, before)) }
    fn c21_rust() { torture(|v, _| insertion_sort_rust(v, before)) }
    fn c21_index() { torture(|v, _| insertion_sort_pointerindex(v, before)) }
    fn c21_lower() { torture(|v, _| insertion_sort_prange_lower(v, before)) }
    fn c21_twin() { torture(|v, u| insertion_sort2_indexes(v, u, before)) }
    fn c21_heap() { torture(|v, _| heapify(v)) }
    fn c21_merge_ranges() { torture(|v, u| { let k = v.len() / 2; let _ = merge_internal_ranges(v, k, u); }) }
    fn c21_merge_indices() { torture(|v, u| { let k = v.len() / 2; let _ = merge_internal_indices(v, k, u); }) }
    fn c21_quick_range() { torture(|v, _| quicksort_range(v)) }
    fn c21_quick_bounds() { torture(|v, _| quicksort_bounds(v)) }
    fn c21_quick_prange() { torture(|v, _| quicksort_prange(v)) }
    fn c22_words() { traversed(&[0u16; WIDE]) }
    fn c22_odd() { traversed(&[[0u8; 12]; WIDE]) }
    fn c23_scan() { scanned(&[0u16; WIDE], true) }
    fn c23_scan_odd() { scanned(&[[0u8; 12]; WIDE], true) }
    fn c23_zip() { pzipped(&mut [0u16; PAIRS + 2], &mut [[0u8; 12]; PAIRS + 2], false) }
    fn c23_zip_exclusive() { pzipped(&mut [[0u32; 5]; PAIRS + 2], &mut [0u8; PAIRS + 2], true) }
    fn c23_copy() { copied(false, |x, k| (x as u32) << 16 | k as u32) }
    fn c23_copy_prange() { copied(true, |x, k| (x as u32) << 16 | k as u32) }
    fn c23_copy_odd() { copied(true, |x, k| [x, k as u8, 77]) }
    fn c23_dot() { dotted(false) }
    fn c23_dot_prange() { dotted(true) }
    fn c24_index() { sort::<Thin>(true, true, |v| insertion_sort_pointerindex(v, less)) }
    fn c24_lower() { sort::<Thin>(false, true, |v| insertion_sort_prange_lower(v, less)) }
    fn c24_fat() { let b = nd::bool_(); sort::<Fat>(b, true, |v| if b { insertion_sort_pointerindex(v, less) } else { insertion_sort_prange_lower(v, less) }) }
    fn c24_depth() { depth(|v| quicksort_prange(v)) }
    fn c24_quick() { sort::<Thin>(false, false, |v| quicksort_prange(v)) }
    fn c24_quick_fat() { sort::<Fat>(false, false, |v| quicksort_prange(v)) }
}
