//! Sorting oracle: one-byte elements, ordered by the upper four bits, with the
//! original position in the lower four bits as a tag that the order ignores.
use crate::nd;
use std::cmp::Ordering;

#[derive(Clone, Copy, Debug)]
#[repr(transparent)]
pub struct Elt(pub u8);
impl Elt {
    pub fn key(&self) -> u8 { self.0 >> 4 }
    pub fn tag(&self) -> usize { (self.0 & 15) as usize }
}
impl PartialEq for Elt { fn eq(&self, o: &Elt) -> bool { self.key() == o.key() } }
impl Eq for Elt {}
impl PartialOrd for Elt { fn partial_cmp(&self, o: &Elt) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Elt { fn cmp(&self, o: &Elt) -> Ordering { self.key().cmp(&o.key()) } }
pub fn less(a: &Elt, b: &Elt) -> bool { a.key() < b.key() }

/// v is a permutation of old
pub fn check_permutation(v: &[Elt], old: &[Elt]) {
    let mut seen = 0u32;
    for x in v {
        assert!(x.tag() < old.len() && seen & (1 << x.tag()) == 0, "no element is lost or duplicated");
        assert!(old[x.tag()].0 == x.0, "elements are kept whole");
        seen |= 1 << x.tag();
    }
}
/// The first n are sorted, the rest are untouched.
pub fn check_sorted(v: &[Elt], old: &[Elt], n: usize) {
    check_permutation(v, old);
    for k in 0..v.len() {
        assert!(k == 0 || k >= n || v[k - 1].key() <= v[k].key(), "sorted");
        assert!(k < n || v[k].tag() == k, "elements outside are untouched");
    }
}
/// The same, and elements with equal keys keep their order.
pub fn check_stable(v: &[Elt], old: &[Elt], n: usize) {
    check_sorted(v, old, n);
    for k in 1..v.len() {
        assert!(k >= n || v[k - 1].0 < v[k].0, "equal elements keep their order");
    }
}
pub fn arbitrary<const N: usize>() -> [Elt; N] {
    let mut v = [Elt(0); N];
    for k in 0..N { v[k] = Elt(nd::u8_() & 0xf0 | k as u8); }
    v
}
/// Ascending keys with arbitrary elements at `m` arbitrary places.
pub fn nearly_sorted<const N: usize>(m: usize) -> [Elt; N] {
    let mut v = [Elt(0); N];
    for k in 0..N { v[k] = Elt((k << 4 | k) as u8); }
    for _ in 0..m {
        let p = nd::small(N as u8 - 1);
        v[p] = Elt(nd::u8_() & 0xf0 | p as u8);
    }
    v
}
pub fn stable<const N: usize>(f: impl FnOnce(&mut [Elt])) {
    let n = nd::small(N as u8);
    let mut v = arbitrary::<N>();
    let old = v;
    f(&mut v[..n]);
    check_stable(&v, &old, n);
    witness!(n == N && v[0].tag() == N - 1 && v[N - 1].tag() == 0, "reversed");
    witness!(n == N && v[1].key() == v[2].key() && v[0].tag() == 2, "equal keys");
}
pub fn stable_sparse<const N: usize>(f: impl FnOnce(&mut [Elt])) {
    let mut v = nearly_sorted::<N>(2);
    let old = v;
    f(&mut v);
    check_stable(&v, &old, N);
    witness!(v[0].tag() == N - 1, "last to front");
    witness!(v[N - 1].tag() == 0, "first to back");
}
/// Three elements of other sizes.
pub fn wide<T: Copy>(make: impl Fn(u16) -> T, read: impl Fn(&T) -> u16, f: impl FnOnce(&mut [T])) {
    let ks = [nd::u8_() as u16 * 256, nd::u8_() as u16 * 256 + 1, nd::u8_() as u16 * 256 + 2];
    let mut a = [make(ks[0]), make(ks[1]), make(ks[2])];
    f(&mut a);
    let r = [read(&a[0]), read(&a[1]), read(&a[2])];
    assert!(r[0] <= r[1] && r[1] <= r[2], "sorted");
    // the three values differ, so sorted and all present is the permutation
    assert!(r.iter().all(|x| ks.iter().any(|y| x == y)) && r[0] != r[1] && r[1] != r[2], "no element is lost or duplicated");
    witness!(r[0] == ks[2] && r[2] == ks[0], "reversed");
}
/// Stands in for insertion_sort_ranges (decided by C17) inside the quicksorts:
/// a stable sort of short slices by swaps.
pub fn insertion_model<T, F>(v: &mut [T], mut less_than: F) where F: FnMut(&T, &T) -> bool {
    let n = v.len();
    let mut i = 1;
    while i < n {
        let mut j = i;
        while j > 0 && less_than(&v[j], &v[j - 1]) { v.swap(j, j - 1); j -= 1; }
        i += 1;
    }
}

#[cfg(not(kani))]
pub use paths::*;
/// for the path-wise engine
#[cfg(not(kani))]
mod paths {
use super::*;
/// Longer slices: the key in the upper byte, the original position below.
#[derive(Clone, Copy, Debug)]
#[repr(transparent)]
pub struct Wide(pub u16);
impl Wide {
    pub fn key(&self) -> u8 { (self.0 >> 8) as u8 }
    pub fn tag(&self) -> usize { (self.0 & 255) as usize }
}
impl PartialEq for Wide { fn eq(&self, o: &Wide) -> bool { self.key() == o.key() } }
impl Eq for Wide {}
impl PartialOrd for Wide { fn partial_cmp(&self, o: &Wide) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Wide { fn cmp(&self, o: &Wide) -> Ordering { self.key().cmp(&o.key()) } }
pub fn wless(a: &Wide, b: &Wide) -> bool { a.key() < b.key() }

/// One of several regular contents of length n with `m` arbitrary elements at
/// arbitrary places.
pub fn regular<const N: usize>(n: usize, m: usize) -> [Wide; N] {
    let mut v = [Wide(0); N];
    let kind = nd::fork(nd::small(5));
    for k in 0..n {
        let key = 2 * match kind {
            0 => k + 1,
            1 => n - k,
            2 => 9,
            3 => if 2 * k < n { k + 1 } else { n - k },
            4 => if 2 * k < n { n - k } else { k + 1 },
            _ => 1 + k * 7 % 5,
        };
        v[k] = Wide((key << 8 | k) as u16);
    }
    for _ in 0..m {
        let p = nd::small(N as u8 - 1);
        nd::assume(p < n);
        let p = nd::fork(p);
        v[p] = Wide((nd::u8_() as u16) << 8 | p as u16);
    }
    v
}
pub fn check_wide(v: &[Wide], old: &[Wide], stable: bool) {
    let n = old.len();
    let mut seen = [false; 128];
    for x in v {
        assert!(x.tag() < n && !seen[x.tag()], "no element is lost or duplicated");
        assert!(old[x.tag()].0 == x.0, "elements are kept whole");
        seen[x.tag()] = true;
    }
    for k in 1..n {
        assert!(v[k - 1].key() <= v[k].key(), "sorted");
        assert!(!stable || v[k - 1].0 < v[k].0, "equal elements keep their order");
    }
}
/// three key bits order up to eight elements in every way
pub fn weak_orders<const N: usize>() -> [Elt; N] {
    assert!(N <= 8, "three bits suffice");
    let mut v = [Elt(0); N];
    for k in 0..N { v[k] = Elt(nd::u8_() & 0x70 | k as u8); }
    v
}
/// every length up to N, every content
pub fn unstable<const N: usize>(f: impl FnOnce(&mut [Elt])) {
    let n = nd::fork(nd::small(N as u8));
    let mut v = weak_orders::<N>();
    let old = v;
    f(&mut v[..n]);
    check_sorted(&v, &old, n);
    witness!(n == N && v[0].tag() == N - 1 && v[N - 1].tag() == 0, "reversed");
    witness!(n == N && v[0].key() == v[N - 1].key(), "all equal");
    witness!(n == N && old[N / 2].key() == v[0].key() && v[0].key() < v[1].key(), "the middle is the strict minimum");
}
/// every content with only two or three different keys
pub fn few_keys<const N: usize>(keys: u8, f: impl FnOnce(&mut [Elt])) {
    let mut v = [Elt(0); N];
    for k in 0..N {
        let key = nd::fork(nd::small(keys - 1));
        v[k] = Elt((key << 4 | k) as u8);
    }
    let old = v;
    f(&mut v);
    check_sorted(&v, &old, N);
    witness!(v[0].key() < v[N - 1].key() && v[0].tag() == N - 1, "last to front");
}
/// longer slices with a regular content and some arbitrary elements
pub fn long<const N: usize>(from: usize, arbitrary: usize, stable: bool, f: impl FnOnce(&mut [Wide])) {
    let n = from + nd::fork(nd::small((N - from) as u8));
    let mut v = regular::<N>(n, arbitrary);
    let old = v;
    f(&mut v[..n]);
    check_wide(&v[..n], &old[..n], stable);
    witness!(n == N && v[0].tag() == N - 1, "last to front");
    witness!(n == N && v[0].tag() == N / 2, "middle to front");
    witness!(n == N && v[0].key() == v[N - 2].key(), "nearly all equal");
}
}
