//! The sorting, heap and merge algorithms over elements of other kinds: wide,
//! over-aligned, owning (with a destructor) and zero-sized (path-wise).
use crate::nd;
use indexing::algorithms::*;
use std::cmp::Ordering;
use std::mem::ManuallyDrop;

const N: usize = crate::tier!(5, 6);

pub trait Kind: Sized {
    fn make(key: u8, tag: usize) -> Self;
    fn key(&self) -> u8;
    fn tag(&self) -> usize;
    fn whole(&self) -> bool;
}
macro_rules! ordered {
    ($t:ty) => {
        impl PartialEq for $t { fn eq(&self, o: &$t) -> bool { self.key() == o.key() } }
        impl Eq for $t {}
        impl PartialOrd for $t { fn partial_cmp(&self, o: &$t) -> Option<Ordering> { Some(self.cmp(o)) } }
        impl Ord for $t { fn cmp(&self, o: &$t) -> Ordering { self.key().cmp(&o.key()) } }
    };
}
pub struct Big { a: u32, key: u8, b: [u32; 6], tag: u8, c: u64 }
impl Kind for Big {
    fn make(key: u8, tag: usize) -> Big { let t = tag as u32; Big { a: t + 1, key, b: [t, t + 3, t + 5, t + 7, t + 9, t + 11], tag: tag as u8, c: 1 << 40 | t as u64 } }
    fn key(&self) -> u8 { self.key }
    fn tag(&self) -> usize { self.tag as usize }
    fn whole(&self) -> bool { 
        let t = self.tag as u32;
        let mut ok = self.a == t + 1;
        let mut d = 0;
        for x in &self.b { ok &= *x == t + d; d += if d == 0 { 3 } else { 2 }; }
        ok & (self.c == 1 << 40 | t as u64)
    }
}
/// 528 bytes
pub struct Giant { a: [u64; 32], key: u8, tag: u8, b: [u64; 33] }
impl Kind for Giant {
    fn make(key: u8, tag: usize) -> Giant {
        let t = tag as u64;
        let (mut a, mut b) = ([t; 32], [!t; 33]);
        (a[0], a[31], b[0], b[15], b[32]) = (t + 9, t + 10, t + 11, t + 12, t + 13);
        Giant { a, key, tag: tag as u8, b }
    }
    fn key(&self) -> u8 { self.key }
    fn tag(&self) -> usize { self.tag as usize }
    fn whole(&self) -> bool {
        let t = self.tag as u64;
        let (a, b) = (&self.a, &self.b);
        a[0] == t + 9 && a[31] == t + 10 && b[0] == t + 11 && b[15] == t + 12 && b[32] == t + 13 && a[1] == t && a[17] == t && a[30] == t && b[1] == !t && b[31] == !t
    }
}
#[repr(align(32))]
pub struct Aligned(u8, u8);
impl Kind for Aligned {
    fn make(key: u8, tag: usize) -> Aligned { Aligned(key, tag as u8) }
    fn key(&self) -> u8 { self.0 }
    fn tag(&self) -> usize { self.1 as usize }
    fn whole(&self) -> bool { true }
}
pub static mut DROPPED: usize = 0;
/// owns something: dropping one is an event, and it cannot be copied
pub struct Own { key: u8, tag: u8, check: u16 }
impl Kind for Own {
    fn make(key: u8, tag: usize) -> Own { Own { key, tag: tag as u8, check: 0xaa00 | tag as u16 } }
    fn key(&self) -> u8 { self.key }
    fn tag(&self) -> usize { self.tag as usize }
    fn whole(&self) -> bool { self.check == 0xaa00 | self.tag as u16 }
}
impl Drop for Own { fn drop(&mut self) { unsafe { DROPPED += 1; } } }
/// a pointer-like element: 8 bytes, niche, destructor
pub struct Handle(std::num::NonZeroU64);
impl Kind for Handle {
    fn make(key: u8, tag: usize) -> Handle { Handle(std::num::NonZeroU64::new(1 << 60 | (key as u64) << 8 | tag as u64).unwrap()) }
    fn key(&self) -> u8 { (self.0.get() >> 8) as u8 }
    fn tag(&self) -> usize { (self.0.get() & 255) as usize }
    fn whole(&self) -> bool { self.0.get() >> 16 == 1 << 44 }
}
impl Drop for Handle { fn drop(&mut self) { unsafe { DROPPED += 1; } } }
ordered!(Big);
ordered!(Giant);
ordered!(Aligned);
ordered!(Own);
ordered!(Handle);

/// zero-sized, with a destructor
pub struct Zed;
impl Drop for Zed { fn drop(&mut self) { unsafe { DROPPED += 1; } } }
impl PartialEq for Zed { fn eq(&self, _: &Zed) -> bool { true } }
impl Eq for Zed {}
impl PartialOrd for Zed { fn partial_cmp(&self, _: &Zed) -> Option<Ordering> { Some(Ordering::Equal) } }
impl Ord for Zed { fn cmp(&self, _: &Zed) -> Ordering { Ordering::Equal } }

fn keys() -> [u8; N] {
    let mut k = [0; N];
    for x in k.iter_mut() { *x = nd::u8_() & 7; }
    k
}
fn permutation<T: Kind>(v: &[T], k: &[u8; N]) {
    let mut seen = 0u32;
    for x in v {
        assert!(x.tag() < N && seen & (1 << x.tag()) == 0, "no element is lost or duplicated");
        assert!(x.whole() && x.key() == k[x.tag()], "elements are kept whole");
        seen |= 1 << x.tag();
    }
}
fn run<T: Kind>(f: impl FnOnce(&mut [T]), check: impl Fn(&[T])) {
    let k = keys();
    let n = nd::fork(nd::small(N as u8));
    let mut v: ManuallyDrop<[T; N]> = ManuallyDrop::new(std::array::from_fn(|i| T::make(k[i], i)));
    unsafe { DROPPED = 0; }
    f(&mut v[..n]);
    assert!(unsafe { DROPPED } == 0, "no element is dropped");
    permutation(&v[..], &k);
    for i in n..N { assert!(v[i].tag() == i, "elements outside are untouched"); }
    check(&v[..n]);
    witness!(n == N && v[0].tag() == N - 1, "last to front");
}
fn sorted<T: Kind>(v: &[T], stable: bool) {
    for i in 1..v.len() {
        assert!(v[i - 1].key() <= v[i].key(), "sorted");
        assert!(!stable || v[i - 1].key() < v[i].key() || v[i - 1].tag() < v[i].tag(), "equal elements keep their order");
    }
}
fn heap<T: Kind>(v: &[T]) { for i in 1..v.len() { assert!(v[(i - 1) / 2].key() <= v[i].key(), "a parent is not greater than its child"); } }
fn less<T: Kind>(a: &T, b: &T) -> bool { a.key() < b.key() }

fn insertion<T: Kind>() {
    let which = nd::fork(nd::small(2));
    run::<T>(|v| match which { 0 => insertion_sort_indexes(v, less), 1 => insertion_sort_ranges(v, less), _ => insertion_sort_rust(v, less) }, |v| sorted(v, true));
}
fn twin<T: Kind, U: Kind>() {
    let k = keys();
    let n = nd::fork(nd::small(N as u8));
    let mut v: ManuallyDrop<[T; N]> = ManuallyDrop::new(std::array::from_fn(|i| T::make(k[i], i)));
    let mut u: ManuallyDrop<[U; N]> = ManuallyDrop::new(std::array::from_fn(|i| U::make(3 + i as u8, i)));
    unsafe { DROPPED = 0; }
    insertion_sort2_indexes(&mut v[..n], &mut u[..n], less);
    assert!(unsafe { DROPPED } == 0, "no element is dropped");
    permutation(&v[..], &k);
    sorted(&v[..n], true);
    for i in 0..N { assert!(u[i].tag() == v[i].tag() && u[i].whole() && u[i].key() == 3 + u[i].tag() as u8, "the second slice is permuted alike"); }
    witness!(n == N && v[0].tag() == N - 1, "last to front");
}
fn merging<T: Kind + Ord>() {
    let k = keys();
    let n = nd::fork(nd::small(N as u8));
    let split = nd::fork(nd::small(N as u8 + 1));
    let m = nd::fork(nd::small(3));
    let ranges = nd::bool_();
    nd::assume(n > 0);
    for i in 1..n { nd::assume(i == split || k[i - 1] <= k[i]); }
    let mut v: ManuallyDrop<[T; N]> = ManuallyDrop::new(std::array::from_fn(|i| T::make(k[i], i)));
    let mut b: ManuallyDrop<[T; 3]> = ManuallyDrop::new(std::array::from_fn(|i| T::make(3 * i as u8, 20 + i)));
    unsafe { DROPPED = 0; }
    let r = if ranges { merge_internal_ranges(&mut v[..n], split, &mut b[..m]) } else { merge_internal_indices(&mut v[..n], split, &mut b[..m]) };
    assert!(unsafe { DROPPED } == 0, "no element is dropped");
    assert!(r.is_ok() == (split <= n && split <= m), "an error exactly when the split point exceeds the slice or the buffer");
    permutation(&v[..], &k);
    for i in 0..N { assert!(i < n && r.is_ok() || v[i].tag() == i, "elements outside are untouched"); }
    if r.is_ok() { sorted(&v[..n], true); }
    let mut seen = 0u32;
    for i in 0..3 {
        let t = b[i].tag();
        assert!(t >= 20 && t < 23 && seen & (1 << t) == 0 && b[i].whole() && b[i].key() == 3 * (t - 20) as u8, "the buffer has the elements it had");
        assert!(r.is_ok() && i < m || t == 20 + i, "the buffer outside is untouched");
        seen |= 1 << t;
    }
    witness!(n == N && split == 3 && m == 3 && v[0].tag() == 3, "the right section first");
}
fn zeds(f: impl FnOnce(&mut [Zed])) {
    let n = nd::fork(nd::small(N as u8));
    let mut v: ManuallyDrop<[Zed; N]> = ManuallyDrop::new([const { Zed }; N]);
    unsafe { DROPPED = 0; }
    f(&mut v[..n]);
    assert!(unsafe { DROPPED } == 0, "no element is dropped");
    witness!(n == N, "end");
}

path_harnesses! {
    fn c17_big() { insertion::<Big>() }
    fn c17_giant() { insertion::<Giant>() }
    fn c17_aligned() { insertion::<Aligned>() }
    fn c17_own() { insertion::<Own>() }
    fn c17_handle() { insertion::<Handle>() }
    fn c17_twin_big_own() { twin::<Big, Own>() }
    fn c17_twin_own_big() { twin::<Own, Big>() }
    fn c17_twin_giant() { twin::<Giant, Giant>() }
    fn c17_twin_handle_aligned() { twin::<Handle, Aligned>() }
    fn c17_zero_sized() {
        let which = nd::fork(nd::small(3));
        zeds(|v| match which {
            0 => insertion_sort_indexes(v, |_, _| false),
            1 => insertion_sort_ranges(v, |_, _| false),
            2 => insertion_sort_rust(v, |_, _| false),
            _ => { let mut u = [3u8, 1, 2, 9, 4, 7]; let n = v.len(); insertion_sort2_indexes(v, &mut u[..n], |_, _| false); assert!(u == [3, 1, 2, 9, 4, 7], "the second slice is permuted alike"); }
        });
    }
    fn c18_big() { let b = nd::bool_(); run::<Big>(|v| if b { quicksort_bounds(v) } else { quicksort_range(v) }, |v| sorted(v, false)); }
    fn c18_giant() { let b = nd::bool_(); run::<Giant>(|v| if b { quicksort_bounds(v) } else { quicksort_range(v) }, |v| sorted(v, false)); }
    fn c18_aligned() { let b = nd::bool_(); run::<Aligned>(|v| if b { quicksort_bounds(v) } else { quicksort_range(v) }, |v| sorted(v, false)); }
    fn c18_own() { let b = nd::bool_(); run::<Own>(|v| if b { quicksort_bounds(v) } else { quicksort_range(v) }, |v| sorted(v, false)); }
    fn c18_handle() { let b = nd::bool_(); run::<Handle>(|v| if b { quicksort_bounds(v) } else { quicksort_range(v) }, |v| sorted(v, false)); }
    fn c18_zero_sized() { let b = nd::bool_(); zeds(|v| if b { quicksort_bounds(v) } else { quicksort_range(v) }); }
    fn c19_big() { run::<Big>(heapify, heap); }
    fn c19_giant() { run::<Giant>(heapify, heap); }
    fn c19_aligned() { run::<Aligned>(heapify, heap); }
    fn c19_own() { run::<Own>(heapify, heap); }
    fn c19_handle() { run::<Handle>(heapify, heap); }
    fn c19_zero_sized() { zeds(heapify); }
    fn c20_big() { merging::<Big>() }
    fn c20_giant() { merging::<Giant>() }
    fn c20_aligned() { merging::<Aligned>() }
    fn c20_own() { merging::<Own>() }
    fn c20_handle() { merging::<Handle>() }
    fn c20_zero_sized() {
        let split = nd::fork(nd::small(N as u8 + 1));
        let m = nd::fork(nd::small(3));
        let ranges = nd::bool_();
        zeds(|v| {
            let mut b: ManuallyDrop<[Zed; 3]> = ManuallyDrop::new([const { Zed }; 3]);
            let n = v.len();
            nd::assume(n > 0);
            let r = if ranges { merge_internal_ranges(v, split, &mut b[..m]) } else { merge_internal_indices(v, split, &mut b[..m]) };
            assert!(r.is_ok() == (split <= n && split <= m), "an error exactly when the split point exceeds the slice or the buffer");
        });
    }
    fn c24_big() { let b = nd::bool_(); run::<Big>(|v| if b { insertion_sort_prange_lower(v, less) } else { insertion_sort_pointerindex(v, less) }, |v| sorted(v, !b)); }
    fn c24_giant() { let b = nd::bool_(); run::<Giant>(|v| if b { insertion_sort_prange_lower(v, less) } else { insertion_sort_pointerindex(v, less) }, |v| sorted(v, !b)); }
    fn c24_own() { let b = nd::bool_(); run::<Own>(|v| if b { insertion_sort_prange_lower(v, less) } else { insertion_sort_pointerindex(v, less) }, |v| sorted(v, !b)); }
    fn c24_handle() { let b = nd::bool_(); run::<Handle>(|v| if b { insertion_sort_prange_lower(v, less) } else { insertion_sort_pointerindex(v, less) }, |v| sorted(v, !b)); }
    fn c24_quick_big() { run::<Big>(quicksort_prange, |v| sorted(v, false)); }
    fn c24_quick_giant() { run::<Giant>(quicksort_prange, |v| sorted(v, false)); }
    fn c24_quick_own() { run::<Own>(quicksort_prange, |v| sorted(v, false)); }
    fn c24_quick_aligned() { run::<Aligned>(quicksort_prange, |v| sorted(v, false)); }
}
