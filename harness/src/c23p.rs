//! C23 pointer-based operations: contents of short containers (path-wise).
use crate::model::{Tracked, DROPS};
use crate::elems::{Aligned, Big, Giant, Handle, Kind, Own, DROPPED};
use crate::nd;
use indexing::algorithms;
use indexing::container_traits::*;
use indexing::pointer::*;
use indexing::{scope, Container};
use std::mem::ManuallyDrop;

const N: usize = crate::tier!(6, 8);

/// the pointer range of positions s..e
fn part<'id, T, A: Contiguous<Item = T>>(c: &Container<'id, A>, s: usize, e: usize) -> PRange<'id, T> {
    let mut it = c.pointer_range().into_iter();
    for _ in 0..s { it.next(); }
    for _ in e..c.len() { it.next_back(); }
    it.into_range()
}
fn is<'id, T, P, A: Contiguous<Item = T>>(c: &Container<'id, A>, r: PRange<'id, T, P>, s: usize, e: usize) -> bool {
    c.distance_to(r.first()) == s && c.distance_to(r.past_the_end()) == e && r.len() == e - s && r.is_empty() == (s == e)
}
/// n, s, e with s <= e <= n <= max
fn positions(max: usize) -> (usize, usize, usize) {
    let n = nd::fork(nd::small(max as u8));
    let e = nd::fork(nd::small(max as u8));
    let s = nd::fork(nd::small(max as u8));
    nd::assume(s <= e && e <= n);
    (n, s, e)
}
fn pos<T>(base: *const T, x: &T) -> usize {
    let z = std::mem::size_of::<T>();
    let d = (x as *const T as usize).wrapping_sub(base as usize);
    assert!(d % z == 0, "an element of the container");
    d / z
}

fn scans<'id, T, A: Contiguous<Item = T>>(c: &Container<'id, A>, n: usize, s: usize, e: usize) {
    let base = c[..].as_ptr();
    let mut ans = [false; N];
    for x in ans.iter_mut() { *x = nd::bool_(); }
    let r = part(c, s, e);
    let ne = nd::bool_();

    // forward
    let mut next = s;
    let mut open = true;
    let f = |v: &T| {
        let k = pos(base, v);
        assert!(open && k == next && k < e, "scan_pointer_range: consecutive elements of the range, none after a rejection");
        next += 1;
        open = ans[k];
        open
    };
    let (a, b) = match r.nonempty() {
        Ok(q) if ne => c.scan_pointer_range(q, f),
        _ => c.scan_pointer_range(r, f),
    };
    let mut stop = s;
    while stop < e && ans[stop] { stop += 1; }
    assert!(is(c, a, s, stop) && is(c, b, stop, e), "scan_pointer_range: split at the first rejected element");
    assert!(next == if stop < e { stop + 1 } else { e }, "scan_pointer_range: every element up to the first rejected is shown");

    // backward
    let mut next = e;
    let mut open = true;
    let f = |v: &T| {
        let k = pos(base, v);
        assert!(open && k < next && k + 1 == next && k >= s, "scan_pointer_range_rev: consecutive elements of the range, none after a rejection");
        next -= 1;
        open = ans[k];
        open
    };
    let (a, b) = match r.nonempty() {
        Ok(q) if ne => c.scan_pointer_range_rev(q, f),
        _ => c.scan_pointer_range_rev(r, f),
    };
    let mut low = e;
    while low > s && ans[low - 1] { low -= 1; }
    assert!(is(c, a, s, low) && is(c, b, low, e), "scan_pointer_range_rev: split after the last rejected element");
    assert!(next == if low > s { low - 1 } else { s }, "scan_pointer_range_rev: every element down to the last rejected is shown");

    // backward from an element
    if s < n {
        let q = part(c, s, n).nonempty().unwrap();
        let mut next = s;
        let mut open = true;
        let got = c.scan_tail_(q.first(), |v| {
            let k = pos(base, v);
            assert!(open && k < next && k + 1 == next, "scan_tail_: consecutive elements, none after a rejection");
            next -= 1;
            open = ans[k];
            open
        });
        let mut low = s;
        while low > 0 && ans[low - 1] { low -= 1; }
        assert!(is(c, got, low, s + 1), "scan_tail_: the maximal accepted run before the element and the element");
        assert!(next == if low > 0 { low - 1 } else { 0 }, "scan_tail_: every element down to the last rejected is shown");
        witness!(s == 3 && low == 1, "tail");
        witness!(s == 3 && low == 0, "tail to the start");
    }
    witness!(e - s == 3 && stop == s + 2 && low == e && n > e && s > 0, "forward");
    witness!(e - s == 3 && stop == e && ne, "all accepted");
    witness!(e - s == 3 && low == s + 1 && n > e && s > 0, "backward");
}

/// swap and rotate on [s, e); element k was made from k
fn permute<T>(v: &mut [T], n: usize, s: usize, e: usize, same: impl Fn(&T, usize) -> bool) {
    nd::assume(s < e);
    let what = nd::fork(nd::small(2));
    scope(&mut v[..n], |mut c| {
        let q = part(&c, s, e).nonempty().unwrap();
        match what {
            0 => c.swap_ptr(q.first(), q.last()),
            1 => c.swap_ptr(q.last(), q.first()),
            _ => c.rotate1_prange(q),
        }
    });
    for k in 0..v.len() {
        let m = if what == 2 { if k < s || k >= e { k } else if k == s { e - 1 } else { k - 1 } }
            else if k == s { e - 1 } else if k == e - 1 { s } else { k };
        assert!(same(&v[k], m), "exactly the documented permutation");
    }
    witness!(what == 0 && e - s == 3 && s > 0 && e < n, "swap");
    witness!(what == 1 && e - s == 1, "swap with itself");
    witness!(what == 2 && e - s == 3 && s > 0 && e < n, "rotate");
    witness!(what == 2 && e - s == 1, "rotate one");
}

/// write through both parts of a split container
fn split<T: PartialEq + Copy>(v: &mut [T], n: usize, s: usize, make: impl Fn(usize) -> T) {
    let edge = nd::bool_();
    let which = nd::fork(nd::small(3));
    let mut calls = 0;
    let got = scope(&mut v[..n], |mut c| {
        let r = part(&c, s, n);
        macro_rules! go { ($p:expr) => { c.split_container_at_pointer($p, |mut c1, r1, mut c2, r2| {
            calls += 1;
            assert!(c1.len() == s && c2.len() == n - s, "the lengths of the two sides");
            assert!(is(&c1, r1, 0, s) && is(&c2, r2, 0, n - s), "the ranges are the two sides");
            for k in 0..s { assert!(c1[..][k] == make(k), "the first side"); }
            for k in s..n { assert!(c2[..][k - s] == make(k), "the second side"); }
            match which {
                0 => for x in &mut c1[r1] { *x = make(50); },
                1 => for x in &mut c2[r2] { *x = make(60); },
                2 => if let Ok(q) = r1.nonempty() { c1.rotate1_prange(q); },
                _ => if let Ok(q) = r2.nonempty() { c2.rotate1_prange(q); },
            }
            1000 + c1.len() * 10 + c2.len()
        }) } }
        match r.nonempty() { Ok(q) if edge => go!(q.first()), _ => go!(r.first()) }
    });
    assert!(calls == 1 && got == 1000 + s * 10 + n - s, "called once, its answer is returned");
    for k in 0..v.len() {
        let want = match which {
            0 if k < s => 50,
            1 if k >= s && k < n => 60,
            2 if k < s => if k == 0 { s - 1 } else { k - 1 },
            3 if k >= s && k < n => if k == s { n - 1 } else { k - 1 },
            _ => k,
        };
        assert!(v[k] == make(want), "each side is the container's own elements");
    }
    witness!(s == 2 && n == 5 && which == 3 && edge, "rotate the second");
    witness!(s == n && n == 5 && which == 0, "second empty");
    witness!(s == 0 && n == 5 && which == 1, "first empty");
}

// lock-step iteration of two parts
macro_rules! zipped {
    ($r1:expr, $c1:expr, $b1:expr, $s:expr, $e:expr, $r2:expr, $c2:expr, $b2:expr, $t:expr, $u:expr) => {{
        let mut k = 0;
        let len = ($e - $s).min($u - $t);
        zip($r1, $c1, $r2, $c2, |x, y| {
            assert!(k < len, "zip: as many pairs as the shorter range has");
            assert!(pos($b1, &*x) == $s + k && pos($b2, &*y) == $t + k, "zip: the elements in lock step");
            k += 1;
        });
        assert!(k == len, "zip: as many pairs as the shorter range has");
    }};
}
fn zips(kinds: u8) {
    const M: usize = 4;
    let mut a = [1u16; M];
    let mut b = [[0u8; 3]; M];
    let (n, s, e) = positions(M);
    let (m, t, u) = positions(M);
    let (b1, b2) = (a.as_ptr(), b.as_ptr());
    if kinds < 2 {
        scope(&a[..n], |c| scope(&mut b[..m], |mut d| {
            let (r, q) = (part(&c, s, e), part(&d, t, u));
            match kinds {
                0 => match (r.nonempty(), q.nonempty()) {
                    (Ok(r), Ok(q)) => zipped!(r, &c, b1, s, e, q, &mut d, b2, t, u),
                    (Ok(r), _) => zipped!(r, &c, b1, s, e, PSlice::from(q), &mut d, b2, t, u),
                    (_, Ok(q)) => zipped!(PSlice::from(r), &c, b1, s, e, q, &mut d, b2, t, u),
                    _ => zipped!(r, &c, b1, s, e, q, &mut d, b2, t, u),
                },
                _ => zipped!(PSlice::from(r), &c, b1, s, e, PSlice::from(q), &d, b2, t, u),
            }
        }));
    } else {
        scope(&mut a[..n], |mut c| scope(&mut b[..m], |mut d| {
            let (r, q) = (part(&c, s, e), part(&d, t, u));
            match kinds {
                2 => zipped!(r, &mut c, b1, s, e, PSlice::from(q), &mut d, b2, t, u),
                _ => zip(PSlice::from(r), &mut c, q, &mut d, |x, y| { *x += 7; y[1] += 9; }),
            }
        }));
        let len = if kinds == 3 { (e - s).min(u - t) } else { 0 };
        for k in 0..M {
            assert!(a[k] == if k >= s && k < s + len { 8 } else { 1 }, "zip: writes reach exactly the shown elements");
            assert!(b[k] == [0, if k >= t && k < t + len { 9 } else { 0 }, 0], "zip: writes reach exactly the shown elements");
        }
    }
    witness!(e - s == 2 && u - t == 3 && s > 0 && t > 0, "the first is shorter");
    witness!(e - s == 3 && u - t == 2 && s > 0 && t > 0, "the second is shorter");
    witness!(e == s && u - t == 2 && s > 0, "nothing");
}

fn copies<T: Copy + PartialEq>(make: impl Fn(u8, usize) -> T) {
    let n = nd::fork(nd::small(N as u8));
    let m = nd::fork(nd::small(N as u8));
    let mut src = [make(0, 0); N];
    let mut dst = [make(0, 0); N];
    for k in 0..N { src[k] = make(nd::u8_(), k); dst[k] = make(nd::u8_(), 50 + k); }
    let (s0, d0) = (src, dst);
    if nd::bool_() { algorithms::copy_prange(&src[..n], &mut dst[..m]); } else { algorithms::copy(&src[..n], &mut dst[..m]); }
    let len = n.min(m);
    for k in 0..N {
        assert!(src[k] == s0[k], "the source is untouched");
        assert!(dst[k] == if k < len { s0[k] } else { d0[k] }, "the common length is copied, nothing else");
    }
    witness!(n == 3 && m == 5, "source shorter");
    witness!(n == 5 && m == 3, "destination shorter");
    witness!(n == 4 && m == 4, "same");
}
/// one side symbolic, the other distinct constants: wrong pairs show
fn dots() {
    const N: usize = 5;
    let n = nd::fork(nd::small(N as u8));
    let m = nd::fork(nd::small(N as u8));
    let first = nd::fork(nd::bool_() as usize) == 1;
    let x: [i32; N] = std::array::from_fn(|_| nd::u8_() as i8 as i32);
    let y = [3, -100, 7, -11, 1000];
    let (a, b) = if first { (x, y) } else { (y, x) };
    let mut want = 0;
    for k in 0..n.min(m) { want += a[k] * b[k]; }
    assert!(algorithms::zip_dot_i32(&a[..n], &b[..m]) == want, "the dot product of the common length");
    assert!(algorithms::zip_dot_i32_prange(&a[..n], &b[..m]) == want, "the same from pointer ranges");
    witness!(n == 4 && m == 3 && want < -40, "end");
}

fn permute_kind<T: Kind, const N: usize>(n: usize) {
    let e = nd::fork(nd::upto(n));
    let s = nd::fork(nd::upto(e));
    let mut v: ManuallyDrop<[T; N]> = ManuallyDrop::new(std::array::from_fn(|k| T::make(!(k as u8), k)));
    unsafe { DROPPED = 0; }
    permute(&mut v[..], n, s, e, |x, k| x.tag() == k && x.key() == !(k as u8) && x.whole());
    assert!(unsafe { DROPPED } == 0, "no element is dropped");
}
/// access through pointers, pointer ranges and one-sided pointer ranges
fn accessed<T>(v: &mut [T], full: usize) {
    let z = std::mem::size_of::<T>();
    let base = v.as_ptr() as usize;
    let n = nd::fork(nd::upto(full));
    let e = nd::fork(nd::upto(n));
    let s = nd::fork(nd::upto(e));
    let is = |x: &[T], s: usize, e: usize| x.as_ptr() as usize == base + s * z && x.len() == e - s;
    scope(&mut v[..n], |mut c| {
        let r = part(&c, s, e);
        let (a, b) = (r.first(), r.past_the_end());
        assert!(is(&c[r], s, e) && is(&c[a..], s, n) && is(&c[..b], 0, e), "exactly the denoted elements");
        assert!(is(&mut c[r], s, e) && is(&mut c[a..], s, n) && is(&mut c[..b], 0, e), "exactly the denoted elements, mutable");
        if let Ok(q) = r.nonempty() {
            assert!(is(&c[q], s, e) && is(&c[q.first()..], s, n) && is(&c[..q.last()], 0, e - 1), "exactly the denoted elements");
            assert!(is(&mut c[q], s, e) && is(&mut c[q.first()..], s, n) && is(&mut c[..q.last()], 0, e - 1), "exactly the denoted elements, mutable");
            assert!(&c[q.first()] as *const T as usize == base + s * z && &c[q.last()] as *const T as usize == base + (e - 1) * z, "the element");
        }
    });
    witness!(n == full && s == 2 && e == 5, "end");
}
fn accessed_kind<T: Kind>() {
    const N: usize = 9;
    let mut v: ManuallyDrop<[T; N]> = ManuallyDrop::new(std::array::from_fn(|k| T::make(0, k)));
    accessed(&mut v[..], N);
}

path_harnesses! {
    fn permute_big() { permute_kind::<Big, 6>(nd::fork(nd::upto(6))); }
    fn permute_giant() { permute_kind::<Giant, 6>(nd::fork(nd::upto(6))); }
    fn permute_aligned() { permute_kind::<Aligned, 6>(nd::fork(nd::upto(6))); }
    fn permute_own() { permute_kind::<Own, 6>(nd::fork(nd::upto(6))); }
    fn permute_handle() { permute_kind::<Handle, 6>(nd::fork(nd::upto(6))); }
    fn permute_long_own() { permute_kind::<Own, { crate::tier!(40, 80) }>(crate::tier!(39, 79)); }
    fn permute_long_big() { permute_kind::<Big, { crate::tier!(20, 40) }>(crate::tier!(19, 39)); }
    fn access_big() { accessed_kind::<Big>(); }
    fn access_giant() { accessed_kind::<Giant>(); }
    fn access_aligned() { accessed_kind::<Aligned>(); }
    fn access_own() { accessed_kind::<Own>(); }
    fn scan_big() {
        let (n, s, e) = positions(5);
        let v: [Big; N] = std::array::from_fn(|k| Big::make(0, k));
        scope(&v[..n], |c| scans(&c, n, s, e));
    }
    fn scan_giant() {
        let (n, s, e) = positions(5);
        let v: [Giant; N] = std::array::from_fn(|k| Giant::make(0, k));
        scope(&v[..n], |c| scans(&c, n, s, e));
    }
    fn scan_slice() {
        let (n, s, e) = positions(N);
        let v = [0u16; N];
        scope(&v[..n], |c| scans(&c, n, s, e));
    }
    fn scan_odd() {
        let (n, s, e) = positions(5);
        let mut v = [[0u8; 3]; N];
        scope(&mut v[..n], |c| scans(&c, n, s, e));
    }
    fn scan_vector() {
        let (n, s, e) = positions(5);
        let mut v: Vec<u32> = Vec::with_capacity(N);
        for k in 0..n { v.push(k as u32); }
        scope(v, |c| scans(&c, n, s, e));
    }
    fn permute_words() {
        let (n, s, e) = positions(N);
        let mut v: [u16; N] = std::array::from_fn(|k| k as u16 * 257);
        permute(&mut v, n, s, e, |x, k| *x == k as u16 * 257);
    }
    fn permute_odd() {
        let (n, s, e) = positions(N);
        let make = |k: usize| [k as u8, 77, k as u8 + 100];
        let mut v: [[u8; 3]; N] = std::array::from_fn(make);
        permute(&mut v, n, s, e, |x, k| *x == make(k));
    }
    fn permute_wide() {
        let (n, s, e) = positions(N);
        let make = |k: usize| (k as u64 + 5) << 40 | k as u64;
        let mut v: [u64; N] = std::array::from_fn(make);
        permute(&mut v, n, s, e, |x, k| *x == make(k));
    }
    fn permute_destructors() {
        let (n, s, e) = positions(5);
        let mut v: [Tracked; N] = std::array::from_fn(|k| Tracked(k as u8));
        unsafe { DROPS = 0; }
        permute(&mut v, n, s, e, |x, k| x.0 as usize == k);
        assert!(unsafe { DROPS } == 0, "no element is dropped");
    }
    fn split_words() {
        let (n, s, _) = positions(N);
        let mut v: [u16; N] = std::array::from_fn(|k| k as u16 * 257);
        split(&mut v, n, s, |k| k as u16 * 257);
    }
    fn split_odd() {
        let (n, s, _) = positions(N);
        let make = |k: usize| [k as u8, 77, k as u8 + 100];
        let mut v: [[u8; 3]; N] = std::array::from_fn(make);
        split(&mut v, n, s, make);
    }
    fn zip_shared_exclusive() { zips(0); }
    fn zip_shared() { zips(1); }
    fn zip_exclusive() { zips(2); }
    fn zip_writes() { zips(3); }
    fn copy_bytes() { copies(|x, _| x); }
    fn copy_words() { copies(|x, k| (x as u32) << 16 | k as u32); }
    fn copy_odd() { copies(|x, k| [x, k as u8, 77]); }
    fn dot_products() { dots(); }
}
