//! C22 pointer ranges and slices: one arbitrary operation from an arbitrary
//! valid state, by address.
use crate::model::*;
use crate::nd;
use indexing::container_traits::*;
use indexing::pointer::*;
use indexing::proof::Provable;
use indexing::{scope, Container, NonEmpty, Unknown};

/// The pointer range of v[s..e]: the full range of a container of just that
/// part, under the brand of the whole (a brand is only a lifetime).
fn sub<'id, T>(v: &[T], s: usize, e: usize) -> PRange<'id, T> {
    scope(&v[s..e], |d| unsafe { std::mem::transmute_copy(&d.pointer_range()) })
}
fn sub_slice<'id, T>(v: &[T], s: usize, e: usize) -> PSlice<'id, T> {
    scope(&v[s..e], |d| unsafe { std::mem::transmute_copy(&d.pointer_slice()) })
}
fn of<'id, A: Trustworthy, M, T>(_: &Container<'id, A, M>, r: PRange<'id, T>) -> PRange<'id, T> { r }
fn of_slice<'id, A: Trustworthy, M, T>(_: &Container<'id, A, M>, r: PSlice<'id, T>) -> PSlice<'id, T> { r }

fn addr<'id, T, P>(p: PIndex<'id, T, P>) -> usize {
    assert!(p.ptr() as usize == p.ptr_mut() as usize, "one position");
    p.ptr() as usize
}
/// r denotes the positions s..e
fn same<'id, T, P>(r: PRange<'id, T, P>, base: *const T, s: usize, e: usize) -> bool {
    r.len() == e - s && r.is_empty() == (s == e) && addr(r.first()) == at(base, s) && addr(r.past_the_end()) == at(base, e)
}
fn same_slice<'id, T, P>(r: PSlice<'id, T, P>, base: *const T, s: usize, e: usize) -> bool {
    r.len() == e - s && r.is_empty() == (s == e) && addr(r.first()) == at(base, s) && addr(r.past_the_end()) == at(base, e)
}
fn as_trait<'id, R: PointerRange<'id>>(r: R, base: *const R::Item, s: usize, e: usize) -> bool {
    r.len() == e - s && addr(r.first()) == at(base, s) && addr(r.end()) == at(base, e)
}

/// v, its length and a valid pair of positions
macro_rules! world {
    ($t:ty, $max:expr => $v:ident, $base:ident, $n:ident, $s:ident, $e:ident) => {
        let $n = nd::upto($max);
        let $v = &*vast::<$t>($n);
        let $base = $v.as_ptr();
        let $e = nd::upto($n);
        let $s = nd::upto($e);
    };
}
macro_rules! any_state {
    ($r:ident, $base:ident, $s:ident, $e:ident, $same:ident) => {{
        let h = $s + ($e - $s) / 2;
        assert!($same($r, $base, $s, $e), "a range denotes its positions");
        assert!($same($r.clone(), $base, $s, $e), "clone");
        assert!(as_trait($r, $base, $s, $e), "as PointerRange");
        let (a, b) = $r.split_in_half();
        assert!($same(a, $base, $s, h) && $same(b, $base, h, $e), "split_in_half: the middle lands in the latter half");
        assert!(addr($r.upper_middle()) == at($base, h), "upper_middle");
        assert!($same($r.no_proof(), $base, $s, $e), "no_proof keeps the positions");
        let q = $r.nonempty();
        assert!(q.is_ok() == ($s < $e), "nonempty accepts exactly the non-empty ranges");
        if let Ok(q) = q {
            assert!($same(q, $base, $s, $e), "nonempty keeps the positions");
            assert!(as_trait(q, $base, $s, $e), "as PointerRange");
            assert!(q == $r && $r == q, "equality looks at the positions only");
            assert!(addr(q.first()) == at($base, $s) && addr(q.last()) == at($base, $e - 1), "first and last");
            assert!($same(q.tail(), $base, $s + 1, $e), "tail");
            assert!($same(q.init(), $base, $s, $e - 1), "init");
            let (a, b) = q.split_in_half();
            assert!($same(a, $base, $s, h) && $same(b, $base, h, $e) && h < $e, "split_in_half of a non-empty range");
            assert!(addr(q.upper_middle()) == at($base, h), "upper_middle");
            let again = q.nonempty();
            assert!(again.is_ok() && $same(again.unwrap(), $base, $s, $e), "nonempty of a non-empty range");
            assert!($same(q.no_proof(), $base, $s, $e), "no_proof keeps the positions");
            let mut m = q;
            let moved = m.advance();
            assert!(moved == ($e - $s > 1), "advance stops before the range is empty");
            assert!($same(m, $base, if moved { $s + 1 } else { $s }, $e), "advance takes one from the front");
            let mut m = q;
            let moved = m.advance_back();
            assert!(moved == ($e - $s > 1), "advance_back stops before the range is empty");
            assert!($same(m, $base, $s, if moved { $e - 1 } else { $e }), "advance_back takes one from the back");
            let p = q.first();
            assert!(addr(p.after()) == at($base, $s + 1), "after");
            assert!(addr(p.no_proof()) == at($base, $s), "no_proof of a pointer");
            assert!(p == p.clone() && (p == q.last()) == ($e - $s == 1), "pointers are equal when they point to one place");
        }
    }};
}
/// conversions keep the positions
macro_rules! convert {
    ($r:expr, $base:ident, $s:ident, $e:ident, $to:ident, $same:ident) => {{
        let r = $r;
        let c: $to<_, Unknown> = r.into();
        assert!($same(c, $base, $s, $e), "conversion keeps the positions");
        if let Ok(q) = r.nonempty() {
            let c: $to<_, NonEmpty> = q.into();
            assert!($same(c, $base, $s, $e), "conversion of a non-empty range");
        }
    }};
}
macro_rules! equality {
    ($r:ident, $o:expr, $same_place:expr) => {{
        let o = $o;
        assert!(($r == o) == $same_place && (o == $r) == $same_place, "ranges are equal when they have the same ends");
    }};
}

harnesses! {
    fn range_words [2, 2] {
        world!(u32, VAST => v, base, n, s, e);
        scope(v, |c| { let r = of(&c, sub(v, s, e)); any_state!(r, base, s, e, same); });
        witness!(s > 5 && e - s > 1 << 20 && e < n, "end");
        witness!(s == e && s > 1, "empty");
        witness!(s + 1 == e, "one element");
    }
    fn range_bytes [2, 2] {
        world!(u8, VAST => v, base, n, s, e);
        scope(v, |c| { let r = of(&c, sub(v, s, e)); any_state!(r, base, s, e, same); });
        witness!(s > 5 && e - s > 1 << 20 && e < n, "end");
    }
    fn range_odd [2, 2] {
        world!([u8; 3], crate::tier!(200, 1000) => v, base, n, s, e);
        scope(v, |c| { let r = of(&c, sub(v, s, e)); any_state!(r, base, s, e, same); });
        witness!(s > 5 && e - s > 50 && e < n, "end");
    }
    fn slice_words [2, 2] {
        world!(u32, VAST => v, base, n, s, e);
        scope(v, |c| { let r = of_slice(&c, sub_slice(v, s, e)); any_state!(r, base, s, e, same_slice); });
        witness!(s > 5 && e - s > 1 << 20 && e < n, "end");
        witness!(s == e && s > 1, "empty");
        witness!(s + 1 == e, "one element");
    }
    fn slice_bytes [2, 2] {
        world!(u8, VAST => v, base, n, s, e);
        scope(v, |c| { let r = of_slice(&c, sub_slice(v, s, e)); any_state!(r, base, s, e, same_slice); });
        witness!(s > 5 && e - s > 1 << 20 && e < n, "end");
    }
    fn slice_odd [2, 2] {
        world!([u8; 3], crate::tier!(200, 1000) => v, base, n, s, e);
        scope(v, |c| { let r = of_slice(&c, sub_slice(v, s, e)); any_state!(r, base, s, e, same_slice); });
        witness!(s > 5 && e - s > 50 && e < n, "end");
    }
    fn conversions [2, 2] {
        world!(u32, VAST => v, base, n, s, e);
        scope(v, |c| {
            let r = of(&c, sub(v, s, e));
            let q = of_slice(&c, sub_slice(v, s, e));
            convert!(r, base, s, e, PSlice, same_slice);
            convert!(q, base, s, e, PRange, same);
            let e2 = nd::upto(n);
            let s2 = nd::upto(e2);
            equality!(r, of(&c, sub(v, s2, e2)), s == s2 && e == e2);
            equality!(q, of_slice(&c, sub_slice(v, s2, e2)), s == s2 && e == e2);
            let (p, o) = (r.first(), of(&c, sub(v, s2, e2)).past_the_end());
            assert!((p == o) == (s == e2), "pointers are equal when they point to one place");
            witness!(s > 5 && e - s > 1 << 20 && e < n && s == s2 && e != e2, "end");
        });
    }
    fn conversions_odd [2, 2] {
        world!([u8; 3], crate::tier!(200, 1000) => v, base, n, s, e);
        scope(v, |c| {
            convert!(of(&c, sub(v, s, e)), base, s, e, PSlice, same_slice);
            convert!(of_slice(&c, sub_slice(v, s, e)), base, s, e, PRange, same);
            witness!(s > 5 && e - s > 50 && e < n, "end");
        });
    }
    // iteration from an arbitrary state
    fn iterator [8, 12] {
        world!(u32, VAST => v, base, n, s, e);
        scope(v, |c| {
            let r = of(&c, sub(v, s, e));
            let (mut s, mut e) = (s, e);
            let mut it = match r.nonempty() { Ok(q) if nd::bool_() => q.into_iter(), _ => r.into_iter() };
            let mut k = 0;
            let mut ends = 0;
            while k < crate::tier!(4, 9) {
                assert!(it.len() == e - s && it.size_hint() == (e - s, Some(e - s)), "the iterator knows its length");
                assert!(same(it.into_range(), base, s, e), "into_range is what remains");
                let front = nd::bool_();
                let got = if front { it.next() } else { it.next_back() };
                if s == e { assert!(got.is_none(), "nothing after the end"); ends += 1; }
                else {
                    let p = match got { Some(p) => p, None => { assert!(false, "ends early"); return } };
                    if front { assert!(addr(p) == at(base, s), "next is the first remaining element"); s += 1; }
                    else { e -= 1; assert!(addr(p) == at(base, e), "next_back is the last remaining element"); }
                }
                k += 1;
            }
            let copy = it.clone();
            assert!(same(copy.into_range(), base, s, e), "clone");
            witness!(ends == 2, "exhausted");
            witness!(s > 1 << 20 && e - s > 1 << 20, "end");
        });
    }
    fn iterator_odd [6, 8] {
        world!([u8; 3], crate::tier!(60, 300) => v, base, n, s, e);
        scope(v, |c| {
            let mut it = of(&c, sub(v, s, e)).into_iter();
            let (mut s, mut e) = (s, e);
            let mut k = 0;
            while k < 3 {
                assert!(it.len() == e - s, "the iterator knows its length");
                let front = nd::bool_();
                match if front { it.next() } else { it.next_back() } {
                    None => assert!(s == e, "ends early"),
                    Some(p) => if front { assert!(addr(p) == at(base, s), "next is the first remaining element"); s += 1; } else { e -= 1; assert!(addr(p) == at(base, e), "next_back is the last remaining element"); },
                }
                assert!(s <= e, "nothing after the end");
                k += 1;
            }
            assert!(same(it.into_range(), base, s, e), "into_range is what remains");
            witness!(e - s > 20, "end");
        });
    }
    // what a container hands out
    fn container_words [2, 2] {
        world!(u32, VAST => v, base, n, s, e);
        scope(v, |c| handed_out(&c, v, base, n, s, e));
        witness!(s > 5 && e - s > 1 << 20 && e < n, "end");
        witness!(s == e && s == n && n > 1, "at the end");
    }
    fn container_bytes [2, 2] {
        world!(u8, VAST => v, base, n, s, e);
        scope(v, |c| handed_out(&c, v, base, n, s, e));
        witness!(s > 5 && e - s > 1 << 20 && e < n, "end");
    }
    fn container_odd [2, 2] {
        world!([u8; 3], crate::tier!(200, 1000) => v, base, n, s, e);
        scope(v, |c| handed_out(&c, v, base, n, s, e));
        witness!(s > 5 && e - s > 50 && e < n, "end");
    }
    fn container_mut [2, 2] {
        let n = nd::upto(VAST);
        let v = vast::<u32>(n);
        let base = v.as_ptr();
        let e = nd::upto(n);
        let s = nd::upto(e);
        let w = unsafe { std::slice::from_raw_parts(base, n) };
        scope(v, |c| handed_out(&c, w, base, n, s, e));
        witness!(s > 5 && e - s > 1 << 20 && e < n, "end");
    }
    fn container_vec [2, 2] {
        let n = nd::upto(VAST);
        let v = vast_vec::<u32>(n);
        let base = v.as_ptr();
        let e = nd::upto(n);
        let s = nd::upto(e);
        scope(&*v, |c| handed_out(&c, &v[..], base, n, s, e));
        witness!(s > 5 && e - s > 1 << 20 && e < n, "end");
    }
}
fn handed_out<'id, T, A: Contiguous<Item = T>>(c: &Container<'id, A>, v: &[T], base: *const T, n: usize, s: usize, e: usize) {
    assert!(same(c.pointer_range(), base, 0, n), "pointer_range is the whole container");
    assert!(same_slice(c.pointer_slice(), base, 0, n), "pointer_slice is the whole container");
    let r = of(c, sub(v, s, e));
    let (a, b) = (r.first(), r.past_the_end());
    assert!(c.distance_to(a) == s && c.distance_to(b) == e, "distance_to is the position");
    assert!(same(c.pointer_range_of(..b), base, 0, e), "pointer_range_of ..p");
    assert!(same(c.pointer_range_of(a..), base, s, n), "pointer_range_of p..");
    let (x, y) = c.split_at_pointer(a);
    assert!(same(x, base, 0, s) && same(y, base, s, n), "split_at_pointer");
    let q = c.nonempty_range(a, b);
    assert!(q.is_ok() == (s < e), "nonempty_range accepts exactly increasing pairs");
    if let Ok(q) = q { assert!(same(q, base, s, e), "nonempty_range denotes the elements between"); }
    assert!(c.nonempty_range(b, a).is_err(), "nonempty_range refuses decreasing and equal pairs");
    if let Ok(q) = r.nonempty() {
        let p = q.first();
        assert!(c.distance_to(p) == s, "distance_to is the position");
        assert!(same(c.pointer_range_of(..p), base, 0, s) && same(c.pointer_range_of(p..), base, s, n), "pointer_range_of an element");
        let (x, y) = c.split_at_pointer(p);
        assert!(same(x, base, 0, s) && same(y, base, s, n) && !y.is_empty(), "split_at_pointer at an element: the latter part is not empty");
        let z = c.nonempty_range(p, p.after());
        assert!(z.is_ok() && same(z.unwrap(), base, s, s + 1), "nonempty_range of one element");
        assert!(c.nonempty_range(p, p).is_err(), "nonempty_range refuses decreasing and equal pairs");
    }
}

/// short containers of elements of any size, path-wise
#[cfg(not(kani))]
mod short {
    use super::*;
    pub fn state<T>(v: &[T], full: bool) {
        let n = nd::fork(nd::upto(v.len()));
        let e = nd::fork(nd::upto(n));
        let s = nd::fork(nd::upto(e));
        let v = &v[..n];
        let base = v.as_ptr();
        scope(v, |c| {
            let r = of(&c, sub(v, s, e));
            any_state!(r, base, s, e, same);
            let q = of_slice(&c, sub_slice(v, s, e));
            any_state!(q, base, s, e, same_slice);
            convert!(r, base, s, e, PSlice, same_slice);
            convert!(q, base, s, e, PRange, same);
            handed_out(&c, v, base, n, s, e);
            if full { walk(r, base, s, e); }
        });
        witness!(s == 2 && e == 6 && n == v.len(), "end");
    }
    fn walk<'id, T>(r: PRange<'id, T>, base: *const T, s: usize, e: usize) {
        let len = e - s;
        let is = |p: Option<PIndex<'id, T>>, k: usize| match p { Some(p) => addr(p) == at(base, k), None => false };
        let mut k = s;
        for p in r { assert!(is(Some(p), k), "in order from the front"); k += 1; }
        assert!(k == e, "every element");
        for p in r.into_iter().rev() { k -= 1; assert!(is(Some(p), k), "in order from the back"); }
        assert!(k == s, "every element");
        assert!(r.into_iter().count() == len && r.into_iter().len() == len, "as many as the range has");
        let m = nd::fork(nd::upto(len + 1));
        let mut a = r.into_iter();
        let x = a.nth(m);
        assert!(if m < len { is(x, s + m) } else { x.is_none() }, "nth");
        let left = if m < len { s + m + 1 } else { e };
        assert!(same(a.into_range(), base, left, e), "nth consumes what it skips");
        let mut b = r.into_iter();
        let x = b.nth_back(m);
        assert!(if m < len { is(x, e - 1 - m) } else { x.is_none() }, "nth_back");
        let left = if m < len { e - 1 - m } else { s };
        assert!(same(b.into_range(), base, s, left), "nth_back consumes what it skips");
        let far = nd::near(s.wrapping_neg());
        nd::assume(far > len);
        let (mut a, mut b) = (r.into_iter(), r.into_iter());
        assert!(a.nth(far).is_none() && same(a.into_range(), base, e, e), "nth past the end");
        assert!(b.nth_back(far).is_none() && same(b.into_range(), base, s, s), "nth_back past the end");
        assert!(a.nth(far).is_none() && b.nth_back(far).is_none(), "exhausted stays exhausted");
        assert!(r.into_iter().skip(far).next().is_none() && r.into_iter().take(far).count() == len, "skip and take past the end");
        let mut z = r.into_iter();
        for k in 0..m { let x = z.next(); assert!(if k < len { is(x, s + k) } else { x.is_none() }, "front"); }
        for k in m..len { assert!(is(z.next_back(), e - 1 - (k - m)), "back"); }
        assert!(z.next().is_none() && z.next_back().is_none() && z.next().is_none() && z.len() == 0, "exhausted stays exhausted");
        assert!(match r.into_iter().last() { Some(p) => len > 0 && is(Some(p), e - 1), None => len == 0 }, "last");
        // internal iteration over what is left, and adaptors
        let mut f = r.into_iter();
        let mut b = r.into_iter();
        for _ in 0..m { f.next(); b.next_back(); }
        assert!(f.clone().count() == len - m.min(len) && f.size_hint().0 == len - m.min(len), "count of the rest");
        assert!(f.fold(s + m.min(len), |k, p| { assert!(is(Some(p), k), "fold"); k + 1 }) == e, "fold over the rest");
        assert!(b.clone().fold(s, |k, p| { assert!(is(Some(p), k), "fold"); k + 1 }) == e - m.min(len), "fold over the rest");
        assert!(b.rfold(e - m.min(len), |k, p| { assert!(is(Some(p), k - 1), "rfold"); k - 1 }) == s, "rfold over the rest");
        let mut k = s;
        for p in r.into_iter().step_by(3) { assert!(is(Some(p), k), "every third"); k += 3; }
        assert!(k >= e && k < e + 3, "every third");
        assert!(r.into_iter().position(|p| addr(p) == at(base, s + m)) == if m < len { Some(m) } else { None }, "position");
        assert!(r.into_iter().rposition(|p| addr(p) == at(base, s + m)) == if m < len { Some(m) } else { None }, "rposition");
        // stepping with advance visits the same elements
        if let Ok(mut q) = r.nonempty() {
            let mut k = s;
            loop { assert!(is(Some(q.first()), k), "advance"); if !q.advance() { break } k += 1; }
            assert!(k + 1 == e, "advance visits every element");
        }
        if let Ok(mut q) = r.nonempty() {
            let mut k = e;
            loop { assert!(is(Some(q.last()), k - 1), "advance_back"); if !q.advance_back() { break } k -= 1; }
            assert!(k == s + 1, "advance_back visits every element");
        }
        // halves of halves end at single elements
        let mut h = r;
        let (mut x, mut y) = (s, e);
        while y - x > 1 {
            let mid = x + (y - x) / 2;
            let (a, b) = h.split_in_half();
            if nd::bool_() { h = a; y = mid; } else { h = b; x = mid; }
            assert!(same(h, base, x, y), "split_in_half again");
        }
    }
}
#[cfg(not(kani))]
use crate::elems::{Aligned, Big, Giant, Kind};
path_harnesses! {
    fn paths_words() { let mut a = [0u16; crate::tier!(16, 24)]; a[1] = nd::u8_() as u16; short::state(&a, true) }
    fn paths_odd() { let mut a = [[0u8; 7]; crate::tier!(12, 20)]; a[1][2] = nd::u8_(); short::state(&a, true) }
    fn paths_big() { let a: [Big; crate::tier!(12, 20)] = std::array::from_fn(|k| Big::make(0, k)); short::state(&a, true) }
    fn paths_giant() { let a: [Giant; crate::tier!(12, 20)] = std::array::from_fn(|k| Giant::make(0, k)); short::state(&a, true) }
    fn paths_aligned() { let a: [Aligned; crate::tier!(12, 20)] = std::array::from_fn(|k| Aligned::make(0, k)); short::state(&a, true) }
}
