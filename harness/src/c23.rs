//! C23 pointer-based container operations. By address at full width (Kani),
//! contents of short containers (path-wise), and that mutable access needs a
//! container that has it.
use crate::model::*;
use crate::nd;
use indexing::container_traits::*;
use indexing::pointer::*;
use indexing::{scope, Container};

/// The pointer range of v[s..e] (see C22).
fn sub<'id, A: Trustworthy<Item = T>, M, T>(_: &Container<'id, A, M>, base: *const T, s: usize, e: usize) -> PRange<'id, T> {
    let v = unsafe { std::slice::from_raw_parts(base.add(s), e - s) };
    scope(v, |d| unsafe { std::mem::transmute_copy(&d.pointer_range()) })
}
fn is_at<T>(x: &[T], base: *const T, s: usize, e: usize) -> bool { x.as_ptr() as usize == at(base, s) && x.len() == e - s }
fn same<'id, T, P>(r: PRange<'id, T, P>, base: *const T, s: usize, e: usize) -> bool {
    r.len() == e - s && r.first().ptr() as usize == at(base, s) && r.past_the_end().ptr() as usize == at(base, e)
}

/// shared access through pointers
fn reads<'id, T, A: Contiguous<Item = T>>(c: &Container<'id, A>, base: *const T, n: usize, s: usize, e: usize) {
    let r = sub(c, base, s, e);
    assert!(is_at(&c[r], base, s, e), "the elements of the range");
    let (a, b) = (r.first(), r.past_the_end());
    assert!(is_at(&c[a..], base, s, n) && is_at(&c[..a], base, 0, s), "slices from and to an edge pointer");
    assert!(is_at(&c[b..], base, e, n) && is_at(&c[..b], base, 0, e), "slices from and to an edge pointer");
    if let Ok(q) = r.nonempty() {
        assert!(is_at(&c[q], base, s, e), "the elements of the range");
        assert!(&c[q.first()] as *const T as usize == at(base, s), "the element at the pointer");
        assert!(&c[q.last()] as *const T as usize == at(base, e - 1), "the element at the pointer");
        assert!(is_at(&c[q.first()..], base, s, n) && is_at(&c[..q.last()], base, 0, e - 1), "slices from and to an element");
    }
}
fn writes<'id, T, A: ContiguousMut<Item = T>>(c: &mut Container<'id, A>, base: *const T, n: usize, s: usize, e: usize) {
    let r = sub(c, base, s, e);
    assert!(is_at(&mut c[r], base, s, e), "the elements of the range, mutable");
    let (a, b) = (r.first(), r.past_the_end());
    assert!(is_at(&mut c[a..], base, s, n), "slices from an edge pointer, mutable");
    assert!(is_at(&mut c[..b], base, 0, e), "slices to an edge pointer, mutable");
    if let Ok(q) = r.nonempty() {
        assert!(is_at(&mut c[q], base, s, e), "the elements of the range, mutable");
        assert!(is_at(&mut c[q.first()..], base, s, n) && is_at(&mut c[..q.last()], base, 0, e - 1), "slices from and to an element, mutable");
        assert!(parts(c, q.first(), base, n, s), "the second part is not empty");
    }
    let empty = parts(c, a, base, n, s);
    assert!(empty == (s < n));
    parts(c, b, base, n, e);
}
/// split_container_at_pointer at position x; is the second part non-empty?
fn parts<'id, T, P, A: ContiguousMut<Item = T>>(c: &mut Container<'id, A>, p: PIndex<'id, T, P>, base: *const T, n: usize, x: usize) -> bool {
    let mut calls = 0;
    let out = c.split_container_at_pointer(p, |mut c1, r1, mut c2, r2| {
        calls += 1;
        assert!(c1.len() == x && c2.len() == n - x, "the parts have the lengths of the two sides");
        assert!(is_at(&c1[..], base, 0, x) && is_at(&c2[..], base, x, n), "the parts are the two sides");
        assert!(same(r1, base, 0, x) && same(r2, base, x, n), "their ranges are complete");
        assert!(same(c1.pointer_range(), base, 0, x) && same(c2.pointer_range(), base, x, n), "the parts are the two sides");
        assert!(is_at(&mut c1[r1], base, 0, x) && is_at(&mut c2[r2], base, x, n), "the parts are the two sides, mutable");
        c2.len() > 0
    });
    assert!(calls == 1, "called once");
    out
}

macro_rules! positions {
    ($n:expr => $s:ident, $e:ident) => {
        let $e = nd::upto($n);
        let $s = nd::upto($e);
    };
}
harnesses! {
    fn shared_words [2, 2] {
        let n = nd::upto(VAST);
        let v = &*vast::<u32>(n);
        positions!(n => s, e);
        scope(v, |c| reads(&c, v.as_ptr(), n, s, e));
        witness!(s > 5 && e - s > 1 << 20 && e < n, "end");
    }
    fn shared_odd [2, 2] {
        let n = nd::upto(crate::tier!(50, 500));
        let v = &*vast::<[u8; 3]>(n);
        positions!(n => s, e);
        scope(v, |c| reads(&c, v.as_ptr(), n, s, e));
        witness!(s > 5 && e - s > 20 && e < n, "end");
    }
    fn shared_vector [2, 2] {
        let n = nd::upto(VAST);
        let v = vast_vec::<u16>(n);
        positions!(n => s, e);
        let base = v.as_ptr();
        scope(&*v, |c| reads(&c, base, n, s, e));
        witness!(s > 5 && e - s > 1 << 20 && e < n, "end");
    }
    fn exclusive_words [2, 2] {
        let n = nd::upto(VAST);
        let v = vast::<u32>(n);
        positions!(n => s, e);
        let base = v.as_ptr();
        scope(v, |mut c| { reads(&c, base, n, s, e); writes(&mut c, base, n, s, e); });
        witness!(s > 5 && e - s > 1 << 20 && e < n, "end");
        witness!(s == n && n > 1, "at the end");
    }
    fn exclusive_bytes [2, 2] {
        let n = nd::upto(VAST);
        let v = vast::<u8>(n);
        positions!(n => s, e);
        let base = v.as_ptr();
        scope(v, |mut c| writes(&mut c, base, n, s, e));
        witness!(s > 5 && e - s > 1 << 20 && e < n, "end");
    }
    fn exclusive_odd [2, 2] {
        let n = nd::upto(crate::tier!(50, 500));
        let v = vast::<[u8; 3]>(n);
        positions!(n => s, e);
        let base = v.as_ptr();
        scope(v, |mut c| writes(&mut c, base, n, s, e));
        witness!(s > 5 && e - s > 20 && e < n, "end");
    }
    fn exclusive_vector [2, 2] {
        let n = nd::upto(VAST);
        let mut v = vast_vec::<u16>(n);
        positions!(n => s, e);
        let base = v.as_ptr();
        scope(&mut *v, |mut c| { reads(&c, base, n, s, e); writes(&mut c, base, n, s, e); });
        witness!(s > 5 && e - s > 1 << 20 && e < n, "end");
    }
    fn owned_vector [2, 2] {
        let n = nd::upto(VAST);
        let v = vast_vec::<u16>(n);
        positions!(n => s, e);
        let base = v.as_ptr();
        scope(std::mem::ManuallyDrop::into_inner(v), |c| {
            let mut c = std::mem::ManuallyDrop::new(c);
            reads(&c, base, n, s, e);
            writes(&mut c, base, n, s, e);
        });
        witness!(s > 5 && e - s > 1 << 20 && e < n, "end");
    }
    // mutable access is refused where the container only shares its elements
    fn refused_access [6, 6] {
        let x = nd::u8_();
        let a = [x, 1, 2, 3];
        let old = a;
        scope(&a[..], |mut c| attack_slice(&mut c));
        scope(&&a[..], |mut c| attack_nested(&mut c));
        assert!(a == old, "a container with shared access changes no element");
        let v = vec![x, 1, 2];
        scope(&v, |mut c| attack_vector(&mut c));
        assert!(v[0] == x && v[1] == 1 && v[2] == 2, "a container with shared access changes no element");
        // a container that may grow hands out no pointers
        let mut v = vec![x, 2];
        scope(&mut v, |c| attack_only_index(&mut c.only_index()));
        // a container that hands out pointers does not grow
        scope(&mut v, |mut c| attack_growth(&mut c));
        assert!(v.len() == 2, "a container that hands out pointers does not grow");
        witness!(x == 9, "end");
    }
}

// Method calls that only compile against the fallback traits below unless the
// crate offers the method for such a container (an inherent method wins).
struct Refused;
trait NoMutation: Sized {
    fn swap_ptr<P, Q>(&mut self, _: P, _: Q) -> Refused { Refused }
    fn rotate1_prange<R>(&mut self, _: R) -> Refused { Refused }
    fn split_container_at_pointer<P, F>(&mut self, _: P, _: F) -> Refused { Refused }
}
trait NoPointers: Sized {
    fn pointer_range(&self) -> Refused { Refused }
    fn pointer_slice(&self) -> Refused { Refused }
}
trait NoGrowth: Sized {
    fn push<T>(&mut self, _: T) -> Refused { Refused }
    fn insert<I, T>(&mut self, _: I, _: T) -> Refused { Refused }
}
impl<'id, A: Trustworthy, M> NoMutation for Container<'id, A, M> {}
impl<'id, A: Trustworthy, M> NoPointers for Container<'id, A, M> {}
impl<'id, A: Trustworthy, M> NoGrowth for Container<'id, A, M> {}
trait Answer { fn refused(self) -> bool; }
impl Answer for Refused { fn refused(self) -> bool { true } }
impl Answer for () { fn refused(self) -> bool { false } }
impl<'id, T, P> Answer for PRange<'id, T, P> { fn refused(self) -> bool { false } }
impl<'id, T, P> Answer for PSlice<'id, T, P> { fn refused(self) -> bool { false } }
impl<'id, P> Answer for indexing::Index<'id, P> { fn refused(self) -> bool { false } }
fn overwrite<'a, 'b>(mut c: Container<'a, &mut [u8]>, r: PRange<'a, u8>, _: Container<'b, &mut [u8]>, _: PRange<'b, u8, indexing::NonEmpty>) {
    for x in &mut c[r] { *x = x.wrapping_add(1); }
}
macro_rules! attack_shared {
    ($name:ident, $a:ty) => {
        fn $name<'id>(c: &mut Container<'id, $a>) {
            let r = c.pointer_range().nonempty().unwrap();
            assert!(c.swap_ptr(r.first(), r.last()).refused(), "swap_ptr needs mutable access");
            assert!(c.rotate1_prange(r).refused(), "rotate1_prange needs mutable access");
            assert!(c.split_container_at_pointer(r.last(), overwrite).refused(), "split_container_at_pointer needs mutable access");
        }
    };
}
attack_shared!(attack_slice, &[u8]);
attack_shared!(attack_nested, &&[u8]);
attack_shared!(attack_vector, &Vec<u8>);
fn attack_only_index<'id>(c: &mut Container<'id, &mut Vec<u8>, indexing::container::OnlyIndex>) {
    assert!(c.pointer_range().refused(), "no pointer range while the storage may move");
    assert!(c.pointer_slice().refused(), "no pointer slice while the storage may move");
}
fn attack_growth<'id>(c: &mut Container<'id, &mut Vec<u8>>) {
    let i = c.vet(0).unwrap();
    assert!(c.push(7).refused(), "no push while pointers may be held");
    assert!(c.insert(i, 7).refused(), "no insert while pointers may be held");
}
