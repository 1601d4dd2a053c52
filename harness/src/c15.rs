//! C15 twins and clones.
use crate::model::*;
use crate::nd;
use indexing::{scope, Container, Index};

/// What an index of the original means for a twin or clone of it.
trait Admits<'id> { fn admits(&self, i: Index<'id>) -> bool; }
impl<'id, A: indexing::container_traits::Trustworthy, M> Admits<'id> for Container<'id, A, M> {
    fn admits(&self, i: Index<'id>) -> bool { i.integer() < self.len() }
}
/// There is no twin or clone: nothing can go wrong.
struct Refused;
impl<'id> Admits<'id> for Refused { fn admits(&self, _: Index<'id>) -> bool { true } }

// Fallbacks that are used exactly when the crate offers no twin / clone for the
// storage (inherent methods and `Clone` take precedence where they apply).
trait NoTwin { fn make_twin<B>(&self, _: B) -> Result<Refused, ()> { Err(()) } }
impl<'id, A, M> NoTwin for Container<'id, A, M> {}

struct Probe1<'a, T>(&'a T);
trait HasClone { type Out; fn attempt(&self) -> Option<Self::Out>; }
impl<'a, T: Clone> HasClone for Probe1<'a, T> { type Out = T; fn attempt(&self) -> Option<T> { Some(self.0.clone()) } }
trait NoClone { fn attempt(&self) -> Option<Refused> { None } }
impl<'a, 'b, T> NoClone for &'b Probe1<'a, T> {}

harnesses! {
    fn lengths [2, 2] {
        let (n, m) = (any_len(), 0);
        let m = nd::near(n) | m;
        let (p, q) = (Probe::new(n), Probe::new(m));
        scope(&p, |c| {
            let t = c.make_twin(&q);
            assert!(t.is_ok() == (n == m), "a twin exists exactly for equal lengths");
            if let Ok(t) = t {
                assert!(t.len() == n);
                let i = some!(any_index(&c));
                let r = some!(any_range(&t));
                // indices and ranges of one mean the same in the other
                let _ = t[i];
                assert!(q.last.get() == i.integer(), "the twin is accessed at the same position");
                let j = some!(any_index(&t));
                let _ = c[j];
                assert!(p.last.get() == j.integer());
                assert!((i == j) == (i.integer() == j.integer()) && r.ok(n));
                assert!(c.split_around(r).ok(n) && t.split_at(i).ok(n));
                // twins of twins, of the same container in index-only mode
                let u = t.make_twin(&p);
                assert!(u.is_ok());
                let oc = c.only_index();
                let w = oc.make_twin(&q);
                assert!(w.is_ok() && w.unwrap().len() == n);
                witness!(i.integer() > 1 << 40 && j != i, "twin");
            }
            witness!(n != m && m > 3, "refused");
        });
    }
    fn slice_lengths [5, 7] {
        const N: usize = crate::tier!(3, 5);
        let mut a = [0u16; N];
        let mut b = [0u8; N];
        for k in 0..N { a[k] = nd::u8_() as u16; b[k] = nd::u8_(); }
        let (n, m) = (nd::small(N as u8), nd::small(N as u8));
        let (oa, ob) = (a, b);
        let x = nd::u8_();
        scope(&mut a[..n], |c| {
            let t = c.make_twin(&mut b[..m]);
            assert!(t.is_ok() == (n == m), "a twin exists exactly for equal lengths");
            if let Ok(mut t) = t {
                let i = some!(any_index(&c));
                let r = some!(any_range(&c));
                assert!(t[i] == ob[i.integer()] && c[i] == oa[i.integer()]);
                assert!(t[r].len() == r.len() && (r.is_empty() || t[r][0] == ob[r.start()]));
                t[i] = x;
                assert!(t[i] == x && c[i] == oa[i.integer()], "twins are distinct storages");
                witness!(i.integer() == 1 && n == N, "twin");
            }
            witness!(n > m, "longer");
            witness!(n < m, "shorter");
        });
    }
    // a twin of empty storages, of zero-sized elements
    fn zero_sized [2, 2] {
        let (n, m) = (nd::near(3), nd::near(3));
        let s: &[()] = unsafe { std::slice::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), n) };
        let t: &[()] = unsafe { std::slice::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), m) };
        scope(s, |c| assert!(c.make_twin(t).is_ok() == (n == m)));
        witness!(n == m && n > 5, "end");
    }
    fn clones [5, 7] {
        const N: usize = crate::tier!(3, 5);
        let mut a = [0u16; N];
        for k in 0..N { a[k] = nd::u8_() as u16; }
        let n = nd::small(N as u8);
        scope(&a[..n], |c| {
            let d = c.clone();
            assert!(d.len() == n && d[..].as_ptr() == a.as_ptr() && d[..].len() == n, "a clone shows the same contents");
            let i = some!(any_index(&c));
            assert!(d[i] == a[i.integer()]);
            let e = d.only_index().clone();
            assert!(e[i] == a[i.integer()] && e.len() == n);
            witness!(i.integer() == 1, "end");
        });
    }
    // storage that can grow must not have twins or clones; where the crate
    // offers one, an index made by growing must still be admissible in it
    fn growing_storage [4, 4] {
        let fixed = [0u8; 1];
        let mut v: Vec<u8> = Vec::with_capacity(4);
        v.push(nd::u8_());
        scope(&mut v, |c| {
            let mut c = c.only_index();
            let t = c.make_twin(&fixed[..]);
            let k = { #[allow(unused_imports)] use NoClone as _; (&Probe1(&c)).attempt() };
            let i = c.push(1);
            if let Ok(t) = t { assert!(t.admits(i), "an index is not valid in the twin"); }
            if let Some(k) = k { assert!(k.admits(i), "an index is not valid in the clone"); }
        });
        let v2 = v.clone();
        scope(v2, |c| {
            let mut c = c.only_index();
            let t = c.make_twin(&fixed[..]);
            let k = (&Probe1(&c)).attempt();
            let n0 = c.len();
            let i = c.push(1);
            nd::assume(n0 == 1 || n0 == 2);
            if let Ok(t) = t { assert!(t.admits(i), "an index is not valid in the twin"); }
            if let Some(k) = k { assert!(k.admits(i), "an index is not valid in the clone"); }
        });
        let g = Grow::new(nd::upto(IMAX - 1));
        scope(g, |c| {
            let n = c.len();
            let mut c = c.only_index();
            let p = Probe::new(n);
            let t = c.make_twin(&p);
            let i = c.push(1);
            if let Ok(t) = t { assert!(t.admits(i), "an index is not valid in the twin"); }
        });
        witness!(true, "end");
    }
}
