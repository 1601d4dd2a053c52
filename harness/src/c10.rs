//! C10 comparison and hashing. Full 64-bit widths.
use crate::model::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use indexing::scope;

/// Records everything fed to the hasher.
struct Rec { w: [u64; 6], n: usize }
impl PartialEq for Rec {
    fn eq(&self, o: &Rec) -> bool {
        let (a, b) = (&self.w, &o.w);
        self.n == o.n && a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3] && a[4] == b[4] && a[5] == b[5]
    }
}
impl Hasher for Rec {
    fn finish(&self) -> u64 { self.w[0] }
    fn write(&mut self, b: &[u8]) {
        let mut x = 0u64;
        for v in b { x = x.wrapping_mul(257).wrapping_add(*v as u64 + 1); }
        self.put(x);
    }
    fn write_usize(&mut self, i: usize) { self.put(i as u64); }
    fn write_u64(&mut self, i: u64) { self.put(i); }
    fn write_isize(&mut self, i: isize) { self.put(i as u64); }
    fn write_u32(&mut self, i: u32) { self.put(i as u64); }
}
impl Rec {
    fn put(&mut self, x: u64) { assert!(self.n < 6); self.w[self.n] = x; self.n += 1; }
}
fn hash<T: Hash>(t: &T) -> Rec { let mut r = Rec { w: [0; 6], n: 0 }; t.hash(&mut r); r }

macro_rules! agree {
    ($a:expr, $b:expr, $x:expr, $y:expr) => {{
        let (a, b, x, y) = ($a, $b, $x, $y);
        assert!((a == b) == (x == y), "==");
        assert!((a != b) == (x != y), "!=");
        assert!((a < b) == (x < y), "<");
        assert!((a <= b) == (x <= y), "<=");
        assert!((a > b) == (x > y), ">");
        assert!((a >= b) == (x >= y), ">=");
        assert!(a.partial_cmp(&b) == Some(x.cmp(&y)), "partial_cmp");
        assert!(x != y || hash(&a) == hash(&b), "equal particles hash equally");
    }};
}
macro_rules! total {
    ($a:expr, $b:expr, $x:expr, $y:expr) => {{
        let (a, b, x, y) = ($a, $b, $x, $y);
        agree!(a, b, x, y);
        assert!(a.cmp(&b) == x.cmp(&y), "cmp");
        assert!((a.max(b) == a) == (x.max(y) == x) && (a.min(b) == a) == (x.min(y) == x), "max and min");
    }};
}

harnesses! {
    fn indices [2, 2] {
        let n = any_len();
        scope(Probe::new(n), |c| {
            let (i, j) = (some!(any_index(&c)), some!(any_index(&c)));
            let (p, q) = (some!(any_edge(&c)), some!(any_edge(&c)));
            let (x, y, u, v) = (i.integer(), j.integer(), p.integer(), q.integer());
            total!(i, j, x, y);
            total!(p, q, u, v);
            agree!(i, p, x, u);
            agree!(p, i, u, x);
            witness!(x == u && x < y, "equal across proofs");
            witness!(x > y && i.cmp(&j) == Ordering::Greater, "greater");
        });
    }
    fn plain_ranges [2, 2] {
        let n = any_len();
        scope(Probe::new(n), |c| {
            let (r, s) = (some!(any_range(&c)), some!(any_range(&c)));
            let (x, y) = ((r.start(), r.end()), (s.start(), s.end()));
            total!(r, s, x, y);
            witness!(x.0 == y.0 && x.1 < y.1, "same start");
            witness!(x.0 < y.0 && x.1 > y.1, "nested");
        });
    }
    fn nonempty_ranges [2, 2] {
        let n = any_len();
        scope(Probe::new(n), |c| {
            let (r, s) = (some!(any_ne(&c)), some!(any_ne(&c)));
            let (x, y) = ((r.start(), r.end()), (s.start(), s.end()));
            total!(r, s, x, y);
            witness!(x.0 == y.0 && x.1 < y.1, "same start");
        });
    }
    fn mixed_ranges [2, 2] {
        let n = any_len();
        scope(Probe::new(n), |c| {
            let (r, s) = (some!(any_range(&c)), some!(any_ne(&c)));
            let (x, y) = ((r.start(), r.end()), (s.start(), s.end()));
            agree!(r, s, x, y);
            agree!(s, r, y, x);
            witness!(x == y, "equal across proofs");
            witness!(x.0 == y.0 && x.1 < y.1, "same start");
        });
    }
}
