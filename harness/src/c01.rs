//! C01 vetting. Full 64-bit widths.
use crate::model::*;
use crate::nd;
use indexing::scope;

harnesses! {
    fn vet_index [2, 2] {
        let n = any_len();
        let i = nd::near(n);
        scope(Probe::new(n), |c| {
            assert!(c.len() == n);
            let r = c.vet(i);
            assert!(r.is_ok() == (i < n), "vet accepts exactly the existing positions");
            if let Ok(ix) = r {
                assert!(ix.integer() == i, "vet denotes the requested position");
            }
            witness!(r.is_ok() && i > 1 << 40, "accepted");
            witness!(r.is_err() && i > 1 << 40, "rejected");
        });
    }
    // the same through every reference form and after only_index
    fn vet_forms [2, 2] {
        let n = any_len();
        let i = nd::near(n);
        let s = nd::near(n);
        let e = nd::near(n);
        let mut p = Probe::new(n);
        scope(&p, |c| {
            assert!(c.len() == n);
            assert!(c.vet(i).is_ok() == (i < n));
            assert!(c.vet_range(s..e).is_ok() == (s <= e && e <= n));
            assert!(is(c.range(), 0, n) && is(c.empty_range(), 0, 0));
        });
        scope(&mut p, |c| {
            assert!(c.len() == n);
            assert!(c.vet(i).is_ok() == (i < n));
            assert!(c.vet_range(s..e).is_ok() == (s <= e && e <= n));
            let c = c.only_index();
            assert!(c.len() == n);
            assert!(c.vet(i).is_ok() == (i < n));
            assert!(c.vet_range(s..e).is_ok() == (s <= e && e <= n));
            assert!(is(c.range(), 0, n) && is(c.empty_range(), 0, 0));
        });
        witness!(i < n && s < e && e <= n, "all accepted");
    }
    fn vet_range [2, 2] {
        let n = nd::usize_();
        let (s, e) = (nd::near(n), nd::near(n));
        scope(Probe::new(n), |c| {
            let r = c.vet_range(s..e);
            assert!(r.is_ok() == (s <= e && e <= n), "vet_range accepts exactly the ranges the container has");
            if let Ok(r) = r {
                assert!(is(r, s, e), "vet_range denotes the requested range");
            }
            witness!(r.is_ok() && s > 1 << 40, "accepted");
            witness!(r.is_err() && s > e && s <= n, "inverted rejected");
            witness!(r.is_err() && s < e, "too long rejected");
        });
    }
    fn whole_and_empty [2, 2] {
        let n = nd::usize_();
        scope(Probe::new(n), |c| {
            assert!(c.len() == n);
            assert!(is(c.range(), 0, n), "the whole range is 0..len");
            assert!(is(c.empty_range(), 0, 0), "the empty range is 0..0");
            witness!(n > 1 << 62, "end");
        });
    }
    fn contains [2, 2] {
        let n = any_len();
        let i = nd::near(n);
        scope(Probe::new(n), |c| {
            let r = some!(any_range(&c));
            let got = r.contains(i);
            assert!(got.is_some() == (r.start() <= i && i < r.end()), "contains succeeds exactly for members");
            if let Some(ix) = got { assert!(ix.integer() == i); }
            if let Ok(ne) = r.nonempty() {
                let g2 = ne.contains(i);
                assert!(g2.is_some() == (r.start() <= i && i < r.end()));
                if let Some(ix) = g2 { assert!(ix.integer() == i); }
            }
            witness!(got.is_some() && r.start() > 5, "member");
            witness!(got.is_none() && r.start() > i, "before");
            witness!(got.is_none() && r.end() <= i && !r.is_empty(), "behind");
        });
    }
    fn nonempty [2, 2] {
        let n = nd::usize_();
        scope(Probe::new(n), |c| {
            let r = some!(any_range(&c));
            let (s, e) = (r.start(), r.end());
            assert!(r.len() == e - s && r.is_empty() == (s == e));
            let q = r.nonempty();
            assert!(q.is_ok() == (s < e), "nonempty succeeds exactly when there is an element");
            if let Ok(q) = q {
                assert!(is(q, s, e));
                assert!(!q.is_empty() && q.len() == e - s);
                let qq = q.nonempty();
                assert!(qq.is_ok() && is(qq.unwrap(), s, e));
            }
            witness!(q.is_ok() && s > 7, "nonempty");
            witness!(q.is_err() && s > 7, "empty");
        });
    }
    // the provided storages themselves: lengths as reported by slices and vectors
    fn storages [6, 8] {
        const N: usize = crate::tier!(3, 5);
        let buf = [0u8; N];
        let n = nd::small(N as u8);
        let (i, s, e) = (nd::near(n), nd::near(n), nd::near(n));
        macro_rules! all { ($a:expr) => { scope($a, |c| {
            assert!(c.len() == n);
            assert!(c.vet(i).is_ok() == (i < n));
            assert!(c.vet_range(s..e).is_ok() == (s <= e && e <= n));
            assert!(is(c.range(), 0, n));
        }) } }
        let mut v = buf.to_vec();
        v.truncate(n);
        let mut b2 = buf;
        all!(&buf[..n]);
        all!(&mut b2[..n]);
        all!(&&buf[..n]);
        all!(&mut &mut b2[..n]);
        all!(&v);
        all!(&mut v);
        all!(v);
        witness!(n == N && i < n && s < e && e <= n, "end");
    }
    // zero-sized elements: lengths need no memory
    fn zero_sized [2, 2] {
        let n = any_len();
        let i = nd::near(n);
        let v: &[()] = unsafe { std::slice::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), n) };
        scope(v, |c| {
            assert!(c.len() == n && is(c.range(), 0, n));
            assert!(c.vet(i).is_ok() == (i < n));
            if let Ok(ix) = c.vet(i) { let () = c[ix]; }
            let r = some!(any_range(&c));
            assert!(c[r].len() == r.len());
            witness!(i < n && n > 1 << 60, "end");
        });
    }
}
