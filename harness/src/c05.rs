//! C05 joining. Full 64-bit widths, every combination of proofs.
use crate::model::*;
use crate::nd;
use indexing::scope;
use std::cmp::{max, min};

macro_rules! joins {
    ($r:expr, $s:expr, $n:expr) => {{
        let (r, s, n) = ($r, $s, $n);
        let (a, b, x, y) = (r.start(), r.end(), s.start(), s.end());
        let j = r.join(s);
        assert!(j.is_ok() == (b == x), "join succeeds exactly for adjacent ranges");
        if let Ok(j) = j {
            assert!(is(j, a, y), "join covers first start to second end");
            assert!(j.ok(n), "join proof");
        }
        let k = r.join_cover(s);
        assert!(is(k, a, max(b, y)), "join_cover extends to the farther end");
        assert!(k.ok(n), "join_cover proof");
        let h = r.join_cover_both(s);
        assert!(is(h, min(a, x), max(b, y)), "join_cover_both is the hull");
        assert!(h.ok(n), "join_cover_both proof");
    }};
}

harnesses! {
    fn plain [2, 2] {
        let n = nd::usize_();
        scope(Probe::new(n), |c| {
            let (r, s) = (some!(any_range(&c)), some!(any_range(&c)));
            joins!(r, s, n);
            witness!(r.end() == s.start() && r.start() > 3 && r.len() > 4 && s.len() > 4, "adjacent");
            witness!(r.end() < s.start(), "gap");
            witness!(s.end() < r.start(), "reversed");
            witness!(r.start() < s.start() && s.end() < r.end(), "nested");
            witness!(r.is_empty() && s.is_empty() && r.start() < s.start(), "both empty");
        });
    }
    fn left_nonempty [2, 2] {
        let n = nd::usize_();
        scope(Probe::new(n), |c| {
            let (r, s) = (some!(any_ne(&c)), some!(any_range(&c)));
            joins!(r, s, n);
            witness!(s.is_empty() && s.end() < r.start(), "empty before");
        });
    }
    fn right_nonempty [2, 2] {
        let n = nd::usize_();
        scope(Probe::new(n), |c| {
            let (r, s) = (some!(any_range(&c)), some!(any_ne(&c)));
            joins!(r, s, n);
            witness!(r.is_empty() && s.end() < r.start(), "empty behind");
        });
    }
    fn both_nonempty [2, 2] {
        let n = nd::usize_();
        scope(Probe::new(n), |c| {
            let (r, s) = (some!(any_ne(&c)), some!(any_ne(&c)));
            joins!(r, s, n);
            witness!(r.end() == s.start(), "adjacent");
            witness!(s.end() < r.start(), "reversed");
        });
    }
    // splitting and joining again is the identity
    fn split_join [2, 2] {
        let n = nd::usize_();
        scope(Probe::new(n), |c| {
            let r = some!(any_range(&c));
            let k = nd::near(r.len());
            let (a, b, _) = r.split_at(k);
            let j = a.join(b);
            assert!(j.is_ok() && is(j.unwrap(), r.start(), r.end()));
            let (a, b) = r.split_in_half();
            let j = a.join(b);
            assert!(j.is_ok() && is(j.unwrap(), r.start(), r.end()));
            let (f, g) = r.frontiers();
            assert!(f.join(r).is_ok() && r.join(g).is_ok() && f.join(g).is_ok() == r.is_empty());
            witness!(r.len() > 4 && k == 2, "end");
        });
    }
}
