//! C06 stepping. Full 64-bit widths, offsets up to usize::MAX.
use crate::model::*;
use crate::nd;
use indexing::scope;

fn sat(a: usize, b: usize) -> usize { match a.checked_add(b) { Some(x) => x, None => usize::MAX } }
fn clamp(a: usize, k: usize, max: usize) -> usize { let x = sat(a, k); if x > max { max } else { x } }

harnesses! {
    fn index_in_container [2, 2] {
        let n = any_len();
        scope(Probe::new(n), |c| {
            let i = some!(any_index(&c));
            let x = i.integer();
            let k = nd::near(n - x);

            let mut a = i;
            let moved = c.forward(&mut a);
            assert!(moved == (x + 1 < n), "forward succeeds exactly when there is a next element");
            assert!(a.integer() == if moved { x + 1 } else { x }, "forward moves by one or not at all");

            let mut a = i;
            let moved = c.forward_by(&mut a, k);
            assert!(moved == (sat(x, k) < n), "forward_by succeeds exactly when it stays in bounds");
            assert!(a.integer() == if moved { x + k } else { x }, "forward_by moves by the offset or not at all");

            let mut a = i;
            let moved = c.backward(&mut a);
            assert!(moved == (x > 0), "backward succeeds exactly when there is a previous element");
            assert!(a.integer() == if moved { x - 1 } else { x }, "backward moves by one or not at all");

            witness!(k > usize::MAX - 3 && x > 5, "huge offset");
            witness!(x + 1 == n && n > 3, "at the last");
            witness!(k > 3 && k < n - x, "inside");
        });
    }
    fn index_in_range [2, 2] {
        let n = any_len();
        scope(Probe::new(n), |c| {
            let i = some!(any_index(&c));
            let r = some!(any_range(&c));
            let x = i.integer();
            let k = nd::near(n - x);
            let mut a = i;
            let moved = r.forward_by(&mut a, k);
            assert!(moved == (sat(x, k) < r.end()), "forward_by succeeds exactly when it stays before the end");
            assert!(a.integer() == if moved { x + k } else { x }, "forward_by moves by the offset or not at all");
            if let Ok(q) = r.nonempty() {
                let mut a = i;
                let moved = q.forward_by(&mut a, k);
                assert!(moved == (sat(x, k) < r.end()));
                assert!(a.integer() == if moved { x + k } else { x });
            }
            witness!(k > usize::MAX - 3 && x > 5, "huge offset");
            witness!(x >= r.end(), "index behind the range");
            witness!(sat(sat(x, k), 1) == r.end() && k > 2 && x > r.start(), "up to the last");
        });
    }
    fn range_forward [2, 2] {
        let n = nd::usize_();
        scope(Probe::new(n), |c| {
            let r = some!(any_range(&c));
            let s = some!(any_range(&c));
            let k = nd::near(n - s.start());
            let f = c.forward_range_by(s, k);
            assert!(is(f, clamp(s.start(), k, n), clamp(s.end(), k, n)), "both ends move by the offset, clamped to the container");
            let f = r.forward_range_by(s, k);
            assert!(is(f, clamp(s.start(), k, r.end()), clamp(s.end(), k, r.end())), "both ends move by the offset, clamped to the range's end");
            if let Ok(q) = s.nonempty() {
                assert!(is(c.forward_range_by(q, k), clamp(s.start(), k, n), clamp(s.end(), k, n)));
                assert!(is(r.forward_range_by(q, k), clamp(s.start(), k, r.end()), clamp(s.end(), k, r.end())));
            }
            if let Ok(q) = r.nonempty() {
                assert!(is(q.forward_range_by(s, k), clamp(s.start(), k, r.end()), clamp(s.end(), k, r.end())));
            }
            witness!(k > usize::MAX - 3 && s.len() > 5, "huge offset");
            witness!(k > 3 && sat(s.end(), k) < r.end(), "inside");
            witness!(s.len() > 4 && k > 3 && sat(s.start(), k) < r.end() && sat(s.end(), k) > n, "clamped");
        });
    }
    fn advance [2, 2] {
        let n = nd::usize_();
        scope(Probe::new(n), |c| {
            let r = some!(any_ne(&c));
            let (s, e) = (r.start(), r.end());
            let len = e - s;
            let k = nd::near(len);

            let q = r.advance_();
            assert!(q.is_ok() == (len > 1), "advance_ succeeds exactly when an element remains");
            if let Ok(q) = q { assert!(is(q, s + 1, e), "advance_ drops the first"); }

            let mut a = r;
            let moved = a.advance();
            assert!(moved == (len > 1), "advance succeeds exactly when an element remains");
            assert!(is(a, if moved { s + 1 } else { s }, e), "advance drops the first or nothing");

            let mut a = r;
            let moved = a.advance_back();
            assert!(moved == (len > 1), "advance_back succeeds exactly when an element remains");
            assert!(is(a, s, if moved { e - 1 } else { e }), "advance_back drops the last or nothing");

            let mut a = r;
            let moved = a.advance_by(k);
            assert!(moved == (k < len), "advance_by succeeds exactly when an element remains");
            assert!(is(a, if moved { s + k } else { s }, e), "advance_by drops the first k or nothing");

            witness!(len == 1 && s > 4, "single");
            witness!(len > 4 && k > usize::MAX - 2, "huge offset");
            witness!(len > 4 && k == len - 1, "to the last");
        });
    }
}
