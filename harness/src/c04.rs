//! C04 splitting. Full 64-bit widths.
use crate::model::*;
use crate::nd;
use indexing::scope;

harnesses! {
    fn halves [2, 2] {
        let n = nd::usize_();
        scope(Probe::new(n), |c| {
            let r = some!(any_range(&c));
            let (s, e) = (r.start(), r.end());
            let m = s + (e - s) / 2;
            let (a, b) = r.split_in_half();
            assert!(is(a, s, m) && is(b, m, e), "halves meet at the upper middle");
            if let Ok(q) = r.nonempty() {
                let (a, b) = q.split_in_half();
                assert!(is(a, s, m) && is(b, m, e));
                assert!(b.ok(n), "the upper half keeps the proof");
            }
            witness!(s > 7 && e - s > 1 << 40 && (e - s) % 2 == 1, "odd");
            witness!(s == e && s > 4, "empty");
        });
    }
    fn offset [2, 2] {
        let n = nd::usize_();
        scope(Probe::new(n), |c| {
            let r = some!(any_range(&c));
            let (s, e) = (r.start(), r.end());
            let k = nd::near(r.len());
            let len = e - s;
            let m = if k <= len { s + k } else { e };
            let (a, b, within) = r.split_at(k);
            assert!(is(a, s, m) && is(b, m, e), "cut at the offset, clamped to the end");
            assert!(within == (k <= len), "the flag says whether the offset was within");
            if let Ok(q) = r.nonempty() {
                let (a, b, within) = q.split_at(k);
                assert!(is(a, s, m) && is(b, m, e) && within == (k <= len));
            }
            witness!(s > 7 && k == len && len > 3, "at the end");
            witness!(s > 7 && k > len, "past the end");
            witness!(s > 7 && k > 0 && k < len, "inside");
        });
    }
    fn at_index [2, 2] {
        let n = any_len();
        scope(Probe::new(n), |c| {
            let p = some!(any_edge(&c));
            let x = p.integer();
            let (a, b) = c.split_at(p);
            assert!(is(a, 0, x) && is(b, x, n), "split_at(edge)");
            assert!(is(c.before(p), 0, x), "before(edge)");
            assert!(is(c.range_of(..p), 0, x) && is(c.range_of(p..), x, n), "one-sided ranges of an edge");
            witness!(x == n && n > 3, "past the end");
            if let Ok(i) = c.vet(x) {
                let (a, b) = c.split_at(i);
                assert!(is(a, 0, x) && is(b, x, n), "split_at");
                assert!(b.ok(n), "split_at keeps the proof");
                let (a, b) = c.split_after(i);
                assert!(is(a, 0, x + 1) && is(b, x + 1, n), "split_after");
                assert!(a.ok(n));
                assert!(is(c.before(i), 0, x), "before");
                assert!(is(c.after(i), x + 1, n), "after");
                assert!(is(c.range_of(..i), 0, x) && is(c.range_of(i..), x, n), "one-sided ranges");
                witness!(x == n - 1 && n > 3, "last");
            }
        });
    }
    fn unbounded_range_of [2, 2] {
        let n = any_len();
        scope(Probe::new(n), |c| {
            fn full<'id, R, P>(c: &indexing::Container<'id, Probe>, r: R, _: indexing::Index<'id, P>) -> indexing::Range<'id>
                where R: indexing::container_traits::OnePointRange<indexing::Index<'id, P>> { c.range_of(r) }
            let p = some!(any_edge(&c));
            assert!(is(full(&c, .., p), 0, n), "range_of(..) is everything");
            witness!(n > 4, "end");
        });
    }
    fn around [2, 2] {
        let n = nd::usize_();
        scope(Probe::new(n), |c| {
            let r = some!(any_range(&c));
            let (s, e) = (r.start(), r.end());
            let (a, b) = c.split_around(r);
            assert!(is(a, 0, s) && is(b, e, n), "split_around gives what lies before and after the range");
            if let Ok(q) = r.nonempty() {
                let (a, b) = c.split_around(q);
                assert!(is(a, 0, s) && is(b, e, n));
            }
            witness!(s > 7 && s == e && e < n, "empty range");
            witness!(s > 7 && s < e && e < n, "proper range");
        });
    }
}
