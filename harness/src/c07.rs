//! C07 end points, middles and sub-ranges. Full 64-bit widths.
use crate::model::*;
use indexing::proof::Provable;
use indexing::scope;

harnesses! {
    fn any_range_state [2, 2] {
        let n = any_len();
        scope(Probe::new(n), |c| {
            let r = some!(any_range(&c));
            let (s, e) = (r.start(), r.end());
            assert!(s <= e && e <= n);
            assert!(r.len() == e - s && r.is_empty() == (s == e));
            assert!(r.as_range() == (s..e), "as_range");
            assert!(r.first().integer() == s, "first");
            assert!(r.past_the_end().integer() == e, "past_the_end");
            assert!(r.upper_middle().integer() == s + (e - s) / 2, "upper middle");
            let (f, g) = r.frontiers();
            assert!(is(f, s, s) && is(g, e, e), "frontiers");
            assert!(is(r.no_proof(), s, e) && is(Provable::no_proof(r), s, e), "no_proof keeps the range");
            assert!(is(r.clone(), s, e));
            witness!(s > 5 && e > s, "proper");
            witness!(s > 5 && e == s, "empty");
        });
    }
    fn nonempty_state [2, 2] {
        let n = any_len();
        let p = Probe::new(n);
        scope(&p, |c| {
            let r = some!(any_ne(&c));
            let (s, e) = (r.start(), r.end());
            let len = e - s;
            assert!(s < e && e <= n);
            assert!(r.len() == len && !r.is_empty());
            assert!(r.as_range() == (s..e));
            assert!(r.first().integer() == s, "first");
            assert!(r.last().integer() == e - 1, "last");
            assert!(r.past_the_end().integer() == e);
            assert!(r.upper_middle().integer() == s + len / 2, "upper middle");
            assert!(r.lower_middle().integer() == s + (len - 1) / 2, "lower middle");
            assert!(is(r.tail(), s + 1, e), "tail");
            assert!(is(r.init(), s, e - 1), "init");
            let (f, g) = r.frontiers();
            assert!(is(f, s, s) && is(g, e, e));
            assert!(is(r.no_proof(), s, e) && is(Provable::no_proof(r), s, e));
            let back = r.no_proof().nonempty();
            assert!(back.is_ok() && is(back.unwrap(), s, e), "recovering the proof");
            let i = r.last();
            assert!(i.after().integer() == e, "after() is the next position");
            assert!(Provable::no_proof(i).integer() == e - 1);
            assert!(Provable::no_proof(i.after()).integer() == e);
            // the positions really accessed
            let at = |i| { let _ = c[i]; p.last.get() };
            assert!(at(r.first()) == s && at(r.last()) == e - 1);
            assert!(at(r.upper_middle()) == s + len / 2 && at(r.lower_middle()) == s + (len - 1) / 2);
            witness!(s > 5 && len > 6 && len % 2 == 0, "even");
            witness!(s > 5 && len > 6 && len % 2 == 1, "odd");
            witness!(s > 5 && len == 1, "single");
        });
    }
}
