//! C08 iteration over a range.
use crate::model::*;
use crate::nd;
use indexing::scope;

const L: usize = crate::tier!(3, 6);

harnesses! {
    // one step from an arbitrary iterator state (induction over histories), full width
    fn step [2, 2] {
        let n = any_len();
        scope(Probe::new(n), |c| {
            let r = some!(any_range(&c));
            let (s, e) = (r.start(), r.end());
            let it = r.into_iter();
            assert!(is(it.into_range(), s, e), "a fresh iterator has the whole range left");
            if let Ok(q) = r.nonempty() { assert!(is(q.into_iter().into_range(), s, e)); }

            let mut f = it;
            match f.next() {
                Some(i) => {
                    assert!(s < e && i.integer() == s, "next yields the first remaining index");
                    assert!(is(f.into_range(), s + 1, e), "next removes exactly the yielded index");
                }
                None => {
                    assert!(s == e, "next ends exactly when nothing remains");
                    assert!(is(f.into_range(), s, e), "an exhausted iterator stays");
                    assert!(f.next().is_none() && f.next_back().is_none(), "exhausted stays exhausted");
                }
            }
            let mut b = it;
            match b.next_back() {
                Some(i) => {
                    assert!(s < e && i.integer() == e - 1, "next_back yields the last remaining index");
                    assert!(is(b.into_range(), s, e - 1), "next_back removes exactly the yielded index");
                }
                None => {
                    assert!(s == e, "next_back ends exactly when nothing remains");
                    assert!(is(b.into_range(), s, e));
                    assert!(b.next().is_none() && b.next_back().is_none());
                }
            }
            let copy = it.clone();
            assert!(is(copy.into_range(), s, e), "a copy has the same range left");
            let (lo, hi) = it.size_hint();
            assert!(lo <= e - s && (hi.is_none() || hi.unwrap() >= e - s), "size_hint is a valid bound");
            witness!(s > 9 && e - s > 5, "proper");
            witness!(s > 9 && e == s, "empty");
        });
    }
    // explicit interleavings of front and back steps
    fn interleaved [9, 13] {
        let n = any_len();
        let steps = crate::tier!(6, 10);
        scope(Probe::new(n), |c| {
            let r = some!(any_range(&c));
            let (mut s, mut e) = (r.start(), r.end());
            let mut it = r.into_iter();
            for _ in 0..steps {
                if nd::bool_() {
                    let x = it.next();
                    if s < e { assert!(x.is_some() && x.unwrap().integer() == s); s += 1; } else { assert!(x.is_none()); }
                } else {
                    let x = it.next_back();
                    if s < e { e -= 1; assert!(x.is_some() && x.unwrap().integer() == e); } else { assert!(x.is_none()); }
                }
                assert!(is(it.into_range(), s, e), "what remains is what was not yielded");
            }
            witness!(r.len() > 20 && s > r.start() + 2 && e + 2 < r.end(), "mixed");
            witness!(r.len() == 3 && s == e, "exhausted");
        });
    }
    // the derived iterator operations over short ranges anywhere
    fn forward_traversal [6, 9] {
        let n = any_len();
        scope(Probe::new(n), |c| {
            let r = some!(any_range(&c));
            let (s, e) = (r.start(), r.end());
            nd::assume(e - s <= L);
            let mut next = s;
            for i in r { assert!(i.integer() == next, "in increasing order"); next += 1; }
            assert!(next == e, "every index");
            let mut folded = s;
            r.into_iter().for_each(|i| { assert!(i.integer() == folded); folded += 1; });
            assert!(folded == e, "internal iteration");
            assert!(r.into_iter().count() == e - s, "count");
            assert!(r.into_iter().last().map(|i| i.integer()) == if s < e { Some(e - 1) } else { None }, "last");
            witness!(e - s == L && s > 100, "end");
        });
    }
    fn backward_traversal [6, 9] {
        let n = any_len();
        scope(Probe::new(n), |c| {
            let r = some!(any_range(&c));
            let (s, e) = (r.start(), r.end());
            nd::assume(e - s <= L);
            let mut prev = e;
            for i in r.into_iter().rev() { assert!(i.integer() + 1 == prev, "in decreasing order"); prev -= 1; }
            assert!(prev == s, "every index");
            let t = r.into_iter().rfold(e, |a, i| { assert!(i.integer() + 1 == a); a - 1 });
            assert!(t == s, "internal iteration");
            witness!(e - s == L && s > 100, "end");
        });
    }
    fn skipping [6, 9] {
        let n = any_len();
        scope(Probe::new(n), |c| {
            let r = some!(any_range(&c));
            let (s, e) = (r.start(), r.end());
            nd::assume(e - s <= L);
            let k = nd::small(L as u8);
            let mut it = r.into_iter();
            let x = it.nth(k);
            assert!(x.map(|i| i.integer()) == if k < e - s { Some(s + k) } else { None }, "nth");
            assert!(is(it.into_range(), if k < e - s { s + k + 1 } else { e }, e), "nth consumes what it skips");
            let mut it = r.into_iter();
            let x = it.nth_back(k);
            assert!(x.map(|i| i.integer()) == if k < e - s { Some(e - 1 - k) } else { None }, "nth_back");
            assert!(is(it.into_range(), s, if k < e - s { e - 1 - k } else { s }), "nth_back consumes what it skips");
            witness!(e - s == L && s > 100 && k == 2, "end");
        });
    }
}
