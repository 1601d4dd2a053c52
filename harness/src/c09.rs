//! C09 subdividing.
use crate::model::*;
use crate::nd;
use indexing::scope;

fn chunks(maxlen: usize, maxn: u8) {
    let n = any_len();
    let k = nd::small(maxn);
    nd::assume(k >= 1);
    scope(Probe::new(n), |c| {
        let r = some!(any_range(&c));
        let (s, e) = (r.start(), r.end());
        let len = e - s;
        nd::assume(len <= maxlen);
        let mut it = r.subdivide(k);
        let (mut at, mut count, mut min, mut max) = (s, 0usize, usize::MAX, 0usize);
        for _ in 0..maxn as usize + 1 {
            match it.next() {
                None => break,
                Some(p) => {
                    assert!(p.start() == at, "chunks are consecutive from the start");
                    assert!(p.start() < p.end() && p.end() <= e, "chunks are non-empty and inside");
                    at = p.end();
                    let l = p.end() - p.start();
                    if l < min { min = l; }
                    if l > max { max = l; }
                    count += 1;
                }
            }
        }
        if k > len {
            assert!(count == 0, "no chunk when there are more parts than elements");
        } else {
            assert!(count == k, "exactly n chunks");
            assert!(at == e, "the chunks cover the range");
            assert!(max - min <= 1, "lengths differ by at most one");
        }
        assert!(it.next().is_none(), "ends for good");
        witness!(k > len && len > 1, "too many parts");
        witness!(k as u8 == maxn && len == maxlen, "largest");
        witness!(k == 2 && len == 5 && s > 1 << 50, "uneven");
    });
}

harnesses! {
    fn all_chunks [7, 10] { chunks(crate::tier!(5, 8), crate::tier!(4, 7)) }
    // few parts of long ranges: rounding at realistic lengths
    fn long_ranges [6, 7] {
        let n = any_len();
        let k = nd::small(crate::tier!(3, 4)) ;
        nd::assume(k >= 1);
        scope(Probe::new(n), |c| {
            let r = some!(any_range(&c));
            let (s, e) = (r.start(), r.end());
            let len = e - s;
            nd::assume(len <= crate::tier!(1 << 12, 1 << 16));
            nd::assume(len >= k);
            let lo = len / k;
            let mut at = s;
            let mut count = 0;
            for p in r.subdivide(k) {
                assert!(p.start() == at && p.end() <= e);
                let l = p.end() - p.start();
                assert!(l == lo || l == lo + 1, "even chunks");
                at = p.end();
                count += 1;
            }
            assert!(count == k && at == e, "n chunks that cover the range");
            witness!(k == 3 && len % 3 == 2 && s > 100, "end");
        });
    }
    // the decision between "no chunk" and "n chunks", and the first chunk, at full width
    fn first_chunk [2, 2] {
        let n = any_len();
        let k = nd::near(n);
        nd::assume(k >= 1);
        scope(Probe::new(n), |c| {
            let r = some!(any_range(&c));
            let (s, e) = (r.start(), r.end());
            let len = e - s;
            // two concrete families of divisors keep the division decidable
            nd::assume(k > len || k == len || k == 1);
            let mut it = r.subdivide(k);
            let p = it.next();
            assert!(p.is_some() == (k <= len), "chunks exist exactly when n is at most the length");
            if let Some(p) = p {
                assert!(p.start() == s);
                assert!(p.end() == if k == 1 { e } else { s + 1 }, "first chunk");
                assert!(it.next().is_some() == (k > 1), "next chunk");
            }
            witness!(k > len && len > 1 << 40, "too many parts");
            witness!(k == len && len > 1 << 40, "single elements");
        });
    }
}
