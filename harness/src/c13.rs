//! C13 two ranges at once.
use crate::model::*;
use crate::nd;
use indexing::scope;

macro_rules! twice {
    ($c:expr, $base:expr, $r:expr, $s:expr) => {{
        let (r, s, base) = ($r, $s, $base);
        let got = $c.index_twice(r, s);
        assert!(got.is_ok() == (r.end() <= s.start()), "index_twice succeeds exactly when the first ends no later than the second starts");
        if let Ok((a, b)) = got {
            assert!(a.as_ptr() as usize == at(base, r.start()) && a.len() == r.end() - r.start(), "first sub-slice");
            assert!(b.as_ptr() as usize == at(base, s.start()) && b.len() == s.end() - s.start(), "second sub-slice");
        }
    }};
}

harnesses! {
    fn index_twice [2, 2] {
        let n = nd::upto(VAST);
        let v = vast::<u32>(n);
        let base = v.as_ptr();
        scope(v, |mut c| {
            let (r, s) = (some!(any_range(&c)), some!(any_range(&c)));
            twice!(c, base, r, s);
            if let (Ok(rn), Ok(sn)) = (r.nonempty(), s.nonempty()) {
                twice!(c, base, rn, s);
                twice!(c, base, r, sn);
                twice!(c, base, rn, sn);
            }
            witness!(r.end() == s.start() && r.len() > 9 && s.len() > 9, "touching");
            witness!(r.end() > s.start() && r.start() < s.start(), "overlapping");
            witness!(r.start() > s.end(), "reversed");
        });
    }
    fn index_twice_vector [6, 8] {
        const N: usize = crate::tier!(4, 6);
        let n = nd::small(N as u8);
        let mut v: Vec<u16> = Vec::with_capacity(N);
        for k in 0..N { v.push(k as u16); }
        v.truncate(n);
        let base = v.as_ptr();
        scope(&mut v, |mut c| {
            let (r, s) = (some!(any_range(&c)), some!(any_range(&c)));
            twice!(c, base, r, s);
            if let Ok((a, b)) = c.index_twice(r, s) {
                // writes through one are not seen through the other
                for x in a.iter_mut() { *x += 100; }
                for (k, x) in b.iter().enumerate() { assert!(*x as usize == s.start() + k, "disjoint"); }
                for (k, x) in a.iter().enumerate() { assert!(*x as usize == r.start() + k + 100); }
            }
            witness!(r.end() == s.start() && r.len() > 1 && s.len() > 1, "touching");
        });
    }
    fn zip_mut_raw [7, 9] {
        const N: usize = crate::tier!(4, 6);
        let mut buf = [0u16; N];
        let n = nd::small(N as u8);
        let base = buf.as_ptr();
        scope(&mut buf[..n], |mut c| {
            let (r, s) = (some!(any_range(&c)), some!(any_range(&c)));
            let mut k = 0;
            let len = if r.len() < s.len() { r.len() } else { s.len() };
            let f = |x: *mut u16, y: *mut u16| {
                assert!(k < len, "up to the shorter length");
                assert!(x as usize == at(base, r.start() + k), "the first range's position");
                assert!(y as usize == at(base, s.start() + k), "the second range's position");
                k += 1;
            };
            match (r.nonempty(), s.nonempty()) {
                (Ok(rn), Ok(sn)) if nd::bool_() => c.zip_mut_raw(rn, sn, f),
                _ => c.zip_mut_raw(r, s, f),
            }
            assert!(k == len, "every pair up to the shorter length");
            witness!(r.len() == 3 && s.len() == 2 && r.start() == 1 && s.start() == 0, "end");
            witness!(r.len() == 2 && s.len() == 3, "second longer");
        });
    }
    // every pair starts where documented, positions at full width
    fn zip_mut_raw_probe [5, 7] {
        let n = any_len();
        let p = Probe::new(n);
        let mut p = p;
        scope(&mut p, |mut c| {
            let (r, s) = (some!(any_range(&c)), some!(any_range(&c)));
            nd::assume(r.len() <= 2 || s.len() <= 2);
            let len = if r.len() < s.len() { r.len() } else { s.len() };
            let mut k = 0;
            c.zip_mut_raw(r, s, |_, _| k += 1);
            assert!(k == len);
            witness!(len == 2 && r.start() > 1 << 50, "end");
        });
    }
}
