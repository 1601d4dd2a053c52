//! C11 scans. The predicate answers from a symbolic table indexed by the
//! element's address and checks the order in which it is called.
use crate::model::*;
use crate::nd;
use indexing::scope;

const N: usize = crate::tier!(5, 7, 9);
fn table() -> [bool; N] {
    let mut a = [false; N];
    for x in a.iter_mut() { *x = nd::bool_(); }
    a
}
fn pos(base: *const u16, x: &u16) -> usize {
    let d = (x as *const u16 as usize).wrapping_sub(base as usize);
    assert!(d % 2 == 0, "an element of the container");
    d / 2
}

macro_rules! scans {
    ($c:expr, $base:expr, $n:expr, $ans:expr) => {{
        let (c, base, n, ans) = (&$c, $base, $n, $ans);
        let i = some!(any_index(c));
        let r = some!(any_range(c));
        let x = i.integer();
        let (s, e) = (r.start(), r.end());

        // forward from an index
        let mut next = x + 1;
        let mut open = true;
        let got = c.scan_from(i, |v| {
            let k = pos(base, v);
            assert!(open && k == next && k < n, "scan_from: consecutive elements, none after a rejection");
            next += 1;
            open = ans[k];
            open
        });
        let mut stop = x + 1;
        while stop < n && ans[stop] { stop += 1; }
        assert!(is(got, x, stop), "scan_from: the index and the maximal accepted run after it");
        assert!(next == if stop < n { stop + 1 } else { n }, "scan_from: every element up to the first rejected is shown");
        assert!(got.ok(n));

        // backward from an index
        let mut next = x;
        let mut open = true;
        let got = c.scan_from_rev(i, |v| {
            let k = pos(base, v);
            assert!(open && next > 0 && k == next - 1, "scan_from_rev: consecutive elements, none after a rejection");
            next -= 1;
            open = ans[k];
            open
        });
        let mut stop = x;
        while stop > 0 && ans[stop - 1] { stop -= 1; }
        assert!(is(got, stop, x + 1), "scan_from_rev: the maximal accepted run before the index and the index");
        assert!(next == if stop > 0 { stop - 1 } else { 0 }, "scan_from_rev: every element up to the first rejected is shown");
        assert!(got.ok(n));

        // over a range
        let mut next = s;
        let mut open = true;
        let f = |v: &u16| {
            let k = pos(base, v);
            assert!(open && k == next && k < e, "scan_range: consecutive elements of the range, none after a rejection");
            next += 1;
            open = ans[k];
            open
        };
        let (a, b) = match r.nonempty() {
            Ok(q) if nd::bool_() => c.scan_range(q, f),
            _ => c.scan_range(r, f),
        };
        let mut stop = s;
        while stop < e && ans[stop] { stop += 1; }
        assert!(is(a, s, stop) && is(b, stop, e), "scan_range: split at the first rejected element");
        assert!(next == if stop < e { stop + 1 } else { e }, "scan_range: every element up to the first rejected is shown");
        witness!(e - s == 3 && stop == s + 2 && x == 1, "end of scans");
        witness!(e - s == 3 && stop == e && x == n - 1, "all accepted");
    }};
}

harnesses! {
    fn slices [10, 13] {
        let buf = [0u16; N];
        let n = nd::small(N as u8);
        let ans = table();
        scope(&buf[..n], |c| scans!(c, buf.as_ptr(), n, ans));
    }
    fn vectors [10, 13] {
        let n = nd::small(N as u8);
        let ans = table();
        let mut v: Vec<u16> = Vec::with_capacity(N);
        unsafe { v.set_len(n); }
        let base = v.as_ptr();
        scope(&mut v, |c| { let c = c.only_index(); scans!(c, base, n, ans) });
    }
}
