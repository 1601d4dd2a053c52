//! C02 every particle handed out is in bounds and as non-empty as its type
//! says: one arbitrary operation from an arbitrary valid state (induction over
//! histories), full 64-bit widths.
use crate::model::*;
use crate::nd;
use indexing::proof::Provable;
use indexing::{scope, Container, Index, Range};

fn ck(x: impl Claim, n: usize) { assert!(x.ok(n), "a particle is out of bounds or falsely typed non-empty"); }

harnesses! {
    fn origins [2, 2] {
        let n = any_len();
        let (i, s, e) = (nd::near(n), nd::near(n), nd::near(n));
        scope(Probe::new(n), |c| {
            ck(c.vet(i), n);
            ck(c.vet_range(s..e), n);
            ck(c.range(), n);
            ck(c.empty_range(), n);
            // the unchecked access a dereferenceable index unlocks
            if let Ok(ix) = c.vet(i) { let _ = c[ix]; }
            witness!(i < n && s < e && e <= n, "end");
        });
    }
    fn from_range [2, 2] {
        let n = any_len();
        scope(Probe::new(n), |c| {
            let r = some!(any_range(&c));
            let (k, m) = (nd::near(r.len()), nd::near(n));
            ck(r.nonempty(), n);
            ck(r.split_in_half(), n);
            ck(r.split_at(k), n);
            ck(r.contains(m), n);
            ck(r.frontiers(), n);
            ck(r.no_proof(), n);
            ck(Provable::no_proof(r), n);
            ck(r.first(), n);
            ck(r.upper_middle(), n);
            ck(r.past_the_end(), n);
            ck(c.split_around(r), n);
            ck(c.forward_range_by(r, k), n);
            ck(r.into_iter(), n);
            let x = r.as_range();
            assert!(x.start <= x.end && x.end <= n);
            witness!(r.start() > 3 && r.len() > 9 && k < 9, "end");
        });
    }
    fn from_nonempty_range [2, 2] {
        let n = any_len();
        scope(Probe::new(n), |c| {
            let r = some!(any_ne(&c));
            let (k, m) = (nd::near(r.len()), nd::near(n));
            ck(r.nonempty(), n);
            ck(r.split_in_half(), n);
            ck(r.split_at(k), n);
            ck(r.contains(m), n);
            ck(r.frontiers(), n);
            ck(r.no_proof(), n);
            ck(Provable::no_proof(r), n);
            ck(r.first(), n);
            ck(r.upper_middle(), n);
            ck(r.lower_middle(), n);
            ck(r.last(), n);
            ck(r.past_the_end(), n);
            ck(r.tail(), n);
            ck(r.init(), n);
            ck(r.advance_(), n);
            let mut a = r; let _ = a.advance(); ck(a, n);
            let mut a = r; let _ = a.advance_by(k); ck(a, n);
            let mut a = r; let _ = a.advance_back(); ck(a, n);
            ck(c.split_around(r), n);
            ck(c.forward_range_by(r, k), n);
            ck(indexing::indexing::IntoCheckedRange::into(r), n);
            ck(indexing::indexing::IntoCheckedRange::into(r.no_proof()), n);
            let _ = (c[r.first()], c[r.last()], c[r.upper_middle()], c[r.lower_middle()]);
            witness!(r.start() > 3 && r.len() > 9 && k < 9, "end");
        });
    }
    fn from_two_ranges [2, 2] {
        let n = any_len();
        scope(Probe::new(n), |c| {
            let r = some!(any_range(&c));
            let s = some!(any_range(&c));
            let k = nd::near(n);
            ck(r.join(s), n);
            ck(r.join_cover(s), n);
            ck(r.join_cover_both(s), n);
            ck(r.forward_range_by(s, k), n);
            if let Ok(rn) = r.nonempty() {
                ck(rn.join(s), n);
                ck(rn.join_cover(s), n);
                ck(rn.join_cover_both(s), n);
                ck(s.join(rn), n);
                ck(s.join_cover(rn), n);
                ck(s.join_cover_both(rn), n);
                ck(rn.forward_range_by(s, k), n);
                ck(s.forward_range_by(rn, k), n);
                if let Ok(sn) = s.nonempty() {
                    ck(rn.join(sn), n);
                    ck(rn.join_cover(sn), n);
                    ck(rn.join_cover_both(sn), n);
                    ck(rn.forward_range_by(sn, k), n);
                    witness!(r.end() == s.start(), "adjacent");
                    witness!(r.start() > s.end(), "reversed");
                }
                witness!(s.is_empty(), "one empty");
            }
            witness!(r.is_empty() && s.is_empty(), "both empty");
        });
    }
    fn from_index [2, 2] {
        let n = any_len();
        scope(Probe::new(n), |mut c| {
            let i = some!(any_index(&c));
            let p = some!(any_edge(&c));
            let r = some!(any_range(&c));
            let k = nd::near(n);
            ck(i.after(), n);
            ck(Provable::no_proof(i), n);
            ck(Provable::no_proof(p), n);
            ck(c.split_at(i), n);
            ck(c.split_at(p), n);
            ck(c.split_after(i), n);
            ck(c.before(i), n);
            ck(c.before(p), n);
            ck(c.after(i), n);
            ck(c.range_of(..i), n);
            ck(c.range_of(i..), n);
            ck(c.range_of(..p), n);
            ck(c.range_of(p..), n);
            let mut a = i; let _ = c.forward(&mut a); ck(a, n);
            let mut a = i; let _ = c.forward_by(&mut a, k); ck(a, n);
            let mut a = i; let _ = c.backward(&mut a); ck(a, n);
            let mut a = i; let _ = r.forward_by(&mut a, k); ck(a, n);
            if let Ok(rn) = r.nonempty() { let mut a = i; let _ = rn.forward_by(&mut a, k); ck(a, n); }
            c[i] = 1;
            assert!(c[i] == 1);
            witness!(i.integer() > 4 && p.integer() == n && k < 3 && n > 20, "end");
        });
    }
    fn from_iterator [2, 2] {
        let n = any_len();
        scope(Probe::new(n), |c| {
            let r = some!(any_range(&c));
            let mut it = r.into_iter();
            let back = nd::bool_();
            ck(if back { it.next_back() } else { it.next() }, n);
            ck(it, n);
            witness!(back && r.len() > 4, "back");
            witness!(!back && r.len() > 4, "front");
        });
    }
    fn subdivided [8, 11] {
        let n = any_len();
        let k = nd::small(crate::tier!(4, 7));
        nd::assume(k >= 1);
        scope(Probe::new(n), |c| {
            let r = some!(any_range(&c));
            nd::assume(r.len() <= crate::tier!(5, 8));
            let mut count = 0usize;
            for part in r.subdivide(k) {
                ck(part, n);
                let _ = c[part.first()];
                count += 1;
            }
            witness!(count > 3 && r.start() > 1 << 40, "end");
        });
    }
    fn scanned [7, 9] {
        const N: usize = crate::tier!(4, 6);
        let buf = [0u8; N];
        let n = nd::small(N as u8);
        let mut ans = [false; N];
        for a in ans.iter_mut() { *a = nd::bool_(); }
        scope(&buf[..n], |c| {
            let r = some!(any_range(&c));
            let base = buf.as_ptr() as usize;
            let f = |x: &u8| ans[x as *const u8 as usize - base];
            ck(c.scan_range(r, f), n);
            if let Ok(rn) = r.nonempty() {
                ck(c.scan_range(rn, f), n);
                ck(c.scan_from(rn.first(), f), n);
                ck(c.scan_from_rev(rn.last(), f), n);
                witness!(r.len() > 2, "end");
            }
        });
    }
    // growth: new indices are in bounds, old particles stay in bounds
    fn grown [2, 2] {
        let n = nd::upto(IMAX - 4);
        scope(Grow::new(n), |c| {
            let i = any_index(&c);
            let r = any_range(&c);
            let p = some!(any_edge(&c));
            let mut c = c.only_index();
            let x = c.push(1);
            ck(x, c.len());
            c.insert(p, 2);
            c.insert(x, 3);
            let y = c.push(4);
            ck(y, c.len());
            let m = c.len();
            assert!(m == n + 4, "growth by one each");
            ck(i, m); ck(r, m); ck(p, m); ck(x, m);
            let _ = (c[x], c[y]);
            if let Some(i) = i { let _ = c[i]; c.insert(i, 5); ck(i, c.len()); }
            witness!(i.is_some() && n > 100, "end");
        });
    }
    // explicit histories: arbitrary operations applied to arbitrary earlier results
    #[cfg(feature = "thorough")]
    fn history [5, 5] {
        let n = any_len();
        scope(Probe::new(n), |c| {
            let mut r = some!(any_range(&c));
            let mut q = some!(any_range(&c));
            let mut i = some!(any_index(&c));
            let steps = 3;
            for _ in 0..steps {
                let op = nd::u8_();
                let k = nd::near(r.len());
                step(&c, op, k, &mut r, &mut q, &mut i);
                ck(r, n); ck(q, n); ck(i, n);
            }
            let _ = c[i];
            witness!(r.len() > 4 && r.start() != q.start(), "end");
        });
    }
}

fn step<'id>(c: &Container<'id, Probe>, op: u8, k: usize, r: &mut Range<'id>, q: &mut Range<'id>, i: &mut Index<'id>) {
    match op {
        0 => { let (a, b) = r.split_in_half(); *r = a; *q = b; }
        1 => { let (a, b, _) = r.split_at(k); *q = a; *r = b; }
        2 => { if let Ok(x) = r.join(*q) { *r = x; } }
        3 => *r = q.join_cover(*r),
        4 => *q = r.join_cover_both(*q),
        5 => if let Ok(x) = r.nonempty() {
            let (a, b) = x.split_in_half();
            *i = b.first(); *q = a; *r = b.tail();
        },
        6 => if let Ok(x) = q.nonempty() { *i = x.last(); *q = x.init(); },
        7 => { let (a, b) = c.split_at(*i); *r = a; *q = b.no_proof(); }
        8 => { let (a, b) = c.split_after(*i); *r = a.no_proof(); *q = b; }
        9 => { let (a, b) = c.split_around(*r); *r = b; *q = a; }
        10 => { c.forward_by(i, k); *q = c.before(*i); }
        11 => { r.forward_by(i, k); *r = c.after(*i); }
        12 => *r = q.forward_range_by(*r, k),
        13 => *q = c.forward_range_by(*r, k),
        14 => if let Ok(mut x) = r.nonempty() { x.advance_by(k); *i = x.lower_middle(); *r = x.no_proof(); },
        15 => if let Ok(mut x) = r.nonempty() { x.advance_back(); *i = x.upper_middle(); *r = x.no_proof(); },
        16 => { let mut it = r.into_iter(); if let Some(x) = it.next() { *i = x; } *r = it.into_range(); }
        17 => { let mut it = q.into_iter(); if let Some(x) = it.next_back() { *i = x; } *q = it.into_range(); }
        18 => if let Some(x) = r.contains(k) { *i = x; },
        19 => { c.backward(i); let (a, b) = r.frontiers(); *q = a; *r = b; }
        _ => { c.forward(i); *r = c.range_of(r.past_the_end()..); }
    }
}
