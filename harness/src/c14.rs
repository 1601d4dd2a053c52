//! C14 growth.
use crate::model::*;
use crate::nd;
use indexing::scope;

fn insert_into<const N: usize>() {
    let mut v: Vec<u16> = Vec::with_capacity(N + 1);
    for _ in 0..N { v.push(nd::u8_() as u16); }
    let mut old = [0u16; N];
    for k in 0..N { old[k] = v[k]; }
    let x = nd::u8_() as u16;
    let at = nd::near(N);
    scope(v, |c| {
        let r = some!(any_range(&c));
        let p = match c.vet_range(at..at) { Ok(q) => q.first(), Err(_) => return };
        let deref = c.vet(at);
        let mut c = c.only_index();
        match deref {
            Ok(i) if nd::bool_() => c.insert(i, x),
            _ => c.insert(p, x),
        }
        assert!(c.len() == N + 1, "one element more");
        for k in c.range() {
            let k_ = k.integer();
            let want = if k_ < at { old[k_] } else if k_ == at { x } else { old[k_ - 1] };
            assert!(c[k] == want, "the element is placed at the index and the later ones shift by one");
        }
        assert!(c[r].len() == r.len());
        if let Ok(q) = r.nonempty() { let _ = (c[q.first()], c[q.last()]); }
        witness!(at == N, "at the end");
        witness!(at == 1 || N == 0, "in the middle");
    });
}

harnesses! {
    // any length: what the storage is asked to do, and what the particles mean afterwards
    fn any_length [2, 2] {
        let n = nd::upto(IMAX - 8);
        let mut g = Grow::new(n);
        let (mut at_p, mut at_i, mut done) = (usize::MAX, usize::MAX, false);
        scope(&mut g, |c| {
            let i = any_index(&c);
            let r = some!(any_range(&c));
            let p = some!(any_edge(&c));
            let (s, e) = (r.start(), r.end());
            let x = p.integer();
            let mut c = c.only_index();
            assert!(c.len() == n, "index-only mode keeps the storage");
            let a = c.push(11);
            assert!(a.integer() == n && c.len() == n + 1, "push appends and returns the new index");
            c.insert(p, 22);
            at_p = x;
            assert!(c.len() == n + 2);
            if let Some(i) = i { c.insert(i, 33); at_i = i.integer(); assert!(c.len() == n + 3); }
            let m = c.len();
            let b = c.push(44);
            assert!(b.integer() == m && c.len() == m + 1);
            // outstanding particles
            assert!(i.ok(m) && r.ok(m) && p.ok(m) && a.ok(m), "outstanding particles stay in bounds");
            assert!(is(r, s, e) && p.integer() == x);
            let _ = (c[a], c[b]);
            if let Some(i) = i { let _ = c[i]; }
            assert!(c.vet(m).is_ok() && c.vet(m + 1).is_err(), "vetting follows the growth");
            assert!(is(c.range(), 0, m + 1) && is(c.split_at(b).0, 0, m));
            witness!(i.is_some() && x == n && n > 7, "end");
            done = true;
        });
        if !done { return; }
        assert!(g.pushes == 2 && g.value == 44, "pushed exactly once each");
        if at_i != usize::MAX {
            assert!(g.inserts == 2 && g.at == at_i, "inserted at the index");
        } else {
            assert!(g.inserts == 1 && g.at == at_p, "inserted at the edge");
        }
    }
    fn vector_push [8, 9] {
        const N: usize = crate::tier!(2, 4);
        let n = nd::small(N as u8);
        let mut v: Vec<u16> = Vec::with_capacity(N + 2);
        for k in 0..n { v.push(nd::u8_() as u16); let _ = k; }
        let mut old = [0u16; N];
        for k in 0..n { old[k] = v[k]; }
        let x = nd::u8_() as u16;
        let y = nd::u8_() as u16;
        scope(&mut v, |c| {
            let i = any_index(&c);
            let mut c = c.only_index();
            let a = c.push(x);
            assert!(a.integer() == n && c[a] == x, "push returns the index of the new element");
            let b = c.push(y);
            assert!(b.integer() == n + 1 && c[b] == y && c[a] == x && c.len() == n + 2);
            if let Some(i) = i { assert!(c[i] == old[i.integer()], "older elements stay where they were"); }
            witness!(i.is_some() && n == N, "end");
        });
        assert!(v.len() == n + 2 && v[n] == x && v[n + 1] == y);
        for k in 0..n { assert!(v[k] == old[k], "older elements stay where they were"); }
    }
    // a full vector has to move its elements
    fn vector_reallocates [8, 9] {
        let mut v: Vec<u16> = Vec::with_capacity(4);
        for _ in 0..4 { v.push(nd::u8_() as u16); }
        let old = [v[0], v[1], v[2], v[3]];
        let (x, y) = (nd::u8_() as u16, nd::u8_() as u16);
        let k = nd::small(3);
        scope(&mut v, |c| {
            let i = some!(c.vet(k).ok());
            let r = c.range();
            let mut c = c.only_index();
            let a = c.push(x);
            assert!(a.integer() == 4 && c[a] == x && c[i] == old[k], "push on a full vector");
            c.insert(i, y);
            assert!(c[i] == y && c[a] == old[3] && c.len() == 6 && c[r].len() == 4, "indices stay usable");
            witness!(k == 2, "end");
        });
        assert!(v.len() == 6 && v[5] == x);
        for j in 0..4 { assert!(v[if j < k { j } else { j + 1 }] == old[j], "older elements stay in order"); }
    }
    fn vector_insert [8, 9] {
        match nd::small(3) {
            0 => insert_into::<0>(),
            1 => insert_into::<1>(),
            2 => insert_into::<2>(),
            _ => insert_into::<3>(),
        }
    }
    #[cfg(feature = "thorough")]
    fn longer_vector_insert [8, 9] { insert_into::<5>() }
    // a bounded history of pushes and inserts against a model
    fn history [8, 10] {
        const S: usize = crate::tier!(2, 3);
        let mut v: Vec<u8> = Vec::with_capacity(8);
        v.push(1);
        scope(&mut v, |c| {
            let first = match c.vet(0) { Ok(i) => i, Err(_) => return };
            let edge = c.range().past_the_end();
            let mut c = c.only_index();
            let mut model = [0u8; 8];
            model[0] = 1;
            let mut len = 1usize;
            let mut newest = first;
            for _ in 0..S {
                let val = nd::u8_();
                match nd::small(3) {
                    0 => { newest = c.push(val); assert!(newest.integer() == len); model[len] = val; len += 1; }
                    k => {
                        let at = match k { 1 => first.integer(), 2 => edge.integer(), _ => newest.integer() };
                        match k { 1 => c.insert(first, val), 2 => c.insert(edge, val), _ => c.insert(newest, val) }
                        let mut j = len;
                        while j > at { model[j] = model[j - 1]; j -= 1; }
                        model[at] = val;
                        len += 1;
                    }
                }
                assert!(c.len() == len);
                assert!(c[first] == model[0] && c[newest] == model[newest.integer()], "indices stay usable");
            }
            let k = nd::small(7);
            match c.vet(k) { Ok(i) => assert!(c[i] == model[k]), Err(_) => assert!(k >= len) }
            witness!(len == S + 1 && newest.integer() > 1, "end");
        });
    }
}
