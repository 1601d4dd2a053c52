//! C03 access through indices and ranges.
use crate::model::*;
use crate::nd;
use indexing::scope;

/// Every reading form of one container, by address.
macro_rules! reads {
    ($c:expr, $base:expr, $n:expr) => {{
        let (c, base, n) = (&$c, $base, $n);
        assert!(c.len() == n);
        assert!(c[..].as_ptr() as usize == at(base, 0) && c[..].len() == n, "full slice");
        let p = some!(any_edge(c));
        let x = p.integer();
        assert!(c[p..].as_ptr() as usize == at(base, x) && c[p..].len() == n - x, "i.. of an edge");
        assert!(c[..p].as_ptr() as usize == at(base, 0) && c[..p].len() == x, "..i of an edge");
        if let Ok(i) = c.vet(x) {
            assert!(&c[i] as *const _ as usize == at(base, x), "the element at the index");
            assert!(c[i..].as_ptr() as usize == at(base, x) && c[i..].len() == n - x, "i..");
            assert!(c[..i].as_ptr() as usize == at(base, 0) && c[..i].len() == x, "..i");
        }
        let r = some!(any_range(c));
        let (s, e) = (r.start(), r.end());
        assert!(c[r].as_ptr() as usize == at(base, s) && c[r].len() == e - s, "the elements of the range");
        if let Ok(q) = r.nonempty() {
            assert!(c[q].as_ptr() as usize == at(base, s) && c[q].len() == e - s);
        }
    }};
}
macro_rules! writes {
    ($c:expr, $base:expr, $n:expr) => {{
        let (c, base, n) = (&mut $c, $base, $n);
        let p = some!(any_edge(c));
        let x = p.integer();
        { let m = &mut c[p..]; assert!(m.as_ptr() as usize == at(base, x) && m.len() == n - x, "i.. of an edge, mutable"); }
        { let m = &mut c[..p]; assert!(m.as_ptr() as usize == at(base, 0) && m.len() == x, "..i of an edge, mutable"); }
        if let Ok(i) = c.vet(x) {
            { let m = &mut c[i]; assert!(m as *mut _ as usize == at(base, x), "the element at the index, mutable"); }
            { let m = &mut c[i..]; assert!(m.as_ptr() as usize == at(base, x) && m.len() == n - x); }
            { let m = &mut c[..i]; assert!(m.as_ptr() as usize == at(base, 0) && m.len() == x); }
        }
        let r = some!(any_range(c));
        let (s, e) = (r.start(), r.end());
        { let m = &mut c[r]; assert!(m.as_ptr() as usize == at(base, s) && m.len() == e - s, "the elements of the range, mutable"); }
        if let Ok(q) = r.nonempty() {
            let m = &mut c[q];
            assert!(m.as_ptr() as usize == at(base, s) && m.len() == e - s);
        }
        witness!(s > 0 && e < n && e - s > 1, "end of writes");
    }};
}

harnesses! {
    fn vast_shared [2, 2] {
        let n = nd::upto(VAST);
        let v = vast::<u32>(n);
        let base = v.as_ptr();
        scope(&*v, |c| { reads!(c, base, n); let c = c.only_index(); reads!(c, base, n); });
        witness!(n > 1 << 30, "end");
    }
    fn vast_exclusive [2, 2] {
        let n = nd::upto(VAST);
        let v = vast::<u32>(n);
        let base = v.as_ptr();
        scope(v, |mut c| {
            reads!(c, base, n);
            writes!(c, base, n);
            { let m = &mut c[..]; assert!(m.as_ptr() as usize == at(base, 0) && m.len() == n, "full slice, mutable"); }
        });
        witness!(n > 1 << 30, "end");
    }
    fn vast_odd_size [2, 2] {
        let n = nd::upto(1 << 10);
        let v = vast::<[u8; 3]>(n);
        let base = v.as_ptr();
        scope(v, |mut c| { reads!(c, base, n); writes!(c, base, n); });
        witness!(n > 1 << 9, "end");
    }
    // vectors, and references to vectors and slices
    fn vector_ref [2, 2] {
        let n = nd::upto(VAST);
        let v = vast_vec::<u32>(n);
        let base = v.as_ptr();
        scope(&*v, |c| reads!(c, base, n));
        scope(&&v[..], |c| reads!(c, base, n));
        witness!(n > 1 << 30, "end");
    }
    fn vector_mut [2, 2] {
        let n = nd::upto(VAST);
        let mut v = vast_vec::<u32>(n);
        let base = v.as_ptr();
        scope(&mut *v, |mut c| {
            reads!(c, base, n);
            writes!(c, base, n);
            let m = &mut c[..]; assert!(m.as_ptr() as usize == at(base, 0) && m.len() == n);
        });
    }
    fn nested_mut [2, 2] {
        let n = nd::upto(VAST);
        let mut v = vast::<u32>(n);
        let base = v.as_ptr();
        scope(&mut v, |mut c| {
            reads!(c, base, n);
            writes!(c, base, n);
            let m = &mut c[..]; assert!(m.as_ptr() as usize == at(base, 0) && m.len() == n);
        });
    }
    fn vector_owned [2, 2] {
        let n = nd::upto(VAST);
        let v = vast_vec::<u32>(n);
        let base = v.as_ptr();
        scope(std::mem::ManuallyDrop::into_inner(v), |c| {
            let mut c = std::mem::ManuallyDrop::new(c);
            {
                let c = &mut *c;
                reads!(*c, base, n);
                writes!(*c, base, n);
                let m = &mut c[..]; assert!(m.as_ptr() as usize == at(base, 0) && m.len() == n);
            }
            let mut c = std::mem::ManuallyDrop::new(std::mem::ManuallyDrop::into_inner(c).only_index());
            let c = &mut *c;
            reads!(*c, base, n);
            writes!(*c, base, n);
        });
    }
    // the storage traits agree with each other
    fn storage_traits [2, 2] {
        use indexing::container_traits::*;
        fn agree<C: ?Sized + ContiguousMut<Item = u32> + GetUncheckedMut<Item = u32>>(c: &mut C, base: *const u32, n: usize) {
            let k = nd::near(n);
            assert!(c.base_len() == n, "length");
            assert!(c.begin() == base && c.end() as usize == at(base, n), "begin and end");
            assert!(c.as_slice().as_ptr() == base && c.as_slice().len() == n, "as_slice");
            assert!(c.begin_mut() as *const u32 == base && c.end_mut() as usize == at(base, n), "begin_mut and end_mut");
            { let s = c.as_mut_slice(); assert!(s.as_ptr() == base && s.len() == n, "as_mut_slice"); }
            if k < n {
                unsafe {
                    assert!(c.xget_unchecked(k) as *const u32 as usize == at(base, k), "xget_unchecked");
                    assert!(c.xget_unchecked_mut(k) as *mut u32 as usize == at(base, k), "xget_unchecked_mut");
                }
            }
        }
        fn agree_shared<C: ?Sized + Contiguous<Item = u32> + GetUnchecked<Item = u32>>(c: &C, base: *const u32, n: usize) {
            let k = nd::near(n);
            assert!(c.base_len() == n && c.begin() == base && c.end() as usize == at(base, n));
            assert!(c.as_slice().as_ptr() == base && c.as_slice().len() == n);
            if k < n { unsafe { assert!(c.xget_unchecked(k) as *const u32 as usize == at(base, k)); } }
        }
        let n = nd::upto(VAST);
        let s = vast::<u32>(n);
        let base = s.as_ptr();
        agree::<[u32]>(s, base, n);
        let mut r = &mut *s;
        agree::<&mut [u32]>(&mut r, base, n);
        agree::<&mut &mut [u32]>(&mut &mut r, base, n);
        agree_shared::<&[u32]>(&&r[..], base, n);
        agree_shared::<&&[u32]>(&&&r[..], base, n);
        agree_shared::<&mut [u32]>(&r, base, n);
        let m = nd::small(4);
        let mut v: Vec<u32> = Vec::with_capacity(4);
        unsafe { v.set_len(m); }
        let base = v.as_ptr();
        agree::<Vec<u32>>(&mut v, base, m);
        agree::<&mut Vec<u32>>(&mut &mut v, base, m);
        agree_shared::<&Vec<u32>>(&&v, base, m);
        witness!(n > 1 << 30 && m == 3, "end");
    }
    // contents: reading gives the element, writing changes it and nothing else
    fn contents [7, 9] {
        const N: usize = crate::tier!(4, 6);
        let mut buf = [0u16; N];
        for b in buf.iter_mut() { *b = nd::u64_() as u16; }
        let old = buf;
        let n = nd::small(N as u8);
        let val = nd::u64_() as u16;
        let form = nd::small(5);
        let (mut lo, mut hi) = (0, 0);
        scope(&mut buf[..n], |mut c| {
            let p = some!(any_edge(&c));
            let r = some!(any_range(&c));
            let x = p.integer();
            match form {
                0 => if let Ok(i) = c.vet(x) { assert!(c[i] == old[x]); c[i] = val; lo = x; hi = x + 1; },
                1 => { for e in &mut c[r] { *e = val; } lo = r.start(); hi = r.end(); }
                2 => { for e in &mut c[p..] { *e = val; } lo = x; hi = n; }
                3 => { for e in &mut c[..p] { *e = val; } lo = 0; hi = x; }
                4 => { for e in &mut c[..] { *e = val; } lo = 0; hi = n; }
                _ => if let Ok(q) = r.nonempty() { for e in &mut c[q] { *e = val; } lo = r.start(); hi = r.end(); },
            }
            let k = nd::near(n);
            if let Ok(i) = c.vet(k) { assert!(c[i] == if lo <= k && k < hi { val } else { old[k] }); }
            witness!(form == 1 && lo > 0 && hi < n && hi - lo > 1, "range");
            witness!(form == 5 && lo > 0, "nonempty range");
        });
        for k in 0..N {
            assert!(buf[k] == if lo <= k && k < hi { val } else { old[k] }, "exactly the denoted elements change");
        }
    }
}
