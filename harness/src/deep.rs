//! Longer ranges, other kinds of elements and storages for properties that are
//! otherwise decided at full width (path-wise).
use crate::elems::*;
use crate::model::*;
use crate::nd;
use indexing::container_traits::*;
use indexing::{scope, Container};
use std::mem::ManuallyDrop;

/// a container length and a start, near either end of the address space
fn place(len: usize) -> (usize, usize) {
    match nd::fork(nd::upto(3)) {
        0 => (len, 0),
        1 => (len + 4, 3),
        2 => (IMAX, IMAX - len),
        _ => (IMAX, (1 << 62) - len / 2),
    }
}
/// (s, e) with s <= e <= n, decided
fn pair(n: usize) -> (usize, usize) {
    let e = nd::fork(nd::upto(n));
    let s = nd::fork(nd::upto(e));
    (s, e)
}

// ---- C08 -------------------------------------------------------------------
const C08: usize = crate::tier!(16, 30);
fn traversal() {
    let len = nd::fork(nd::upto(C08));
    let (n, s) = place(len);
    scope(Probe::new(n), |c| {
        let e = s + len;
        let r = some!(c.vet_range(s..e).ok());
        let mut k = s;
        for i in r { assert!(i.integer() == k, "in increasing order"); k += 1; }
        assert!(k == e, "every index");
        for i in r.into_iter().rev() { k -= 1; assert!(i.integer() == k, "in decreasing order"); }
        assert!(k == s, "every index");
        let it = r.into_iter();
        assert!(it.clone().count() == len, "count");
        assert!(it.clone().map(|i| i.integer() - s).sum::<usize>() == len * len.saturating_sub(1) / 2, "sum");
        let m = nd::fork(nd::upto(len + 1));
        let mut a = r.into_iter();
        assert!(a.nth(m).map(|i| i.integer()) == if m < len { Some(s + m) } else { None }, "nth");
        let mut left = if m < len { s + m + 1 } else { e };
        assert!(is(a.into_range(), left, e), "nth consumes what it skips");
        while let Some(i) = a.next() { assert!(i.integer() == left, "goes on after it"); left += 1; }
        assert!(left == e, "every index");
        let mut b = r.into_iter();
        assert!(b.nth_back(m).map(|i| i.integer()) == if m < len { Some(e - 1 - m) } else { None }, "nth_back");
        let mut left = if m < len { e - 1 - m } else { s };
        assert!(is(b.into_range(), s, left), "nth_back consumes what it skips");
        while let Some(i) = b.next_back() { left -= 1; assert!(i.integer() == left, "goes on before it"); }
        assert!(left == s, "every index");
        // skipping far past the end, however far
        let far = nd::near(s.wrapping_neg());
        nd::assume(far > len);
        let (mut a, mut b) = (r.into_iter(), r.into_iter());
        assert!(a.nth(far).is_none() && is(a.into_range(), e, e), "nth past the end");
        assert!(b.nth_back(far).is_none() && is(b.into_range(), s, s), "nth_back past the end");
        assert!(a.nth(far).is_none() && b.nth_back(far).is_none(), "exhausted stays exhausted");
        assert!(r.into_iter().skip(far).next().is_none(), "skip past the end");
        assert!(r.into_iter().take(far).count() == len, "take past the end");
        let mut t = r.into_iter().step_by(far);
        assert!(t.next().map(|i| i.integer()) == if len > 0 { Some(s) } else { None } && t.next().is_none() && t.next().is_none(), "a step past the end");
        // from both ends, meeting anywhere
        let mut z = r.into_iter();
        for k in 0..m { assert!(z.next().map(|i| i.integer()) == if k < len { Some(s + k) } else { None }, "front"); }
        for k in m..len { assert!(z.next_back().map(|i| i.integer()) == Some(e - 1 - (k - m)), "back"); }
        assert!(z.next().is_none() && z.next_back().is_none() && z.next().is_none(), "exhausted stays exhausted");
        // adaptors of the standard library
        let mut k = s;
        for i in r.into_iter().step_by(3) { assert!(i.integer() == k, "every third"); k += 3; }
        assert!(k >= e && k < e + 3, "every third");
        let (mut k, mut j) = (s, 0);
        for (q, i) in r.into_iter().skip(2).take(5).enumerate() { assert!(i.integer() == k + 2 && q == j, "skip and take"); k += 1; j += 1; }
        assert!(j == len.saturating_sub(2).min(5), "skip and take");
        let mut f = r.into_iter();
        let mut b = r.into_iter();
        for _ in 0..m { f.next(); b.next_back(); }
        assert!(f.clone().count() == len - m.min(len), "count of the rest");
        assert!(f.clone().last().map(|i| i.integer()) == if m < len { Some(e - 1) } else { None }, "last of the rest");
        assert!(f.fold(s + m.min(len), |k, i| { assert!(i.integer() == k, "fold"); k + 1 }) == e, "fold over the rest");
        assert!(b.clone().last().map(|i| i.integer()) == if m < len { Some(e - 1 - m) } else { None }, "last of the rest");
        assert!(b.rfold(e - m.min(len), |k, i| { assert!(i.integer() + 1 == k, "rfold"); k - 1 }) == s, "rfold over the rest");
        assert!(r.into_iter().max().map(|i| i.integer()) == if len > 0 { Some(e - 1) } else { None }, "max");
        assert!(r.into_iter().position(|i| i.integer() == s + m) == if m < len { Some(m) } else { None }, "position");
        witness!(len == C08 && s > 1 << 50 && m == 7, "end");
    });
}

// ---- C09 -------------------------------------------------------------------
const C09: usize = crate::tier!(80, 160);
fn subdivided() {
    let len = nd::fork(nd::upto(C09));
    let k = nd::fork(nd::upto(C09 + 2));
    nd::assume(k >= 1);
    let (n, s) = place(len);
    let e = s + len;
    scope(Probe::new(n), |c| {
        let r = some!(c.vet_range(s..e).ok());
        let mut it = r.subdivide(k);
        let (mut at, mut count) = (s, 0);
        let lo = len / k;
        while let Some(p) = it.next() {
            assert!(p.start() == at, "chunks are consecutive from the start");
            let l = p.end() - p.start();
            assert!(l > 0 && p.end() <= e, "chunks are non-empty and inside");
            assert!(l == lo || l == lo + 1, "lengths differ by at most one");
            at = p.end();
            count += 1;
            assert!(count <= k, "exactly n chunks");
        }
        if k > len { assert!(count == 0, "no chunk when there are more parts than elements"); }
        else { assert!(count == k && at == e, "exactly n chunks that cover the range"); }
        assert!(it.next().is_none(), "ends for good");
        witness!(len == C09 && k == 7 && s > 1 << 50, "uneven");
        witness!(k == C09 + 2, "too many parts");
    });
}

const WALK: usize = crate::tier!(14, 24);
/// every way to walk over the chunks gives the same chunks
fn walked() {
    let len = nd::fork(nd::upto(WALK));
    let k = 1 + nd::fork(nd::upto(WALK));
    let (n, s) = place(len);
    let e = s + len;
    scope(Probe::new(n), |c| {
        let r = some!(c.vet_range(s..e).ok());
        // where the chunks begin, one by one
        let mut cut = [e; WALK + 3];
        let mut count = 0;
        let mut it = r.subdivide(k);
        while let Some(p) = it.next() { assert!(count <= k && p.start() < p.end()); cut[count] = p.start(); count += 1; cut[count] = p.end(); }
        assert!(count == if k > len { 0 } else { k }, "exactly n chunks");
        let chunk = |p: Option<indexing::Range<indexing::NonEmpty>>, m: usize| match p { Some(p) => m < count && is(p, cut[m], cut[m + 1]), None => m >= count };
        let m = nd::fork(nd::upto(k + 1));
        let mut a = r.subdivide(k);
        let (lo, hi) = a.size_hint();
        assert!(lo <= count && hi.map_or(true, |h| h >= count), "size_hint is a valid bound");
        assert!(chunk(a.nth(m), m), "nth");
        let (lo, hi) = a.size_hint();
        let left = count.saturating_sub(m + 1);
        assert!(lo <= left && hi.map_or(true, |h| h >= left), "size_hint is a valid bound later on");
        assert!(chunk(a.clone().next(), if m < count { m + 1 } else { count }), "nth consumes what it skips");
        assert!(a.clone().count() == left, "count of the rest");
        assert!(chunk(a.clone().last(), if left > 0 { count - 1 } else { count }), "last of the rest");
        assert!(a.fold(if m < count { m + 1 } else { count }, |k, p| { assert!(is(p, cut[k], cut[k + 1]), "fold"); k + 1 }) == count, "fold over the rest");
        let far = nd::near(k.wrapping_neg());
        nd::assume(far > k);
        let mut a = r.subdivide(k);
        assert!(a.nth(far).is_none() && a.next().is_none() && a.nth(far).is_none(), "nth past the end");
        assert!(r.subdivide(k).skip(far).next().is_none() && r.subdivide(k).take(far).count() == count, "skip and take past the end");
        let mut j = 0;
        for p in r.subdivide(k).step_by(2) { assert!(is(p, cut[j], cut[j + 1]), "every second"); j += 2; }
        assert!(j >= count && j < count + 2, "every second");
        assert!(r.subdivide(k).map(|p| p.len()).sum::<usize>() == if count > 0 { len } else { 0 }, "the lengths add up");
        if let Ok(q) = r.nonempty() {
            let mut j = 0;
            for p in q.subdivide(k) { assert!(is(p, cut[j], cut[j + 1]), "of a range known to be non-empty"); j += 1; }
            assert!(j == count, "of a range known to be non-empty");
        }
        witness!(len == WALK && k == 5 && m == 3 && s > 1 << 50, "end");
        witness!(k == WALK + 1, "too many parts");
    });
}

// ---- C11 -------------------------------------------------------------------
const C11: usize = crate::tier!(24, 60);
/// long runs: accepted up to a symbolic position; elements of any kind (told
/// apart by the order of the calls, so zero-sized ones too)
fn long_scan<T>(cells: &[T]) {
    let n = nd::fork(nd::upto(cells.len()));
    let z = std::mem::size_of::<T>();
    let base = cells.as_ptr() as usize;
    let at = |x: &T, k: usize| z == 0 || x as *const T as usize == base + k * z;
    let (s, e) = pair(n);
    let stop = s + nd::fork(nd::upto(e - s));
    scope(&cells[..n], |c| {
        let r = some!(c.vet_range(s..e).ok());
        let mut k = s;
        let (a, b) = c.scan_range(r, |x| { assert!(k < e && k <= stop && at(x, k), "consecutive elements, none after a rejection"); k += 1; k <= stop });
        assert!(is(a, s, stop) && is(b, stop, e), "split at the first rejected element");
        assert!(k == if stop < e { stop + 1 } else { e }, "every element up to the first rejected is shown");
        // forward from s, and backward from e - 1
        if let Ok(i) = c.vet(s) {
            let stop = stop + 1;
            let mut k = s + 1;
            let got = c.scan_from(i, |x| { assert!(k < n && k <= stop && at(x, k), "consecutive elements, none after a rejection"); k += 1; k <= stop });
            assert!(is(got, s, stop.min(n)), "the index and the maximal accepted run after it");
            assert!(k == if stop < n { stop + 1 } else { n }, "every element up to the first rejected is shown");
        }
        if let Ok(i) = c.vet(e) {
            let mut k = e;
            let got = c.scan_from_rev(i, |x| { k -= 1; assert!(k + 1 >= s && at(x, k), "consecutive elements, none after a rejection"); k >= s });
            assert!(is(got, s, e + 1), "the maximal accepted run before the index and the index");
            assert!(k == if s > 0 { s - 1 } else { 0 }, "every element down to the first rejected is shown");
        }
        witness!(n == cells.len() && s == 1 && stop == e && e == n - 1, "end");
    });
}

// ---- C12 -------------------------------------------------------------------
fn moved(what: usize, s: usize, e: usize, k: usize) -> usize {
    match what {
        0 => if k == s { e } else if k == e { s } else { k },
        1 => if k < s || k >= e { k } else if k == s { e - 1 } else { k - 1 },
        _ => if k < s || k >= e { k } else if k + 1 == e { s } else { k + 1 },
    }
}
fn permute<'id, A: Contiguous + GetUncheckedMut, M>(c: &mut Container<'id, A, M>, what: usize, s: usize, e: usize) {
    let ne = nd::bool_();
    match what {
        0 => if let (Ok(i), Ok(j)) = (c.vet(s), c.vet(e)) { if ne { c.swap(i, j) } else { c.swap(j, i) } } else { nd::assume(false) },
        _ => if let Ok(r) = c.vet_range(s..e) {
            match (what, r.nonempty()) {
                (1, Ok(q)) if ne => c.rotate1_up(q),
                (1, _) => c.rotate1_up(r),
                (_, Ok(q)) if ne => c.rotate1_down(q),
                _ => c.rotate1_down(r),
            }
        } else { nd::assume(false) },
    }
}
fn permuted<T: Kind, const N: usize>(short: bool) {
    let n = if short { nd::fork(nd::upto(N)) } else { N };
    let (s, e) = pair(n);
    let what = nd::fork(nd::upto(2));
    let mut v: ManuallyDrop<[T; N]> = ManuallyDrop::new(std::array::from_fn(|i| T::make(!(i as u8), i)));
    unsafe { DROPPED = 0; }
    scope(&mut v[..n], |mut c| permute(&mut c, what, s, e));
    assert!(unsafe { DROPPED } == 0, "no element is dropped");
    for k in 0..N {
        let m = moved(what, s, e, k);
        assert!(v[k].tag() == if k < n { m } else { k } && v[k].key() == !(v[k].tag() as u8) && v[k].whole(), "exactly the documented permutation");
    }
    witness!(n == N && what == 0 && s == 1 && e == N - 1, "swap");
    witness!(n == N && what == 1 && s == 1 && e == N - 1, "up");
    witness!(n == N && what == 2 && s == 0 && e == N, "down");
}
fn permuted_vec<T: Kind>(owned: bool) {
    const N: usize = 6;
    let n = nd::fork(nd::upto(N));
    let spare = nd::fork(nd::upto(1));
    let (s, e) = pair(n);
    let what = nd::fork(nd::upto(2));
    let mut v: Vec<T> = Vec::with_capacity(n + spare);
    for i in 0..n { v.push(T::make(!(i as u8), i)); }
    unsafe { DROPPED = 0; }
    let check = |v: &[T]| {
        assert!(v.len() == n && unsafe { DROPPED } == 0, "no element is dropped");
        for k in 0..n { assert!(v[k].tag() == moved(what, s, e, k) && v[k].whole(), "exactly the documented permutation"); }
    };
    if owned {
        scope(v, |mut c| { permute(&mut c, what, s, e); check(&c[..]); });
    } else {
        scope(&mut v, |c| { let mut c = c.only_index(); permute(&mut c, what, s, e); });
        check(&v);
    }
    witness!(n == N && what == 1 && s == 1 && e == N - 1, "up");
}
fn permuted_zeds() {
    const N: usize = 5;
    let (s, e) = pair(N);
    let what = nd::fork(nd::upto(2));
    let mut v: ManuallyDrop<[Zed; N]> = ManuallyDrop::new([const { Zed }; N]);
    unsafe { DROPPED = 0; }
    scope(&mut v[..], |mut c| permute(&mut c, what, s, e));
    assert!(unsafe { DROPPED } == 0, "no element is dropped");
    witness!(what == 2 && s == 0 && e == N, "end");
}

// ---- C13 -------------------------------------------------------------------
fn zipped<T>(cells: &mut [T]) {
    let n = cells.len();
    let z = std::mem::size_of::<T>();
    let base = cells.as_ptr() as usize;
    let (s, e) = pair(n);
    let (t, f) = pair(n);
    let ne = nd::bool_();
    scope(cells, |mut c| {
        let (r, q) = (some!(c.vet_range(s..e).ok()), some!(c.vet_range(t..f).ok()));
        let len = (e - s).min(f - t);
        let mut k = 0;
        let go = |x: *mut T, y: *mut T| {
            assert!(k < len, "up to the shorter length");
            assert!(x as usize == base + (s + k) * z && y as usize == base + (t + k) * z, "position pairs in order, from the starts");
            k += 1;
        };
        match (r.nonempty(), q.nonempty()) {
            (Ok(a), Ok(b)) if ne => c.zip_mut_raw(a, b, go),
            (Ok(a), _) if ne => c.zip_mut_raw(a, q, go),
            (_, Ok(b)) if ne => c.zip_mut_raw(r, b, go),
            _ => c.zip_mut_raw(r, q, go),
        }
        assert!(k == len, "every pair up to the shorter length");
        // two ranges at once
        let got = c.index_twice(r, q);
        assert!(got.is_ok() == (e <= t), "index_twice succeeds exactly when the first ends no later than the second starts");
        if let Ok((a, b)) = got {
            assert!(a.as_ptr() as usize == base + s * z && a.len() == e - s, "first sub-slice");
            assert!(b.as_ptr() as usize == base + t * z && b.len() == f - t, "second sub-slice");
        }
        witness!(s == 1 && t == 3 && e == n - 1 && f == n, "end");
        witness!(e <= t && s < e && t < f, "accepted");
    });
}

// ---- C14 -------------------------------------------------------------------
fn grown<T: Kind, const K: usize>(owned: bool) {
    // the longest vector has 4 + K elements; place k's element has tag = order of creation
    let n = nd::fork(nd::upto(4));
    let spare = nd::fork(nd::upto(2));
    let mut v: Vec<T> = Vec::with_capacity(n + spare);
    for i in 0..n { v.push(T::make(i as u8, i)); }
    let mut model = [0usize; 16];
    for i in 0..n { model[i] = i; }
    unsafe { DROPPED = 0; }
    if owned { scope(v, |c| grow_by::<T, _, K>(c, n, &mut model)); }
    else {
        scope(&mut v, |c| grow_by::<T, _, K>(c, n, &mut model));
        assert!(v.len() == n + K && unsafe { DROPPED } == 0, "no element is dropped");
        for k in 0..n + K { assert!(v[k].tag() == model[k] && v[k].whole(), "the storage ends up as the container was"); }
    }
    assert!(unsafe { DROPPED } == if std::mem::needs_drop::<T>() { n + K } else { 0 } || !owned, "every element is dropped once");
}
fn grow_by<'id, T: Kind, A: Pushable<Item = T> + Contiguous<Item = T> + GetUnchecked<Item = T>, const K: usize>(c: Container<'id, A>, n: usize, model: &mut [usize; 16]) {
    let (s, e) = pair(n);
    let r = some!(c.vet_range(s..e).ok());
    let (front, back) = (r.first(), r.past_the_end());
    let mut c = c.only_index();
    for k in 0..K {
        let len = n + k;
        let x = T::make(len as u8, len);
        let at = match nd::fork(nd::upto(2)) {
            0 => { let i = c.push(x); assert!(i.integer() == len && c[i].tag() == len, "push returns the index of the new last element"); len }
            1 => { c.insert(front, x); s }
            _ => { c.insert(back, x); e }
        };
        let mut j = len;
        while j > at { model[j] = model[j - 1]; j -= 1; }
        model[at] = len;
        assert!(c.len() == len + 1 && unsafe { DROPPED } == 0, "one element more, none dropped");
        for j in 0..len + 1 { assert!(c[..][j].tag() == model[j] && c[..][j].whole(), "the new element is at its place, the others keep their order"); }
        assert!(c[r].len() == e - s, "outstanding ranges stay usable");
        for q in 0..e - s { assert!(c[r][q].tag() == model[s + q], "outstanding ranges denote the same positions"); }
    }
    witness!(n == 4 && s == 1 && e == 3, "end");
}
fn grown_zeds() {
    let n = nd::fork(nd::upto(4));
    let mut v: Vec<Zed> = Vec::new();
    for _ in 0..n { v.push(Zed); }
    unsafe { DROPPED = 0; }
    scope(&mut v, |c| {
        let (s, e) = pair(n);
        let r = some!(c.vet_range(s..e).ok());
        let mut c = c.only_index();
        for k in 0..3 {
            match nd::fork(nd::upto(2)) {
                0 => { let i = c.push(Zed); assert!(i.integer() == n + k, "push returns the index of the new last element"); }
                1 => c.insert(r.first(), Zed),
                _ => c.insert(r.past_the_end(), Zed),
            }
            assert!(c.len() == n + k + 1 && c[r].len() == e - s && unsafe { DROPPED } == 0, "one element more, none dropped");
        }
    });
    assert!(v.len() == n + 3 && unsafe { DROPPED } == 0, "one element more, none dropped");
    witness!(n == 4, "end");
}

// ---- C03 -------------------------------------------------------------------
fn accessed<T>(n: usize, v: &mut [T]) {
    let z = std::mem::size_of::<T>();
    let base = v.as_ptr() as usize;
    let (s, e) = pair(n);
    let is = |x: &[T], s: usize, e: usize| x.as_ptr() as usize == base + s * z && x.len() == e - s;
    scope(&mut v[..n], |mut c| {
        let r = some!(c.vet_range(s..e).ok());
        let p = r.first();
        assert!(is(&c[r], s, e) && is(&c[p..], s, n) && is(&c[..p], 0, s) && is(&c[..], 0, n), "exactly the denoted elements");
        assert!(is(&mut c[r], s, e) && is(&mut c[p..], s, n) && is(&mut c[..p], 0, s) && is(&mut c[..], 0, n), "exactly the denoted elements, mutable");
        if let Ok(i) = c.vet(s) {
            assert!(is(&c[i..], s, n) && is(&c[..i], 0, s) && &c[i] as *const T as usize == base + s * z, "exactly the denoted elements");
            assert!(is(&mut c[i..], s, n) && is(&mut c[..i], 0, s) && &mut c[i] as *mut T as usize == base + s * z, "exactly the denoted elements, mutable");
        }
        if let Ok(q) = r.nonempty() { assert!(is(&c[q], s, e) && is(&mut c[q], s, e), "exactly the denoted elements"); }
        witness!(n > 3 && s == 1 && e == n - 1, "end");
    });
}
fn accessed_any<T: Kind>() {
    const N: usize = 9;
    let n = nd::fork(nd::upto(N));
    let mut v: ManuallyDrop<[T; N]> = ManuallyDrop::new(std::array::from_fn(|i| T::make(0, i)));
    accessed(n, &mut v[..]);
}

path_harnesses! {
    fn c03_big() { accessed_any::<Big>() }
    fn c03_giant() { accessed_any::<Giant>() }
    fn c03_aligned() { accessed_any::<Aligned>() }
    fn c03_zero_sized() { let n = nd::fork(nd::upto(9)); let mut v: ManuallyDrop<[Zed; 9]> = ManuallyDrop::new([const { Zed }; 9]); accessed(n, &mut v[..]) }
    fn c08_traversal() { traversal() }
    fn c09_subdivided() { subdivided() }
    fn c09_walked() { walked() }
    fn c11_words() { let mut a = [0u16; C11]; a[3] = nd::u8_() as u16; long_scan(&a) }
    fn c11_odd() { let mut a = [[0u8; 5]; C11]; a[3][0] = nd::u8_(); long_scan(&a) }
    fn c11_giant() { long_scan(&[[0u64; 66]; C11]) }
    fn c11_zero_sized() { long_scan(&[(); C11]) }
    fn c12_big() { permuted::<Big, 6>(true) }
    fn c12_giant() { permuted::<Giant, 6>(true) }
    fn c12_aligned() { permuted::<Aligned, 6>(true) }
    fn c12_own() { permuted::<Own, 6>(true) }
    fn c12_handle() { permuted::<Handle, 6>(true) }
    fn c12_long_own() { permuted::<Own, { crate::tier!(40, 80) }>(false) }
    fn c12_long_big() { permuted::<Big, { crate::tier!(20, 40) }>(false) }
    fn c12_vec_handle() { permuted_vec::<Handle>(false) }
    fn c12_vec_big() { permuted_vec::<Big>(true) }
    fn c12_zero_sized() { permuted_zeds() }
    fn c13_words() { zipped(&mut [0u16; crate::tier!(10, 14)]) }
    fn c13_odd() { zipped(&mut [[0u8; 7]; crate::tier!(8, 12)]) }
    fn c13_giant() { zipped(&mut [[0u64; 66]; crate::tier!(6, 8)]) }
    fn c13_zero_sized() { zipped(&mut [(); crate::tier!(10, 14)]) }
    fn c14_big() { grown::<Big, 3>(nd::bool_()) }
    fn c14_giant() { grown::<Giant, 3>(nd::bool_()) }
    fn c14_own() { grown::<Own, 3>(nd::bool_()) }
    fn c14_handle() { grown::<Handle, 4>(nd::bool_()) }
    fn c14_zero_sized() { grown_zeds() }
}
