//! C14 growth: vectors at and below their capacity, histories of pushes and
//! inserts through any outstanding particle (path-wise).
use crate::model::{Tracked, DROPS};
use crate::nd;
use indexing::container_traits::*;
use indexing::{scope, Container};

#[derive(Clone, Copy)]
struct Word(u64);

const M: usize = crate::tier!(4, 6);
const K: usize = crate::tier!(3, 4, 5);

fn ops<'id, T, A: Pushable<Item = T> + Contiguous<Item = T> + GetUnchecked<Item = T>>(c: Container<'id, A>, n: usize, mut make: impl FnMut(u8) -> T, tag: impl Fn(&T) -> u8, model: &mut [u8; M + K]) {
    let s = nd::fork(nd::small(M as u8));
    let e = nd::fork(nd::small(M as u8));
    nd::assume(s <= e);
    let r = match c.vet_range(s..e) { Ok(r) => r, Err(_) => { nd::assume(false); return } };
    let inner = c.vet(s).ok();
    let (front, back) = (r.first(), r.past_the_end());
    let mut c = c.only_index();
    let mut len = n;
    let mut newest = None;
    for _ in 0..K {
        let val = nd::u8_();
        let at = match nd::fork(nd::small(4)) {
            0 => {
                let i = c.push(make(val));
                assert!(i.integer() == len, "push returns the index of the new last element");
                newest = Some(i);
                len
            }
            1 => { c.insert(front, make(val)); s }
            2 => { c.insert(back, make(val)); e }
            3 => match inner { Some(i) => { c.insert(i, make(val)); i.integer() } None => return },
            _ => match newest { Some(i) => { c.insert(i, make(val)); i.integer() } None => return },
        };
        let mut j = len;
        while j > at { model[j] = model[j - 1]; j -= 1; }
        model[at] = val;
        len += 1;
        assert!(c.len() == len, "one element more");
        let mut k = 0;
        for x in &c[..] {
            assert!(tag(x) == model[k], "the new element is at its place, the others keep their order");
            k += 1;
        }
        assert!(k == len, "one element more");
        assert!(c[r].len() == e - s && r.start() == s && r.end() == e, "outstanding ranges stay usable");
        for q in 0..e - s { assert!(tag(&c[r][q]) == model[s + q], "outstanding ranges denote the same positions"); }
        if let Some(i) = inner { assert!(tag(&c[i]) == model[s], "outstanding indices denote the same positions"); }
        if let Some(i) = newest { assert!(tag(&c[i]) == model[i.integer()], "outstanding indices denote the same positions"); }
    }
    witness!(len == n + K && s == 1 && e > 1, "end");
}

macro_rules! grow {
    ($t:ty, $make:expr, $tag:expr) => {{
        let n = nd::fork(nd::small(M as u8));
        let spare = nd::fork(nd::small(2));
        let mut model = [0u8; M + K];
        let mut v: Vec<$t> = Vec::with_capacity(n + spare);
        for k in 0..n { let x = nd::u8_(); v.push($make(x)); model[k] = x; }
        if nd::fork(nd::small(1)) == 0 {
            scope(v, |c| ops(c, n, $make, $tag, &mut model));
        } else {
            scope(&mut v, |c| ops(c, n, $make, $tag, &mut model));
            let mut k = 0;
            for x in &v { assert!($tag(x) == model[k], "the storage ends up as the container was"); k += 1; }
        }
    }};
}

path_harnesses! {
    fn words() { grow!(Word, |x: u8| Word(x as u64 | 0x700), |x: &Word| { assert!(x.0 >> 8 == 7, "elements are moved whole"); x.0 as u8 }) }
    fn triples() { grow!([u8; 3], |x: u8| [x, !x, 7], |x: &[u8; 3]| { assert!(x[1] == !x[0] && x[2] == 7, "elements are moved whole"); x[0] }) }
    fn with_destructors() {
        unsafe { DROPS = 0 }
        let n = nd::fork(nd::small(3));
        let spare = nd::fork(nd::small(1));
        let mut v: Vec<Tracked> = Vec::with_capacity(n + spare);
        for k in 0..n { v.push(Tracked(k as u8)); }
        scope(&mut v, |c| {
            let at = nd::fork(nd::small(3));
            let p = match c.vet_range(at..at) { Ok(r) => r.first(), Err(_) => return };
            let mut c = c.only_index();
            c.insert(p, Tracked(9));
            c.push(Tracked(8));
            c.insert(p, Tracked(7));
            for k in 0..n + 3 {
                let want = if k < at { k as u8 } else if k == at { 7 } else if k == at + 1 { 9 } else if k < n + 2 { (k - 2) as u8 } else { 8 };
                assert!(match c.vet(k) { Ok(i) => c[i].0 == want, Err(_) => false }, "elements in order");
            }
            assert!(unsafe { DROPS } == 0, "growing drops nothing");
            witness!(n == 3 && at == 1, "end");
        });
        let n = v.len();
        drop(v);
        assert!(unsafe { DROPS } == n, "every element is dropped once");
    }
}
