//! C12 swaps and rotations.
use crate::model::*;
use crate::nd;
use indexing::scope;

/// `old` after rotating [s, e) up / down by one, at position k
fn up(s: usize, e: usize, k: usize) -> usize { if k < s || k >= e { k } else if k == s { e - 1 } else { k - 1 } }
fn down(s: usize, e: usize, k: usize) -> usize { if k < s || k >= e { k } else if k == e - 1 { s } else { k + 1 } }

macro_rules! permutes {
    ($c:expr, $n:expr, $fresh:expr) => {{
        let n = $n;
        let what = nd::small(4);
        let (i, j) = (nd::near(n), nd::near(n));
        let (mut s, mut e) = (0, 0);
        {
            let mut c = $c;
            if what == 0 {
                let (a, b) = match (c.vet(i), c.vet(j)) { (Ok(a), Ok(b)) => (a, b), _ => return };
                c.swap(a, b);
            } else {
                let r = some!(any_range(&c));
                s = r.start();
                e = r.end();
                match what {
                    1 => c.rotate1_up(r),
                    2 => c.rotate1_down(r),
                    3 => if let Ok(q) = r.nonempty() { c.rotate1_up(q) },
                    _ => if let Ok(q) = r.nonempty() { c.rotate1_down(q) },
                }
            }
        }
        let m = move |k: usize| match what {
            0 => if k == i { j } else if k == j { i } else { k },
            1 | 3 => up(s, e, k),
            _ => down(s, e, k),
        };
        (m, what, i, j, s, e)
    }};
}

harnesses! {
    // positions as contents: every permutation is observed completely
    fn slices [8, 10] {
        const N: usize = crate::tier!(5, 7, 8);
        let mut buf = [0u16; N];
        for k in 0..N { buf[k] = k as u16; }
        let n = nd::small(N as u8);
        scope(&mut buf[..n], |c| {
            let p = c.as_ptr_probe();
            let (m, what, i, j, s, e) = permutes!(c, n, ());
            for k in 0..N { assert!(unsafe { *p.add(k) } as usize == if k < n { m(k) } else { k }, "exactly the documented permutation"); }
            witness!(what == 0 && i == j, "same index");
            witness!(what == 0 && i > j, "swap");
            witness!(what == 1 && s > 0 && e < n && e - s == 3, "up");
            witness!(what == 2 && s > 0 && e < n && e - s == 3, "down");
            witness!(what == 3 && e - s == 1, "single");
            witness!(what == 4 && e - s == 2, "pair");
        });
    }
    // longer ranges
    fn long [18, 26] {
        const N: usize = crate::tier!(12, 20, 26);
        let mut buf = [0u8; N];
        for k in 0..N { buf[k] = k as u8; }
        let r = &mut buf;
        scope(&mut r[..], |c| {
            let p = c.as_ptr_probe();
            let (m, what, _i, _j, s, e) = permutes!(c, N, ());
            let k = nd::small(N as u8 - 1);
            assert!(unsafe { *p.add(k) } as usize == m(k), "exactly the documented permutation");
            witness!(what == 1 && e - s == N - 1, "up");
            witness!(what == 2 && e - s == N, "down");
        });
    }
    // elements with an odd size, in a vector, index-only mode
    fn odd_size_vector [8, 10] {
        const N: usize = crate::tier!(4, 6, 8);
        let n = nd::small(N as u8);
        let mut v: Vec<[u8; 3]> = Vec::with_capacity(N);
        for k in 0..N { v.push([k as u8, k as u8 + 100, 7]); }
        v.truncate(n);
        let p = v.as_ptr();
        scope(&mut v, |c| {
            let (m, what, _i, _j, s, e) = permutes!(c.only_index(), n, ());
            for k in 0..n { let x = m(k) as u8; assert!(unsafe { *p.add(k) } == [x, x + 100, 7], "exactly the documented permutation"); }
            witness!(what == 1 && e - s == 3, "up");
        });
    }
    // elements with a destructor are moved, never dropped or duplicated
    fn destructors [7, 9] {
        const N: usize = crate::tier!(4, 6, 8);
        let mut buf: [Tracked; N] = core::array::from_fn(|k| Tracked(k as u8));
        unsafe { DROPS = 0; }
        scope(&mut buf[..], |c| {
            let p = c.as_ptr_probe();
            let (m, what, _i, _j, s, e) = permutes!(c, N, ());
            for k in 0..N { assert!(unsafe { (*p.add(k)).0 } as usize == m(k)); }
            witness!(what == 2 && e - s == 3, "down");
        });
        assert!(unsafe { DROPS } == 0, "no element is dropped");
    }
}

trait AsPtr<T> { fn as_ptr_probe(&self) -> *const T; }
impl<'id, 'a, T, M> AsPtr<T> for indexing::Container<'id, &'a mut [T], M> {
    fn as_ptr_probe(&self) -> *const T { self[..].as_ptr() }
}
