//! C19 heapify (path-wise).
use crate::nd;
use crate::sorting::*;
use indexing::algorithms::*;

const N: usize = crate::tier!(9, 10);
const K: usize = crate::tier!(14, 16);

fn check_heap(v: &[Elt], old: &[Elt], n: usize) {
    check_permutation(v, old);
    for k in 0..v.len() {
        if k >= n { assert!(v[k].tag() == k, "elements outside are untouched"); }
        else if k > 0 { assert!(v[(k - 1) / 2].key() <= v[k].key(), "a parent is not greater than its child"); }
    }
}
path_harnesses! {
    fn arbitrary_content() {
        let n = nd::fork(nd::small(N as u8));
        let mut v = arbitrary::<N>();
        let old = v;
        heapify(&mut v[..n]);
        check_heap(&v, &old, n);
        witness!(n == N && v[0].tag() == N - 1, "last to front");
        witness!(n == N && v[0].tag() == 1, "second to front");
        witness!(n == 3 && v[0].tag() == 1, "small heap");
    }
    fn two_keys() {
        let mut v = [Elt(0); K];
        for k in 0..K { v[k] = Elt((nd::fork(nd::small(1)) << 4 | k) as u8); }
        let old = v;
        heapify(&mut v);
        check_heap(&v, &old, K);
        witness!(v[0].tag() == K - 1, "last to front");
    }
    fn long_content() {
        const L: usize = crate::tier!(40, 64);
        let n = nd::fork(nd::small(L as u8));
        nd::assume(n > 0);
        let mut v = regular::<L>(n, 1);
        let old = v;
        heapify(&mut v[..n]);
        let mut seen = 0u64;
        for x in &v[..n] {
            assert!(x.tag() < n && seen & (1 << x.tag()) == 0, "no element is lost or duplicated");
            assert!(old[x.tag()].0 == x.0, "elements are kept whole");
            seen |= 1 << x.tag();
        }
        for k in 1..n { assert!(v[(k - 1) / 2].key() <= v[k].key(), "a parent is not greater than its child"); }
        witness!(n == L && v[0].tag() == L - 1, "last to front");
        witness!(n == L && v[0].tag() == 1, "second to front");
    }
    fn other_order() {
        // the reverse order gives a max-heap; elements of another size
        use std::cmp::Reverse;
        let mut v = [Reverse(0u32); 5];
        for k in 0..5 { v[k] = Reverse((nd::u8_() as u32) << 16 | k as u32); }
        let n = nd::small(5);
        let old = v;
        heapify(&mut v[..n]);
        for k in 0..5 { assert!(old.contains(&v[k]), "elements are kept whole"); }
        for k in 1..n { assert!(v[(k - 1) / 2].0 >= v[k].0, "a parent is not less than its child under the reverse order"); for j in 0..k { assert!(v[j] != v[k], "no element is lost or duplicated"); } }
        witness!(n == 5 && v[0] == old[4], "last to front");
    }
}
