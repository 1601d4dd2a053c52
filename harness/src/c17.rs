//! C17 insertion sorts: sorted, stable, a permutation; the lock-step form.
use crate::nd;
use crate::sorting::*;
use indexing::algorithms::*;

const N: usize = crate::tier!(6, 7, 8);
const L: usize = crate::tier!(12, 16, 20);

byte_harnesses! {
    fn indexes [9, 10] { stable::<N>(|v| insertion_sort_indexes(v, less)); }
    fn ranges [9, 10] { stable::<N>(|v| insertion_sort_ranges(v, less)); }
    fn rust [9, 10] { stable::<N>(|v| insertion_sort_rust(v, less)); }
    // longer slices: a sorted body with two arbitrary elements anywhere
    fn indexes_long [15, 19] { stable_sparse::<L>(|v| insertion_sort_indexes(v, less)); }
    fn ranges_long [15, 19] { stable_sparse::<L>(|v| insertion_sort_ranges(v, less)); }
    fn rust_long [15, 19] { stable_sparse::<L>(|v| insertion_sort_rust(v, less)); }
    fn twin [9, 10] {
        const N: usize = crate::tier!(5, 6, 7);
        let n = nd::small(N as u8);
        let mut v = arbitrary::<N>();
        let mut u = [0u8; N];
        for k in 0..N { u[k] = 100 + k as u8; }
        let old = v;
        insertion_sort2_indexes(&mut v[..n], &mut u[..n], less);
        check_stable(&v, &old, n);
        for k in 0..N { assert!(u[k] == 100 + v[k].tag() as u8, "the second slice is permuted alike"); }
        witness!(n == N && v[0].tag() == N - 1 && v[N - 1].tag() == 0, "reversed");
        witness!(n == N && v[1].key() == v[2].key() && v[0].tag() == 2, "equal keys");
    }
    #[cfg_attr(kani, kani::should_panic)]
    fn twin_refuses_lengths [7, 8] {
        let (n, m) = (nd::small(3), nd::small(3));
        nd::assume(n != m);
        let (mut v, mut u) = ([1u8; 3], [2u8; 3]);
        witness!(n < m, "longer second");
        witness!(n > m, "shorter second");
        insertion_sort2_indexes(&mut v[..n], &mut u[..m], |a, b| a < b);
        unreachable_point!("N: slices of different lengths are refused");
    }
}

harnesses! {
    fn indexes_wide [6, 6] { wide(|k| k as u32 * 65537, |x| { assert!(x % 65537 == 0); (x / 65537) as u16 }, |v| insertion_sort_indexes(v, |a, b| a < b)); }
    fn ranges_wide [6, 6] { wide(|k| k, |x| *x, |v| insertion_sort_ranges(v, |a, b| a < b)); }
    fn rust_wide [6, 6] { wide(|k| [(k >> 8) as u8, k as u8, 9], |x| { assert!(x[2] == 9); (x[0] as u16) << 8 | x[1] as u16 }, |v| insertion_sort_rust(v, |a, b| (a[0], a[1]) < (b[0], b[1]))); }
    // an ordering that is not the natural one
    fn descending [6, 7] {
        let mut a = [0u8; 3];
        for x in a.iter_mut() { *x = nd::u8_(); }
        let old = a;
        match nd::small(2) {
            0 => insertion_sort_indexes(&mut a, |x, y| y < x),
            1 => insertion_sort_ranges(&mut a, |x, y| y < x),
            _ => insertion_sort_rust(&mut a, |x, y| y < x),
        }
        assert!(a[0] >= a[1] && a[1] >= a[2], "sorted under the given order");
        let s = old[0] as u32 + old[1] as u32 + old[2] as u32;
        assert!(a[0] as u32 + a[1] as u32 + a[2] as u32 == s, "a permutation");
        witness!(a[0] > a[1] && old[0] < old[1], "end");
    }
    fn twin_wide [6, 7] {
        let mut v = arbitrary::<3>();
        let old = v;
        let mut u = [[1u16, 100], [2, 200], [3, 300]];
        insertion_sort2_indexes(&mut v, &mut u, less);
        check_stable(&v, &old, 3);
        for k in 0..3 { let t = v[k].tag() as u16 + 1; assert!(u[k][0] == t && u[k][1] == 100 * t, "the second slice is permuted alike"); }
        witness!(v[0].tag() == 2 && v[2].tag() == 0, "reversed");
    }
}
