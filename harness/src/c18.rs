//! C18 quicksorts (path-wise). The cut-off for short slices is lowered to 3
//! in the runs with the hook, and the real one (24) in `real_*`.
use crate::sorting::*;
use indexing::algorithms::*;

const N: usize = crate::tier!(7, 8);
const K: usize = crate::tier!(13, 16);
const L: usize = crate::tier!(16, 20);
const R: usize = crate::tier!(29, 40);

path_harnesses! {
    fn range() { unstable::<N>(|v| quicksort_range(v)); }
    fn bounds() { unstable::<N>(|v| quicksort_bounds(v)); }
    fn range_two_keys() { few_keys::<K>(2, |v| quicksort_range(v)); }
    fn bounds_two_keys() { few_keys::<K>(2, |v| quicksort_bounds(v)); }
    fn range_long() { long::<L>(9, 1, false, |v| quicksort_range(v)); }
    fn bounds_long() { long::<L>(9, 1, false, |v| quicksort_bounds(v)); }
    fn real_range() { long::<R>(24, 1, false, |v| quicksort_range(v)); }
    fn real_bounds() { long::<R>(24, 1, false, |v| quicksort_bounds(v)); }
}
