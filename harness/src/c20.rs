//! C20 merging with a swap buffer (path-wise).
use crate::nd;
use crate::sorting::*;
use indexing::algorithms::*;

const N: usize = crate::tier!(9, 10);
const M: usize = crate::tier!(6, 6);

fn merge(ranges: bool, sorted: bool) {
    // data and buffer elements have different tags
    let n = 1 + nd::fork(nd::small(N as u8 - 1)); // empty data is refused by a debug assertion
    let m = nd::fork(nd::small(M as u8));
    let split = nd::fork(nd::small(N as u8 + 1));
    let mut data = [Elt(0); N];
    let mut buffer = [Elt(0); M];
    for k in 0..N { data[k] = Elt(nd::u8_() & 0xf0 | k as u8); }
    for k in 0..M { buffer[k] = Elt(((k * 0x70) & 0xf0) as u8 | (N + k) as u8); }
    if sorted { for k in 1..n { nd::assume(k == split || data[k - 1].key() <= data[k].key()); } }
    let (d0, b0) = (data, buffer);
    let r = if ranges { merge_internal_ranges(&mut data[..n], split, &mut buffer[..m]) } else { merge_internal_indices(&mut data[..n], split, &mut buffer[..m]) };
    if split > n || split > m {
        assert!(r.is_err(), "a split point beyond the data or the buffer is an error");
        for k in 0..N { assert!(data[k].0 == d0[k].0, "an error changes nothing"); }
        for k in 0..M { assert!(buffer[k].0 == b0[k].0, "an error changes nothing"); }
        return;
    }
    assert!(r.is_ok(), "a split point within the data and the buffer is accepted");
    if sorted { check_stable(&data, &d0, n); } else { check_permutation(&data, &d0); for k in n..N { assert!(data[k].tag() == k, "elements outside are untouched"); } }
    let mut seen = 0u32;
    for k in 0..M {
        let t = buffer[k].tag();
        assert!(t >= N && t < N + M && seen & (1 << t) == 0, "the buffer has the elements it had");
        assert!(b0[t - N].0 == buffer[k].0, "buffer elements are kept whole");
        assert!(k < m || t == N + k, "the buffer outside is untouched");
        seen |= 1 << t;
    }
    witness!(n == M && split == M - 1 && m == M && data[0].tag() == M - 1, "last to front");
    witness!(n == N && split == 2 && data[N - 1].tag() == 1, "left to the end");
    witness!(n == N && split == M && m == M && data[N - 1].tag() == N - 1 && data[0].tag() == 0 && data[1].tag() == M, "interleaved");
    witness!(split == n && n == m, "nothing on the right");
    witness!(split == 0 && m == 0, "nothing on the left");
}
path_harnesses! {
    fn ranges() { merge(true, true) }
    fn indices() { merge(false, true) }
    // sections that are not sorted: still no element is lost
    fn ranges_unsorted() { merge(true, false) }
    fn indices_unsorted() { merge(false, false) }
    fn wide() {
        // elements of another size
        const N: usize = 5;
        let split = nd::fork(nd::small(N as u8));
        let mut data = [[0u16; 3]; N];
        let mut buffer = [[7u16, 8, 9]; N];
        for k in 0..N { data[k] = [nd::u8_() as u16, k as u16, 100 + k as u16]; }
        for k in 1..N { nd::assume(k == split || data[k - 1][0] <= data[k][0]); }
        let old = data;
        let r = if nd::bool_() { merge_internal_ranges(&mut data, split, &mut buffer) } else { merge_internal_indices(&mut data, split, &mut buffer) };
        assert!(r.is_ok(), "accepted");
        for k in 0..N {
            assert!(buffer[k] == [7, 8, 9], "the buffer has the elements it had");
            let t = data[k][1] as usize;
            assert!(t < N && old[t] == data[k], "elements are kept whole");
            assert!(k == 0 || data[k - 1] < data[k], "sorted, equal elements in order");
        }
        witness!(split == 2 && data[4][1] == 1 && data[0][1] == 2, "interleaved");
    }
}
