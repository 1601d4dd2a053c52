//! Model containers and the meaning of particles.
use crate::nd;
use indexing::container_traits::*;
use indexing::indexing::RangeIter;
use indexing::{Container, Index, NonEmpty, Range, Unknown};
use std::cell::Cell;

pub const IMAX: usize = isize::MAX as usize;

/// A container of `n` elements that exist only as positions: every unchecked
/// access is checked here and recorded.
pub struct Probe {
    pub n: usize,
    pub last: Cell<usize>,
    pub hits: Cell<usize>,
    cell: u8,
}
impl Probe {
    pub fn new(n: usize) -> Probe {
        Probe { n, last: Cell::new(usize::MAX), hits: Cell::new(0), cell: 0 }
    }
    fn touch(&self, i: usize) {
        assert!(i < self.n, "unchecked access outside the container");
        self.last.set(i);
        self.hits.set(self.hits.get().wrapping_add(1));
    }
}
unsafe impl Trustworthy for Probe {
    type Item = u8;
    fn base_len(&self) -> usize { self.n }
}
unsafe impl FixedLength for Probe {}
unsafe impl GetUnchecked for Probe {
    unsafe fn xget_unchecked(&self, i: usize) -> &u8 { self.touch(i); &self.cell }
}
unsafe impl GetUncheckedMut for Probe {
    unsafe fn xget_unchecked_mut(&mut self, i: usize) -> &mut u8 { self.touch(i); &mut self.cell }
}

/// A growable container of positions: records what it was asked to do.
pub struct Grow {
    pub n: usize,
    pub pushes: usize,
    pub inserts: usize,
    pub at: usize,
    pub value: u8,
    cell: u8,
}
impl Grow {
    pub fn new(n: usize) -> Grow { Grow { n, pushes: 0, inserts: 0, at: usize::MAX, value: 0, cell: 0 } }
}
unsafe impl Trustworthy for Grow {
    type Item = u8;
    fn base_len(&self) -> usize { self.n }
}
unsafe impl GetUnchecked for Grow {
    unsafe fn xget_unchecked(&self, i: usize) -> &u8 {
        assert!(i < self.n, "unchecked access outside the container");
        &self.cell
    }
}
unsafe impl GetUncheckedMut for Grow {
    unsafe fn xget_unchecked_mut(&mut self, i: usize) -> &mut u8 {
        assert!(i < self.n, "unchecked access outside the container");
        &mut self.cell
    }
}
unsafe impl Pushable for Grow {
    fn push(&mut self, item: u8) -> usize {
        let i = self.n;
        self.n += 1;
        self.pushes += 1;
        self.value = item;
        i
    }
    unsafe fn insert_unchecked(&mut self, index: usize, item: u8) {
        assert!(index <= self.n, "insertion outside the container");
        self.n += 1;
        self.inserts += 1;
        self.at = index;
        self.value = item;
    }
}

/// What a particle's type and fields claim about a container of length `n`.
pub trait Claim {
    fn ok(&self, n: usize) -> bool;
}
impl<'id> Claim for Index<'id, NonEmpty> {
    fn ok(&self, n: usize) -> bool { self.integer() < n }
}
impl<'id> Claim for Index<'id, Unknown> {
    fn ok(&self, n: usize) -> bool { self.integer() <= n }
}
impl<'id> Claim for Range<'id, NonEmpty> {
    fn ok(&self, n: usize) -> bool { self.start() < self.end() && self.end() <= n }
}
impl<'id> Claim for Range<'id, Unknown> {
    fn ok(&self, n: usize) -> bool { self.start() <= self.end() && self.end() <= n }
}
impl<'id> Claim for RangeIter<'id> {
    fn ok(&self, n: usize) -> bool { self.into_range().ok(n) }
}
impl<A: Claim, B: Claim> Claim for (A, B) {
    fn ok(&self, n: usize) -> bool { self.0.ok(n) && self.1.ok(n) }
}
impl<A: Claim, B: Claim> Claim for (A, B, bool) {
    fn ok(&self, n: usize) -> bool { self.0.ok(n) && self.1.ok(n) }
}
impl<A: Claim, E> Claim for Result<A, E> {
    fn ok(&self, n: usize) -> bool { match self { Ok(a) => a.ok(n), Err(_) => true } }
}
impl<A: Claim> Claim for Option<A> {
    fn ok(&self, n: usize) -> bool { match self { Some(a) => a.ok(n), None => true } }
}

pub fn is<'id, P>(r: Range<'id, P>, s: usize, e: usize) -> bool { r.start() == s && r.end() == e }

/// Any container length for which every position is representable.
pub fn any_len() -> usize { nd::upto(IMAX) }

pub fn any_range<'id, A: Trustworthy, M>(c: &Container<'id, A, M>) -> Option<Range<'id>> {
    let n = c.len();
    let s = nd::near(n);
    let e = nd::near(n);
    c.vet_range(s..e).ok()
}
pub fn any_ne<'id, A: Trustworthy, M>(c: &Container<'id, A, M>) -> Option<Range<'id, NonEmpty>> {
    any_range(c).and_then(|r| r.nonempty().ok())
}
pub fn any_index<'id, A: Trustworthy, M>(c: &Container<'id, A, M>) -> Option<Index<'id>> {
    c.vet(nd::near(c.len())).ok()
}
/// Any edge index (0..=len).
pub fn any_edge<'id, A: Trustworthy, M>(c: &Container<'id, A, M>) -> Option<Index<'id, Unknown>> {
    any_range(c).map(|r| r.past_the_end())
}


/// A slice of `n` elements whose memory is never read: only addresses matter.
/// Allows lengths far beyond what could be filled.
#[cfg(kani)]
pub fn vast<T>(n: usize) -> &'static mut [T] {
    unsafe {
        let size = std::mem::size_of::<T>();
        let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(if n == 0 { size } else { n * size }, std::mem::align_of::<T>()));
        kani::assume(!p.is_null());
        std::slice::from_raw_parts_mut(p as *mut T, n)
    }
}
#[cfg(all(not(kani), miri))]
pub fn vast<T>(n: usize) -> &'static mut [T] {
    unsafe {
        let size = std::mem::size_of::<T>();
        nd::assume(n < 1 << 24);
        if n == 0 { return &mut []; }
        let p = std::alloc::alloc_zeroed(std::alloc::Layout::from_size_align_unchecked(n * size, std::mem::align_of::<T>()));
        std::slice::from_raw_parts_mut(p as *mut T, n)
    }
}
#[cfg(all(not(kani), not(miri)))]
pub fn vast<T>(n: usize) -> &'static mut [T] {
    extern "C" { fn mmap(a: *mut u8, l: usize, p: i32, f: i32, d: i32, o: i64) -> *mut u8; }
    unsafe {
        if n == 0 { return &mut []; }
        // one mapping for the whole process; a harness may ask for several slices
        static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        static AREA: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
        let area = *AREA.get_or_init(|| {
            // PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE
            let p = mmap(std::ptr::null_mut(), 8 * (VAST * 4 + 4096), 0, 0x4022, -1, 0);
            assert!(p as isize != -1, "address space");
            p as usize
        });
        let slot = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 8;
        nd::assume(n * std::mem::size_of::<T>() <= VAST * 4);
        std::slice::from_raw_parts_mut((area + slot * (VAST * 4 + 4096)) as *mut T, n)
    }
}
/// The same as a vector (never freed).
pub fn vast_vec<T: 'static>(n: usize) -> std::mem::ManuallyDrop<Vec<T>> {
    let s = vast::<T>(n);
    std::mem::ManuallyDrop::new(unsafe { Vec::from_raw_parts(s.as_mut_ptr(), n, n) })
}
/// Largest length used with `vast` (48-bit object offsets in the solver's pointer model).
pub const VAST: usize = 1 << 40;

/// Address of a slice's start as an element offset from `base`, and its length.
pub fn span<T>(base: *const T, s: &[T]) -> (usize, usize) {
    ((s.as_ptr() as usize).wrapping_sub(base as usize) / std::mem::size_of::<T>(), s.len())
}
/// The exact byte address of element `i`.
pub fn at<T>(base: *const T, i: usize) -> usize { base as usize + i * std::mem::size_of::<T>() }

/// An element that counts drops: losing or duplicating one shows.
pub struct Tracked(pub u8);
pub static mut DROPS: usize = 0;
impl Drop for Tracked {
    fn drop(&mut self) { unsafe { DROPS += 1; } }
}

/// Element-wise `ptr::copy`. The solver back end's byte-level memmove is wrong
/// for elements wider than a byte (found on this code; a known-good element-wise
/// loop gives the same meaning).
pub unsafe fn copy_model<T>(src: *const T, dst: *mut T, n: usize) {
    if (dst as usize) <= (src as usize) {
        let mut i = 0;
        while i < n { std::ptr::write(dst.add(i), std::ptr::read(src.add(i))); i += 1; }
    } else {
        let mut i = n;
        while i > 0 { i -= 1; std::ptr::write(dst.add(i), std::ptr::read(src.add(i))); }
    }
}
/// Element-wise `ptr::copy_nonoverlapping`, with its precondition.
pub unsafe fn copy_nonoverlapping_model<T>(src: *const T, dst: *mut T, n: usize) {
    let (a, b, k) = (src as usize, dst as usize, n * std::mem::size_of::<T>());
    assert!(k == 0 || (if a <= b { b - a } else { a - b }) >= k, "copy_nonoverlapping on overlapping memory");
    let mut i = 0;
    while i < n { std::ptr::write(dst.add(i), std::ptr::read(src.add(i))); i += 1; }
}
