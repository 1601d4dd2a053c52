//! Search oracle: elements are compared by their address, so a slice of any
//! length is sorted around a symbolic partition point without any contents.
use crate::nd;
use std::cmp::Ordering;

/// An element whose order is its position.
#[repr(C)]
pub struct Pos<const S: usize>(pub [u8; S]);
pub static mut BASE: usize = 0;
pub static mut LEN: usize = 0;
/// elements before LO are less than the key, from HI on greater, between equal
pub static mut LO: usize = 0;
pub static mut HI: usize = 0;
/// answers are arbitrary instead of consistent
pub static mut CHAOS: bool = false;
pub static mut CALLS: usize = 0;
pub static mut BUDGET: usize = usize::MAX;
/// the only elements that may be examined
pub static mut FROM: usize = 0;
pub static mut TO: usize = 0;

pub fn setup<const S: usize>(v: &[Pos<S>], lo: usize, hi: usize) {
    unsafe {
        BASE = v.as_ptr() as usize;
        LEN = v.len();
        LO = lo;
        HI = hi;
        FROM = 0;
        TO = v.len();
        CHAOS = false;
        CALLS = 0;
        BUDGET = usize::MAX;
    }
}
/// Order of the element at address `a` relative to the key.
pub fn order<const S: usize>(a: usize) -> Ordering {
    unsafe {
        let d = a.wrapping_sub(BASE);
        assert!(d % S == 0, "only existing elements are examined");
        let k = d / S;
        assert!(k >= FROM && k < TO, "only existing elements are examined");
        CALLS += 1;
        assert!(CALLS <= BUDGET, "the search ends");
        if CHAOS {
            return match nd::small(2) { 0 => Ordering::Less, 1 => Ordering::Equal, _ => Ordering::Greater };
        }
        if k < LO { Ordering::Less } else if k < HI { Ordering::Equal } else { Ordering::Greater }
    }
}
impl<const S: usize> Pos<S> {
    pub const KEY: Pos<S> = Pos([0; S]);
    fn is_key(&self) -> bool {
        unsafe { (self as *const _ as usize).wrapping_sub(BASE) >= LEN * S }
    }
}
impl<const S: usize> PartialEq for Pos<S> {
    fn eq(&self, o: &Pos<S>) -> bool { self.cmp(o) == Ordering::Equal }
}
impl<const S: usize> Eq for Pos<S> {}
impl<const S: usize> PartialOrd for Pos<S> {
    fn partial_cmp(&self, o: &Pos<S>) -> Option<Ordering> { Some(self.cmp(o)) }
}
impl<const S: usize> Ord for Pos<S> {
    fn cmp(&self, o: &Pos<S>) -> Ordering {
        if o.is_key() { order::<S>(self as *const _ as usize) } else { order::<S>(o as *const _ as usize).reverse() }
    }
}

/// binary search on positions FROM..TO
pub fn check_found(r: Result<usize, usize>, lo: usize, hi: usize) {
    match r {
        Ok(i) => assert!(lo <= i && i < hi, "binary search finds an equal element"),
        Err(i) => {
            assert!(lo == hi, "binary search finds an element that exists");
            assert!(i == lo, "the insertion point keeps the order");
        }
    }
}
pub fn check_lower(i: usize, lo: usize) {
    assert!(i == lo, "lower bound is the first position that is not less");
}

/// An element that cannot be compared with the key unless it is less or greater
/// (`LO..HI` are incomparable, as NaN is): a lower bound asks for "less" only.
pub struct Partial(pub u8);
impl Partial {
    pub const KEY: Partial = Partial(255);
    fn at(&self) -> Option<usize> {
        unsafe {
            let d = (self as *const _ as usize).wrapping_sub(BASE);
            if d < LEN { Some(d) } else { None }
        }
    }
}
impl PartialEq for Partial { fn eq(&self, o: &Partial) -> bool { self.partial_cmp(o) == Some(Ordering::Equal) } }
impl PartialOrd for Partial {
    fn partial_cmp(&self, o: &Partial) -> Option<Ordering> {
        let of = |k: usize| unsafe {
            CALLS += 1;
            if k < LO { Some(Ordering::Less) } else if k < HI { None } else { Some(Ordering::Greater) }
        };
        match (self.at(), o.at()) {
            (Some(k), None) => of(k),
            (None, Some(k)) => of(k).map(|x| x.reverse()),
            _ => { assert!(false, "an element is compared with the key"); None }
        }
    }
}
