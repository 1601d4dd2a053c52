//! Proof harnesses for bluss/indexing. Every harness is both a Kani proof
//! (all values within its bounds) and a native function (replay of a
//! counterexample against the real build).
#![allow(static_mut_refs, clippy::all, dead_code)]

#[cfg(lsx)]
macro_rules! assert {
    ($c:expr $(,)?) => { $crate::nd::check($c, stringify!($c)) };
    ($c:expr, $m:literal $(, $a:expr)* $(,)?) => { $crate::nd::check($c, $m) };
}

pub mod nd;

/// Reachability witness: must be satisfiable.
#[macro_export]
macro_rules! witness {
    ($cond:expr, $msg:literal) => {
        #[cfg(kani)]
        kani::cover!($cond, $msg);
        #[cfg(lsx)]
        $crate::nd::cover($cond, $msg);
        #[cfg(not(any(kani, lsx)))]
        let _ = $cond;
    };
}

/// A point that must not be reachable (used after a call that has to panic).
#[macro_export]
macro_rules! unreachable_point {
    ($msg:literal) => {
        #[cfg(kani)]
        kani::cover!(true, $msg);
        #[cfg(lsx)]
        $crate::nd::check(false, $msg);
        #[cfg(not(any(kani, lsx)))]
        std::panic::panic_any($crate::MustNotReach($msg));
    };
}
#[cfg(not(kani))]
pub struct MustNotReach(pub &'static str);

/// The same without the element-wise models of ptr::copy: for one-byte
/// elements, where the back end's memmove is exact and faster.
#[macro_export]
macro_rules! byte_harnesses {
    ($( $(#[$m:meta])* fn $name:ident [$uq:literal, $ut:literal] $body:block )*) => {
        $(
            $(#[$m])*
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(all(kani, not(feature = "thorough")), kani::unwind($uq))]
            #[cfg_attr(all(kani, feature = "thorough"), kani::unwind($ut))]
            #[cfg_attr(lsx, inline(never))]
            pub fn $name() $body
        )*
        #[cfg(not(any(kani, lsx)))]
        pub fn byte_list() -> Vec<(&'static str, fn())> {
            let mut v: Vec<(&'static str, fn())> = Vec::new();
            $(
                $(#[$m])*
                {
                    const _: () = ();
                    v.push((concat!(module_path!(), "::", stringify!($name)), $name as fn()));
                }
            )*
            v
        }
    };
}

/// `name(quick unwind, thorough unwind) { body }` becomes a Kani proof and an
/// entry in the module's list for native replay.
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$m:meta])* fn $name:ident [$uq:literal, $ut:literal] $body:block )*) => {
        $(
            $(#[$m])*
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(all(kani, not(feature = "thorough")), kani::unwind($uq))]
            #[cfg_attr(all(kani, feature = "thorough"), kani::unwind($ut))]
            #[cfg_attr(kani, kani::stub(std::ptr::copy, crate::model::copy_model))]
            #[cfg_attr(kani, kani::stub(std::ptr::copy_nonoverlapping, crate::model::copy_nonoverlapping_model))]
            #[cfg_attr(lsx, inline(never))]
            pub fn $name() $body
        )*
        #[cfg(not(any(kani, lsx)))]
        pub fn list() -> Vec<(&'static str, fn())> {
            let mut v: Vec<(&'static str, fn())> = Vec::new();
            $(
                $(#[$m])*
                {
                    const _: () = ();
                    v.push((concat!(module_path!(), "::", stringify!($name)), $name as fn()));
                }
            )*
            v
        }
    };
}

/// Harnesses for the path-wise engine only (lsx); replayed natively alike.
#[macro_export]
macro_rules! path_harnesses {
    ($( $(#[$m:meta])* fn $name:ident() $body:block )*) => {
        $(
            $(#[$m])*
            #[cfg(not(kani))]
            #[cfg_attr(lsx, inline(never))]
            pub fn $name() $body
        )*
        #[cfg(not(any(kani, lsx)))]
        pub fn path_list() -> Vec<(&'static str, fn())> {
            let mut v: Vec<(&'static str, fn())> = Vec::new();
            $( v.push((concat!(module_path!(), "::", stringify!($name)), $name as fn())); )*
            v
        }
    };
}

/// quick / thorough constant; the third one is for path-wise runs of the
/// thorough tier of modules whose quick path-wise runs use the second
#[macro_export]
macro_rules! tier {
    ($q:expr, $t:expr) => { $crate::tier!($q, $t, $t) };
    ($q:expr, $t:expr, $d:expr) => {
        if cfg!(deeper) { $d } else if cfg!(feature = "thorough") { $t } else { $q }
    };
}

/// let-else that ends the harness: the state does not exist
#[macro_export]
macro_rules! some {
    ($e:expr) => { match $e { Some(x) => x, None => return } };
}

pub mod model;
pub mod search;
pub mod sorting;

/// fallbacks for modules with only one kind of harness
#[cfg(not(any(kani, lsx)))]
mod none {
    pub fn list() -> Vec<(&'static str, fn())> { Vec::new() }
    pub fn byte_list() -> Vec<(&'static str, fn())> { Vec::new() }
    pub fn path_list() -> Vec<(&'static str, fn())> { Vec::new() }
}

macro_rules! modules {
    ($($m:ident)* ; $($p:ident)*) => {
        $( pub mod $m; )*
        $( #[cfg(not(kani))] pub mod $p; )*
        #[cfg(not(any(kani, lsx)))]
        pub fn all() -> Vec<(String, fn())> {
            let mut v = Vec::new();
            $( for (n, f) in { #[allow(unused_imports)] use none::*; { #[allow(unused_imports)] use $m::*; let mut l = list(); l.extend(byte_list()); l.extend(path_list()); l } } {
                v.push((n.splitn(2, "::").nth(1).unwrap().to_string(), f));
            } )*
            $( for (n, f) in $p::path_list() {
                v.push((n.splitn(2, "::").nth(1).unwrap().to_string(), f));
            } )*
            v
        }
    };
}
modules! { c01 c02 c03 c04 c05 c06 c07 c08 c09 c10 c11 c12 c13 c14 c15 c16 c17 c22 c23 ; deep elems long c14p c16p c18 c19 c20 c21 c23p c24 }
