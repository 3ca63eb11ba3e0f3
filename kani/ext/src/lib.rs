//! C12 for the traits of other crates: lists of traits (written by bin/gencorpus.py into build/gen).
#![feature(coroutine_trait, trusted_len, formatting_options)]
#![feature(try_blocks, proc_macro_hygiene, stmt_expr_attributes, fn_traits, unboxed_closures)]
#![allow(unused, static_mut_refs, non_camel_case_types, unreachable_code, clippy::all, stable_features)]

#[cfg(feature = "x1")]
extern crate futures03_crate as futures;
#[cfg(feature = "x1")]
extern crate http_body1_crate as http_body;
#[cfg(feature = "x1")]
extern crate rayon_crate as rayon;
#[cfg(feature = "x1")]
extern crate serde_crate as serde;
#[cfg(feature = "x1")]
extern crate tokio1_crate as tokio;
#[cfg(feature = "x2")]
extern crate tokio03_crate as tokio;
#[cfg(feature = "x3")]
extern crate tokio02_crate as tokio;
#[cfg(all(feature = "x4", not(kani)))]
extern crate futures01_crate as futures;
#[cfg(all(feature = "x4", kani))]
extern crate shim_futures01 as futures;
#[cfg(all(feature = "x4", kani))]
extern crate shim_tokio01 as tokio;
#[cfg(all(feature = "x4", not(kani)))]
extern crate tokio01_crate as tokio;

#[path = "../../auto/src/support.rs"]
pub mod support;
#[path = "../../auto/src/c12s.rs"]
pub mod c12s;
#[cfg(any(feature = "x1", feature = "x2", feature = "x3", feature = "x4"))]
pub mod xs;
macro_rules! props { ($($feat:literal $m:ident $file:literal $few:literal,)*) => {
    $( #[cfg(all(feature = $feat, not(feature = "few")))] #[path = $file] pub mod $m; )*
    $( #[cfg(all(feature = $feat, feature = "few"))] #[path = $few] pub mod $m; )*
    #[cfg(not(kani))]
    pub fn tables() -> Vec<(&'static str, &'static [(&'static str, fn(&[u8; support::NB]))])> {
        #[allow(unused_mut)]
        let mut v: Vec<(&'static str, &'static [(&'static str, fn(&[u8; support::NB]))])> = vec![];
        $( #[cfg(all(feature = $feat, not(feature = "few")))] v.push((stringify!($m), $m::TABLE)); )*
        v
    }
} }
props! {
    "x1" x1 "../../../build/gen/x1.rs" "../../../build/gen/few-x1.rs", "x2" x2 "../../../build/gen/x2.rs" "../../../build/gen/few-x2.rs",
    "x3" x3 "../../../build/gen/x3.rs" "../../../build/gen/few-x3.rs", "x4" x4 "../../../build/gen/x4.rs" "../../../build/gen/few-x4.rs",
}
