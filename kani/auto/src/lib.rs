//! Corpus programs (written by bin/gencorpus.py into build/gen) and their reference versions.
#![cfg_attr(any(feature = "c12", feature = "c21"), feature(coroutine_trait, trusted_len, formatting_options))]
#![cfg_attr(any(feature = "c18", feature = "c18k"), feature(variant_count))]
#![cfg_attr(any(feature = "c12", feature = "c18", feature = "c18k", feature = "gated"), feature(proc_macro_hygiene, stmt_expr_attributes))]
#![feature(try_blocks, fn_traits, unboxed_closures)]
#![allow(unused, static_mut_refs, non_camel_case_types, unreachable_code, clippy::all, stable_features)]

pub mod support;
#[cfg(feature = "c12")]
pub mod c12s;
#[cfg(feature = "c12k")]
#[path = "../../../build/gen/c12k.rs"]
pub mod c12k;
macro_rules! props { ($($feat:literal $m:ident $file:literal $($g:literal)?,)*) => {
    $( props!(@ $feat $m $file $($g)?); )*
    #[cfg(not(kani))]
    pub fn tables() -> Vec<(&'static str, &'static [(&'static str, fn(&[u8; support::NB]))])> {
        #[allow(unused_mut)]
        let mut v: Vec<(&'static str, &'static [(&'static str, fn(&[u8; support::NB]))])> = vec![];
        $( #[cfg(feature = $feat)] v.push((stringify!($m), $m::TABLE)); )*
        v
    }
};
    (@ $feat:literal $m:ident $file:literal) => { #[cfg(feature = $feat)] #[path = $file] pub mod $m; };
    (@ $feat:literal $m:ident $file:literal $g:literal) => {
        #[cfg(all(feature = $feat, not(feature = "gated")))] #[path = $file] pub mod $m;
        #[cfg(all(feature = $feat, feature = "gated"))] #[path = $g] pub mod $m;
    };
}
props! {
    "c12" c12 "../../../build/gen/c12.rs",
    "c13" c13 "../../../build/gen/c13.rs" "../../../build/gen/c13-gated.rs", "c14" c14 "../../../build/gen/c14.rs" "../../../build/gen/c14-gated.rs",
    "c15" c15 "../../../build/gen/c15.rs" "../../../build/gen/c15-gated.rs", "c16" c16 "../../../build/gen/c16.rs" "../../../build/gen/c16-gated.rs",
    "c17" c17 "../../../build/gen/c17.rs" "../../../build/gen/c17-gated.rs", "c18" c18 "../../../build/gen/c18.rs",
    "c18k" c18k "../../../build/gen/c18k.rs",
    "c19" c19 "../../../build/gen/c19.rs" "../../../build/gen/c19-gated.rs",
    "c21" c21 "../../../build/gen/c21.rs" "../../../build/gen/c21-gated.rs",
}
