#![feature(trusted_len, formatting_options, coroutine_trait, fn_traits, unboxed_closures)]
#![allow(incomplete_features, static_mut_refs, dead_code, unused_imports, private_interfaces, deprecated, bare_trait_objects)]

// The generated code names these crates by their usual names, as user code would provide them.
#[cfg(any(feature = "c06"))]
extern crate futures03_crate as futures;
#[cfg(all(feature = "c08d", not(kani)))]
extern crate futures01_crate as futures;
#[cfg(all(feature = "c08d", kani))]
extern crate shim_futures01 as futures;
#[cfg(feature = "c07")]
extern crate tokio1_crate as tokio;
#[cfg(feature = "c08a")]
extern crate tokio03_crate as tokio;
#[cfg(feature = "c08b")]
extern crate tokio02_crate as tokio;
#[cfg(all(feature = "c08c", not(kani)))]
extern crate tokio01_crate as tokio;
#[cfg(all(feature = "c08c", kani))]
extern crate shim_tokio01 as tokio;
#[cfg(feature = "c09a")]
extern crate http_body1_crate as http_body;
#[cfg(feature = "c09b")]
extern crate rayon_crate as rayon;
#[cfg(feature = "c09c")]
extern crate serde_crate as serde;

#[macro_use]
pub mod support;
#[macro_use]
pub mod io_async;
macro_rules! props { ($($feat:literal $m:ident,)*) => {
    $( #[cfg(feature = $feat)] pub mod $m; )*
    #[cfg(not(kani))]
    pub fn tables() -> Vec<(&'static str, &'static [(&'static str, fn(&mut support::Src))])> {
        #[allow(unused_mut)]
        let mut v = vec![];
        $( #[cfg(feature = $feat)] v.extend_from_slice($m::TABLES); )*
        v
    }
} }
props! {
    "c01" c01, "c02" c02, "c03" c03, "c04" c04, "c05" c05, "c06" c06, "c07" c07,
    "c08a" c08a, "c08b" c08b, "c08c" c08c, "c08d" c08d, "c09a" c09a, "c09b" c09b, "c09c" c09c, "c10" c10,
}
