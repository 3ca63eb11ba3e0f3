//! C11: what pinned enums promise. The programs are written by bin/pins.py into build/gen.
#![feature(trusted_len, coroutine_trait, fn_traits, unboxed_closures)]
#![allow(unused, static_mut_refs, clippy::all, drop_bounds)]

#[cfg(feature = "p1")]
extern crate futures03_crate as futures;
#[cfg(feature = "p1")]
extern crate http_body1_crate as http_body;
#[cfg(feature = "p1")]
extern crate rayon_crate as rayon;
#[cfg(feature = "p1")]
extern crate serde_crate as serde;
#[cfg(feature = "p1")]
extern crate tokio1_crate as tokio;
#[cfg(feature = "p3")]
extern crate tokio02_crate as tokio;
#[cfg(feature = "p2")]
extern crate tokio03_crate as tokio;

#[macro_use]
pub mod support;
#[cfg(all(feature = "p1", not(feature = "atk")))]
#[path = "../../../build/gen/pin-p1.rs"]
pub mod gen;
#[cfg(all(feature = "p2", not(feature = "atk")))]
#[path = "../../../build/gen/pin-p2.rs"]
pub mod gen;
#[cfg(all(feature = "p3", not(feature = "atk")))]
#[path = "../../../build/gen/pin-p3.rs"]
pub mod gen;
#[cfg(all(feature = "p1", feature = "atk"))]
#[path = "../../../build/gen/atk-p1.rs"]
pub mod gen;
#[cfg(all(feature = "p2", feature = "atk"))]
#[path = "../../../build/gen/atk-p2.rs"]
pub mod gen;
#[cfg(all(feature = "p3", feature = "atk"))]
#[path = "../../../build/gen/atk-p3.rs"]
pub mod gen;
