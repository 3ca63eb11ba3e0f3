//! C10: Transpose.
use crate::support::*;

#[auto_enums::enum_derive(Transpose)]
#[derive(PartialEq, Debug)]
pub enum T1<A> { A(A) }
#[auto_enums::enum_derive(Transpose)]
#[derive(PartialEq, Debug)]
pub enum T4<A, B, C, D> { A(A), B(B), C(C), D(D) }
/// Distinct payload types per variant; `Drop` flags would be visible through leaks/double frees.
#[derive(PartialEq, Debug)]
pub struct V<const K: u8>(u32);
#[derive(PartialEq, Debug)]
pub struct X<const K: u8>(u32);

fn opt<const K: u8>(s: bool, v: u32) -> Option<V<K>> { if s { Some(V(v)) } else { None } }
fn res<const K: u8>(s: bool, v: u32) -> Result<V<K>, X<K>> { if s { Ok(V(v)) } else { Err(X(v)) } }
type VE = T4<V<0>, V<1>, V<2>, V<3>>;
type XE = T4<X<0>, X<1>, X<2>, X<3>>;
fn v4(w: u8, v: u32) -> VE { match w { 0 => T4::A(V(v)), 1 => T4::B(V(v)), 2 => T4::C(V(v)), _ => T4::D(V(v)) } }
fn x4(w: u8, v: u32) -> XE { match w { 0 => T4::A(X(v)), 1 => T4::B(X(v)), 2 => T4::C(X(v)), _ => T4::D(X(v)) } }

crate::harnesses! {
    [4] option(s) {
        let (w, some, v) = (s.below(4), s.bool(), s.u32());
        let e: T4<_, _, _, _> = match w { 0 => T4::A(opt::<0>(some, v)), 1 => T4::B(opt::<1>(some, v)), 2 => T4::C(opt::<2>(some, v)), _ => T4::D(opt::<3>(some, v)) };
        assert!(e.transpose() == if some { Some(v4(w, v)) } else { None });
    }
    [4] result(s) {
        let (w, ok, v) = (s.below(4), s.bool(), s.u32());
        let e: T4<_, _, _, _> = match w { 0 => T4::A(res::<0>(ok, v)), 1 => T4::B(res::<1>(ok, v)), 2 => T4::C(res::<2>(ok, v)), _ => T4::D(res::<3>(ok, v)) };
        assert!(e.transpose() == if ok { Ok(v4(w, v)) } else { Err(x4(w, v)) });
    }
    [4] ok_side(s) {
        let (w, ok, v) = (s.below(4), s.bool(), s.u32());
        fn r<const K: u8>(ok: bool, v: u32) -> Result<V<K>, u32> { if ok { Ok(V(v)) } else { Err(v) } }
        let e: T4<_, _, _, _> = match w { 0 => T4::A(r::<0>(ok, v)), 1 => T4::B(r::<1>(ok, v)), 2 => T4::C(r::<2>(ok, v)), _ => T4::D(r::<3>(ok, v)) };
        assert!(e.transpose_ok() == if ok { Ok(v4(w, v)) } else { Err(v) });
    }
    [4] err_side(s) {
        let (w, ok, v) = (s.below(4), s.bool(), s.u32());
        fn r<const K: u8>(ok: bool, v: u32) -> Result<u32, X<K>> { if ok { Ok(v) } else { Err(X(v)) } }
        let e: T4<_, _, _, _> = match w { 0 => T4::A(r::<0>(ok, v)), 1 => T4::B(r::<1>(ok, v)), 2 => T4::C(r::<2>(ok, v)), _ => T4::D(r::<3>(ok, v)) };
        assert!(e.transpose_err() == if ok { Ok(v) } else { Err(x4(w, v)) });
    }
    [4] same_types(s) {
        // same payload type in every variant: only the variant distinguishes
        let (w, k, v) = (s.below(4), s.below(3), s.u32());
        let mk = |x: Option<u32>| match w { 0 => T4::A(x), 1 => T4::B(x), 2 => T4::C(x), _ => T4::D(x) };
        let mk2 = |x: u32| match w { 0 => T4::A(x), 1 => T4::B(x), 2 => T4::C(x), _ => T4::D(x) };
        let mr = |x: Result<u32, u32>| match w { 0 => T4::A(x), 1 => T4::B(x), 2 => T4::C(x), _ => T4::D(x) };
        assert!(mk(Some(v)).transpose() == Some(mk2(v)));
        assert!(mk(None).transpose() == None);
        let r: Result<u32, u32> = if k == 0 { Ok(v) } else { Err(v) };
        let m: T4<_, _, _, _> = mr(r);
        assert!(m.transpose() == if k == 0 { Ok(mk2(v)) } else { Err(mk2(v)) });
        assert!(mr(r).transpose_ok() == if k == 0 { Ok(mk2(v)) } else { Err(v) });
        assert!(mr(r).transpose_err() == if k == 0 { Ok(v) } else { Err(mk2(v)) });
    }
    [4] single(s) {
        let (k, v) = (s.bool(), s.u32());
        assert!(T1::A(if k { Some(v) } else { None }).transpose() == if k { Some(T1::A(v)) } else { None });
        let r: Result<u32, u8> = if k { Ok(v) } else { Err(v as u8) };
        assert!(T1::A(r).transpose() == if k { Ok(T1::A(v)) } else { Err(T1::A(v as u8)) });
    }
}
/// Values whose drops are counted.
pub mod owned {
    use super::*;
    static mut N: u32 = 0;
    static mut H: u32 = 0;
    fn n() -> u32 { unsafe { N } }
    fn h() -> u32 { unsafe { H } }
    fn reset() { unsafe { N = 0; H = 0; } }
    #[derive(PartialEq, Debug)]
    pub struct D<const K: u8>(u32);
    impl<const K: u8> Drop for D<K> {
        fn drop(&mut self) {
            unsafe { N += 1; H = H.rotate_left(9) ^ self.0 ^ (K as u32) << 24; }
        }
    }
    #[auto_enums::enum_derive(Transpose, Iterator, Debug,)]
    #[derive(PartialEq)]
    pub(crate) enum T8<A, B, C, D, E, F, G, H,> where A: Sized, H: Sized { A(A), B(B), C(C), D(D), E(E), F(F), G(G), H(H) }
    macro_rules! all {
        ($w:expr, $f:ident $(, $a:expr)*) => {
            match $w { 0 => T8::A($f::<0>($($a),*)), 1 => T8::B($f::<1>($($a),*)), 2 => T8::C($f::<2>($($a),*)), 3 => T8::D($f::<3>($($a),*)),
                       4 => T8::E($f::<4>($($a),*)), 5 => T8::F($f::<5>($($a),*)), 6 => T8::G($f::<6>($($a),*)), _ => T8::H($f::<7>($($a),*)) }
        };
    }
    fn d<const K: u8>(v: u32) -> D<K> { D(v) }
    fn x<const K: u8>(v: u32) -> D<{ K }> { D(!v) }
    fn o<const K: u8>(s: bool, v: u32) -> Option<D<K>> { if s { Some(D(v)) } else { None } }
    fn r<const K: u8>(s: bool, v: u32) -> Result<D<K>, D<K>> { if s { Ok(D(v)) } else { Err(D(!v)) } }
    fn rk<const K: u8>(s: bool, v: u32) -> Result<D<K>, D<9>> { if s { Ok(D(v)) } else { Err(D(!v)) } }
    fn re<const K: u8>(s: bool, v: u32) -> Result<D<9>, D<K>> { if s { Ok(D(v)) } else { Err(D(!v)) } }
    /// Nothing is dropped by the conversion, and afterwards `r` holds `dr` droppable values.
    macro_rules! same {
        ($e:expr, $want:expr, $n:expr, $hash:expr) => {{
            reset();
            let got = $e;
            assert!(n() == 0, "a value was dropped by the conversion");
            let want = core::mem::ManuallyDrop::new($want);
            assert!(got == *want, "another variant or value");
            drop(got);
            assert!(n() == $n && h() == $hash, "a value was lost or duplicated");
        }};
    }
    crate::harnesses! {
        [10] option(s) {
            let (w, k, v) = (s.below(8), s.bool(), s.u32());
            same!(all!(w, o, k, v).transpose(), if k { Some(all!(w, d, v)) } else { None }, k as u32, if k { v ^ (w as u32) << 24 } else { 0 });
        }
        [10] result(s) {
            let (w, k, v) = (s.below(8), s.bool(), s.u32());
            same!(all!(w, r, k, v).transpose(), if k { Ok(all!(w, d, v)) } else { Err(all!(w, x, v)) }, 1, if k { v } else { !v } ^ (w as u32) << 24);
        }
        [10] ok_side(s) {
            let (w, k, v) = (s.below(8), s.bool(), s.u32());
            same!(all!(w, rk, k, v).transpose_ok(), if k { Ok(all!(w, d, v)) } else { Err(D::<9>(!v)) }, 1, if k { v ^ (w as u32) << 24 } else { !v ^ 9 << 24 });
        }
        [10] err_side(s) {
            let (w, k, v) = (s.below(8), s.bool(), s.u32());
            same!(all!(w, re, k, v).transpose_err(), if k { Ok(D::<9>(v)) } else { Err(all!(w, x, v)) }, 1, if k { v ^ 9 << 24 } else { !v ^ (w as u32) << 24 });
        }
        [10] twice(s) {
            // Option of Result: one layer at a time
            let (w, a, b, v) = (s.below(4), s.bool(), s.bool(), s.u32());
            let x = if a { Some(if b { Ok(v) } else { Err(v as u8) }) } else { None };
            let e = match w { 0 => T4::A(x), 1 => T4::B(x), 2 => T4::C(x), _ => T4::D(x) };
            let t: Option<T4<Result<u32, u8>, Result<u32, u8>, Result<u32, u8>, Result<u32, u8>>> = e.transpose();
            assert!(t.is_some() == a);
            if let Some(t) = t {
                let u: Result<T4<u32, u32, u32, u32>, T4<u8, u8, u8, u8>> = t.transpose();
                assert!(match (w, u) {
                    (0, Ok(T4::A(q))) | (1, Ok(T4::B(q))) | (2, Ok(T4::C(q))) | (3, Ok(T4::D(q))) => b && q == v,
                    (0, Err(T4::A(q))) | (1, Err(T4::B(q))) | (2, Err(T4::C(q))) | (3, Err(T4::D(q))) => !b && q == v as u8,
                    _ => false,
                }, "another variant or value");
            }
        }
    }
}
/// Twenty variants.
pub mod many {
    #[auto_enums::enum_derive(Transpose)]
    #[derive(PartialEq)]
    pub enum T<V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19> { V0(V0), V1(V1), V2(V2), V3(V3), V4(V4), V5(V5), V6(V6), V7(V7), V8(V8), V9(V9), V10(V10), V11(V11), V12(V12), V13(V13), V14(V14), V15(V15), V16(V16), V17(V17), V18(V18), V19(V19) }
    type All<X> = T<X, X, X, X, X, X, X, X, X, X, X, X, X, X, X, X, X, X, X, X>;
    fn mk<X>(w: u8, x: X) -> All<X> {
        match w { 0 => T::V0(x), 1 => T::V1(x), 2 => T::V2(x), 3 => T::V3(x), 4 => T::V4(x), 5 => T::V5(x), 6 => T::V6(x), 7 => T::V7(x), 8 => T::V8(x), 9 => T::V9(x), 10 => T::V10(x), 11 => T::V11(x), 12 => T::V12(x), 13 => T::V13(x), 14 => T::V14(x), 15 => T::V15(x), 16 => T::V16(x), 17 => T::V17(x), 18 => T::V18(x), _ => T::V19(x), }
    }
    crate::harnesses! {
        [4] conversions(s) {
            let (w, k, v) = (s.below(20), s.bool(), s.u32());
            assert!(mk(w, if k { Some(v) } else { None }).transpose() == if k { Some(mk(w, v)) } else { None });
            let r: Result<u32, u64> = if k { Ok(v) } else { Err(v as u64 + 7) };
            assert!(mk(w, r).transpose() == if k { Ok(mk(w, v)) } else { Err(mk(w, v as u64 + 7)) });
            assert!(mk(w, r).transpose_ok() == if k { Ok(mk(w, v)) } else { Err(v as u64 + 7) });
            assert!(mk(w, r).transpose_err() == if k { Ok(v) } else { Err(mk(w, v as u64 + 7)) });
        }
    }
}
/// As documented: #[auto_enum(Transpose, ..)] with the conversion called on the annotated expression.
pub mod auto {
    use super::*;
    use auto_enums::auto_enum;
    pub struct I<const K: u8>(u32);
    impl<const K: u8> Iterator for I<K> {
        type Item = u32;
        fn next(&mut self) -> Option<u32> { let r = self.0; self.0 = r.wrapping_add(1); Some(r ^ K as u32) }
    }
    fn i<const K: u8>(k: bool, v: u32) -> Result<I<K>, u32> { if k { Ok(I(v)) } else { Err(v ^ K as u32) } }
    fn q<const K: u8>(k: bool, v: u32) -> Option<I<K>> { if k { Some(I(v)) } else { None } }
    fn e<const K: u8>(k: bool, v: u32) -> Result<u32, I<K>> { if k { Ok(v ^ K as u32) } else { Err(I(v)) } }
    #[auto_enum(Transpose, Iterator)]
    fn ok(w: u8, k: bool, v: u32) -> Result<impl Iterator<Item = u32>, u32> {
        match w { 0 => i::<0>(k, v), 1 => i::<1>(k, v), _ => i::<2>(k, v) }.transpose_ok()
    }
    #[auto_enum(Iterator, Transpose)]
    fn opt(w: u8, k: bool, v: u32) -> Option<impl Iterator<Item = u32>> {
        if w == 0 { q::<0>(k, v) } else if w == 1 { q::<1>(k, v) } else { q::<2>(k, v) }.transpose()
    }
    #[auto_enum]
    fn err(w: u8, k: bool, v: u32) -> Result<u32, impl Iterator<Item = u32>> {
        #[auto_enum(Transpose, Iterator)]
        let x = match w { 0 => e::<0>(k, v), 1 => e::<1>(k, v), _ => e::<2>(k, v) };
        x.transpose_err()
    }
    crate::harnesses! {
        [6] conversions(s) {
            let (w, k, v) = (s.below(3), s.bool(), s.u32());
            match ok(w, k, v) {
                Ok(mut x) => assert!(k && x.next() == Some(v ^ w as u32) && x.next() == Some(v.wrapping_add(1) ^ w as u32)),
                Err(x) => assert!(!k && x == v ^ w as u32),
            }
            match opt(w, k, v) {
                Some(mut x) => assert!(k && x.next() == Some(v ^ w as u32)),
                None => assert!(!k),
            }
            match err(w, k, v) {
                Ok(x) => assert!(k && x == v ^ w as u32),
                Err(mut x) => assert!(!k && x.next() == Some(v ^ w as u32)),
            }
        }
    }
}
#[cfg(not(kani))]
pub const TABLES: &[(&str, &[(&str, fn(&mut Src))])] = &[("c10", TABLE), ("c10::owned", owned::TABLE), ("c10::many", many::TABLE), ("c10::auto", auto::TABLE)];
