//! C04: Deref, DerefMut, Index, IndexMut, RangeBounds, AsRef, AsMut, Fn, FnMut, FnOnce.
use crate::support::*;
use core::ops::{Bound, Deref, DerefMut, Index, IndexMut, RangeBounds};

impl<const K: u8> Deref for P<'_, K> {
    type Target = [u8; 4];
    fn deref(&self) -> &[u8; 4] {
        self.hit(1, 0);
        &self.buf
    }
}
impl<const K: u8> DerefMut for P<'_, K> {
    fn deref_mut(&mut self) -> &mut [u8; 4] {
        self.hit(2, 0);
        &mut self.buf
    }
}
pub mod refs {
    use super::*;
    shapes!(Deref, DerefMut);
    pub mod h {
        use super::*;
        for_shapes! {
            [5] deref<E>(s) { diff!(s, E, |x| { let a = <_ as Addr>::a(&x) as usize; let t = Deref::deref(&x); (t[0], t as *const _ as usize - a) }) }
            [5] deref_mut<E>(s) { diff!(s, E, |x| { let a = <_ as Addr>::a(&x) as usize; let v = s.u8(); let t = DerefMut::deref_mut(&mut x); t[1] = v; t as *const _ as usize - a }) }
        }
    }
    addr!(g::T, c::T, b::T, m::T, w::T, o::T);
}




impl<const K: u8> Index<usize> for P<'_, K> {
    type Output = u8;
    fn index(&self, i: usize) -> &u8 {
        let (h, _) = self.hit(11, i as u64);
        &self.buf[(h & 3) as usize]
    }
}
impl<const K: u8> IndexMut<usize> for P<'_, K> {
    fn index_mut(&mut self, i: usize) -> &mut u8 {
        let (h, _) = self.hit(12, i as u64);
        &mut self.buf[(h & 3) as usize]
    }
}
impl<const K: u8> RangeBounds<u8> for P<'_, K> {
    fn start_bound(&self) -> Bound<&u8> {
        let (h, _) = self.hit(21, 0);
        bound(h, &self.buf[0])
    }
    fn end_bound(&self) -> Bound<&u8> {
        let (h, _) = self.hit(22, 0);
        bound(h, &self.buf[1])
    }
}
fn bound(h: u64, v: &u8) -> Bound<&u8> {
    match h & 3 {
        0 => Bound::Unbounded,
        1 => Bound::Included(v),
        _ => Bound::Excluded(v),
    }
}
impl<const K: u8> AsRef<u8> for P<'_, K> {
    fn as_ref(&self) -> &u8 {
        self.hit(31, 0);
        &self.buf[2]
    }
}
impl<const K: u8> AsRef<[u8]> for P<'_, K> {
    fn as_ref(&self) -> &[u8] {
        let (_, v) = self.hit(32, 0);
        self.lend(v)
    }
}
impl<const K: u8> AsMut<u8> for P<'_, K> {
    fn as_mut(&mut self) -> &mut u8 {
        self.hit(33, 0);
        &mut self.buf[2]
    }
}
impl<const K: u8> FnOnce<(u64,)> for P<'_, K> {
    type Output = u64;
    extern "rust-call" fn call_once(self, a: (u64,)) -> u64 {
        self.hit(41, a.0).1
    }
}
impl<const K: u8> FnMut<(u64,)> for P<'_, K> {
    extern "rust-call" fn call_mut(&mut self, a: (u64,)) -> u64 {
        self.hit(42, a.0).1
    }
}
impl<const K: u8> Fn<(u64,)> for P<'_, K> {
    extern "rust-call" fn call(&self, a: (u64,)) -> u64 {
        self.hit(43, a.0).1
    }
}
pub mod gen {
    use super::*;
    shapes_gen!(Index, IndexMut, RangeBounds, AsRef, AsMut);
    pub mod h {
        use super::*;
        for_shapes! {
            [5] index<E>(s) { diff!(s, E, |x| { let a = <_ as Addr>::a(&x) as usize; let i = s.usize(); let r = Index::index(&x, i); (*r, r as *const u8 as usize - a) }) }
            [5] index_mut<E>(s) { diff!(s, E, |x| { let a = <_ as Addr>::a(&x) as usize; let i = s.usize(); let r = IndexMut::index_mut(&mut x, i); *r = r.wrapping_add(3); r as *const u8 as usize - a }) }
            [5] start_bound<E>(s) { diff!(s, E, |x| bc(RangeBounds::<u8>::start_bound(&x))) }
            [5] end_bound<E>(s) { diff!(s, E, |x| bc(RangeBounds::<u8>::end_bound(&x))) }
            [5] as_ref<E>(s) { diff!(s, E, |x| { let a = <_ as Addr>::a(&x) as usize; let r: &u8 = x.as_ref(); (*r, r as *const u8 as usize - a) }) }
            [5] as_ref_slice<E>(s) { diff!(s, E, |x| { let a = <_ as Addr>::a(&x); lent(x.as_ref(), a) }) }
            [5] as_mut<E>(s) { diff!(s, E, |x| { let v = s.u8(); *x.as_mut() = v; }) }
        }
    }
    fn bc(b: Bound<&u8>) -> (u8, u8) {
        match b {
            Bound::Unbounded => (0, 0),
            Bound::Included(v) => (1, *v),
            Bound::Excluded(v) => (2, *v),
        }
    }
    addr!(g::T, c::T, b::T, m::T, w::T, o::T);
}
pub mod funs {
    use super::*;
    shapes_gen!(Fn);
    fn once<F: FnOnce(u64) -> u64>(f: F, a: u64) -> u64 { f(a) }
    fn mt<F: FnMut(u64) -> u64>(mut f: F, a: u64) -> (u64, u64) { (f(a), f(a ^ 1)) }
    fn shared<F: Fn(u64) -> u64>(f: F, a: u64) -> (u64, u64) { (f(a), f(a ^ 1)) }
    pub mod h {
        use super::*;
        for_shapes! {
            [5] call_once<E>(s) { diff_val!(s, E, |x| once(x, s.u64())) }
            [5] call_mut<E>(s) { diff!(s, E, |x| mt(&mut x, s.u64())) }
            [5] call<E>(s) { diff!(s, E, |x| shared(&x, s.u64())) }
        }
    }
}
pub mod funs_sep {
    use super::*;
    shapes_gen!(FnOnce, FnMut);
    pub mod h {
        use super::*;
        for_shapes! {
            [5] call_once<E>(s) { diff_val!(s, E, |x| FnOnce::call_once(x, (s.u64(),))) }
            [5] call_mut<E>(s) { diff!(s, E, |x| { let a = s.u64(); (FnMut::call_mut(&mut x, (a,)), FnMut::call_mut(&mut x, (a,))) }) }
        }
    }
}
/// Provided methods the derive does not forward agree for lawful payloads.
pub mod lawful {
    use core::ops::{Bound, RangeBounds};
    #[auto_enums::enum_derive(RangeBounds)]
    enum E<A, B, C> { A(A), B(B), C(C) }
    fn b(k: u8, v: u32) -> Bound<u32> {
        match k { 0 => Bound::Unbounded, 1 => Bound::Included(v), _ => Bound::Excluded(v) }
    }
    crate::harnesses! {
        [4] contains(s) {
            let (w, i, j, lo, hi, v) = (s.below(3), s.below(3), s.below(3), s.u32(), s.u32(), s.u32());
            let p = (b(i, lo), b(j, hi));
            let (e, want) = match w {
                0 => (E::A(p), p.contains(&v)),
                1 => (E::B(lo..hi), (lo..hi).contains(&v)),
                _ => (E::C(lo..=hi), (lo..=hi).contains(&v)),
            };
            assert!(RangeBounds::<u32>::contains(&e, &v) == want, "a provided method differs from the payload's");
        }
    }
}
#[cfg(not(kani))]
pub const TABLES: &[(&str, &[(&str, fn(&mut Src))])] = &[
    ("c04::refs::h", refs::h::SHAPED), ("c04::gen::h", gen::h::SHAPED),
    ("c04::funs::h", funs::h::SHAPED), ("c04::lawful", lawful::TABLE), ("c04::funs_sep::h", funs_sep::h::SHAPED),
];
