//! C01: Iterator, DoubleEndedIterator, ExactSizeIterator, FusedIterator, TrustedLen, Extend.
use crate::support::*;
use core::iter::{FusedIterator, TrustedLen};

/// Collects what closures and collections see.
#[derive(PartialEq, Eq, Clone, Copy, Debug, Default)]
pub struct Log(pub u64, pub u8);
impl Log {
    pub fn put(&mut self, v: u64) {
        self.0 = self.0.rotate_left(7) ^ v;
        self.1 += 1;
    }
}
impl FromIterator<u64> for Log {
    fn from_iter<T: IntoIterator<Item = u64>>(t: T) -> Self {
        let mut l = Log(7, 0);
        for x in t {
            l.put(x)
        }
        l
    }
}
impl Extend<u64> for Log {
    fn extend<T: IntoIterator<Item = u64>>(&mut self, t: T) {
        for x in t {
            self.put(x)
        }
    }
}
impl<const K: u8> Iterator for P<'_, K> {
    type Item = u64;
    fn next(&mut self) -> Option<u64> {
        let (h, v) = self.hit(1, 0);
        if h & 3 == 0 { None } else { Some(v) }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (h, v) = self.hit(2, 0);
        (v as usize, if h & 1 == 0 { None } else { Some((v ^ h.rotate_left(32)) as usize) })
    }
    fn count(self) -> usize {
        self.hit(3, 0).1 as usize
    }
    fn last(self) -> Option<u64> {
        let (h, v) = self.hit(4, 0);
        if h & 1 == 0 { None } else { Some(v) }
    }
    fn nth(&mut self, n: usize) -> Option<u64> {
        let (h, v) = self.hit(5, n as u64);
        if h & 1 == 0 { None } else { Some(v) }
    }
    fn collect<B: FromIterator<u64>>(self) -> B {
        let (h, v) = self.hit(6, 0);
        B::from_iter([v, v ^ 5].into_iter().take((h & 3) as usize))
    }
    fn partition<B, F>(self, mut f: F) -> (B, B)
    where
        B: Default + Extend<u64>,
        F: FnMut(&u64) -> bool,
    {
        let (h, v) = self.hit(7, 0);
        let (mut a, mut b) = (B::default(), B::default());
        if f(&v) { a.extend(Some(v)) } else { b.extend(Some(v)) }
        (b, a) // deliberately swapped: only this override does it
    }
    fn fold<B, F: FnMut(B, u64) -> B>(self, init: B, mut f: F) -> B {
        let (h, v) = self.hit(8, 0);
        let b = f(init, v);
        f(b, h ^ 1)
    }
    fn all<F: FnMut(u64) -> bool>(&mut self, mut f: F) -> bool {
        let (h, v) = self.hit(9, 0);
        f(v) ^ (h & 1 == 1)
    }
    fn any<F: FnMut(u64) -> bool>(&mut self, mut f: F) -> bool {
        let (h, v) = self.hit(10, 0);
        f(v) ^ (h & 1 == 1)
    }
    fn find<F: FnMut(&u64) -> bool>(&mut self, mut f: F) -> Option<u64> {
        let (h, v) = self.hit(11, 0);
        if f(&v) { Some(v ^ h) } else { None }
    }
    fn find_map<B, F: FnMut(u64) -> Option<B>>(&mut self, mut f: F) -> Option<B> {
        let (h, v) = self.hit(12, 0);
        f(v)
    }
    fn position<F: FnMut(u64) -> bool>(&mut self, mut f: F) -> Option<usize> {
        let (h, v) = self.hit(13, 0);
        if f(h) { Some(v as usize) } else { None }
    }
}
impl<const K: u8> DoubleEndedIterator for P<'_, K> {
    fn next_back(&mut self) -> Option<u64> {
        let (h, v) = self.hit(21, 0);
        if h & 3 == 0 { None } else { Some(v) }
    }
    fn nth_back(&mut self, n: usize) -> Option<u64> {
        let (h, v) = self.hit(22, n as u64);
        if h & 1 == 0 { None } else { Some(v) }
    }
    fn rfold<B, F: FnMut(B, u64) -> B>(self, init: B, mut f: F) -> B {
        let (h, v) = self.hit(23, 0);
        let b = f(init, v);
        f(b, h ^ 1)
    }
    fn rfind<F: FnMut(&u64) -> bool>(&mut self, mut f: F) -> Option<u64> {
        let (h, v) = self.hit(24, 0);
        if f(&v) { Some(v ^ h) } else { None }
    }
}
impl<const K: u8> ExactSizeIterator for P<'_, K> {
    fn len(&self) -> usize {
        self.hit(31, 0).1 as usize
    }
}
impl<const K: u8> FusedIterator for P<'_, K> {}
unsafe impl<const K: u8> TrustedLen for P<'_, K> {}
impl<const K: u8> Extend<u64> for P<'_, K> {
    fn extend<T: IntoIterator<Item = u64>>(&mut self, t: T) {
        self.hit(41, 0);
        for x in t {
            self.hit(42, x);
        }
    }
}
impl<'t, const K: u8> Extend<&'t u8> for P<'_, K> {
    fn extend<T: IntoIterator<Item = &'t u8>>(&mut self, t: T) {
        self.hit(43, 0);
        for x in t {
            self.hit(44, *x as u64);
        }
    }
}

shapes!(Iterator, DoubleEndedIterator, ExactSizeIterator, FusedIterator, TrustedLen);
fn all_traits<T: Iterator<Item = u64> + DoubleEndedIterator + ExactSizeIterator + FusedIterator + TrustedLen>() {}

pub mod h {
    use super::*;
    for_shapes! {
        [4] next<E>(s) { all_traits::<E>(); diff!(s, E, |x| (x.next(), x.next())) }
        [4] size_hint<E>(s) { diff!(s, E, |x| x.size_hint()) }
        [4] len<E>(s) { diff!(s, E, |x| x.len()) }
        [4] count<E>(s) { diff_val!(s, E, |x| x.count()) }
        [4] last<E>(s) { diff_val!(s, E, |x| x.last()) }
        [4] nth<E>(s) { diff!(s, E, |x| x.nth(s.usize())) }
        [4] collect<E>(s) { diff_val!(s, E, |x| { let l: Log = x.collect(); l }) }
        [4] partition<E>(s) { diff_val!(s, E, |x| {
            let (m, mut l) = (s.u64(), Log(0, 0));
            let r: (Log, Log) = x.partition(|v| { l.put(*v); *v & m == 0 });
            (r, l) }) }
        [4] fold<E>(s) { diff_val!(s, E, |x| {
            let mut l = Log(0, 0);
            let r = x.fold(s.u64(), |a, v| { l.put(v); a.rotate_left(3) ^ v });
            (r, l) }) }
        [4] all<E>(s) { diff!(s, E, |x| { let (m, mut l) = (s.u64(), Log(0, 0)); let r = x.all(|v| { l.put(v); v & m == 0 }); (r, l) }) }
        [4] any<E>(s) { diff!(s, E, |x| { let (m, mut l) = (s.u64(), Log(0, 0)); let r = x.any(|v| { l.put(v); v & m == 0 }); (r, l) }) }
        [4] find<E>(s) { diff!(s, E, |x| { let (m, mut l) = (s.u64(), Log(0, 0)); let r = x.find(|v| { l.put(*v); *v & m == 0 }); (r, l) }) }
        [4] find_map<E>(s) { diff!(s, E, |x| { let (m, mut l) = (s.u64(), Log(0, 0)); let r = x.find_map(|v| { l.put(v); if v & m == 0 { Some(v as u128) } else { None } }); (r, l) }) }
        [4] position<E>(s) { diff!(s, E, |x| { let (m, mut l) = (s.u64(), Log(0, 0)); let r = x.position(|v| { l.put(v); v & m == 0 }); (r, l) }) }
        [4] next_back<E>(s) { diff!(s, E, |x| (x.next_back(), x.next_back())) }
        [4] nth_back<E>(s) { diff!(s, E, |x| x.nth_back(s.usize())) }
        [4] rfold<E>(s) { diff_val!(s, E, |x| {
            let mut l = Log(0, 0);
            let r = x.rfold(s.u64(), |a, v| { l.put(v); a.rotate_left(3) ^ v });
            (r, l) }) }
        [4] rfind<E>(s) { diff!(s, E, |x| { let (m, mut l) = (s.u64(), Log(0, 0)); let r = x.rfind(|v| { l.put(*v); *v & m == 0 }); (r, l) }) }
        [4] history<E>(s) { diff!(s, E, |x| {
            let mut out = [None; 3];
            let mut i = 0;
            while i < 3 {
                let n = s.usize();
                out[i] = match s.below(6) {
                    0 => x.next(),
                    1 => x.next_back(),
                    2 => x.nth(n),
                    3 => x.nth_back(n),
                    4 => Some(x.size_hint().0 as u64),
                    _ => x.find(|v| *v & 1 == 0),
                };
                i += 1;
            }
            out }) }
    }
}
pub mod ext {
    use crate::support::*;
    shapes_gen!(Extend);
    pub mod h {
        use super::*;
        for_shapes! {
            [4] extend<E>(s) { diff!(s, E, |x| { let n = s.below(3) as usize; Extend::<u64>::extend(&mut x, [s.u64(), s.u64()].into_iter().take(n)) }) }
            [4] extend_ref<E>(s) { diff!(s, E, |x| { let a = [s.u8(), s.u8()]; let n = s.below(3) as usize; x.extend(&a[..n]) }) }
        }
    }
}
/// Defaults the derive does not forward still agree for lawful iterators (ranges).
pub mod lawful {
    use core::ops::Range;
    #[auto_enums::enum_derive(Iterator, DoubleEndedIterator)]
    pub enum L<A, B> { A(A), B(B) }
    type T = L<Range<u8>, core::iter::Rev<Range<u8>>>;
    fn mk(w: bool, lo: u8, hi: u8) -> T {
        if w { L::A(lo..hi) } else { L::B((lo..hi).rev()) }
    }
    /// `body` on the enum and on the payload it holds.
    macro_rules! same {
        ($w:ident, $lo:ident, $hi:ident, |$x:ident| $e:expr) => {
            #[allow(unused_mut)]
            let a = { let mut $x = mk($w, $lo, $hi); $e };
            #[allow(unused_mut)]
            let b = if $w { let mut $x = $lo..$hi; $e } else { let mut $x = ($lo..$hi).rev(); $e };
            assert!(a == b, "a provided method differs from the payload's");
        };
    }
    macro_rules! provided {
        ($($name:ident $x:ident $k:ident: $($e:expr),*;)*) => { crate::harnesses! { $(
            [6] $name(s) {
                let (w, lo, n, $k) = (s.bool(), s.u8(), s.below(4), s.u8());
                crate::support::assume(lo < 250);
                let hi = lo + n;
                $( same!(w, lo, hi, |$x| $e); )*
            }
        )* } };
    }
    provided! {
        extremes x k: Iterator::max(x), Iterator::min(x), x.max_by_key(|v| v ^ k), x.min_by_key(|v| v ^ k), x.max_by(|a, b| (a ^ k).cmp(&(b ^ k))), x.min_by(|a, b| (a ^ k).cmp(&(b ^ k)));
        sums x k: x.map(|v| (v ^ k) as u32).sum::<u32>(), x.map(|v| v as u64 + 1).product::<u64>(), x.reduce(|a, b| a.rotate_left(3) ^ b);
        order x k: x.cmp([k, k ^ 1].into_iter()), x.partial_cmp([k, k].into_iter()), x.eq([k, k.wrapping_add(1)].into_iter()), x.ne([k].into_iter());
        order2 x k: x.lt([k, k ^ 1].into_iter()), x.le([k].into_iter()), x.gt([k, 3].into_iter()), x.ge([k, k].into_iter());
        sorted x k: x.is_sorted(), x.is_sorted_by_key(|v| v ^ k);
        steps x k: { let mut y = x.step_by(2); (y.next(), y.next(), y.next()) }, { let mut y = x.skip(k as usize); (y.next(), y.size_hint()) }, { let mut y = x.take(k as usize); (y.next(), y.next(), y.size_hint()) };
        whiles x k: { let mut y = x.skip_while(|v| *v & k == 0); (y.next(), y.next()) }, { let mut y = x.take_while(|v| *v & k == 0); (y.next(), y.next()) }, { let mut y = x.map_while(|v| if v & k == 0 { Some(v) } else { None }); (y.next(), y.next()) };
        adapt x k: { let mut y = x.filter(|v| *v & k == 0); (y.next(), y.next()) }, { let mut y = x.filter_map(|v| if v & k == 0 { Some(v as u16) } else { None }); (y.next_back(), y.next()) }, { let mut y = x.enumerate(); (y.next(), y.next()) };
        adapt2 x k: { let mut y = x.zip([k, k ^ 1, 3]); (y.next(), y.next()) }, { let mut y = x.chain(Some(k)); (y.next(), y.next(), y.next_back()) }, { let mut y = x.peekable(); (y.peek().copied(), y.next(), y.next_if_eq(&k)) };
        adapt3 x k: { let mut y = x.fuse(); (y.next(), y.nth(k as usize), y.next()) }, { let mut y = x.scan(k, |a, v| { *a ^= v; Some(*a) }); (y.next(), y.next()) }, { let mut y = x.flat_map(|v| [v, v ^ k]); (y.next(), y.next(), y.next_back()) };
        tries x k: x.try_fold(k, |a, v| a.checked_add(v)), (x.try_for_each(|v| if v & k == 0 { Ok(()) } else { Err(v) }), x.next()), x.try_rfold(k, |a, v| a.checked_add(v));
        rest x k: x.rev().next(), { let mut l = 0u32; x.for_each(|v| l = l.rotate_left(8) ^ (v ^ k) as u32); l }, { let (a, b) = (x.by_ref().take(1).count(), x.next()); (a, b) }, { let mut y = x.rev(); (y.nth(1), y.next_back()) };
    }
    pub mod one {
        use super::*;
        crate::harnesses! {
        [6] defaults(s) {
            let (w, lo, n) = (s.bool(), s.u8(), s.below(4));
            crate::support::assume(lo < 250);
            let hi = lo + n;
            let max = mk(w, lo, hi).max();
            assert!(max == if n == 0 { None } else { Some(hi - 1) });
            assert!(mk(w, lo, hi).step_by(2).count() == (n as usize + 1) / 2);
            let mut it = mk(w, lo, hi);
            let f = it.next();
            assert!(f == if n == 0 { None } else if w { Some(lo) } else { Some(hi - 1) });
            assert!(it.rev().count() == (n as usize).saturating_sub(1));
        }
    }
    }
}
#[cfg(not(kani))]
pub const TABLES: &[(&str, &[(&str, fn(&mut Src))])] = &[("c01::h", h::SHAPED), ("c01::ext::h", ext::h::SHAPED), ("c01::lawful", lawful::TABLE), ("c01::lawful::one", lawful::one::TABLE)];
