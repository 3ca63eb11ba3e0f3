//! A payload that implements every supported standard-library trait, and probes for which of them a
//! type implements.
use crate::support::{c, ev, n, v};
use core::{
    fmt,
    ops::{Bound, CoroutineState},
    pin::Pin,
    task::{Context, Poll},
};
use std::io;

macro_rules! payload {
    ($t:ty, [$($g:tt)*], $k:expr) => {
        impl<$($g)*> $t {
            pub(crate) fn hit(&self, m: u32) -> u32 {
                let r = self.st.rotate_left(m) ^ ($k)(self) ^ m;
                ev(r);
                r
            }
            pub(crate) fn hit_mut(&mut self, m: u32) -> u32 {
                self.st = self.hit(m);
                self.st
            }
        }
        impl<$($g)*> Iterator for $t {
            type Item = u32;
            fn next(&mut self) -> Option<u32> {
                let x = self.hit_mut(1);
                (x & 1 == 0).then_some(x)
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                (self.hit(2) as usize, Some(self.st as usize))
            }
        }
        impl<$($g)*> DoubleEndedIterator for $t {
            fn next_back(&mut self) -> Option<u32> {
                Some(self.hit_mut(3))
            }
        }
        impl<$($g)*> ExactSizeIterator for $t {
            fn len(&self) -> usize {
                self.hit(4) as usize
            }
        }
        impl<$($g)*> core::iter::FusedIterator for $t {}
        unsafe impl<$($g)*> core::iter::TrustedLen for $t {}
        impl<$($g)*> Extend<u32> for $t {
            fn extend<I: IntoIterator<Item = u32>>(&mut self, i: I) {
                for x in i {
                    self.st ^= x;
                    self.hit_mut(5);
                }
            }
        }
        payload!(@fmt $t, [$($g)*], Debug 6 Display 7 Binary 8 Octal 9 LowerHex 10 UpperHex 11 LowerExp 12 UpperExp 13 Pointer 14);
        impl<$($g)*> fmt::Write for $t {
            fn write_str(&mut self, s: &str) -> fmt::Result {
                self.st ^= s.len() as u32;
                if self.hit_mut(15) & 1 == 0 { Ok(()) } else { Err(fmt::Error) }
            }
        }
        impl<$($g)*> core::error::Error for $t {}
        impl<$($g)*> core::ops::Deref for $t {
            type Target = u32;
            fn deref(&self) -> &u32 {
                self.hit(16);
                &self.st
            }
        }
        impl<$($g)*> core::ops::DerefMut for $t {
            fn deref_mut(&mut self) -> &mut u32 {
                self.hit_mut(17);
                &mut self.st
            }
        }
        impl<$($g)*> core::ops::Index<u8> for $t {
            type Output = u32;
            fn index(&self, i: u8) -> &u32 {
                self.hit(18 ^ i as u32);
                &self.st
            }
        }
        impl<$($g)*> core::ops::IndexMut<u8> for $t {
            fn index_mut(&mut self, i: u8) -> &mut u32 {
                self.hit_mut(19 ^ i as u32);
                &mut self.st
            }
        }
        impl<$($g)*> core::ops::RangeBounds<u32> for $t {
            fn start_bound(&self) -> Bound<&u32> {
                self.hit(20);
                Bound::Included(&self.st)
            }
            fn end_bound(&self) -> Bound<&u32> {
                self.hit(21);
                Bound::Excluded(&self.st)
            }
        }
        impl<$($g)*> AsRef<u32> for $t {
            fn as_ref(&self) -> &u32 {
                self.hit(22);
                &self.st
            }
        }
        impl<$($g)*> AsMut<u32> for $t {
            fn as_mut(&mut self) -> &mut u32 {
                self.hit_mut(23);
                &mut self.st
            }
        }
        impl<$($g)*> FnOnce<(u32,)> for $t {
            type Output = u32;
            extern "rust-call" fn call_once(mut self, a: (u32,)) -> u32 {
                self.st ^= a.0;
                self.hit_mut(24)
            }
        }
        impl<$($g)*> FnMut<(u32,)> for $t {
            extern "rust-call" fn call_mut(&mut self, a: (u32,)) -> u32 {
                self.st ^= a.0;
                self.hit_mut(25)
            }
        }
        impl<$($g)*> Fn<(u32,)> for $t {
            extern "rust-call" fn call(&self, a: (u32,)) -> u32 {
                self.hit(26) ^ a.0
            }
        }
        impl<$($g)*> core::ops::Coroutine<u32> for $t {
            type Yield = u32;
            type Return = u8;
            fn resume(mut self: Pin<&mut Self>, a: u32) -> CoroutineState<u32, u8> {
                self.st ^= a;
                let x = self.hit_mut(27);
                if x & 1 == 0 { CoroutineState::Yielded(x) } else { CoroutineState::Complete(x as u8) }
            }
        }
        impl<$($g)*> core::future::Future for $t {
            type Output = u32;
            fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<u32> {
                let x = self.hit_mut(28);
                if x & 1 == 0 { Poll::Ready(x) } else { Poll::Pending }
            }
        }
        impl<$($g)*> io::Read for $t {
            fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
                b[0] = self.hit_mut(29) as u8;
                Ok(1)
            }
        }
        impl<$($g)*> io::BufRead for $t {
            fn fill_buf(&mut self) -> io::Result<&[u8]> {
                self.hit_mut(30);
                Ok(&BUF[(self.st & 3) as usize..])
            }
            fn consume(&mut self, k: usize) {
                self.st ^= k as u32;
                self.hit_mut(31);
            }
        }
        impl<$($g)*> io::Write for $t {
            fn write(&mut self, b: &[u8]) -> io::Result<usize> {
                self.st ^= b[0] as u32;
                Ok(self.hit_mut(32) as usize & 1)
            }
            fn flush(&mut self) -> io::Result<()> {
                self.hit_mut(33);
                Ok(())
            }
        }
        impl<$($g)*> io::Seek for $t {
            fn seek(&mut self, p: io::SeekFrom) -> io::Result<u64> {
                Ok(self.hit_mut(34) as u64 ^ match p { io::SeekFrom::Start(x) => x, _ => 3 })
            }
        }
    };
    (@fmt $t:ty, $g:tt, $($n:ident $m:literal)*) => { $( payload!(@fmt1 $t, $g, $n $m); )* };
    (@fmt1 $t:ty, [$($g:tt)*], $n:ident $m:literal) => {
        impl<$($g)*> fmt::$n for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.hit($m);
                f.write_str("ab")
            }
        }
    };
}
static BUF: [u8; 4] = [9, 8, 7, 6];
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Z<const K: u32> {
    pub(crate) st: u32,
}
/// The same payload with the number of its variant at run time; ordered by variant first, as the
/// standard derives order enums.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct ZD {
    k: u32,
    pub(crate) st: u32,
}
payload!(Z<K>, [const K: u32], |_: &Self| K);
payload!(ZD, [], |s: &Self| s.k);
pub fn za<const K: u32>() -> Z<K> {
    Z { st: v() ^ ((n() as u32) << 3) }
}
pub fn zr<const K: u32>() -> ZD {
    ZD { k: K, st: v() ^ ((n() as u32) << 3) }
}

/// Which traits a type implements.
pub struct Pr<X>(core::marker::PhantomData<X>);
pub fn pr<X>(_: &X) -> Pr<X> {
    Pr(core::marker::PhantomData)
}
macro_rules! probes {
    ($($m:ident $bit:literal $($t:path)?;)*) => {
        pub trait No {
            $( fn $m(&self) -> u64 { 0 } )*
        }
        impl<X> No for Pr<X> {}
        $( impl<X: $($t)?> Pr<X> { pub fn $m(&self) -> u64 { 1 << $bit } } )*
        macro_rules! mask_a {
            ($e:expr) => {{ use $crate::c12s::No; let p = $crate::c12s::pr(&$e); 0 $( | p.$m() )* }};
        }
        pub(crate) use mask_a;
    };
}
probes! {
    iterator 0 Iterator; double_ended 1 DoubleEndedIterator; exact_size 2 ExactSizeIterator; fused 3 core::iter::FusedIterator;
    trusted_len 4 core::iter::TrustedLen; extend 5 Extend<u32>; debug 6 fmt::Debug; display 7 fmt::Display; binary 8 fmt::Binary;
    octal 9 fmt::Octal; lower_hex 10 fmt::LowerHex; upper_hex 11 fmt::UpperHex; lower_exp 12 fmt::LowerExp; upper_exp 13 fmt::UpperExp;
    pointer 14 fmt::Pointer; fmt_write 15 fmt::Write; error 16 core::error::Error; deref 17 core::ops::Deref<Target = u32>;
    deref_mut 18 core::ops::DerefMut<Target = u32>; index 19 core::ops::Index<u8>; index_mut 20 core::ops::IndexMut<u8>;
    range_bounds 21 core::ops::RangeBounds<u32>; as_ref_ 22 AsRef<u32>; as_mut_ 23 AsMut<u32>; fn_once 24 FnOnce(u32) -> u32;
    fn_mut 25 FnMut(u32) -> u32; fn_ 26 Fn(u32) -> u32; coroutine 27 core::ops::Coroutine<u32>; future 28 core::future::Future;
    read 29 io::Read; buf_read 30 io::BufRead; write 31 io::Write; seek 32 io::Seek; clone_ 33 Clone; copy 34 Copy;
    partial_eq 35 PartialEq; eq_ 36 Eq; partial_ord 37 PartialOrd; ord 38 Ord; hash 39 core::hash::Hash;
}

/// One use of each trait; `u::<trait>(&mut x)` has the same effects and value on an enum and on its payload.
pub mod u {
    use super::*;
    struct Sink(u32);
    impl fmt::Write for Sink {
        fn write_str(&mut self, s: &str) -> fmt::Result {
            self.0 = self.0.rotate_left(3) ^ s.len() as u32;
            Ok(())
        }
    }
    fn o(x: Option<u32>) -> u32 {
        x.unwrap_or(11)
    }
    pub fn iterator<X: Iterator<Item = u32>>(x: &mut X) -> u32 {
        o(x.next()) ^ x.size_hint().0 as u32
    }
    pub fn double_ended<X: DoubleEndedIterator<Item = u32>>(x: &mut X) -> u32 {
        o(x.next_back())
    }
    pub fn exact_size<X: ExactSizeIterator>(x: &mut X) -> u32 {
        x.len() as u32
    }
    pub fn extend<X: Extend<u32>>(x: &mut X) -> u32 {
        x.extend([v(), 4]);
        0
    }
    macro_rules! f {
        ($($n:ident $t:ident)*) => { $(
            pub fn $n<X: fmt::$t>(x: &mut X) -> u32 {
                let mut s = Sink(1);
                let r = fmt::$t::fmt(&*x, &mut fmt::Formatter::new(&mut s, fmt::FormattingOptions::new())).is_ok();
                s.0 ^ r as u32
            }
        )* };
    }
    f!(debug Debug display Display binary Binary octal Octal lower_hex LowerHex upper_hex UpperHex
       lower_exp LowerExp upper_exp UpperExp pointer Pointer);
    pub fn fmt_write<X: fmt::Write>(x: &mut X) -> u32 {
        x.write_str("abc").is_ok() as u32
    }
    pub fn deref<X: core::ops::Deref<Target = u32>>(x: &mut X) -> u32 {
        **x
    }
    pub fn deref_mut<X: core::ops::DerefMut<Target = u32>>(x: &mut X) -> u32 {
        **x ^= 5;
        3
    }
    pub fn index<X: core::ops::Index<u8, Output = u32>>(x: &mut X) -> u32 {
        x[3]
    }
    pub fn index_mut<X: core::ops::IndexMut<u8, Output = u32>>(x: &mut X) -> u32 {
        x[2] ^= 9;
        4
    }
    pub fn range_bounds<X: core::ops::RangeBounds<u32>>(x: &mut X) -> u32 {
        let f = |b: Bound<&u32>| match b {
            Bound::Included(x) => *x,
            Bound::Excluded(x) => *x ^ 64,
            Bound::Unbounded => 3,
        };
        f(x.start_bound()) ^ f(x.end_bound()).rotate_left(9)
    }
    pub fn as_ref_<X: AsRef<u32>>(x: &mut X) -> u32 {
        *(*x).as_ref()
    }
    pub fn as_mut_<X: AsMut<u32>>(x: &mut X) -> u32 {
        *(*x).as_mut() ^= 17;
        6
    }
    pub fn fn_mut<X: FnMut(u32) -> u32>(x: &mut X) -> u32 {
        x(5)
    }
    pub fn fn_<X: Fn(u32) -> u32>(x: &mut X) -> u32 {
        (*x)(6)
    }
    pub fn coroutine<X: core::ops::Coroutine<u32, Yield = u32, Return = u8>>(x: &mut X) -> u32 {
        match unsafe { Pin::new_unchecked(x) }.resume(7) {
            CoroutineState::Yielded(a) => a,
            CoroutineState::Complete(a) => a as u32 ^ 0x80,
        }
    }
    pub fn future<X: core::future::Future<Output = u32>>(x: &mut X) -> u32 {
        let mut cx = Context::from_waker(core::task::Waker::noop());
        match unsafe { Pin::new_unchecked(x) }.poll(&mut cx) {
            Poll::Ready(x) => x,
            Poll::Pending => 1,
        }
    }
    pub fn read<X: io::Read>(x: &mut X) -> u32 {
        let mut b = [0; 2];
        match x.read(&mut b) {
            Ok(k) => k as u32 ^ b[0] as u32,
            Err(_) => 99,
        }
    }
    pub fn buf_read<X: io::BufRead>(x: &mut X) -> u32 {
        let r = match x.fill_buf() {
            Ok(b) => b[0] as u32,
            Err(_) => 98,
        };
        x.consume(3);
        r
    }
    pub fn write<X: io::Write>(x: &mut X) -> u32 {
        let a = matches!(x.write(&[7]), Ok(1)) as u32;
        a ^ (x.flush().is_ok() as u32) << 1
    }
    pub fn seek<X: io::Seek>(x: &mut X) -> u32 {
        match x.seek(io::SeekFrom::Start(9)) {
            Ok(a) => a as u32,
            Err(_) => 97,
        }
    }
    pub fn clone_<X: Clone>(x: &mut X) -> u32 {
        let _y = x.clone();
        1
    }
    pub fn partial_eq<X: PartialEq + Clone>(x: &mut X) -> u32 {
        (*x == x.clone()) as u32
    }
    pub fn partial_ord<X: PartialOrd>(x: &mut X) -> u32 {
        (*x <= *x) as u32
    }
}
