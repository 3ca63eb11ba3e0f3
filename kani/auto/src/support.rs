//! What corpus programs are made of: symbolic choices, an effect trace and result values.
//! `ta::<K>` builds a value of a type of its own per result site (used with the macro), `tr::<K>`
//! the same value in one common type (used in the reference program, which has no macro).
use core::cell::Cell;

/// Two runs are compared in C18, so it has twice the input.
pub const NB: usize = if cfg!(any(feature = "c18", feature = "c18k")) { 8 } else { 4 };
pub struct Env {
    pub bits: u32,
    pub val: u32,
    pub tr: u32,
}
static mut ENV: Env = Env { bits: 0, val: 0, tr: 0 };
fn env() -> &'static mut Env {
    unsafe { &mut *core::ptr::addr_of_mut!(ENV) }
}
pub fn reset(b: &[u8; NB]) {
    *env() = Env {
        bits: u32::from_le_bytes([b[0], b[1], b[2], b[3]]),
        val: 0x100,
        tr: 0,
    };
}
pub fn trace() -> u32 {
    env().tr
}
/// Next symbolic condition.
pub fn c() -> bool {
    let e = env();
    let r = e.bits & 1 == 1;
    e.bits >>= 1;
    r
}
/// Next symbolic number in `0..4`.
pub fn n() -> u8 {
    let e = env();
    let r = (e.bits & 3) as u8;
    e.bits >>= 2;
    r
}
/// Next value: an opaque token, distinct at every call of a run.
pub fn v() -> u32 {
    let e = env();
    e.val += 1;
    e.val
}
pub fn o() -> Option<u32> {
    if c() { Some(v()) } else { None }
}
/// Observable effect.
pub fn ev(x: u32) {
    let e = env();
    e.tr = e.tr.rotate_left(5) ^ x ^ 0x51;
}
pub fn never() -> ! {
    panic!("reached a branch that never runs")
}

macro_rules! iter {
    ($t:ty, [$($g:tt)*], $k:expr) => {
        impl<$($g)*> Iterator for $t {
            type Item = u32;
            fn next(&mut self) -> Option<u32> {
                if self.left == 0 {
                    return None;
                }
                self.left -= 1;
                self.st = self.st.rotate_left(5) ^ ($k)(self);
                Some(self.st ^ self.mask())
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                (self.left as usize, Some(self.left as usize + ($k)(self) as usize))
            }
        }
        impl<$($g)*> core::fmt::Debug for $t {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                ev(self.st ^ ($k)(self));
                f.write_str("x")
            }
        }
        impl<$($g)*> core::fmt::Display for $t {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                ev(self.st.wrapping_add(($k)(self)));
                f.write_str("y")
            }
        }
        impl<$($g)*> core::error::Error for $t {}
        impl<$($g)*> core::future::Future for $t {
            type Output = u32;
            fn poll(self: core::pin::Pin<&mut Self>, _: &mut core::task::Context<'_>) -> core::task::Poll<u32> {
                core::task::Poll::Ready(self.st ^ ($k)(&*self))
            }
        }
    };
}
#[derive(Clone)]
pub struct T<const K: u32> {
    st: u32,
    left: u8,
}
iter!(T<K>, [const K: u32], |_: &Self| K);
#[derive(Clone)]
pub struct D {
    k: u32,
    st: u32,
    left: u8,
    x: u32,
}
iter!(D, [], |s: &Self| s.k);
impl<const K: u32> T<K> {
    fn mask(&self) -> u32 {
        0
    }
}
impl D {
    fn mask(&self) -> u32 {
        self.x
    }
}
pub fn ta<const K: u32>(st: u32) -> T<K> {
    ev(K);
    T { st, left: 2 }
}
pub fn tr<const K: u32>(st: u32) -> D {
    ev(K);
    D { k: K, st, left: 2, x: 0 }
}
/// A fallible step whose error is a result site of its own.
pub fn ra<const K: u32>() -> Result<u32, T<K>> {
    if c() { Ok(v()) } else { Err(ta::<K>(v())) }
}
pub fn rr<const K: u32>() -> Result<u32, D> {
    if c() { Ok(v()) } else { Err(tr::<K>(v())) }
}
/// A wrapper around another result.
pub struct W<I>(pub I, pub u32);
impl<I: Iterator<Item = u32>> Iterator for W<I> {
    type Item = u32;
    fn next(&mut self) -> Option<u32> {
        let x = self.0.next()?;
        Some(x ^ self.1)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
pub fn wa<I: Iterator<Item = u32>>(i: I) -> W<I> {
    let x = v();
    ev(77);
    W(i, x)
}
pub fn wr(mut i: D) -> D {
    let x = v();
    ev(77);
    i.x ^= x;
    i
}
/// Uses up a result inside the program.
pub fn eat<I: Iterator<Item = u32>>(mut i: I) -> u32 {
    let a = i.next().unwrap_or(1);
    ev(a);
    a ^ 3
}
pub fn id<X>(x: X) -> X {
    ev(61);
    x
}
/// Records when it is dropped.
pub struct Dr(pub u32);
impl Drop for Dr {
    fn drop(&mut self) {
        ev(self.0);
    }
}
pub const fn mka<const K: u32>(st: u32) -> T<K> {
    T { st, left: 2 }
}
pub const fn mkr<const K: u32>(st: u32) -> D {
    D { k: K, st, left: 2, x: 0 }
}
pub fn dbg<X: core::fmt::Debug>(x: &X) -> u64 {
    use core::fmt::Write;
    let mut o = Out(Cell::new(1));
    write!(o, "{:?}", x).unwrap();
    o.0.get() as u64
}
pub fn dsp<X: core::fmt::Display>(x: &X) -> u64 {
    use core::fmt::Write;
    let mut o = Out(Cell::new(2));
    write!(o, "{}", x).unwrap();
    (o.0.get() as u64) << 5
}
/// What `Error::source` of a derived enum shows: the payload.
pub fn src<X: core::error::Error>(x: &X) -> u64 {
    match x.source() {
        Some(e) => dbg(&e) ^ (dsp(&e) << 9),
        None => 4,
    }
}
pub struct In<'a, X>(pub &'a X);
impl<X> core::fmt::Debug for In<'_, X> {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
impl<X> core::fmt::Display for In<'_, X> {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
impl core::error::Error for In<'_, D> {
    fn source(&self) -> Option<&(dyn core::error::Error + 'static)> {
        // the enum's payload outlives the call only in the enum; the same value is shown here
        Some(unsafe { &*(self.0 as *const D) })
    }
}
pub fn o2<const K: u32>() -> Option<T<K>> {
    if c() { Some(ta::<K>(v())) } else { None }
}
pub fn o2r<const K: u32>() -> Option<D> {
    if c() { Some(tr::<K>(v())) } else { None }
}
/// Everything the caller can see of a result.
pub fn obs<I: Iterator<Item = u32>>(mut i: I) -> u64 {
    let h = i.size_hint();
    let a = i.next().unwrap_or(1) as u64;
    let b = i.next().unwrap_or(2) as u64;
    let z = i.next().is_none() as u64;
    (a << 24) ^ b.rotate_left(40) ^ z ^ ((h.0 as u64) << 3) ^ ((h.1.unwrap_or(9) as u64) << 7)
}
pub fn obs_r<T: Into<u64>, I: Iterator<Item = u32>>(r: Result<T, I>) -> u64 {
    match r {
        Ok(x) => x.into() ^ (1 << 63),
        Err(e) => obs(e),
    }
}
/// Polls a future that is always ready.
pub fn block_on<F: core::future::Future>(f: F) -> F::Output {
    use core::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
    fn clone(_: *const ()) -> RawWaker {
        RawWaker::new(core::ptr::null(), &VT)
    }
    fn nop(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
    let w = unsafe { Waker::from_raw(RawWaker::new(core::ptr::null(), &VT)) };
    let mut f = core::pin::pin!(f);
    match f.as_mut().poll(&mut Context::from_waker(&w)) {
        Poll::Ready(x) => x,
        Poll::Pending => panic!("pending"),
    }
}
pub struct Out(pub Cell<u32>);
impl core::fmt::Write for Out {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        self.0.set(self.0.get().rotate_left(3) ^ s.len() as u32);
        Ok(())
    }
}

/// A result whose site is known only at run time.
pub fn s(k: u32, st: u32) -> D {
    ev(k);
    D { k, st, left: 2, x: 0 }
}
pub fn q(k: u32) -> Result<u32, D> {
    if c() { Ok(v()) } else { Err(s(k, 7)) }
}
#[cfg(any(feature = "c18", feature = "c18k"))]
pub fn second(b: &[u8; NB]) -> [u8; NB] {
    [b[4], b[5], b[6], b[7], 0, 0, 0, 0]
}
/// The site a result comes from (its size_hint tells), its variant and the number of variants of its type.
#[cfg(any(feature = "c18", feature = "c18k"))]
pub fn look<I: Iterator<Item = u32>>(x: &I) -> Option<(u32, core::mem::Discriminant<I>, usize)> {
    let (lo, hi) = x.size_hint();
    Some(((hi.unwrap() - lo) as u32, core::mem::discriminant(x), core::mem::variant_count::<I>()))
}
#[cfg(any(feature = "c18", feature = "c18k"))]
pub fn look_r<U, I: Iterator<Item = u32>>(x: Result<U, I>) -> Option<(u32, core::mem::Discriminant<I>, usize)> {
    match x {
        Ok(_) => None,
        Err(e) => look(&e),
    }
}
/// One harness over a few programs: the variant tells the result site. `0` sites: just two or more variants.
#[macro_export]
macro_rules! sites {
    ($unwind:literal: $($p:ident $n:literal),*) => {
        pub fn run(b: &[u8; $crate::support::NB]) {
            let b2 = $crate::support::second(b);
            $(
                $crate::support::reset(b);
                let x = $p::go();
                $crate::support::reset(&b2);
                let y = $p::go();
                if let (Some((sx, dx, n)), Some((sy, dy, _))) = (x, y) {
                    assert!(n >= 2, concat!("an enum with fewer than two variants: ", stringify!($p)));
                    assert!($n == 0 || n == $n, concat!("number of variants differs from the number of results: ", stringify!($p)));
                    assert!($n == 0 || sx != sy || dx == dy, concat!("two variants for one result: ", stringify!($p)));
                    assert!($n == 0 || sx == sy || dx != dy, concat!("one variant for two results: ", stringify!($p)));
                }
            )*
        }
        #[cfg(kani)]
        #[kani::proof]
        #[kani::unwind($unwind)]
        #[kani::solver(cadical)]
        fn proof() {
            let b: [u8; $crate::support::NB] = kani::any();
            run(&b);
            kani::cover!(true, "end of harness reached");
        }
    };
}
/// One harness over a few programs: `a` is the expanded program, `r` the reference.
#[macro_export]
macro_rules! group {
    ($unwind:literal: $($p:ident)*) => {
        pub fn run(b: &[u8; $crate::support::NB]) {
            $(
                $crate::support::reset(b);
                let x = $p::a::go();
                let tx = $crate::support::trace();
                $crate::support::reset(b);
                let y = $p::r::go();
                let ty = $crate::support::trace();
                assert!(x == y, concat!("result differs from the unexpanded program's: ", stringify!($p)));
                assert!(tx == ty, concat!("effects differ from the unexpanded program's: ", stringify!($p)));
            )*
        }
        #[cfg(kani)]
        #[kani::proof]
        #[kani::unwind($unwind)]
        #[kani::solver(cadical)]
        fn proof() {
            let b: [u8; $crate::support::NB] = kani::any();
            run(&b);
            kani::cover!(true, "end of harness reached");
        }
    };
}
/// One of two results.
pub fn pick<X>(a: X, b: X) -> X {
    if c() { a } else { b }
}
/// `has!(x, Trait, expected)`: does the type of `x` implement the trait? The reference knows the answer.
#[macro_export]
macro_rules! has_a {
    ($x:expr, $t:path, $e:expr) => {{
        struct Pr<X>(core::marker::PhantomData<X>);
        trait No {
            fn has(&self) -> bool {
                false
            }
        }
        impl<X> No for Pr<X> {}
        impl<X: $t> Pr<X> {
            fn has(&self) -> bool {
                true
            }
        }
        fn of<X>(_: &X) -> Pr<X> {
            Pr(core::marker::PhantomData)
        }
        $crate::support::ev(of(&$x).has() as u32);
    }};
}
#[macro_export]
macro_rules! has_r {
    ($x:expr, $t:path, $e:expr) => {
        $crate::support::ev($e as u32)
    };
}
