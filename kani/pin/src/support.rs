//! Payloads that notice when they are moved after having been pinned, for every pin-projecting trait.
pub use core::{cell::Cell, marker::PhantomPinned, pin::Pin, task::{Context, Poll}};
use std::io;

pub const NB: usize = 4;
static mut MOVED: u32 = 0;
static mut CALLS: u32 = 0;
static mut DROPS: u32 = 0;
static mut BITS: u32 = 0;
static mut ALL: u32 = 0;
/// Every use of `pinned!` gets all the symbolic bits.
pub fn again() {
    unsafe { BITS = ALL }
}
pub fn reset(b: &[u8; NB]) {
    unsafe {
        MOVED = 0;
        CALLS = 0;
        DROPS = 0;
        BITS = u32::from_le_bytes(*b);
        ALL = BITS;
    }
}
pub fn moved() -> u32 {
    unsafe { MOVED }
}
pub fn calls() -> u32 {
    unsafe { CALLS }
}
pub fn drops() -> u32 {
    unsafe { DROPS }
}
/// Next symbolic condition.
pub fn c() -> bool {
    unsafe {
        let r = BITS & 1 == 1;
        BITS >>= 1;
        r
    }
}
/// Next symbolic number in `0..4`.
pub fn n() -> u8 {
    unsafe {
        let r = (BITS & 3) as u8;
        BITS >>= 2;
        r
    }
}
fn call() {
    unsafe { CALLS += 1 }
}

/// `!Unpin`: remembers where it was pinned.
pub struct N<const K: u8> {
    at: Cell<*const ()>,
    _p: PhantomPinned,
}
pub trait L {}
pub struct Never;
/// `!Unpin` as well, but only because a trait of this crate is not implemented for `T`.
pub struct Q<T, const K: u8> {
    at: Cell<*const ()>,
    _p: core::marker::PhantomData<T>,
}
impl<T: L, const K: u8> Unpin for Q<T, K> {}
// `Never: L` does not hold, so no `Q<Never, K>` is `Unpin`
/// `Unpin`: may be moved at any time.
pub struct U<const K: u8> {
    _k: u8,
}
pub trait Mk {}
impl<const K: u8> Mk for N<K> {}
impl<const K: u8> Mk for U<K> {}
impl<T, const K: u8> Mk for Q<T, K> {}
/// What safe code holding a `&mut` may do to a payload.
pub trait Steal: Sized {
    fn new() -> Self;
    fn steal(&mut self) {
        let v = core::mem::replace(self, Self::new());
        v.seen();
    }
    fn seen(&self);
}
macro_rules! recorded {
    ([$($g:tt)*] $t:ty, $e:expr) => {
        impl<$($g)*> Steal for $t {
            fn new() -> Self {
                $e
            }
            fn seen(&self) {
                call();
                let me = self as *const Self as *const ();
                if !self.at.get().is_null() && self.at.get() != me {
                    unsafe { MOVED += 1 }
                }
            }
        }
        impl<$($g)*> $t {
            fn here(&self) {
                self.seen();
                self.at.set(self as *const Self as *const ());
            }
        }
        impl<$($g)*> Drop for $t {
            fn drop(&mut self) {
                self.seen();
                unsafe { DROPS += 1 }
            }
        }
    };
}
recorded!([const K: u8] N<K>, N { at: Cell::new(core::ptr::null()), _p: PhantomPinned });
recorded!([T, const K: u8] Q<T, K>, Q { at: Cell::new(core::ptr::null()), _p: core::marker::PhantomData });
impl<const K: u8> Steal for U<K> {
    fn new() -> Self {
        U { _k: K }
    }
    fn seen(&self) {
        call();
    }
}
impl<const K: u8> U<K> {
    fn here(&self) {
        call()
    }
}
impl<const K: u8> Drop for U<K> {
    fn drop(&mut self) {
        unsafe { DROPS += 1 }
    }
}
pub fn mk<X: Steal>() -> X {
    X::new()
}

macro_rules! traits {
    ($([$($g:tt)*] $t:ty;)*) => {
        $(
            impl<$($g)*> core::future::Future for $t {
                type Output = u32;
                fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<u32> {
                    self.here();
                    Poll::Pending
                }
            }
            impl<$($g)*> core::ops::Coroutine<u32> for $t {
                type Yield = u32;
                type Return = u32;
                fn resume(self: Pin<&mut Self>, _: u32) -> core::ops::CoroutineState<u32, u32> {
                    self.here();
                    core::ops::CoroutineState::Yielded(1)
                }
            }
            impl<$($g)*> core::fmt::Debug for $t {
                fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }
            }
            impl<$($g)*> core::fmt::Display for $t {
                fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }
            }
            impl<$($g)*> Iterator for $t {
                type Item = u32;
                fn next(&mut self) -> Option<u32> { None }
            }
            impl<$($g)*> DoubleEndedIterator for $t {
                fn next_back(&mut self) -> Option<u32> { None }
            }
            impl<$($g)*> io::Read for $t {
                fn read(&mut self, _: &mut [u8]) -> io::Result<usize> { Ok(0) }
            }
            impl<$($g)*> io::Write for $t {
                fn write(&mut self, _: &[u8]) -> io::Result<usize> { Ok(0) }
                fn flush(&mut self) -> io::Result<()> { Ok(()) }
            }
            impl<$($g)*> core::ops::Deref for $t {
                type Target = u32;
                fn deref(&self) -> &u32 { &1 }
            }
        )*
        #[cfg(feature = "p1")]
        pub mod p1 {
            use super::*;
            $(
                impl<$($g)*> futures::stream::Stream for $t {
                    type Item = u32;
                    fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<u32>> {
                        self.here();
                        Poll::Pending
                    }
                }
                impl<$($g)*> futures::sink::Sink<u32> for $t {
                    type Error = u32;
                    fn poll_ready(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), u32>> { self.here(); Poll::Pending }
                    fn start_send(self: Pin<&mut Self>, _: u32) -> Result<(), u32> { self.here(); Ok(()) }
                    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), u32>> { self.here(); Poll::Pending }
                    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), u32>> { self.here(); Poll::Pending }
                }
                impl<$($g)*> futures::io::AsyncRead for $t {
                    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut [u8]) -> Poll<io::Result<usize>> { self.here(); Poll::Pending }
                }
                impl<$($g)*> futures::io::AsyncWrite for $t {
                    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, _: &[u8]) -> Poll<io::Result<usize>> { self.here(); Poll::Pending }
                    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { self.here(); Poll::Pending }
                    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { self.here(); Poll::Pending }
                }
                impl<$($g)*> futures::io::AsyncSeek for $t {
                    fn poll_seek(self: Pin<&mut Self>, _: &mut Context<'_>, _: io::SeekFrom) -> Poll<io::Result<u64>> { self.here(); Poll::Pending }
                }
                impl<$($g)*> futures::io::AsyncBufRead for $t {
                    fn poll_fill_buf(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<&[u8]>> { self.here(); Poll::Pending }
                    fn consume(self: Pin<&mut Self>, _: usize) { self.here() }
                }
                impl<$($g)*> http_body::Body for $t {
                    type Data = &'static [u8];
                    type Error = u32;
                    fn poll_frame(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Result<http_body::Frame<Self::Data>, u32>>> { self.here(); Poll::Pending }
                }
                impl<$($g)*> tokio::io::AsyncRead for $t {
                    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> { self.here(); Poll::Pending }
                }
                impl<$($g)*> tokio::io::AsyncSeek for $t {
                    fn start_seek(self: Pin<&mut Self>, _: io::SeekFrom) -> io::Result<()> { self.here(); Ok(()) }
                    fn poll_complete(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<u64>> { self.here(); Poll::Pending }
                }
            )*
        }
        #[cfg(feature = "p2")]
        pub mod p2 {
            use super::*;
            $(
                impl<$($g)*> tokio::io::AsyncRead for $t {
                    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> { self.here(); Poll::Pending }
                }
                impl<$($g)*> tokio::io::AsyncSeek for $t {
                    fn start_seek(self: Pin<&mut Self>, _: io::SeekFrom) -> io::Result<()> { self.here(); Ok(()) }
                    fn poll_complete(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<u64>> { self.here(); Poll::Pending }
                }
            )*
        }
        #[cfg(feature = "p3")]
        pub mod p3 {
            use super::*;
            $(
                impl<$($g)*> tokio::io::AsyncRead for $t {
                    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut [u8]) -> Poll<io::Result<usize>> { self.here(); Poll::Pending }
                }
                impl<$($g)*> tokio::io::AsyncSeek for $t {
                    fn start_seek(self: Pin<&mut Self>, _: &mut Context<'_>, _: io::SeekFrom) -> Poll<io::Result<()>> { self.here(); Poll::Pending }
                    fn poll_complete(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<u64>> { self.here(); Poll::Pending }
                }
            )*
        }
        #[cfg(any(feature = "p1", feature = "p2", feature = "p3"))]
        pub mod tk {
            use super::*;
            $(
                impl<$($g)*> tokio::io::AsyncWrite for $t {
                    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, _: &[u8]) -> Poll<io::Result<usize>> { self.here(); Poll::Pending }
                    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { self.here(); Poll::Pending }
                    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { self.here(); Poll::Pending }
                }
                impl<$($g)*> tokio::io::AsyncBufRead for $t {
                    fn poll_fill_buf(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<&[u8]>> { self.here(); Poll::Pending }
                    fn consume(self: Pin<&mut Self>, _: usize) { self.here() }
                }
            )*
        }
    };
}
traits! { [const K: u8] N<K>; [const K: u8] U<K>; [T, const K: u8] Q<T, K>; }

fn waker() -> core::task::Waker {
    use core::task::{RawWaker, RawWakerVTable, Waker};
    fn clone(_: *const ()) -> RawWaker {
        RawWaker::new(core::ptr::null(), &VT)
    }
    fn nop(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
    unsafe { Waker::from_raw(RawWaker::new(core::ptr::null(), &VT)) }
}
pub fn with<R>(f: impl FnOnce(&mut Context<'_>) -> R) -> R {
    let w = waker();
    f(&mut Context::from_waker(&w))
}

pub struct Pr<X>(pub core::marker::PhantomData<X>);
pub trait NotUnpin<X> {
    fn unpin(&self) -> bool {
        false
    }
    fn swap(&self, _: &mut X, _: &mut X) {}
}
impl<X> NotUnpin<X> for Pr<X> {}
impl<X: Unpin> Pr<X> {
    pub fn unpin(&self) -> bool {
        true
    }
    /// What safe code can do with two pinned `Unpin` values.
    pub fn swap(&self, a: &mut X, b: &mut X) {
        core::mem::swap(Pin::new(a).get_mut(), Pin::new(b).get_mut())
    }
}
pub fn of<X>(_: &X) -> Pr<X> {
    Pr(core::marker::PhantomData)
}
/// `pinned!(value, value, is it Unpin, |x| call)`: nothing safe code can do with the pinned enum moves its payload.
#[macro_export]
macro_rules! pinned {
    ($a:expr, $b:expr, $unpin:expr, |$x:ident| $call:expr) => {{
        again();
        let c0 = calls();
        let (mut a, mut b) = ($a, $b);
        let p = of(&a);
        assert!(p.unpin() == $unpin, "the enum is Unpin exactly when its payloads are");
        {
            // what `pin!` does; the values are not moved except where safe code could move them
            let $x = unsafe { Pin::new_unchecked(&mut a) };
            $call;
        }
        if c() {
            let $x = unsafe { Pin::new_unchecked(&mut b) };
            $call;
        }
        p.swap(&mut a, &mut b);
        {
            let $x = unsafe { Pin::new_unchecked(&mut a) };
            $call;
        }
        assert!(calls() >= c0 + 2, "the payload was called");
        if c() {
            // pinned assignment drops the old payload in place
            unsafe { Pin::new_unchecked(&mut b) }.set($a);
        }
    }};
}
/// `U: Unpin` may be relied on for every `U: Unpin`, not only for the instances seen here.
pub fn need_unpin<X: Unpin>() {}
pub fn run_all(b: &[u8; NB], fs: &[fn()]) {
    for f in fs {
        reset(b);
        f();
        assert!(moved() == 0, "a payload behind a pinned enum was moved");
    }
}
#[macro_export]
macro_rules! harness {
    ($($p:ident)*) => {
        pub fn run(b: &[u8; $crate::support::NB]) {
            $( reset(b); $p::go(); assert!(moved() == 0, concat!("a payload behind a pinned enum was moved: ", stringify!($p))); )*
        }
        #[cfg(kani)]
        #[kani::proof]
        #[kani::unwind(6)]
        #[kani::solver(cadical)]
        fn proof() {
            let b: [u8; $crate::support::NB] = kani::any();
            run(&b);
            kani::cover!(true, "end of harness reached");
        }
    };
}
