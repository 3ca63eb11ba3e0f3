//! C05: Future and Coroutine, resumed in place.
use crate::support::*;
use core::{
    future::Future,
    ops::{Coroutine, CoroutineState},
    pin::Pin,
    task::{Context, Poll},
};

impl<const K: u8> Future for P<'_, K> {
    type Output = u64;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u64> {
        self.at_home();
        let (h, v) = self.hit(1, task::id(cx));
        if h & 1 == 0 { Poll::Pending } else { Poll::Ready(v) }
    }
}
impl<const K: u8> Coroutine<u64> for P<'_, K> {
    type Yield = u64;
    type Return = u64;
    fn resume(self: Pin<&mut Self>, arg: u64) -> CoroutineState<u64, u64> {
        self.at_home();
        let (h, v) = self.hit(2, arg);
        if h & 1 == 0 { CoroutineState::Yielded(v) } else { CoroutineState::Complete(v ^ 9) }
    }
}
pub fn st(c: CoroutineState<u64, u64>) -> (bool, u64) {
    match c {
        CoroutineState::Yielded(y) => (false, y),
        CoroutineState::Complete(r) => (true, r),
    }
}
shapes!(Future);
pub mod h {
    use super::*;
    for_shapes! {
        [4] poll<E>(s) { diff_pin!(s, E, |x| {
            let w = task::waker(s.usize());
            let mut cx = Context::from_waker(&w);
            (x.as_mut().poll(&mut cx), x.as_mut().poll(&mut cx), x.as_mut().poll(&mut cx)) }) }
    }
}
pub mod co {
    use super::*;
    shapes_gen!(Coroutine);
    pub mod h {
        use super::*;
        for_shapes! {
            [4] resume<E>(s) { diff_pin!(s, E, |x| {
                let (a, b) = (s.u64(), s.u64());
                (st(Coroutine::resume(x.as_mut(), a)), st(Coroutine::resume(x.as_mut(), b)), st(Coroutine::resume(x.as_mut(), a))) }) }
        }
    }
}
pub mod both {
    use super::*;
    shapes_gen!(Coroutine, Future);
    pub mod h {
        use super::*;
        for_shapes! {
            [4] mixed<E>(s) { diff_pin!(s, E, |x| {
                let w = task::waker(s.usize());
                let mut cx = Context::from_waker(&w);
                let a = s.u64();
                (x.as_mut().poll(&mut cx), st(Coroutine::resume(x.as_mut(), a)), x.as_mut().poll(&mut cx)) }) }
        }
    }
}
/// Real compiler-generated futures (async blocks) through #[auto_enum(Future)].
pub mod real {
    use super::*;
    struct Yield(u8);
    impl Future for Yield {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
            if self.0 == 0 { return Poll::Ready(()); }
            self.0 -= 1;
            Poll::Pending
        }
    }
    #[auto_enums::auto_enum(Future)]
    fn f(k: u8, v: u32, n: u8) -> impl Future<Output = u32> {
        match k {
            0 => async move { let l = v; let r = &l; Yield(n).await; *r ^ 1 },
            1 => core::future::ready(v ^ 2),
            _ => async move { Yield(n).await; Yield(n).await; v ^ 3 },
        }
    }
    crate::harnesses! {
        [6] async_blocks(s) {
            let (k, v, n) = (s.below(3), s.u32(), s.below(3));
            let mut fut = f(k, v, n);
            let mut fut = unsafe { Pin::new_unchecked(&mut fut) };
            let w = task::waker(0);
            let mut cx = Context::from_waker(&w);
            let mut polls = 0u8;
            let r = loop {
                match fut.as_mut().poll(&mut cx) { Poll::Ready(r) => break r, Poll::Pending => polls += 1 }
            };
            assert!(r == v ^ (k as u32 + 1));
            assert!(polls == match k { 0 => n, 1 => 0, _ => 2 * n });
        }
    }
}
#[cfg(not(kani))]
pub const TABLES: &[(&str, &[(&str, fn(&mut Src))])] = &[
    ("c05::h", h::SHAPED), ("c05::co::h", co::h::SHAPED), ("c05::both::h", both::h::SHAPED), ("c05::real", real::TABLE),
];
