//! C09: http-body 1.
use crate::support::*;
use bytes_crate::Buf;
use core::{pin::Pin, task::{Context, Poll}};
use http_body1_crate::{Body, Frame, SizeHint};

#[derive(PartialEq, Debug)]
pub struct D(u64);
impl Buf for D {
    fn remaining(&self) -> usize { 0 }
    fn chunk(&self) -> &[u8] { &[] }
    fn advance(&mut self, _: usize) {}
}
impl<const K: u8> Body for P<'_, K> {
    type Data = D;
    type Error = u64;
    fn poll_frame(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Result<Frame<D>, u64>>> {
        self.at_home();
        let (h, v) = self.hit(1, task::id(cx));
        match h & 3 { 0 => Poll::Pending, 1 => Poll::Ready(None), 2 => Poll::Ready(Some(Err(v))), _ if v & 1 == 0 => Poll::Ready(Some(Ok(Frame::data(D(v))))), _ => Poll::Ready(Some(Ok(Frame::trailers(http_crate::HeaderMap::new())))) }
    }
    fn is_end_stream(&self) -> bool {
        self.hit(2, 0).0 & 1 == 0
    }
    fn size_hint(&self) -> SizeHint {
        let (h, v) = self.hit(3, 0);
        let mut s = SizeHint::new();
        s.set_lower(v);
        match h & 3 { 0 => {} 1 => s.set_upper(v), _ => s.set_upper(v | h >> 2) }
        s
    }
}
fn cf(r: Poll<Option<Result<Frame<D>, u64>>>) -> (u8, u64) {
    match r {
        Poll::Pending => (0, 0),
        Poll::Ready(None) => (1, 0),
        Poll::Ready(Some(Err(e))) => (2, e),
        Poll::Ready(Some(Ok(f))) => { let d = f.data_ref().map(|d| d.0); core::mem::forget(f); (3, d.unwrap_or(1)) }
    }
}
shapes!(http_body1::Body);
pub mod h {
    use super::*;
    for_shapes! {
        [5] poll_frame<E>(s) { diff_pin!(s, E, |x| with_cx!(s, cx, (cf(x.as_mut().poll_frame(cx)), cf(x.as_mut().poll_frame(cx))))) }
        [5] is_end_stream<E>(s) { diff!(s, E, |x| x.is_end_stream()) }
        [5] size_hint<E>(s) { diff!(s, E, |x| { let h = x.size_hint(); (h.lower(), h.upper()) }) }
    }
}
#[cfg(not(kani))]
pub const TABLES: &[(&str, &[(&str, fn(&mut Src))])] = &[("c09a::h", h::SHAPED)];
