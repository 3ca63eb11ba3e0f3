//! C08: futures 0.1.
use crate::support::*;
use futures::{Async, AsyncSink, Future, Poll, Sink, StartSend, Stream};

fn pa<T>((h, e): (u64, u64), v: T) -> Poll<T, u64> {
    match h & 7 { 0 => Err(e), 1 | 2 => Ok(Async::NotReady), _ => Ok(Async::Ready(v)) }
}
impl<const K: u8> Future for P<'_, K> {
    type Item = u64;
    type Error = u64;
    fn poll(&mut self) -> Poll<u64, u64> {
        let h = self.hit(1, 0);
        pa(h, h.1)
    }
}
impl<const K: u8> Stream for P<'_, K> {
    type Item = u64;
    type Error = u64;
    fn poll(&mut self) -> Poll<Option<u64>, u64> {
        let h = self.hit(2, 0);
        pa(h, if h.0 & 8 == 0 { None } else { Some(h.1) })
    }
}
impl<const K: u8> Sink for P<'_, K> {
    type SinkItem = u64;
    type SinkError = u64;
    fn start_send(&mut self, item: u64) -> StartSend<u64, u64> {
        let (h, v) = self.hit(3, item);
        match h & 7 { 0 => Err(v), 1 | 2 => Ok(AsyncSink::NotReady(item)), _ => Ok(AsyncSink::Ready) }
    }
    fn poll_complete(&mut self) -> Poll<(), u64> {
        pa(self.hit(4, 0), ())
    }
    fn close(&mut self) -> Poll<(), u64> {
        pa(self.hit(5, 0), ())
    }
}
shapes!(futures01::Future, futures01::Sink, futures01::Stream);
pub mod h {
    use super::*;
    for_shapes! {
        [4] fut_poll<E>(s) { diff!(s, E, |x| (Future::poll(&mut x), Future::poll(&mut x))) }
        [4] stream_poll<E>(s) { diff!(s, E, |x| (Stream::poll(&mut x), Stream::poll(&mut x))) }
        [4] start_send<E>(s) { diff!(s, E, |x| x.start_send(s.u64())) }
        [4] poll_complete<E>(s) { diff!(s, E, |x| x.poll_complete()) }
        [4] close<E>(s) { diff!(s, E, |x| x.close()) }
        [4] history<E>(s) { diff!(s, E, |x| (x.start_send(s.u64()), x.poll_complete(), Stream::poll(&mut x), x.close())) }
    }
}
#[cfg(not(kani))]
pub const TABLES: &[(&str, &[(&str, fn(&mut Src))])] = &[("c08d::h", h::SHAPED)];
