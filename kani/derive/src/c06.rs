//! C06: futures 0.3.
use crate::{io_async::*, support::*};
use core::{pin::Pin, task::{Context, Poll}};
use futures03_crate::{io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite}, sink::Sink, stream::Stream};
use std::io::{self, IoSlice, IoSliceMut, SeekFrom};

impl<const K: u8> Stream for P<'_, K> {
    type Item = u64;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u64>> {
        self.at_home();
        let (h, v) = self.hit(1, task::id(cx));
        match h & 3 { 0 => Poll::Pending, 1 => Poll::Ready(None), _ => Poll::Ready(Some(v)) }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (h, v) = self.hit(2, 0);
        (v as usize, if h & 1 == 0 { None } else { Some((v ^ h.rotate_left(32)) as usize) })
    }
}
fn pe((h, v): (u64, u64)) -> Poll<Result<(), u64>> {
    match h & 3 { 0 => Poll::Pending, 1 => Poll::Ready(Err(v)), _ => Poll::Ready(Ok(())) }
}
impl<const K: u8> Sink<u64> for P<'_, K> {
    type Error = u64;
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), u64>> {
        self.at_home();
        pe(self.hit(11, task::id(cx)))
    }
    fn start_send(self: Pin<&mut Self>, item: u64) -> Result<(), u64> {
        self.at_home();
        let (h, v) = self.hit(12, item);
        if h & 1 == 0 { Ok(()) } else { Err(v) }
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), u64>> {
        self.at_home();
        pe(self.hit(13, task::id(cx)))
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), u64>> {
        self.at_home();
        pe(self.hit(14, task::id(cx)))
    }
}
impl<const K: u8> AsyncRead for P<'_, K> {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        self.at_home();
        let (h, v) = self.hit(21, task::id(cx).rotate_left(24) ^ bytes(buf));
        put(buf, v);
        pio(h, v as usize)
    }
    fn poll_read_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &mut [IoSliceMut<'_>]) -> Poll<io::Result<usize>> {
        self.at_home();
        let (h, v) = self.hit(22, task::id(cx).rotate_left(24) ^ lens_mut(bufs));
        put_all(bufs, v);
        pio(h, v as usize)
    }
}
impl<const K: u8> AsyncWrite for P<'_, K> {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.at_home();
        let (h, v) = self.hit(31, task::id(cx).rotate_left(24) ^ bytes(buf));
        pio(h, v as usize)
    }
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<io::Result<usize>> {
        self.at_home();
        let (h, v) = self.hit(32, task::id(cx).rotate_left(24) ^ lens(bufs));
        pio(h, v as usize)
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.at_home();
        pio(self.hit(33, task::id(cx)).0, ())
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.at_home();
        pio(self.hit(34, task::id(cx)).0, ())
    }
}
impl<const K: u8> AsyncSeek for P<'_, K> {
    fn poll_seek(self: Pin<&mut Self>, cx: &mut Context<'_>, p: SeekFrom) -> Poll<io::Result<u64>> {
        self.at_home();
        let (h, v) = self.hit(41, task::id(cx).rotate_left(5) ^ seekcode(p));
        pio(h, v)
    }
}
impl<const K: u8> AsyncBufRead for P<'_, K> {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        self.at_home();
        let (h, v) = self.hit(51, task::id(cx));
        pio(h, self.into_ref().get_ref().lend(v))
    }
    fn consume(self: Pin<&mut Self>, n: usize) {
        self.at_home();
        self.hit(52, n as u64);
    }
}
shapes!(futures03::Stream, futures03::AsyncRead, futures03::AsyncWrite, futures03::AsyncSeek, futures03::AsyncBufRead);
pub mod h {
    use super::*;
    for_shapes! {
        [5] poll_next<E>(s) { diff_pin!(s, E, |x| with_cx!(s, cx, (x.as_mut().poll_next(cx), x.as_mut().poll_next(cx)))) }
        [5] size_hint<E>(s) { diff!(s, E, |x| Stream::size_hint(&x)) }
        [5] poll_read<E>(s) { diff_pin!(s, E, |x| buffer!(s, |b| pc(with_cx!(s, cx, x.as_mut().poll_read(cx, b))))) }
        [5] poll_read_vectored<E>(s) { diff_pin!(s, E, |x| buffers_mut!(s, |b| pc(with_cx!(s, cx, x.as_mut().poll_read_vectored(cx, b))))) }
        [5] poll_write<E>(s) { diff_pin!(s, E, |x| buffer!(s, |b| pc(with_cx!(s, cx, x.as_mut().poll_write(cx, b))))) }
        [5] poll_write_vectored<E>(s) { diff_pin!(s, E, |x| buffers!(s, |b| pc(with_cx!(s, cx, x.as_mut().poll_write_vectored(cx, b))))) }
        [5] poll_flush<E>(s) { diff_pin!(s, E, |x| pc(with_cx!(s, cx, AsyncWrite::poll_flush(x.as_mut(), cx)))) }
        [5] poll_close<E>(s) { diff_pin!(s, E, |x| pc(with_cx!(s, cx, AsyncWrite::poll_close(x.as_mut(), cx)))) }
        [5] poll_seek<E>(s) { diff_pin!(s, E, |x| { let p = seekfrom(s); pc(with_cx!(s, cx, x.as_mut().poll_seek(cx, p))) }) }
        [5] poll_fill_buf<E>(s) { diff_pin!(s, E, |x| { let a = x.as_ref().get_ref().a(); with_cx!(s, cx, pslice(x.as_mut().poll_fill_buf(cx), a)) }) }
        [5] consume<E>(s) { diff_pin!(s, E, |x| x.as_mut().consume(s.usize())) }
    }
}
addr!(g::T, c::T, b::T, m::T, w::T, o::T);
pub mod sink {
    use super::*;
    shapes_gen!(futures03::Sink);
    pub mod h {
        use super::*;
        for_shapes! {
            [5] poll_ready<E>(s) { diff_pin!(s, E, |x| with_cx!(s, cx, x.as_mut().poll_ready(cx))) }
            [5] start_send<E>(s) { diff_pin!(s, E, |x| x.as_mut().start_send(s.u64())) }
            [5] poll_flush<E>(s) { diff_pin!(s, E, |x| with_cx!(s, cx, Sink::<u64>::poll_flush(x.as_mut(), cx))) }
            [5] poll_close<E>(s) { diff_pin!(s, E, |x| with_cx!(s, cx, Sink::<u64>::poll_close(x.as_mut(), cx))) }
            [5] history<E>(s) { diff_pin!(s, E, |x| with_cx!(s, cx, (x.as_mut().poll_ready(cx), x.as_mut().start_send(1), Sink::<u64>::poll_flush(x.as_mut(), cx), Sink::<u64>::poll_close(x.as_mut(), cx)))) }
        }
    }
}
#[cfg(not(kani))]
pub const TABLES: &[(&str, &[(&str, fn(&mut Src))])] = &[("c06::h", h::SHAPED), ("c06::sink::h", sink::h::SHAPED)];
