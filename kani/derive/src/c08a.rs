//! C08: tokio 0.3.
use crate::{io_async::*, support::*};
use core::{pin::Pin, task::{Context, Poll}};
use std::io::{self, IoSlice, SeekFrom};
use tokio03_crate::io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite, ReadBuf};

impl<const K: u8> AsyncRead for P<'_, K> {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        self.at_home();
        let (h, v) = self.hit(21, task::id(cx).rotate_left(24) ^ (buf.remaining() as u64) << 32 ^ buf.capacity() as u64);
        if buf.remaining() > 0 { buf.put_slice(&[h as u8]) }
        pio(h, ())
    }
}
impl<const K: u8> AsyncWrite for P<'_, K> {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.at_home();
        let (h, v) = self.hit(31, task::id(cx).rotate_left(24) ^ bytes(buf));
        pio(h, v as usize)
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.at_home();
        pio(self.hit(33, task::id(cx)).0, ())
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.at_home();
        pio(self.hit(34, task::id(cx)).0, ())
    }
}
impl<const K: u8> AsyncSeek for P<'_, K> {
    fn start_seek(self: Pin<&mut Self>, p: SeekFrom) -> io::Result<()> {
        self.at_home();
        let (h, v) = self.hit(41, seekcode(p));
        ioe(h, ())
    }
    fn poll_complete(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<u64>> {
        self.at_home();
        let (h, v) = self.hit(42, task::id(cx));
        pio(h, v)
    }
}
impl<const K: u8> AsyncBufRead for P<'_, K> {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        self.at_home();
        let (h, v) = self.hit(51, task::id(cx));
        pio(h, self.into_ref().get_ref().lend(v))
    }
    fn consume(self: Pin<&mut Self>, n: usize) {
        self.at_home();
        self.hit(52, n as u64);
    }
}
shapes!(tokio03::AsyncRead, tokio03::AsyncWrite, tokio03::AsyncSeek, tokio03::AsyncBufRead);
pub mod h {
    use super::*;
    for_shapes! {
        [5] poll_read<E>(s) { diff_pin!(s, E, |x| buffer!(s, |b| { let mut rb = ReadBuf::new(b); let full = s.bool(); if full { let n = rb.remaining(); rb.advance(n) }
            (pc(with_cx!(s, cx, x.as_mut().poll_read(cx, &mut rb))), rb.filled().len(), rb.initialized().len()) })) }
        [5] poll_write<E>(s) { diff_pin!(s, E, |x| buffer!(s, |b| pc(with_cx!(s, cx, x.as_mut().poll_write(cx, b))))) }
        [5] poll_flush<E>(s) { diff_pin!(s, E, |x| pc(with_cx!(s, cx, x.as_mut().poll_flush(cx)))) }
        [5] poll_shutdown<E>(s) { diff_pin!(s, E, |x| pc(with_cx!(s, cx, x.as_mut().poll_shutdown(cx)))) }
        [5] start_seek<E>(s) { diff_pin!(s, E, |x| { let p = seekfrom(s); cmp(x.as_mut().start_seek(p)) }) }
        [5] poll_complete<E>(s) { diff_pin!(s, E, |x| pc(with_cx!(s, cx, x.as_mut().poll_complete(cx)))) }
        [5] poll_fill_buf<E>(s) { diff_pin!(s, E, |x| { let a = x.as_ref().get_ref().a(); with_cx!(s, cx, pslice(x.as_mut().poll_fill_buf(cx), a)) }) }
        [5] consume<E>(s) { diff_pin!(s, E, |x| x.as_mut().consume(s.usize())) }
        [5] history<E>(s) { diff_pin!(s, E, |x| { let b = [s.u8(), 1]; with_cx!(s, cx, (pc(x.as_mut().poll_write(cx, &b)), pc(x.as_mut().poll_flush(cx)), pc(x.as_mut().poll_shutdown(cx)), pc(x.as_mut().poll_complete(cx)))) }) }
    }
}
addr!(g::T, c::T, b::T, m::T, w::T, o::T);
#[cfg(not(kani))]
pub const TABLES: &[(&str, &[(&str, fn(&mut Src))])] = &[("c08a::h", h::SHAPED)];
