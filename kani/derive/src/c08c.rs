//! C08: tokio 0.1 AsyncRead/AsyncWrite.
use crate::{io_async::*, support::*};
use std::io::{self, Read, Write};
use tokio::{io::{AsyncRead, AsyncWrite}, prelude::{Async, Poll}};

fn pa<T>(h: u64, v: T) -> Poll<T, io::Error> {
    if h & 4 == 0 { Ok(Async::NotReady) } else { ioe(h.rotate_right(3), v).map(Async::Ready) }
}
fn cc<T>(r: Poll<T, io::Error>) -> Result<Option<T>, usize> {
    cmp(r).map(|a| match a { Async::NotReady => None, Async::Ready(v) => Some(v) })
}
impl<const K: u8> Read for P<'_, K> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let (h, v) = self.hit(1, bytes(buf));
        put(buf, v);
        ioe(h, v as usize)
    }
}
impl<const K: u8> Write for P<'_, K> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let (h, v) = self.hit(2, bytes(buf));
        ioe(h, v as usize)
    }
    fn flush(&mut self) -> io::Result<()> {
        ioe(self.hit(3, 0).0, ())
    }
}
impl<const K: u8> AsyncRead for P<'_, K> {
    unsafe fn prepare_uninitialized_buffer(&self, buf: &mut [u8]) -> bool {
        let (h, v) = self.hit(11, bytes(buf));
        put(buf, v);
        h & 0x100 == 0
    }
    fn poll_read(&mut self, buf: &mut [u8]) -> Poll<usize, io::Error> {
        let (h, v) = self.hit(12, bytes(buf));
        put(buf, v);
        pa(h, v as usize)
    }
}
impl<const K: u8> AsyncWrite for P<'_, K> {
    fn poll_write(&mut self, buf: &[u8]) -> Poll<usize, io::Error> {
        let (h, v) = self.hit(21, bytes(buf));
        pa(h, v as usize)
    }
    fn poll_flush(&mut self) -> Poll<(), io::Error> {
        pa(self.hit(22, 0).0, ())
    }
    fn shutdown(&mut self) -> Poll<(), io::Error> {
        pa(self.hit(23, 0).0, ())
    }
}
shapes!(tokio01::AsyncRead, tokio01::AsyncWrite, Read, Write);
pub mod h {
    use super::*;
    for_shapes! {
        [5] prepare_uninitialized_buffer<E>(s) { diff!(s, E, |x| buffer!(s, |b| unsafe { x.prepare_uninitialized_buffer(b) })) }
        [5] poll_read<E>(s) { diff!(s, E, |x| buffer!(s, |b| cc(x.poll_read(b)))) }
        [5] poll_write<E>(s) { diff!(s, E, |x| buffer!(s, |b| cc(x.poll_write(b)))) }
        [5] poll_flush<E>(s) { diff!(s, E, |x| cc(x.poll_flush())) }
        [5] shutdown<E>(s) { diff!(s, E, |x| cc(x.shutdown())) }
    }
}
#[cfg(not(kani))]
pub const TABLES: &[(&str, &[(&str, fn(&mut Src))])] = &[("c08c::h", h::SHAPED)];
