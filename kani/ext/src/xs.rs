//! The payload of c12s with the traits of other crates, probes for them and one use of each.
use crate::{c12s::{Z, ZD}, support::{ev, v}};
use core::{pin::Pin, task::{Context, Poll}};
use std::io;

/// Probes: bit numbers of their own, see bin/lists.py.
macro_rules! probes {
    ($($m:ident $bit:literal $t:path;)*) => {
        pub trait NoX {
            $( fn $m(&self) -> u64 { 0 } )*
        }
        impl<X> NoX for crate::c12s::Pr<X> {}
        $( impl<X: $t> crate::c12s::Pr<X> { pub fn $m(&self) -> u64 { 1 << $bit } } )*
        macro_rules! mask_x {
            ($e:expr) => {{ use $crate::xs::NoX; let p = $crate::c12s::pr(&$e); 0u64 $( | p.$m() )* }};
        }
        pub(crate) use mask_x;
    };
}
macro_rules! both {
    ($m:ident) => { $m!(Z<K>, [const K: u32]); $m!(ZD, []); };
}
fn w<R>(f: impl FnOnce(&mut Context<'_>) -> R) -> R {
    f(&mut Context::from_waker(core::task::Waker::noop()))
}
static BUF: [u8; 4] = [5, 4, 3, 2];
fn pio<T>(h: u32, x: T) -> Poll<io::Result<T>> {
    match h & 3 { 0 => Poll::Pending, 1 => Poll::Ready(Err(io::ErrorKind::UnexpectedEof.into())), _ => Poll::Ready(Ok(x)) }
}
fn cf(r: Poll<io::Result<u32>>) -> u32 {
    match r { Poll::Pending => 70, Poll::Ready(Err(e)) => { core::mem::forget(e); 71 } Poll::Ready(Ok(x)) => x ^ 72 }
}
fn pu(r: Poll<io::Result<()>>) -> u32 {
    cf(r.map_ok(|_| 1))
}
fn pn<X>(x: &mut X) -> Pin<&mut X> {
    unsafe { Pin::new_unchecked(x) }
}

/// tokio 1, 0.3 and 0.2 differ in the buffer of poll_read and in how a seek starts.
macro_rules! tokio {
    ($t:ty, [$($g:tt)*]) => {
        impl<$($g)*> ::tokio::io::AsyncRead for $t {
            #[cfg(not(feature = "x3"))]
            fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut ::tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
                let h = self.hit_mut(101);
                b.put_slice(&[h as u8]);
                pio(h, ())
            }
            #[cfg(feature = "x3")]
            fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
                let h = self.hit_mut(101);
                b[0] = h as u8;
                pio(h, 1)
            }
        }
        impl<$($g)*> ::tokio::io::AsyncWrite for $t {
            fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
                let h = self.hit_mut(102 ^ b[0] as u32);
                pio(h, h as usize)
            }
            fn poll_flush(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                pio(self.hit_mut(103), ())
            }
            fn poll_shutdown(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                pio(self.hit_mut(104), ())
            }
        }
        impl<$($g)*> ::tokio::io::AsyncSeek for $t {
            #[cfg(not(feature = "x3"))]
            fn start_seek(mut self: Pin<&mut Self>, _: io::SeekFrom) -> io::Result<()> {
                if self.hit_mut(105) & 1 == 0 { Ok(()) } else { Err(io::ErrorKind::NotFound.into()) }
            }
            #[cfg(feature = "x3")]
            fn start_seek(mut self: Pin<&mut Self>, _: &mut Context<'_>, _: io::SeekFrom) -> Poll<io::Result<()>> {
                pio(self.hit_mut(105), ())
            }
            fn poll_complete(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<u64>> {
                let h = self.hit_mut(106);
                pio(h, h as u64)
            }
        }
        impl<$($g)*> ::tokio::io::AsyncBufRead for $t {
            fn poll_fill_buf(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
                let h = self.hit_mut(107);
                pio(h, &BUF[(h >> 8) as usize & 3..])
            }
            fn consume(mut self: Pin<&mut Self>, n: usize) {
                self.hit_mut(108 ^ n as u32);
            }
        }
    };
}
#[cfg(not(feature = "x4"))]
mod tk {
    use super::*;
    both!(tokio);
    pub fn tokio_read<X: ::tokio::io::AsyncRead>(x: &mut X) -> u32 {
        let mut b = [0; 2];
        #[cfg(not(feature = "x3"))]
        let r = pu(w(|cx| pn(x).poll_read(cx, &mut ::tokio::io::ReadBuf::new(&mut b))));
        #[cfg(feature = "x3")]
        let r = cf(w(|cx| pn(x).poll_read(cx, &mut b)).map_ok(|n| n as u32));
        r ^ (b[0] as u32) << 8
    }
    pub fn tokio_write<X: ::tokio::io::AsyncWrite>(x: &mut X) -> u32 {
        let a = cf(w(|cx| pn(x).poll_write(cx, &[3])).map_ok(|n| n as u32));
        a ^ pu(w(|cx| pn(x).poll_flush(cx))) << 8 ^ pu(w(|cx| pn(x).poll_shutdown(cx))) << 16
    }
    pub fn tokio_seek<X: ::tokio::io::AsyncSeek>(x: &mut X) -> u32 {
        #[cfg(not(feature = "x3"))]
        let a = pu(Poll::Ready(pn(x).start_seek(io::SeekFrom::Start(3))));
        #[cfg(feature = "x3")]
        let a = pu(w(|cx| pn(x).start_seek(cx, io::SeekFrom::Start(3))));
        a ^ cf(w(|cx| pn(x).poll_complete(cx)).map_ok(|n| n as u32)) << 8
    }
    pub fn tokio_buf<X: ::tokio::io::AsyncBufRead>(x: &mut X) -> u32 {
        let a = cf(w(|cx| pn(x).poll_fill_buf(cx).map_ok(|b| b[0] as u32)));
        pn(x).consume(2);
        a
    }
}

#[cfg(feature = "x1")]
mod one {
    use super::*;
    use ::futures::{io as fio, sink::Sink, stream::Stream};
    use ::rayon::iter::{plumbing::*, IndexedParallelIterator, IntoParallelIterator, ParallelExtend, ParallelIterator};
    use ::serde::ser::{Impossible, Serialize, Serializer};
    macro_rules! imp {
        ($t:ty, [$($g:tt)*]) => {
            impl<$($g)*> Stream for $t {
                type Item = u32;
                fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<u32>> {
                    let h = self.hit_mut(41);
                    match h & 3 { 0 => Poll::Pending, 1 => Poll::Ready(None), _ => Poll::Ready(Some(h)) }
                }
            }
            impl<$($g)*> Sink<u32> for $t {
                type Error = u32;
                fn poll_ready(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), u32>> {
                    let h = self.hit_mut(42);
                    if h & 1 == 0 { Poll::Pending } else { Poll::Ready(Err(h)) }
                }
                fn start_send(mut self: Pin<&mut Self>, i: u32) -> Result<(), u32> {
                    let h = self.hit_mut(43 ^ i);
                    if h & 1 == 0 { Ok(()) } else { Err(h) }
                }
                fn poll_flush(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), u32>> {
                    let h = self.hit_mut(44);
                    if h & 1 == 0 { Poll::Pending } else { Poll::Ready(Ok(())) }
                }
                fn poll_close(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), u32>> {
                    let h = self.hit_mut(45);
                    if h & 1 == 0 { Poll::Pending } else { Poll::Ready(Ok(())) }
                }
            }
            impl<$($g)*> fio::AsyncRead for $t {
                fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
                    let h = self.hit_mut(51);
                    b[0] = h as u8;
                    pio(h, 1)
                }
            }
            impl<$($g)*> fio::AsyncWrite for $t {
                fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
                    let h = self.hit_mut(52 ^ b[0] as u32);
                    pio(h, h as usize)
                }
                fn poll_flush(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                    pio(self.hit_mut(53), ())
                }
                fn poll_close(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                    pio(self.hit_mut(54), ())
                }
            }
            impl<$($g)*> fio::AsyncSeek for $t {
                fn poll_seek(mut self: Pin<&mut Self>, _: &mut Context<'_>, _: io::SeekFrom) -> Poll<io::Result<u64>> {
                    let h = self.hit_mut(55);
                    pio(h, h as u64)
                }
            }
            impl<$($g)*> fio::AsyncBufRead for $t {
                fn poll_fill_buf(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
                    let h = self.hit_mut(56);
                    pio(h, &BUF[(h >> 8) as usize & 3..])
                }
                fn consume(mut self: Pin<&mut Self>, n: usize) {
                    self.hit_mut(57 ^ n as u32);
                }
            }
            impl<$($g)*> ParallelIterator for $t {
                type Item = u32;
                fn drive_unindexed<C: UnindexedConsumer<u32>>(self, c: C) -> C::Result {
                    let h = self.hit(61);
                    c.into_folder().consume(h).complete()
                }
                fn opt_len(&self) -> Option<usize> {
                    Some(self.hit(62) as usize)
                }
            }
            impl<$($g)*> IndexedParallelIterator for $t {
                fn drive<C: Consumer<u32>>(self, c: C) -> C::Result {
                    let h = self.hit(63);
                    c.into_folder().consume(h).complete()
                }
                fn len(&self) -> usize {
                    self.hit(64) as usize
                }
                fn with_producer<CB: ProducerCallback<u32>>(self, _: CB) -> CB::Output {
                    unreachable!()
                }
            }
            impl<$($g)*> ParallelExtend<u32> for $t {
                fn par_extend<I: IntoParallelIterator<Item = u32>>(&mut self, _: I) {
                    self.hit_mut(66);
                }
            }
            impl<$($g)*> Serialize for $t {
                fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                    s.serialize_u32(self.hit(67))
                }
            }
            impl<$($g)*> ::http_body::Body for $t {
                type Data = D;
                type Error = u32;
                fn poll_frame(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Result<::http_body::Frame<D>, u32>>> {
                    let h = self.hit_mut(68);
                    if h & 1 == 0 { Poll::Pending } else { Poll::Ready(Some(Err(h))) }
                }
                fn is_end_stream(&self) -> bool {
                    self.hit(69) & 1 == 0
                }
            }
        };
    }
    both!(imp);
    pub struct D;
    impl bytes_crate::Buf for D {
        fn remaining(&self) -> usize { 0 }
        fn chunk(&self) -> &[u8] { &[] }
        fn advance(&mut self, _: usize) {}
    }
    pub struct E;
    impl core::fmt::Debug for E {
        fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }
    }
    impl core::fmt::Display for E {
        fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }
    }
    impl std::error::Error for E {}
    impl ::serde::ser::Error for E {
        fn custom<T: core::fmt::Display>(_: T) -> Self { E }
    }
    struct S;
    type No = Impossible<u32, E>;
    type Out = Result<u32, E>;
    impl Serializer for S {
        type Ok = u32;
        type Error = E;
        type SerializeSeq = No;
        type SerializeTuple = No;
        type SerializeTupleStruct = No;
        type SerializeTupleVariant = No;
        type SerializeMap = No;
        type SerializeStruct = No;
        type SerializeStructVariant = No;
        fn serialize_u32(self, v: u32) -> Out { Ok(v) }
        fn serialize_u8(self, _: u8) -> Out { Err(E) }
        fn serialize_u16(self, _: u16) -> Out { Err(E) }
        fn serialize_u64(self, _: u64) -> Out { Err(E) }
        fn serialize_bool(self, _: bool) -> Out { Err(E) }
        fn serialize_i8(self, _: i8) -> Out { Err(E) }
        fn serialize_i16(self, _: i16) -> Out { Err(E) }
        fn serialize_i32(self, _: i32) -> Out { Err(E) }
        fn serialize_i64(self, _: i64) -> Out { Err(E) }
        fn serialize_f32(self, _: f32) -> Out { Err(E) }
        fn serialize_f64(self, _: f64) -> Out { Err(E) }
        fn serialize_char(self, _: char) -> Out { Err(E) }
        fn serialize_str(self, _: &str) -> Out { Err(E) }
        fn serialize_bytes(self, _: &[u8]) -> Out { Err(E) }
        fn serialize_none(self) -> Out { Err(E) }
        fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Out { Err(E) }
        fn serialize_unit(self) -> Out { Err(E) }
        fn serialize_unit_struct(self, _: &'static str) -> Out { Err(E) }
        fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Out { Err(E) }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Out { Err(E) }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Out { Err(E) }
        fn serialize_seq(self, _: Option<usize>) -> Result<No, E> { Err(E) }
        fn serialize_tuple(self, _: usize) -> Result<No, E> { Err(E) }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<No, E> { Err(E) }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, E> { Err(E) }
        fn serialize_map(self, _: Option<usize>) -> Result<No, E> { Err(E) }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<No, E> { Err(E) }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, E> { Err(E) }
        fn collect_str<T: ?Sized + core::fmt::Display>(self, _: &T) -> Out { Err(E) }
    }
    pub fn stream<X: Stream<Item = u32>>(x: &mut X) -> u32 {
        match w(|cx| pn(x).poll_next(cx)) { Poll::Pending => 1, Poll::Ready(None) => 2, Poll::Ready(Some(a)) => a ^ 3 }
    }
    pub fn sink<X: Sink<u32, Error = u32>>(x: &mut X) -> u32 {
        let f = |p: Poll<Result<(), u32>>| match p { Poll::Pending => 1, Poll::Ready(Ok(())) => 2, Poll::Ready(Err(a)) => a ^ 3 };
        let a = f(w(|cx| pn(x).poll_ready(cx)));
        let b = f(Poll::Ready(pn(x).start_send(5)));
        a ^ b << 3 ^ f(w(|cx| pn(x).poll_flush(cx))) << 6 ^ f(w(|cx| pn(x).poll_close(cx))) << 9
    }
    pub fn fut_read<X: fio::AsyncRead>(x: &mut X) -> u32 {
        let mut b = [0; 2];
        let r = cf(w(|cx| pn(x).poll_read(cx, &mut b)).map_ok(|n| n as u32));
        r ^ (b[0] as u32) << 8
    }
    pub fn fut_write<X: fio::AsyncWrite>(x: &mut X) -> u32 {
        let a = cf(w(|cx| pn(x).poll_write(cx, &[3])).map_ok(|n| n as u32));
        a ^ pu(w(|cx| pn(x).poll_flush(cx))) << 8 ^ pu(w(|cx| pn(x).poll_close(cx))) << 16
    }
    pub fn fut_seek<X: fio::AsyncSeek>(x: &mut X) -> u32 {
        cf(w(|cx| pn(x).poll_seek(cx, io::SeekFrom::Start(3))).map_ok(|n| n as u32))
    }
    pub fn fut_buf<X: fio::AsyncBufRead>(x: &mut X) -> u32 {
        let a = cf(w(|cx| pn(x).poll_fill_buf(cx).map_ok(|b| b[0] as u32)));
        pn(x).consume(2);
        a
    }
    pub fn par_iter<X: ParallelIterator<Item = u32>>(x: &mut X) -> u32 {
        x.opt_len().unwrap_or(3) as u32
    }
    pub fn par_indexed<X: IndexedParallelIterator<Item = u32>>(x: &mut X) -> u32 {
        IndexedParallelIterator::len(x) as u32
    }
    pub fn par_extend<X: ParallelExtend<u32>>(x: &mut X) -> u32 {
        x.par_extend(::rayon::iter::empty());
        1
    }
    pub fn serialize<X: Serialize>(x: &mut X) -> u32 {
        match x.serialize(S) { Ok(a) => a, Err(_) => 5 }
    }
    pub fn body<X: ::http_body::Body<Data = D, Error = u32>>(x: &mut X) -> u32 {
        let a = match w(|cx| pn(x).poll_frame(cx)) { Poll::Pending => 1, Poll::Ready(Some(Err(e))) => e, r => { core::mem::forget(r); 2 } };
        a ^ x.is_end_stream() as u32
    }
    pub use super::tk::*;
    use ::tokio::io as tio;
    probes! {
        stream 0 Stream; sink 1 Sink<u32>; fut_read 2 fio::AsyncRead; fut_write 3 fio::AsyncWrite; fut_seek 4 fio::AsyncSeek; fut_buf 5 fio::AsyncBufRead;
        tokio_read 6 tio::AsyncRead; tokio_write 7 tio::AsyncWrite; tokio_seek 8 tio::AsyncSeek; tokio_buf 9 tio::AsyncBufRead;
        par_iter 10 ParallelIterator; par_indexed 11 IndexedParallelIterator; par_extend 12 ParallelExtend<u32>; serialize 13 Serialize; body 14 ::http_body::Body;
    }
}
#[cfg(any(feature = "x2", feature = "x3"))]
mod one {
    pub use super::tk::*;
    use ::tokio::io as tio;
    probes! {
        tokio_read 6 tio::AsyncRead; tokio_write 7 tio::AsyncWrite; tokio_seek 8 tio::AsyncSeek; tokio_buf 9 tio::AsyncBufRead;
    }
}
#[cfg(feature = "x4")]
mod one {
    use super::*;
    use ::futures::{Async, AsyncSink, Future, Poll as P1, Sink, StartSend, Stream};
    use ::tokio::io::{AsyncRead, AsyncWrite};
    fn pa<T, E>(h: u32, x: T, e: E) -> P1<T, E> {
        match h & 3 { 0 => Err(e), 1 => Ok(Async::NotReady), _ => Ok(Async::Ready(x)) }
    }
    fn pv<E>(p: P1<u32, E>) -> u32 {
        match p { Err(e) => { core::mem::forget(e); 1 } Ok(Async::NotReady) => 2, Ok(Async::Ready(x)) => x ^ 3 }
    }
    fn ioe() -> io::Error { io::ErrorKind::NotFound.into() }
    macro_rules! imp {
        ($t:ty, [$($g:tt)*]) => {
            impl<$($g)*> Future for $t {
                type Item = u32;
                type Error = u32;
                fn poll(&mut self) -> P1<u32, u32> { let h = self.hit_mut(41); pa(h, h, 1) }
            }
            impl<$($g)*> Stream for $t {
                type Item = u32;
                type Error = u32;
                fn poll(&mut self) -> P1<Option<u32>, u32> { let h = self.hit_mut(42); pa(h, Some(h), 1) }
            }
            impl<$($g)*> Sink for $t {
                type SinkItem = u32;
                type SinkError = u32;
                fn start_send(&mut self, x: u32) -> StartSend<u32, u32> {
                    let h = self.hit_mut(43 ^ x);
                    if h & 1 == 0 { Ok(AsyncSink::Ready) } else { Ok(AsyncSink::NotReady(x)) }
                }
                fn poll_complete(&mut self) -> P1<(), u32> { pa(self.hit_mut(44), (), 1) }
                fn close(&mut self) -> P1<(), u32> { pa(self.hit_mut(45), (), 1) }
            }
            impl<$($g)*> AsyncRead for $t {
                fn poll_read(&mut self, b: &mut [u8]) -> P1<usize, io::Error> {
                    let h = self.hit_mut(46);
                    b[0] = h as u8;
                    pa(h, 1, ioe())
                }
            }
            impl<$($g)*> AsyncWrite for $t {
                fn poll_write(&mut self, b: &[u8]) -> P1<usize, io::Error> { let h = self.hit_mut(47 ^ b[0] as u32); pa(h, h as usize, ioe()) }
                fn poll_flush(&mut self) -> P1<(), io::Error> { pa(self.hit_mut(48), (), ioe()) }
                fn shutdown(&mut self) -> P1<(), io::Error> { pa(self.hit_mut(49), (), ioe()) }
            }
        };
    }
    both!(imp);
    pub fn f1_future<X: Future<Item = u32, Error = u32>>(x: &mut X) -> u32 { pv(x.poll()) }
    pub fn f1_stream<X: Stream<Item = u32, Error = u32>>(x: &mut X) -> u32 { pv(x.poll().map(|a| a.map1())) }
    trait M { fn map1(self) -> Async<u32>; }
    impl M for Async<Option<u32>> {
        fn map1(self) -> Async<u32> { match self { Async::NotReady => Async::NotReady, Async::Ready(o) => Async::Ready(o.unwrap_or(9)) } }
    }
    fn un<E>(p: P1<(), E>) -> u32 {
        pv(p.map(|a| match a { Async::NotReady => Async::NotReady, Async::Ready(()) => Async::Ready(8) }))
    }
    pub fn f1_sink<X: Sink<SinkItem = u32, SinkError = u32>>(x: &mut X) -> u32 {
        let a = match x.start_send(7) { Err(_) => 1, Ok(AsyncSink::Ready) => 2, Ok(AsyncSink::NotReady(x)) => x };
        a ^ un(x.poll_complete()) << 4 ^ un(x.close()) << 8
    }
    pub fn t1_read<X: AsyncRead>(x: &mut X) -> u32 {
        let mut b = [0; 2];
        let r = match x.poll_read(&mut b) { Err(e) => { core::mem::forget(e); 1 } Ok(Async::NotReady) => 2, Ok(Async::Ready(n)) => n as u32 ^ 3 };
        r ^ (b[0] as u32) << 8
    }
    pub fn t1_write<X: AsyncWrite>(x: &mut X) -> u32 {
        let r = match x.poll_write(&[7]) { Err(e) => { core::mem::forget(e); 1 } Ok(Async::NotReady) => 2, Ok(Async::Ready(n)) => n as u32 ^ 3 };
        r ^ un(AsyncWrite::poll_flush(x)) << 4 ^ un(x.shutdown()) << 8
    }
    probes! {
        f1_future 0 Future; f1_stream 1 Stream; f1_sink 2 Sink; t1_read 3 AsyncRead; t1_write 4 AsyncWrite;
    }
}
pub(crate) use one::mask_x;
pub use one::NoX;
/// Uses of all the traits, by probe name.
pub mod u {
    pub use super::one::*;
    pub use crate::c12s::u::*;
}
