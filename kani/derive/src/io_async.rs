//! Comparable forms shared by the I/O modules.
use crate::support::*;
use core::task::Poll;
use std::io::{self, ErrorKind as K, IoSlice, IoSliceMut, SeekFrom};

const KINDS: [K; 32] = [
    K::Interrupted, K::UnexpectedEof, K::WouldBlock, K::NotFound, K::PermissionDenied, K::ConnectionRefused, K::ConnectionReset, K::ConnectionAborted,
    K::NotConnected, K::AddrInUse, K::AddrNotAvailable, K::BrokenPipe, K::AlreadyExists, K::InvalidInput, K::InvalidData, K::TimedOut,
    K::WriteZero, K::Unsupported, K::OutOfMemory, K::Other, K::HostUnreachable, K::NetworkUnreachable, K::NetworkDown, K::NotADirectory,
    K::IsADirectory, K::DirectoryNotEmpty, K::ReadOnlyFilesystem, K::StorageFull, K::NotSeekable, K::ResourceBusy, K::Deadlock, K::ArgumentListTooLong,
];
/// Success, an error of any of these kinds, or any operating system error.
pub fn ioe<T>(h: u64, v: T) -> io::Result<T> {
    match h & 3 {
        0 => Err(KINDS[(h >> 2) as usize & 31].into()),
        1 => Err(io::Error::from_raw_os_error((h >> 2) as i32)),
        _ => Ok(v),
    }
}
pub fn pio<T>(h: u64, v: T) -> Poll<io::Result<T>> {
    if h & 4 == 0 { Poll::Pending } else { Poll::Ready(ioe(h.rotate_right(3), v)) }
}
/// Comparable form of an io::Result: an unboxed io::Error is one word (tag and kind), compared as
/// such so that neither its decoding nor the drop glue of boxed errors enters the formula.
pub fn cmp<T>(r: io::Result<T>) -> Result<T, usize> {
    match r {
        Ok(v) => Ok(v),
        Err(e) => Err(unsafe { core::mem::transmute::<io::Error, usize>(e) }),
    }
}
pub fn pc<T>(r: Poll<io::Result<T>>) -> Option<Result<T, usize>> {
    match r {
        Poll::Pending => None,
        Poll::Ready(r) => Some(cmp(r)),
    }
}
/// As `pc` for a borrowed slice.
pub fn pslice(r: Poll<io::Result<&[u8]>>, base: *const u8) -> Option<Result<(usize, usize), usize>> {
    match pc(r) {
        None => None,
        Some(Err(e)) => Some(Err(e)),
        Some(Ok(b)) => Some(Ok(lent(b, base))),
    }
}
/// Number of the buffers of a vectored call, and the contents of the first three.
pub fn lens(bufs: &[IoSlice<'_>]) -> u64 {
    let n = bufs.len();
    let (mut h, mut i) = (n as u64, 0);
    while i < 3 {
        if i < n { h = h.rotate_left(3) ^ bytes(&bufs[i]) ^ 0x40; }
        i += 1;
    }
    h
}
pub fn lens_mut(bufs: &[IoSliceMut<'_>]) -> u64 {
    let n = bufs.len();
    let (mut h, mut i) = (n as u64, 0);
    while i < 3 {
        if i < n { h = h.rotate_left(3) ^ (bufs[i].len() as u64) << 20 ^ 0x40; }
        i += 1;
    }
    h
}
pub fn put_all(bufs: &mut [IoSliceMut<'_>], h: u64) {
    let mut i = 0;
    while i < 3 {
        if i < bufs.len() { put(&mut bufs[i], h ^ i as u64) }
        i += 1;
    }
}
pub fn b4(b: &[u8; 4]) -> u32 {
    u32::from_le_bytes(*b)
}
pub fn seekfrom(s: &mut Src) -> SeekFrom {
    let n = s.u64();
    match s.below(3) {
        0 => SeekFrom::Start(n),
        1 => SeekFrom::End(n as i64),
        _ => SeekFrom::Current(n as i64),
    }
}
pub fn seekcode(p: SeekFrom) -> u64 {
    match p {
        SeekFrom::Start(n) => n.rotate_left(17),
        SeekFrom::End(n) => 0x4000 ^ (n as u64).rotate_left(18),
        SeekFrom::Current(n) => 0x8000 ^ (n as u64).rotate_left(19),
    }
}
/// `with_cx!(s, cx, expr)`: a context with a symbolic identity.
#[macro_export]
macro_rules! with_cx {
    ($s:ident, $cx:ident, $e:expr) => {{
        let w = $crate::support::task::waker($s.usize());
        #[allow(unused_mut, unused_variables)]
        let mut cx = core::task::Context::from_waker(&w);
        #[allow(unused_variables)]
        let $cx = &mut cx;
        $e
    }};
}
/// `$b`: a buffer of any length up to MAX: arbitrary contents up to four bytes, else LONG.
#[macro_export]
macro_rules! buffer {
    ($s:ident, |$b:ident| $e:expr) => {{
        let mut v = [$s.u8(), $s.u8(), $s.u8(), $s.u8()];
        let n = $s.u32() as usize;
        $crate::support::assume(n <= $crate::support::MAX);
        let r = if n <= 4 { let $b = &mut v[..n]; $e } else { let $b = $crate::support::long(n); $e };
        (r, $crate::io_async::b4(&v))
    }};
}
/// As `buffer!`, with up to MAXV buffers, of which the first three may have contents.
#[macro_export]
macro_rules! buffers_mut {
    ($s:ident, |$b:ident| $e:expr) => {
        $crate::buffer!($s, |first| {
            let (mut b, mut c) = ([$s.u8(), 2, 3, 4], [0u8; 1]);
            let (k, n) = ($s.u16() as usize, $s.below(5) as usize);
            $crate::support::assume(k <= $crate::support::MAXV);
            // IoSliceMut has the layout of (pointer, length) here
            let mut many: [(*mut u8, usize); $crate::support::MAXV] = [(c.as_mut_ptr(), 0); $crate::support::MAXV];
            many[0] = (b.as_mut_ptr(), n);
            many[1] = (first.as_mut_ptr(), first.len());
            many[2] = (c.as_mut_ptr(), 1);
            let $b = unsafe { core::slice::from_raw_parts_mut(many.as_mut_ptr() as *mut std::io::IoSliceMut<'_>, k) };
            ($e, $crate::io_async::b4(&b), c[0])
        })
    };
}
#[macro_export]
macro_rules! buffers {
    ($s:ident, |$b:ident| $e:expr) => {
        $crate::buffer!($s, |first| {
            let b = [$s.u8(), 2, 3, 4];
            let (k, n) = ($s.u16() as usize, $s.below(5) as usize);
            $crate::support::assume(k <= $crate::support::MAXV);
            let mut many = [std::io::IoSlice::new(&b[1..]); $crate::support::MAXV];
            many[0] = std::io::IoSlice::new(&b[..n]);
            many[1] = std::io::IoSlice::new(first);
            let $b = &many[..k];
            $e
        })
    };
}
/// A string of up to MAX bytes, in a `Vec` with spare room; only its length is arbitrary beyond four bytes.
pub fn vec(s: &mut Src) -> Vec<u8> {
    let n = s.u32() as usize;
    assume(n <= MAX);
    vec![b'a'; n]
}
pub fn text(s: &mut Src) -> String {
    unsafe { String::from_utf8_unchecked(vec(s)) }
}
