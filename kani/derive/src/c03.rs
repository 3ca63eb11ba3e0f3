//! C03: std::io Read, BufRead, Write, Seek.
use crate::{io_async::*, support::*};
use std::io::{self, BufRead, IoSlice, IoSliceMut, Read, Seek, SeekFrom, Write};

impl<const K: u8> Read for P<'_, K> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let (h, v) = self.hit(1, bytes(buf));
        put(buf, v);
        ioe(h, v as usize)
    }
    fn read_vectored(&mut self, bufs: &mut [IoSliceMut<'_>]) -> io::Result<usize> {
        let (h, v) = self.hit(2, lens_mut(bufs));
        put_all(bufs, v);
        ioe(h, v as usize)
    }
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> io::Result<usize> {
        let (h, v) = self.hit(3, bytes(buf));
        put(buf, v);
        ioe(h, v as usize)
    }
    fn read_to_string(&mut self, buf: &mut String) -> io::Result<usize> {
        let (h, v) = self.hit(4, bytes(buf.as_bytes()));
        if h & 0x100 == 0 {
            buf.clear();
        }
        ioe(h, v as usize)
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
        let (h, v) = self.hit(5, bytes(buf));
        put(buf, v);
        ioe(h, ())
    }
}
impl<const K: u8> BufRead for P<'_, K> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        let (h, v) = self.hit(11, 0);
        ioe(h, self.lend(v))
    }
    fn consume(&mut self, n: usize) {
        self.hit(12, n as u64);
    }
    fn read_until(&mut self, byte: u8, buf: &mut Vec<u8>) -> io::Result<usize> {
        let (h, v) = self.hit(13, (byte as u64) << 56 ^ bytes(buf));
        put(buf, v);
        ioe(h, v as usize)
    }
    fn read_line(&mut self, buf: &mut String) -> io::Result<usize> {
        let (h, v) = self.hit(14, bytes(buf.as_bytes()));
        if h & 0x100 == 0 {
            buf.clear();
        }
        ioe(h, v as usize)
    }
}
impl<const K: u8> Write for P<'_, K> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let (h, v) = self.hit(21, bytes(buf));
        ioe(h, v as usize)
    }
    fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> io::Result<usize> {
        let (h, v) = self.hit(22, lens(bufs));
        ioe(h, v as usize)
    }
    fn flush(&mut self) -> io::Result<()> {
        let (h, _) = self.hit(23, 0);
        ioe(h, ())
    }
    fn write_all(&mut self, buf: &[u8]) -> io::Result<()> {
        let (h, _) = self.hit(24, bytes(buf));
        ioe(h, ())
    }
    fn write_fmt(&mut self, a: core::fmt::Arguments<'_>) -> io::Result<()> {
        let (h, _) = self.hit(25, said(a));
        ioe(h, ())
    }
}
impl<const K: u8> Seek for P<'_, K> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let (h, v) = self.hit(31, seekcode(p));
        ioe(h, v)
    }
}
shapes!(io::Read, io::BufRead, io::Write, io::Seek);
pub mod h {
    use super::*;
    for_shapes! {
        [6] read<E>(s) { diff!(s, E, |x| buffer!(s, |b| cmp(x.read(b)))) }
        [6] read_vectored<E>(s) { diff!(s, E, |x| buffers_mut!(s, |b| cmp(x.read_vectored(b)))) }
        [6] read_to_end<E>(s) { diff!(s, E, |x| { let mut v = vec(s); (cmp(x.read_to_end(&mut v)), v.len()) }) }
        [6] read_to_string<E>(s) { diff!(s, E, |x| { let mut v = text(s); (cmp(x.read_to_string(&mut v)), v.len()) }) }
        [6] read_exact<E>(s) { diff!(s, E, |x| buffer!(s, |b| cmp(x.read_exact(b)))) }
        [6] fill_buf<E>(s) { diff!(s, E, |x| { let a = x.a(); cmp(x.fill_buf()).map(|b| lent(b, a)) }) }
        [6] consume<E>(s) { diff!(s, E, |x| x.consume(s.usize())) }
        [6] read_until<E>(s) { diff!(s, E, |x| { let mut v = vec(s); (cmp(x.read_until(s.u8(), &mut v)), v.len()) }) }
        [6] read_line<E>(s) { diff!(s, E, |x| { let mut v = text(s); (cmp(x.read_line(&mut v)), v.len()) }) }
        [6] write<E>(s) { diff!(s, E, |x| buffer!(s, |b| cmp(x.write(b)))) }
        [6] write_vectored<E>(s) { diff!(s, E, |x| buffers!(s, |b| cmp(x.write_vectored(b)))) }
        [6] flush<E>(s) { diff!(s, E, |x| cmp(x.flush())) }
        [6] write_all<E>(s) { diff!(s, E, |x| buffer!(s, |b| cmp(x.write_all(b)))) }
        [6] write_fmt<E>(s) { diff!(s, E, |x| { let v = s.u32(); let r = (cmp(x.write_fmt(format_args!("hello"))), cmp(x.write_fmt(format_args!("{}b", Tok(v))))); r }) }
        [6] seek<E>(s) { diff!(s, E, |x| { let p = seekfrom(s); cmp(x.seek(p)) }) }
    }
}
addr!(g::T, c::T, b::T, m::T, w::T, o::T);

/// Short names select the same traits; BufRead brings Read along.
pub mod alias {
    use super::*;
    shapes!(BufRead, Write, Seek);
    pub mod h {
        use super::*;
        for_shapes! {
            [6] dep_read<E>(s) { diff!(s, E, |x| { let mut b = [0u8; 4]; (cmp(x.read(&mut b)), b4(&b)) }) }
            [6] consume<E>(s) { diff!(s, E, |x| x.consume(s.usize())) }
            [6] flush<E>(s) { diff!(s, E, |x| cmp(x.flush())) }
            [6] seek<E>(s) { diff!(s, E, |x| { let p = seekfrom(s); cmp(x.seek(p)) }) }
        }
    }
}
/// Provided methods the derive does not forward agree for lawful payloads.
pub mod lawful {
    use super::*;
    use std::io::Cursor;
    #[auto_enums::enum_derive(io::Read, io::BufRead)]
    enum R<A, B> { A(A), B(B) }
    #[auto_enums::enum_derive(io::Seek)]
    enum S<A, B> { A(A), B(B) }
    #[auto_enums::enum_derive(io::Write)]
    enum T<A, B> { A(A), B(B) }
    type C<'a> = Cursor<&'a [u8]>;
    /// `$x` over `$b` as an enum and as what it holds.
    macro_rules! same {
        ($w:ident, $E:ident, $p:expr, $q:expr, |$x:ident| $e:expr) => {{
            let a = { #[allow(unused_mut)] let mut $x = if $w { $E::A($p) } else { $E::B($q) }; $e };
            let b = if $w { #[allow(unused_mut)] let mut $x = $p; $e } else { #[allow(unused_mut)] let mut $x = $q; $e };
            assert!(a == b, "a provided method differs from the payload's");
        }};
    }
    crate::harnesses! {
        [6] read_adaptors(s) {
            let (w, d, k, n) = (s.bool(), [s.u8(), s.u8(), s.u8()], s.u64(), s.below(4) as usize);
            let d = &d[..n];
            same!(w, R, d, Cursor::new(d), |x| { let mut b = [0u8; 4]; let mut y = x.take(k); (cmp(y.read(&mut b)), b4(&b), y.limit()) });
            same!(w, R, d, Cursor::new(d), |x| { let mut b = [0u8; 4]; let mut y = x.chain(&[7u8][..]); (cmp(y.read(&mut b)), cmp(y.read(&mut b[2..])), b4(&b)) });
            same!(w, R, d, Cursor::new(d), |x| { let mut b = [0u8; 4]; (cmp(x.by_ref().read(&mut b[..1])), cmp(x.read(&mut b[1..])), b4(&b)) });
        }
        [6] buf_read_adaptors(s) {
            let (w, d, k, n) = (s.bool(), [s.u8(), s.u8(), s.u8()], s.u8(), s.below(4) as usize);
            let d = &d[..n];
            same!(w, R, d, Cursor::new(d), |x| (cmp(x.skip_until(k)), cmp(x.fill_buf()).map(|b| b.len())));
        }
        [6] bytes(s) {
            let (w, d, n) = (s.bool(), [s.u8(), s.u8()], s.below(3) as usize);
            let d = &d[..n];
            same!(w, R, d, Cursor::new(d), |x| { let mut y = x.bytes(); (y.next().map(cmp), y.next().map(cmp)) });
        }
        [6] seek_adaptors(s) {
            let (w, d, k) = (s.bool(), [1u8, 2, 3, 4], s.u64() as i64);
            let at = s.u64();
            let mk = |at| { let mut c: C<'_> = Cursor::new(&d[..]); c.set_position(at); c };
            same!(w, S, mk(at), Some(mk(at)).unwrap(), |x| (cmp(x.stream_position()), cmp(x.seek_relative(k)), cmp(x.stream_position())));
            same!(w, S, mk(at), Some(mk(at)).unwrap(), |x| (cmp(x.rewind()), cmp(x.stream_position())));
        }
        [6] write_adaptors(s) {
            let (w, k, n) = (s.bool(), s.u8(), s.below(4) as usize);
            let (mut a, mut b) = ([0u8; 4], [0u8; 4]);
            let v = [k, 1, 2];
            let r = { let mut x: T<&mut [u8], Cursor<&mut [u8]>> = if w { T::A(&mut a[..]) } else { T::B(Cursor::new(&mut b[..])) };
                (cmp(Write::by_ref(&mut x).write(&v[..n])), cmp(x.write_all(&v[..1]))) };
            let (mut c, mut d) = ([0u8; 4], [0u8; 4]);
            let q = if w { let mut x = &mut c[..]; (cmp(Write::by_ref(&mut x).write(&v[..n])), cmp(x.write_all(&v[..1]))) } else { let mut x = Cursor::new(&mut d[..]); (cmp(Write::by_ref(&mut x).write(&v[..n])), cmp(x.write_all(&v[..1]))) };
            assert!(r == q && a == c && b == d, "a provided method differs from the payload's");
        }
    }
}
#[cfg(not(kani))]
pub const TABLES: &[(&str, &[(&str, fn(&mut Src))])] = &[("c03::h", h::SHAPED), ("c03::alias::h", alias::h::SHAPED), ("c03::lawful", lawful::TABLE)];
