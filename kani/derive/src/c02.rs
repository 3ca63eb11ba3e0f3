//! C02: formatting traits, fmt::Write and Error.
use crate::support::*;
use core::fmt::{self, Formatter, FormattingOptions, Write};
use std::error::Error;

/// Sink of formatted output; fails when told to.
pub struct W {
    pub log: u64,
    pub n: u8,
    pub fail: bool,
}
impl Write for W {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.log = self.log.rotate_left(3) ^ (s.len() as u64) ^ 0x100;
        self.n += 1;
        if self.fail { Err(fmt::Error) } else { Ok(()) }
    }
    fn write_char(&mut self, c: char) -> fmt::Result {
        self.log = self.log.rotate_left(7) ^ (c as u64);
        self.n += 1;
        if self.fail { Err(fmt::Error) } else { Ok(()) }
    }
}
/// Everything a formatter says about how to format.
fn spec(f: &Formatter<'_>) -> u64 {
    (f.alternate() as u64) << 16
        ^ (f.sign_plus() as u64) << 17
        ^ (f.sign_aware_zero_pad() as u64) << 18
        ^ (f.sign_minus() as u64) << 19
        ^ f.width().map_or(0, |w| w as u64 + 1).rotate_left(21)
        ^ f.precision().map_or(0, |w| w as u64 + 1).rotate_left(39)
        ^ (f.fill() as u64).rotate_left(56)
        ^ match f.options().get_debug_as_hex() { None => 0, Some(fmt::DebugAsHex::Lower) => 1 << 14, Some(fmt::DebugAsHex::Upper) => 1 << 15 }
        ^ match f.align() { None => 0, Some(fmt::Alignment::Left) => 1 << 10, Some(fmt::Alignment::Right) => 2 << 10, Some(fmt::Alignment::Center) => 3 << 10 }
}
macro_rules! fmts {
    ($($Tr:ident $id:literal),*) => { $(
        impl<const K: u8> fmt::$Tr for P<'_, K> {
            fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
                let (h, _) = self.hit($id, spec(f));
                if h & 1 == 0 {
                    f.write_char((b'a' + K) as char)?;
                }
                if h & 2 == 0 {
                    f.write_str("xyz")?;
                }
                if h & 4 == 0 { Err(fmt::Error) } else { Ok(()) }
            }
        }
    )* };
}
fmts!(Debug 1, Display 2, Binary 3, Octal 4, LowerHex 5, UpperHex 6, LowerExp 7, UpperExp 8, Pointer 9);
impl<const K: u8> Write for P<'_, K> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let (h, _) = self.hit(21, bytes(s.as_bytes()));
        if h & 1 == 0 { Err(fmt::Error) } else { Ok(()) }
    }
    fn write_char(&mut self, c: char) -> fmt::Result {
        let (h, _) = self.hit(22, c as u64);
        if h & 1 == 0 { Err(fmt::Error) } else { Ok(()) }
    }
    fn write_fmt(&mut self, a: fmt::Arguments<'_>) -> fmt::Result {
        let (h, _) = self.hit(23, said(a));
        if h & 1 == 0 { Err(fmt::Error) } else { Ok(()) }
    }
}
impl<const K: u8> Error for P<'_, K> {
    fn description(&self) -> &str {
        let (_, v) = self.hit(31, 0);
        unsafe { core::str::from_utf8_unchecked(&*long(v as usize & (MAX - 1))) }
    }
    fn source(&self) -> Option<&(dyn Error + 'static)> {
        self.hit(32, 0);
        None
    }
}
shapes!(
    Debug, Display, fmt::Pointer, fmt::Binary, fmt::Octal, fmt::UpperHex, fmt::LowerHex, fmt::UpperExp,
    fmt::LowerExp, fmt::Write
);
macro_rules! via {
    ($s:ident, $x:ident, $Tr:ident) => {{
        let mut w = W { log: 0, n: 0, fail: $s.bool() };
        let mut o = FormattingOptions::new();
        let b = $s.u8();
        o.alternate(b & 1 == 1);
        if b & 2 == 2 {
            o.sign(Some(fmt::Sign::Plus));
        }
        o.sign_aware_zero_pad(b & 4 == 4);
        if b & 8 == 8 {
            o.sign(Some(fmt::Sign::Minus));
        }
        o.width(if b & 16 == 16 { Some($s.u16()) } else { None });
        o.precision(if b & 32 == 32 { Some($s.u16()) } else { None });
        o.fill($s.char());
        o.debug_as_hex(match $s.u8() { 0 => None, 1 => Some(fmt::DebugAsHex::Lower), _ => Some(fmt::DebugAsHex::Upper) });
        o.align(match b >> 6 { 0 => None, 1 => Some(fmt::Alignment::Left), 2 => Some(fmt::Alignment::Right), _ => Some(fmt::Alignment::Center) });
        let r = fmt::$Tr::fmt(&$x, &mut o.create_formatter(&mut w));
        (r.is_ok(), w.log, w.n)
    }};
}
pub mod h {
    use super::*;
    for_shapes! {
        [5] debug<E>(s) { diff!(s, E, |x| via!(s, x, Debug)) }
        [5] display<E>(s) { diff!(s, E, |x| via!(s, x, Display)) }
        [5] binary<E>(s) { diff!(s, E, |x| via!(s, x, Binary)) }
        [5] octal<E>(s) { diff!(s, E, |x| via!(s, x, Octal)) }
        [5] lower_hex<E>(s) { diff!(s, E, |x| via!(s, x, LowerHex)) }
        [5] upper_hex<E>(s) { diff!(s, E, |x| via!(s, x, UpperHex)) }
        [5] lower_exp<E>(s) { diff!(s, E, |x| via!(s, x, LowerExp)) }
        [5] upper_exp<E>(s) { diff!(s, E, |x| via!(s, x, UpperExp)) }
        [5] pointer<E>(s) { diff!(s, E, |x| via!(s, x, Pointer)) }
        [7] write_str<E>(s) { diff!(s, E, |x| { let n = s.u32() as usize; assume(n <= MAX);
            let t = if n < 5 { ["", "q", "é", "rs\n", "\0tuv"][n] } else { unsafe { core::str::from_utf8_unchecked(&*long(n)) } };
            Write::write_str(&mut x, t).is_ok() }) }
        [5] write_char<E>(s) { diff!(s, E, |x| { let c = s.char(); Write::write_char(&mut x, c).is_ok() }) }
        [7] write_fmt<E>(s) { diff!(s, E, |x| { let v = s.u32(); (Write::write_fmt(&mut x, format_args!("hello")).is_ok(), Write::write_fmt(&mut x, format_args!("{}b", Tok(v))).is_ok()) }) }
    }
}
pub mod err {
    use super::*;
    shapes!(Error);
    addr!(g::T, c::T, b::T, m::T, w::T, o::T);
    pub mod h {
        use super::*;
        for_shapes! {
            [5] description<E>(s) { diff!(s, E, |x| { let a = <_ as Addr>::a(&x); lent(x.description().as_bytes(), a) }) }
            [5] dep_display<E>(s) { diff!(s, E, |x| via!(s, x, Display)) }
            [5] dep_debug<E>(s) { diff!(s, E, |x| via!(s, x, Debug)) }
            [5] source<E>(s) {
                let (w, st) = (s.below(4), s.st());
                let e = E::mk(w, st);
                let src = e.source().expect("source is the held payload");
                assert!(core::ptr::eq(src as *const dyn Error as *const u8, e.addr()), "source is the payload itself");
                // and it dispatches to the payload's own impl (its vtable, not another variant's)
                let n = src.description().len();
                let n2 = payload!(w, st, |p| p.description().len());
                assert!(n == n2);
                assert!(e.which() == w);
            }
        }
    }
}
/// Aliased spellings select the same traits.
pub mod alias {
    use super::*;
    shapes!(fmt::Debug, fmt::Display);
    pub mod h {
        use super::*;
        for_shapes! {
            [5] debug<E>(s) { diff!(s, E, |x| via!(s, x, Debug)) }
            [5] display<E>(s) { diff!(s, E, |x| via!(s, x, Display)) }
        }
    }
}
#[cfg(not(kani))]
pub const TABLES: &[(&str, &[(&str, fn(&mut Src))])] =
    &[("c02::h", h::SHAPED), ("c02::err::h", err::h::SHAPED), ("c02::alias::h", alias::h::SHAPED)];
