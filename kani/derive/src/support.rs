//! Shared pieces: symbolic input source, recording payloads, the enum shapes under check and the
//! differential macros (enum call vs. the same call on the payload it holds).
use core::{cell::Cell, marker::PhantomData};

pub const NB: usize = 80;

/// Input bytes: `kani::any()` under the solver, the counterexample's bytes when replayed natively.
#[derive(Clone)]
pub struct Src {
    b: [u8; NB],
    i: usize,
}
impl Src {
    pub fn new(b: [u8; NB]) -> Self {
        Src { b, i: 0 }
    }
    pub fn u8(&mut self) -> u8 {
        let v = self.b[self.i];
        self.i += 1;
        v
    }
    pub fn u32(&mut self) -> u32 {
        u32::from_le_bytes([self.u8(), self.u8(), self.u8(), self.u8()])
    }
    pub fn u16(&mut self) -> u16 {
        u16::from_le_bytes([self.u8(), self.u8()])
    }
    pub fn u64(&mut self) -> u64 {
        let (a, b) = (self.u32() as u64, self.u32() as u64);
        a | b << 32
    }
    pub fn usize(&mut self) -> usize {
        self.u64() as usize
    }
    /// What a payload starts from.
    pub fn st(&mut self) -> St {
        St { st: self.u64(), rv: self.u64() }
    }
    pub fn char(&mut self) -> char {
        char::from_u32(self.u32()).unwrap_or('\u{e9}')
    }
    pub fn bool(&mut self) -> bool {
        self.u8() & 1 == 1
    }
    /// One of `0..n`.
    pub fn below(&mut self, n: u8) -> u8 {
        let v = self.u8();
        assume(v < n);
        v
    }
}
/// Longest buffer; larger than every block size std, futures and tokio use.
pub const MAX: usize = if cfg!(feature = "small") { 16 } else { 1 << 16 };
/// Most buffers of a vectored call; the operating system's limit is 1024.
pub const MAXV: usize = if cfg!(feature = "small") { 4 } else { 1030 };
/// For borrowed results longer than the payload itself.
pub static mut LONG: [u8; MAX] = [0; MAX];
pub fn long(n: usize) -> &'static mut [u8] {
    unsafe { core::slice::from_raw_parts_mut(core::ptr::addr_of_mut!(LONG) as *mut u8, n) }
}
fn is_long(b: &[u8]) -> bool {
    core::ptr::eq(b.as_ptr(), core::ptr::addr_of!(LONG) as *const u8)
}
/// A payload's first state and the word its answers are derived from.
#[derive(Clone, Copy)]
pub struct St {
    pub st: u64,
    pub rv: u64,
}
pub fn assume(c: bool) {
    #[cfg(kani)]
    kani::assume(c);
    #[cfg(not(kani))]
    if !c {
        eprintln!("ASSUMPTION-FAILED");
        std::process::exit(77);
    }
}

/// A slice's length, and its contents up to four bytes, in one word; of longer ones, whether it is
/// the very buffer handed over.
pub fn bytes(b: &[u8]) -> u64 {
    let n = b.len();
    let mut h = (n as u64).rotate_left(32);
    if is_long(b) {
        h ^= 1 << 30;
    } else if n <= 4 {
        let mut i = 0;
        while i < 4 {
            if i < n { h ^= (b[i] as u64) << (8 * i) }
            i += 1;
        }
    }
    h
}
/// What a payload does to a buffer it is to fill.
pub fn put(b: &mut [u8], v: u64) {
    let n = b.len();
    if !is_long(b) && n > 0 && n <= 4 {
        b[n - 1] = (v >> 8) as u8;
        b[0] = v as u8;
    }
}
/// A formatted value, and what a `write_fmt` call was given.
pub struct Tok(pub u32);
impl core::fmt::Display for Tok {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        core::fmt::Write::write_char(f, char::from_u32(self.0 & 0xff).unwrap())
    }
}
struct Said(u64);
impl core::fmt::Write for Said {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        self.0 = self.0.rotate_left(5) ^ bytes(s.as_bytes());
        Ok(())
    }
    fn write_char(&mut self, c: char) -> core::fmt::Result {
        self.0 = self.0.rotate_left(3) ^ c as u64;
        Ok(())
    }
}
pub fn said(a: core::fmt::Arguments<'_>) -> u64 {
    let mut w = Said(0);
    let _ = core::fmt::write(&mut w, a);
    w.0
}
static mut DROPS: u64 = 0;
/// What was dropped since the last call: every payload, once.
pub fn drops() -> u64 {
    unsafe { core::mem::replace(&mut *core::ptr::addr_of_mut!(DROPS), 0) }
}
impl<const K: u8> Drop for P<'_, K> {
    fn drop(&mut self) {
        unsafe { DROPS = DROPS.rotate_left(5) ^ self.st.get() ^ 0x5100 ^ K as u64 }
    }
}
/// Recording payload: every trait method mixes its own id, its arguments and `K` into `st` and
/// derives its result from the new state, so calling another method, another payload, twice, with
/// other arguments or on a copy is visible.
pub struct P<'a, const K: u8> {
    pub st: Cell<u64>,
    pub rv: u64,
    pub buf: [u8; 4],
    _m: PhantomData<&'a ()>,
}
impl<const K: u8> P<'_, K> {
    pub fn new(s: St) -> Self {
        let b = s.st.to_le_bytes();
        P { st: Cell::new(s.st), rv: s.rv, buf: [b[0] ^ K, b[1], b[2], b[3]], _m: PhantomData }
    }
    /// Two independent words to answer from: which kind of answer, and its value.
    pub fn hit(&self, m: u8, arg: u64) -> (u64, u64) {
        let s = self.st.get().rotate_left(5) ^ ((K as u64) << 24) ^ ((m as u64) << 16) ^ arg;
        self.st.set(s);
        (s, s ^ self.rv)
    }
    pub fn addr(&self) -> *const u8 {
        self as *const Self as *const u8
    }
    pub fn snap(&self) -> Snap {
        Snap { k: K, st: self.st.get(), rv: self.rv, buf: u32::from_le_bytes(self.buf) }
    }
    /// A borrowed part of the payload, or something longer.
    pub fn lend(&self, v: u64) -> &[u8] {
        if v & 1 == 0 { &self.buf[..(v >> 1) as usize & 3] } else { &*long((v >> 1) as usize & (MAX - 1)) }
    }
}
/// A lent slice: length and where it is relative to the payload (or that it is not in it).
pub fn lent(b: &[u8], base: *const u8) -> (usize, usize) {
    let p = b.as_ptr();
    let at = if is_long(b) { usize::MAX } else { (p as usize).wrapping_sub(base as usize) };
    (b.len(), at)
}
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub struct Snap {
    pub k: u8,
    pub st: u64,
    pub rv: u64,
    pub buf: u32,
}
pub trait Mark {}
impl<const K: u8> Mark for P<'_, K> {}

/// Uniform access to the enum shapes.
pub trait En: Sized {
    fn mk(which: u8, st: St) -> Self;
    fn which(&self) -> u8;
    fn snap(&self) -> Snap;
    fn addr(&self) -> *const u8;
}
#[macro_export]
macro_rules! en_common {
    ($T:ty, $E:ident) => {
        impl $crate::support::En for $T {
            fn mk(which: u8, st: $crate::support::St) -> Self {
                match which {
                    0 => $E::A(P::new(st)),
                    1 => $E::B(P::new(st)),
                    2 => $E::C(P::new(st)),
                    _ => $E::D(P::new(st)),
                }
            }
            fn which(&self) -> u8 {
                match self {
                    $E::A(_) => 0,
                    $E::B(_) => 1,
                    $E::C(_) => 2,
                    $E::D(_) => 3,
                    #[allow(unreachable_patterns)]
                    _ => panic!("held variant changed"),
                }
            }
            fn snap(&self) -> $crate::support::Snap {
                match self {
                    $E::A(x) => x.snap(),
                    $E::B(x) => x.snap(),
                    $E::C(x) => x.snap(),
                    $E::D(x) => x.snap(),
                    #[allow(unreachable_patterns)]
                    _ => panic!("held variant changed"),
                }
            }
            fn addr(&self) -> *const u8 {
                match self {
                    $E::A(x) => x.addr(),
                    $E::B(x) => x.addr(),
                    $E::C(x) => x.addr(),
                    $E::D(x) => x.addr(),
                    #[allow(unreachable_patterns)]
                    _ => panic!("held variant changed"),
                }
            }
        }
    };
}
/// Names that must not matter to an expansion.
#[macro_export]
macro_rules! shadow {
    () => {
        mod core {}
        mod std {}
        mod alloc {}
        $crate::shadow!(Option Some None Result Ok Err Poll Pin Unpin Sync Drop Clone Copy Default Iterator IntoIterator Extend Into From AsRef AsMut
            Fn FnMut FnOnce Box Vec String ToString Context Ordering Bound Read Write Seek BufRead Future);
    };
    ($($n:ident)*) => { $(#[allow(dead_code)] struct $n;)* };
}
/// Six and seventeen variants (four of them in use), and a single one. The parameters of the wide one have
/// names that a derive might be tempted to use itself.
#[macro_export]
macro_rules! more_shapes {
    ($($args:tt)*) => {
        pub mod m {
            use $crate::support::P;
            #[auto_enums::enum_derive($($args)*)]
            pub enum Many<A, V1, B, V3, C, D> { A(A), V1(V1), B(B), V3(V3), C(C), D(D) }
            pub type T = Many<P<'static, 0>, P<'static, 9>, P<'static, 1>, P<'static, 9>, P<'static, 2>, P<'static, 3>>;
            $crate::en_common!(T, Many);
        }
        pub mod w {
            use $crate::support::P;
            #[auto_enums::enum_derive($($args)*)]
            pub enum Wide<A, T, U, F, I, R, B, P, S, E, C, Item, Output, K, CB, X, D> { A(A), V1(T), V2(U), V3(F), V4(I), V5(R), B(B), V7(P), V8(S), V9(E), C(C), V11(Item), V12(Output), V13(K), V14(CB), V15(X), D(D) }
            type Z = P<'static, 9>;
            pub type T = Wide<P<'static, 0>, Z, Z, Z, Z, Z, P<'static, 1>, Z, Z, Z, P<'static, 2>, Z, Z, Z, Z, Z, P<'static, 3>>;
            $crate::en_common!(T, Wide);
        }
        pub mod o {
            use $crate::support::P;
            $crate::shadow!();
            #[auto_enums::enum_derive($($args)*)]
            pub enum One<A> { A(A) }
            pub type T = One<P<'static, 0>>;
            impl $crate::support::En for T {
                fn mk(which: u8, st: $crate::support::St) -> Self {
                    $crate::support::assume(which == 0);
                    One::A(P::new(st))
                }
                fn which(&self) -> u8 {
                    0
                }
                fn snap(&self) -> $crate::support::Snap {
                    let One::A(x) = self;
                    x.snap()
                }
                fn addr(&self) -> *const u8 {
                    let One::A(x) = self;
                    x.addr()
                }
            }
        }
    };
}
/// The declarations under check: `g` generic (one parameter per variant, as #[auto_enum] makes
/// them), `c` concrete types only, `b` lifetime/bounds/where clause/const parameter and mixed
/// concrete and generic payloads. Each with four variants holding P<0>..P<3>.
#[macro_export]
macro_rules! shapes {
    ($($args:tt)*) => {
        pub mod g {
            use $crate::support::P;
            #[auto_enums::enum_derive($($args)*)]
            pub enum E<A, B, C, D> { A(A), B(B), C(C), D(D) }
            pub type T = E<P<'static, 0>, P<'static, 1>, P<'static, 2>, P<'static, 3>>;
            $crate::en_common!(T, E);
        }
        pub mod c {
            use $crate::support::P;
            #[auto_enums::enum_derive($($args)*)]
            pub(crate) enum Conc { A(P<'static, 0>), B(P<'static, 1>), C(P<'static, 2>), D(P<'static, 3>) }
            pub(crate) type T = Conc;
            $crate::en_common!(T, Conc);
        }
        pub mod b {
            use $crate::support::{Mark, P};
            #[auto_enums::enum_derive($($args)*)]
            pub enum Bounded<'a, X: Mark, Y, const N: u8> where Y: Mark {
                /// doc
                A(P<'a, 0>), B(X), C(Y), D(P<'a, N>)
            }
            pub type T = Bounded<'static, P<'static, 1>, P<'static, 2>, 3>;
            $crate::en_common!(T, Bounded);
        }
        $crate::more_shapes!($($args)*);
    };
}
/// As `shapes!` for traits with a type parameter of their own (Extend<A>, Index<I>, AsRef<T>, ...),
/// which can only be derived where every payload is a type parameter.
#[macro_export]
macro_rules! shapes_gen {
    ($($args:tt)*) => {
        pub mod g {
            use $crate::support::P;
            #[auto_enums::enum_derive($($args)*)]
            pub enum E<A, B, C, D> { A(A), B(B), C(C), D(D) }
            pub type T = E<P<'static, 0>, P<'static, 1>, P<'static, 2>, P<'static, 3>>;
            $crate::en_common!(T, E);
        }
        pub mod c {
            use $crate::support::P;
            #[auto_enums::enum_derive($($args)*)]
            pub(crate) enum Rev<D, C, B, A> { D(D), C(C), B(B), A(A) }
            pub(crate) type T = Rev<P<'static, 3>, P<'static, 2>, P<'static, 1>, P<'static, 0>>;
            $crate::en_common!(T, Rev);
        }
        pub mod b {
            use $crate::support::{Mark, P};
            #[auto_enums::enum_derive($($args)*)]
            pub enum Bounded<W: Mark, X: Mark, Y, Z: ?Sized> where Y: Mark, Z: Mark + Sized {
                /// doc
                A(W), B(X), C(Y), D(Z)
            }
            pub type T = Bounded<P<'static, 0>, P<'static, 1>, P<'static, 2>, P<'static, 3>>;
            $crate::en_common!(T, Bounded);
        }
        $crate::more_shapes!($($args)*);
    };
}
/// `body` on the enum and on the payload alone, from the same inputs: results, payload state and
/// held variant must agree.
#[macro_export]
macro_rules! diff {
    ($s:ident, $E:ty, |$x:ident| $body:expr) => {{
        use $crate::support::En as _;
        let w = $s.below(4);
        let st = $s.st();
        let saved = $s.clone();
        let (r1, p1) = {
            #[allow(unused_mut)]
            let mut $x = <$E>::mk(w, st);
            let r = $body;
            assert!($x.which() == w, "held variant changed");
            (r, $x.snap())
        };
        let d1 = $crate::support::drops();
        *$s = saved.clone();
        let (r2, p2) = $crate::payload!(w, st, |$x| {
            let r = $body;
            (r, $x.snap())
        });
        assert!(r1 == r2, "result differs from the payload's");
        assert!(p1 == p2, "payload state differs");
        assert!(d1 == $crate::support::drops(), "payload not dropped exactly once");
    }};
}
/// As `diff!` for methods that consume the value.
#[macro_export]
macro_rules! diff_val {
    ($s:ident, $E:ty, |$x:ident| $body:expr) => {{
        use $crate::support::En as _;
        let w = $s.below(4);
        let st = $s.st();
        let saved = $s.clone();
        let r1 = {
            #[allow(unused_mut)]
            let mut $x = <$E>::mk(w, st);
            $body
        };
        let d1 = $crate::support::drops();
        *$s = saved.clone();
        let r2 = $crate::payload!(w, st, |$x| $body);
        assert!(r1 == r2, "result differs from the payload's");
        assert!(d1 == $crate::support::drops(), "payload not dropped exactly once");
    }};
}
#[macro_export]
macro_rules! payload {
    ($w:ident, $st:ident, |$x:ident| $body:expr) => {
        match $w {
            0 => { #[allow(unused_mut)] let mut $x = $crate::support::P::<0>::new($st); $body }
            1 => { #[allow(unused_mut)] let mut $x = $crate::support::P::<1>::new($st); $body }
            2 => { #[allow(unused_mut)] let mut $x = $crate::support::P::<2>::new($st); $body }
            _ => { #[allow(unused_mut)] let mut $x = $crate::support::P::<3>::new($st); $body }
        }
    };
}
/// As `diff!` for methods on `Pin<&mut Self>`: `$x` is the pinned reference; additionally the
/// payload must not move.
#[macro_export]
macro_rules! diff_pin {
    ($s:ident, $E:ty, |$x:ident| $body:expr) => {{
        use $crate::support::En as _;
        let w = $s.below(4);
        let st = $s.st();
        let saved = $s.clone();
        let (r1, p1) = {
            let mut e = <$E>::mk(w, st);
            let a0 = e.addr();
            $crate::support::expect_addr(a0);
            let r = {
                #[allow(unused_mut)]
                let mut $x = unsafe { core::pin::Pin::new_unchecked(&mut e) };
                $body
            };
            assert!(e.which() == w, "held variant changed");
            assert!(core::ptr::eq(e.addr(), a0), "payload moved");
            (r, e.snap())
        };
        let d1 = $crate::support::drops();
        *$s = saved.clone();
        let (r2, p2) = $crate::payload!(w, st, |p| {
            $crate::support::expect_addr(p.addr());
            let r = {
                #[allow(unused_mut)]
                let mut $x = unsafe { core::pin::Pin::new_unchecked(&mut p) };
                $body
            };
            (r, p.snap())
        });
        assert!(r1 == r2, "result differs from the payload's");
        assert!(p1 == p2, "payload state differs");
        assert!(d1 == $crate::support::drops(), "payload not dropped exactly once");
    }};
}
static mut EXPECT: *const u8 = core::ptr::null();
/// Address every pinned call must see as its receiver.
pub fn expect_addr(p: *const u8) {
    unsafe { EXPECT = p }
}
impl<const K: u8> P<'_, K> {
    /// Called by pinned methods: the receiver is the payload inside the (unmoved) enum.
    pub fn at_home(&self) {
        assert!(core::ptr::eq(self.addr(), unsafe { EXPECT }), "payload was not called in place");
    }
}

/// A waker with an identity: `cx_is` lets payload methods observe which context they were given.
pub mod task {
    use core::task::{Context, RawWaker, RawWakerVTable, Waker};
    fn clone(p: *const ()) -> RawWaker {
        RawWaker::new(p, &VT)
    }
    fn nop(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
    pub fn waker(id: usize) -> Waker {
        unsafe { Waker::from_raw(RawWaker::new(id as *const (), &VT)) }
    }
    pub fn id(cx: &Context<'_>) -> u64 {
        cx.waker().data() as usize as u64
    }
}

/// Declares harness bodies once: a Kani proof each, and a table for native replay.
#[macro_export]
macro_rules! harnesses {
    ($( [$unwind:literal] $name:ident($s:ident) $body:block )*) => {
        $( pub fn $name($s: &mut $crate::support::Src) { $body } )*
        #[cfg(kani)]
        mod proofs {
            $(
                #[kani::proof]
                #[kani::unwind($unwind)]
                #[kani::solver(cadical)]
                fn $name() {
                    let b: [u8; $crate::support::NB] = kani::any();
                    super::$name(&mut $crate::support::Src::new(b));
                    kani::cover!(true, "end of harness reached");
                }
            )*
        }
        #[cfg(not(kani))]
        pub const TABLE: &[(&str, fn(&mut $crate::support::Src))] = &[ $( (stringify!($name), $name) ),* ];
    };
}
/// The same generic body for the enum shapes of the current module.
#[macro_export]
macro_rules! for_shapes {
    ($( [$unwind:literal] $name:ident<$E:ident>($s:ident) $body:block )*) => {
        $(
        pub mod $name {
            use super::*;
            pub mod on_g { use super::*; type $E = super::super::g::T;
                $crate::harnesses!{ [$unwind] run($s) $body } }
            pub mod on_c { use super::*; type $E = super::super::c::T;
                $crate::harnesses!{ [$unwind] run($s) $body } }
            pub mod on_b { use super::*; type $E = super::super::b::T;
                $crate::harnesses!{ [$unwind] run($s) $body } }
            pub mod on_m { use super::*; type $E = super::super::m::T;
                $crate::harnesses!{ [$unwind] run($s) $body } }
            pub mod on_w { use super::*; type $E = super::super::w::T;
                $crate::harnesses!{ [$unwind] run($s) $body } }
            pub mod on_o { use super::*; type $E = super::super::o::T;
                $crate::harnesses!{ [$unwind] run($s) $body } }
        }
        )*
        #[cfg(not(kani))]
        pub const SHAPED: &[(&str, fn(&mut $crate::support::Src))] = &[ $(
            (concat!(stringify!($name), "::on_g"), $name::on_g::run),
            (concat!(stringify!($name), "::on_c"), $name::on_c::run),
            (concat!(stringify!($name), "::on_b"), $name::on_b::run),
            (concat!(stringify!($name), "::on_m"), $name::on_m::run),
            (concat!(stringify!($name), "::on_w"), $name::on_w::run),
            (concat!(stringify!($name), "::on_o"), $name::on_o::run),
        )* ];
    };
}
/// Address of the payload, for an enum or for a bare payload.
pub trait Addr {
    fn a(&self) -> *const u8;
}
impl<const K: u8> Addr for P<'_, K> {
    fn a(&self) -> *const u8 {
        self.addr()
    }
}
#[macro_export]
macro_rules! addr {
    ($($t:ty),*) => { $( impl $crate::support::Addr for $t { fn a(&self) -> *const u8 { $crate::support::En::addr(self) } } )* };
}
