seed("c01-nth-back", "C01",
     [("src/derive/core/iter.rs", "                    #[inline]\n                    fn nth_back(&mut self, n: usize) -> ::core::option::Option<Self::Item>;\n", "")],
     r'''
use auto_enums::enum_derive;
struct I(u32);
impl Iterator for I { type Item = u32; fn next(&mut self) -> Option<u32> { None } }
impl DoubleEndedIterator for I {
    fn next_back(&mut self) -> Option<u32> { self.0 -= 1; Some(self.0) }
    fn nth_back(&mut self, n: usize) -> Option<u32> { self.0 -= 10 * n as u32; Some(self.0) }
}
#[enum_derive(DoubleEndedIterator)]
enum E<A, B> { A(A), B(B) }
fn main() {
    let mut e: E<I, I> = E::A(I(1000));
    assert_eq!(e.nth_back(3), I(1000).nth_back(3));
    let mut e: E<I, I> = E::B(I(1000));
    assert_eq!(e.nth_back(2), I(1000).nth_back(2));
}
''', "a payload whose nth_back is not the default one", "nth_back is answered by repeated next_back instead of the payload's own nth_back")
seed("c02-description", "C02",
     [("src/derive/std/error.rs", "                #[allow(deprecated)]\n                fn description(&self) -> &str;\n", "")],
     r'''
#![allow(deprecated)]
use auto_enums::enum_derive;
use std::{error::Error, fmt};
#[derive(Debug)]
struct A;
impl fmt::Display for A { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("a") } }
impl Error for A { fn description(&self) -> &str { "own" } }
#[enum_derive(Error)]
enum E<X, Y> { X(X), Y(Y) }
fn main() {
    let e: E<A, A> = E::X(A);
    assert_eq!(e.description(), "own");
    let e: E<A, A> = E::Y(A);
    assert_eq!(e.description(), "own");
}
''', "a payload error with its own description()", "Error::description of the enum is the default text", features="std")
seed("c03-read-exact", "C03",
     [("src/derive/std/io.rs", "                #[inline]\n                fn read_exact(&mut self, buf: &mut [u8]) -> ::std::io::Result<()>;\n", "")],
     r'''
use auto_enums::enum_derive;
use std::io::{self, Read};
struct R(u32);
impl Read for R {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { b[0] = 1; Ok(1) }
    fn read_exact(&mut self, b: &mut [u8]) -> io::Result<()> { self.0 += 1; b.fill(9); Ok(()) }
}
#[enum_derive(Read)]
enum E<X, Y> { X(X), Y(Y) }
fn main() {
    let mut e: E<R, R> = E::Y(R(0));
    let mut b = [0; 3];
    e.read_exact(&mut b).unwrap();
    assert_eq!(b, [9; 3]);
    let mut e: E<R, R> = E::X(R(0));
    e.read_exact(&mut b).unwrap();
    match e { E::X(r) | E::Y(r) => assert_eq!(r.0, 1) }
}
''', "a payload with its own read_exact", "read_exact is the default loop over read", features="std")
seed("c06-one-buffer", "C06",
     [("src/derive/external/futures03.rs", "                bufs: &mut [::std::io::IoSliceMut<'_>],\n            ) -> ::core::task::Poll<::std::io::Result<usize>> {\n                unsafe {",
       "                bufs: &mut [::std::io::IoSliceMut<'_>],\n            ) -> ::core::task::Poll<::std::io::Result<usize>> {\n                if let [buf] = bufs {\n                    return #trait_::poll_read(self, cx, buf);\n                }\n                unsafe {")],
     r'''
extern crate futures_util as futures;
use auto_enums::enum_derive;
use futures::io::AsyncRead;
use std::{io::{self, IoSliceMut}, pin::Pin, task::{Context, Poll}};
struct R(u8);
impl AsyncRead for R {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> { b[0] = self.0; Poll::Ready(Ok(1)) }
    fn poll_read_vectored(self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut [IoSliceMut<'_>]) -> Poll<io::Result<usize>> { b[0][0] = 77; Poll::Ready(Ok(2)) }
}
#[enum_derive(futures03::AsyncRead)]
enum E<X, Y> { X(X), Y(Y) }
fn main() {
    let w = futures::task::noop_waker();
    let mut cx = Context::from_waker(&w);
    for k in 1..3 {
        let mut e: E<R, R> = if k == 1 { E::X(R(1)) } else { E::Y(R(2)) };
        let (mut a, mut b) = ([0u8; 2], [0u8; 2]);
        let mut v = [IoSliceMut::new(&mut a), IoSliceMut::new(&mut b)];
        match Pin::new(&mut e).poll_read_vectored(&mut cx, &mut v[..k]) { Poll::Ready(Ok(n)) => assert_eq!(n, 2), _ => panic!() }
        assert_eq!(a[0], 77);
    }
}
''', "poll_read_vectored with exactly one buffer on a payload with its own vectored read", "a vectored read of one buffer is answered by poll_read",
     features="futures03", deps='futures-util = { version = "0.3", default-features = false, features = ["std", "io", "sink"] }')
seed("c07-empty-vectored", "C07",
     [("src/derive/external/tokio1.rs", "                bufs: &[::std::io::IoSlice<'_>],\n            ) -> ::core::task::Poll<::std::io::Result<usize>> {\n                unsafe {",
       "                bufs: &[::std::io::IoSlice<'_>],\n            ) -> ::core::task::Poll<::std::io::Result<usize>> {\n                if bufs.is_empty() {\n                    return ::core::task::Poll::Ready(Ok(0));\n                }\n                unsafe {")],
     r'''
use auto_enums::enum_derive;
use std::{io::{self, IoSlice}, pin::Pin, task::{Context, Poll, Waker}};
use tokio::io::AsyncWrite;
struct W(u32);
impl AsyncWrite for W {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, _: &[u8]) -> Poll<io::Result<usize>> { Poll::Pending }
    fn poll_write_vectored(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &[IoSlice<'_>]) -> Poll<io::Result<usize>> {
        self.0 += 1;
        if b.is_empty() { Poll::Ready(Err(io::ErrorKind::WriteZero.into())) } else { Poll::Ready(Ok(1)) }
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Pending }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Pending }
}
#[enum_derive(tokio1::AsyncWrite)]
enum E<X, Y> { X(X), Y(Y) }
fn main() {
    let mut cx = Context::from_waker(Waker::noop());
    let mut e: E<W, W> = E::Y(W(0));
    match Pin::new(&mut e).poll_write_vectored(&mut cx, &[]) { Poll::Ready(Err(x)) => assert_eq!(x.kind(), io::ErrorKind::WriteZero), _ => panic!("not the payload's answer") }
    match e { E::X(w) | E::Y(w) => assert_eq!(w.0, 1) }
}
''', "a vectored write with no buffers", "the payload is not asked for a vectored write of no buffers: its error and side effect are lost",
     features="tokio1", deps='tokio = { version = "1", default-features = false }')
seed("c08-shutdown", "C08",
     [("src/derive/external/tokio02.rs", "=> <#ty as #trait_>::poll_shutdown(#pin::new_unchecked(x), cx)", "=> <#ty as #trait_>::poll_flush(#pin::new_unchecked(x), cx)")],
     r'''
use auto_enums::enum_derive;
use std::{io, pin::Pin, task::{Context, Poll, Waker}};
use tokio::io::AsyncWrite;
struct W(u32);
impl AsyncWrite for W {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, _: &[u8]) -> Poll<io::Result<usize>> { Poll::Pending }
    fn poll_flush(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { self.0 = 1; Poll::Ready(Ok(())) }
    fn poll_shutdown(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { self.0 = 2; Poll::Ready(Ok(())) }
}
#[enum_derive(tokio02::AsyncWrite)]
enum E<X, Y> { X(X), Y(Y) }
fn main() {
    let mut cx = Context::from_waker(Waker::noop());
    let mut e: E<W, W> = E::X(W(0));
    let _ = Pin::new(&mut e).poll_shutdown(&mut cx);
    match e { E::X(w) | E::Y(w) => assert_eq!(w.0, 2) }
}
''', "poll_shutdown on a tokio 0.2 writer whose flush and shutdown differ", "shutting down only flushes", features="tokio02",
     deps='tokio = { version = "0.2", default-features = false }')
seed("c11-seek-guard", "C11",
     [("src/derive/external/tokio03.rs", 'pub(crate) const NAME: &[&str] = &["tokio03::AsyncSeek"];\n\n    pub(crate) fn derive(cx: &Context, data: &Data) -> Result<TokenStream> {\n        cx.needs_pin_projection();\n',
       'pub(crate) const NAME: &[&str] = &["tokio03::AsyncSeek"];\n\n    pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {\n')],
     r'''
use auto_enums::enum_derive;
#[enum_derive(tokio03::AsyncSeek)]
pub enum E<X, Y> { X(X), Y(Y) }
fn main() {}
// REJECTED:
impl<X, Y> Drop for E<X, Y> { fn drop(&mut self) {} }
''', "AsyncSeek of tokio 0.3 as the only pinned trait of the list, and a Drop impl that moves the payload out",
     "the enum gets neither the conditional Unpin impl nor the Drop guard, so safe code can move a pinned payload", features="tokio03",
     deps='tokio = { version = "0.3", default-features = false }', reject=True)
seed("c12-seek-alias", "C12",
     [("src/enum_derive.rs", '''            #[cfg(feature = "std")]
            std::io::seek,
            #[cfg(feature = "std")]
            std::io::write,
            #[cfg(feature = "std")]
            std::error,
''', '''            #[cfg(feature = "std")]
            std::io::write,
            #[cfg(feature = "std")]
            std::error,
''')],
     r'''
use auto_enums::enum_derive;
use std::io::{self, Seek};
#[enum_derive(Seek, io::Seek)]
enum E<X, Y> { X(X), Y(Y) }
fn main() {
    let mut e: E<io::Cursor<[u8; 4]>, io::Empty> = E::X(io::Cursor::new([0; 4]));
    assert_eq!(e.seek(io::SeekFrom::End(-1)).unwrap(), 3);
    let _: E<io::Cursor<[u8; 4]>, io::Empty> = E::Y(io::empty());
}
''', "a list that names Seek in both of its spellings", "the trait is implemented twice and the enum does not compile", features="std")
seed("c14-nested-reset", "C14",
     [("src/auto_enum/expr.rs", "            visit_mut::visit_expr_mut(self, node);\n            self.nested = tmp;\n", "            visit_mut::visit_expr_mut(self, node);\n            self.nested |= tmp;\n")],
     r'''
use auto_enums::auto_enum;
#[auto_enum(Iterator)]
fn f(n: u32) -> impl Iterator<Item = u32> {
    let mut k = n;
    'a: loop {
        while k > 3 {
            k -= 1;
            if k == 5 { break 'a Some(5).into_iter(); }
        }
        if k == 2 { break 0..2; }
        break std::iter::once(k);
    }
}
fn main() {
    assert_eq!(f(7).collect::<Vec<_>>(), [5]);
    assert_eq!(f(2).collect::<Vec<_>>(), [0, 1]);
    assert_eq!(f(4).collect::<Vec<_>>(), [3]);
}
''', "a labelled loop with an inner loop before an unlabelled break of the outer one", "breaks after an inner loop are taken to belong to it and are not converted")
seed("c15-try-block", "C15",
     [("src/auto_enum/visitor.rs", "            Expr::TryBlock(_) => self.try_block = true,\n", "            Expr::TryBlock(_) => self.closure = false,\n")],
     r'''
#![feature(try_blocks)]
use auto_enums::auto_enum;
use std::fmt::Display;
#[auto_enum(Display)]
fn f(n: u32) -> Result<u32, impl Display> {
    let r: Result<u32, &str> = try { if n == 1 { Err("inner")? } else { 3 } };
    let a: Result<u32, &str> = if n == 2 { Err("first") } else { Ok(1) };
    let b: Result<u32, u8> = if n == 3 { Err(9) } else { Ok(2) };
    Ok(a? + b? + r.unwrap_or(100))
}
fn main() {
    assert_eq!(f(0).ok(), Some(6));
    assert_eq!(f(1).ok(), Some(103));
    assert_eq!(f(2).err().unwrap().to_string(), "first");
    assert_eq!(f(3).err().unwrap().to_string(), "9");
}
''', "a try block with ? in a function whose own ? are results", "? of a try block leaves the function instead of the block")
seed("c16-custom-marker", "C16",
     [("src/auto_enum/visitor.rs", "        if !self.scope.foreign || self.cx.current_marker != DEFAULT_MARKER {\n            self.visit_marker_macro(node);\n            self.find_remove_attrs(node);\n",
       "        if !self.scope.foreign || self.cx.current_marker != DEFAULT_MARKER && !self.scope.closure {\n            self.visit_marker_macro(node);\n            self.find_remove_attrs(node);\n")],
     r'''
#![feature(proc_macro_hygiene, stmt_expr_attributes)]
use auto_enums::auto_enum;
fn f(n: u32) -> impl Iterator<Item = u32> {
    #[auto_enum(Iterator, marker = outer)]
    let it = {
        let mut slot = None;
        #[auto_enum(Debug)]
        let g = match n {
            0 => { let h = |x: u32| if x == 0 { outer!(0..3) } else { outer!(std::iter::once(x)) }; slot = Some(h(n)); 5u32 }
            _ => [5u32, 6],
        };
        let _ = format!("{:?}", g);
        slot.unwrap_or_else(|| outer!(Some(n).into_iter()))
    };
    it
}
fn main() {
    assert_eq!(f(0).collect::<Vec<_>>(), [0, 1, 2]);
    assert_eq!(f(3).collect::<Vec<_>>(), [3]);
}
''', "a custom-named marker of the outer item used in a closure inside an inner annotated statement", "that marker is left unexpanded")
seed("c17-foreign-nested", "C17",
     [("src/auto_enum/visitor.rs", '''        fn visit_local_mut(&mut self, node: &mut Local) {
            if !node.any_attr(NAME) {
                if node.any_empty_attr(NESTED) {
                    self.has = true;
                } else {
                    visit_mut::visit_local_mut(self, node);
                }
            }
        }
''', '''        fn visit_local_mut(&mut self, node: &mut Local) {
            if node.any_empty_attr(NESTED) {
                self.has = true;
            } else {
                visit_mut::visit_local_mut(self, node);
            }
        }
''')],
     r'''
use auto_enums::auto_enum;
#[auto_enum(Iterator)]
fn f(n: u32) -> impl Iterator<Item = u32> {
    match n {
        0 => 0..1,
        1 | 2 => {
            #[auto_enum(Iterator)]
            let it = match n {
                1 => Some(4).into_iter(),
                _ => {
                    #[nested]
                    if n == 2 { std::iter::once(5) } else { 7..9 }
                }
            };
            it
        }
        3 => std::iter::empty(),
        _ => vec![n].into_iter(),
    }
}
fn main() {
    assert_eq!(f(0).collect::<Vec<_>>(), [0]);
    assert_eq!(f(1).collect::<Vec<_>>(), [4]);
    assert_eq!(f(2).collect::<Vec<_>>(), [5]);
    assert_eq!(f(3).collect::<Vec<_>>(), []);
    assert_eq!(f(8).collect::<Vec<_>>(), [8]);
}
''', "an annotated let inside a branch whose own value uses #[nested]", "the outer branch is not wrapped, because the inner item's #[nested] is taken for its own")
seed("c19-enum-attrs", "C19",
     [("src/enum_derive.rs", "        item.attrs.push(parse_quote!(#[derive(#(#derive),*)]));", "        item.attrs = vec![parse_quote!(#[derive(#(#derive),*)])];")],
     r'''
use auto_enums::enum_derive;
#[enum_derive(Iterator, Clone)]
#[derive(PartialEq)]
#[repr(u16)]
#[allow(dead_code)]
enum E<A, B> { A(A), B(B) }
fn main() {
    let e: E<std::ops::Range<u8>, std::ops::Range<u8>> = E::A(0..1);
    assert!(e.clone() == e);
    assert!(e != E::B(0..1));
    assert_eq!(std::mem::size_of::<E<u8, u8>>(), 4);
}
''', "an enum with attributes of its own whose list also names an ordinary derive", "the enum's own attributes (derive, repr) are lost")
seed("c18-many-results", "C18",
     [("src/auto_enum/context.rs", 'let variant = format_ident!("__Variant{}", self.variants.len());', 'let variant = format_ident!("__Variant{}", self.variants.len() & 0xf);')],
     r'''
use auto_enums::auto_enum;
macro_rules! m { ($($n:literal)*) => {
    #[auto_enum(Debug)]
    fn f(n: u32) -> impl std::fmt::Debug { match n { $($n => [$n; $n],)* _ => "x" } }
} }
m! { 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 }
fn main() {
    for n in 1..19 { assert_eq!(format!("{:?}", f(n)), format!("{:?}", vec![n as i32; n as usize])); }
    assert_eq!(format!("{:?}", f(30)), "\"x\"");
}
''', "more than 16 results", "two results share a variant and the enum does not compile")
seed("c21-fused", "C21",
     [("src/auto_enum/type_analysis.rs", '    "FusedIterator",\n', '')],
     r'''
use auto_enums::auto_enum;
use std::iter::FusedIterator;
#[auto_enum]
fn f(n: u32) -> impl FusedIterator<Item = u32> {
    if n == 0 { 0..3 } else { std::iter::once(n) }
}
fn main() {
    assert_eq!(f(0).collect::<Vec<_>>(), [0, 1, 2]);
    assert_eq!(f(4).collect::<Vec<_>>(), [4]);
}
''', "a return type that names FusedIterator", "the trait is not collected", features="type_analysis")
seed("c04-contains", "C04",
     [("src/derive/core/ops.rs", '''        Ok(derive_trait(data, &parse_quote!(::core::ops::RangeBounds), None, parse_quote! {
            trait RangeBounds<__T: ?Sized> {
                #[inline]
                fn start_bound(&self) -> ::core::ops::Bound<&__T>;
                #[inline]
                fn end_bound(&self) -> ::core::ops::Bound<&__T>;
            }
        }))
''', '''        let mut impl_ = EnumImpl::from_trait(data, &parse_quote!(::core::ops::RangeBounds), None, parse_quote! {
            trait RangeBounds<__T: ?Sized> {
                #[inline]
                fn start_bound(&self) -> ::core::ops::Bound<&__T>;
                #[inline]
                fn end_bound(&self) -> ::core::ops::Bound<&__T>;
            }
        })
        .build_impl();
        impl_.items.push(parse_quote! {
            #[inline]
            fn contains<__V>(&self, item: &__V) -> bool
            where
                __T: ::core::cmp::PartialOrd<__V>,
                __V: ?Sized + ::core::cmp::PartialOrd<__T>,
            {
                (match self.start_bound() {
                    ::core::ops::Bound::Included(start) | ::core::ops::Bound::Excluded(start) => start <= item,
                    ::core::ops::Bound::Unbounded => true,
                }) && (match self.end_bound() {
                    ::core::ops::Bound::Included(end) => item <= end,
                    ::core::ops::Bound::Excluded(end) => item < end,
                    ::core::ops::Bound::Unbounded => true,
                })
            }
        });
        Ok(impl_.into_token_stream())
''')],
     r'''
use auto_enums::enum_derive;
use std::ops::{Bound, Range, RangeBounds};
#[enum_derive(RangeBounds)]
enum E<A, B> { A(A), B(B) }
fn main() {
    type R = (Bound<u32>, Bound<u32>);
    let r: R = (Bound::Excluded(3), Bound::Included(9));
    let e: E<Range<u32>, R> = E::B(r);
    for k in [2, 3, 4, 9, 10] { assert_eq!(RangeBounds::<u32>::contains(&e, &k), r.contains(&k)); }
    let e: E<Range<u32>, R> = E::A(3..5);
    for k in [2, 3, 4, 5] { assert_eq!(RangeBounds::<u32>::contains(&e, &k), (3..5).contains(&k)); }
}
''', "a range whose start is excluded", "contains() answers true for the excluded start", features="ops")
seed("c05-busy", "C05",
     [("src/derive/core/future.rs", "            #ident::#v(x) => <#ty as #trait_>::poll(#pin::new_unchecked(x), cx),\n",
       '''            #ident::#v(x) => match <#ty as #trait_>::poll(#pin::new_unchecked(&mut *x), cx) {
                ::core::task::Poll::Pending => <#ty as #trait_>::poll(#pin::new_unchecked(x), cx),
                ready => ready,
            },
''')],
     r'''
use auto_enums::enum_derive;
use std::{future::Future, pin::Pin, task::{Context, Poll, Waker}};
struct F(u32);
impl Future for F {
    type Output = u32;
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<u32> { self.0 += 1; if self.0 < 3 { Poll::Pending } else { Poll::Ready(self.0) } }
}
#[enum_derive(Future)]
enum E<A, B> { A(A), B(B) }
fn main() {
    let mut cx = Context::from_waker(Waker::noop());
    let mut e: E<F, std::future::Ready<u32>> = E::A(F(0));
    assert_eq!(Pin::new(&mut e).poll(&mut cx), Poll::Pending);
    assert_eq!(Pin::new(&mut e).poll(&mut cx), Poll::Pending);
    assert_eq!(Pin::new(&mut e).poll(&mut cx), Poll::Ready(3));
    let mut e: E<F, std::future::Ready<u32>> = E::B(std::future::ready(4));
    assert_eq!(Pin::new(&mut e).poll(&mut cx), Poll::Ready(4));
}
''', "a future that is not ready at its first poll", "a pending payload is polled twice per poll of the enum")
seed("c09-exact-hint", "C09",
     [("src/derive/external/http_body1.rs", '''                #[inline]
                fn size_hint(&self) -> ::http_body::SizeHint;
            }
        })
        .build_impl();
''', '''            }
        })
        .build_impl();

        let size_hint = data.variant_idents().zip(data.field_types()).map(|(v, ty)| {
            quote! {
                #ident::#v(x) => <#ty as #trait_>::size_hint(x),
            }
        });
        impl_.items.push(parse_quote! {
            #[inline]
            fn size_hint(&self) -> ::http_body::SizeHint {
                let hint = match self { #(#size_hint)* };
                match hint.upper() {
                    ::core::option::Option::Some(upper) => ::http_body::SizeHint::with_exact(upper),
                    ::core::option::Option::None => hint,
                }
            }
        });
''')],
     r'''
use auto_enums::enum_derive;
use http_body::{Body, Frame, SizeHint};
use std::{pin::Pin, task::{Context, Poll}};
struct B(u64, Option<u64>);
impl Body for B {
    type Data = &'static [u8];
    type Error = ();
    fn poll_frame(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Result<Frame<Self::Data>, ()>>> { Poll::Ready(None) }
    fn size_hint(&self) -> SizeHint { let mut h = SizeHint::new(); h.set_lower(self.0); if let Some(u) = self.1 { h.set_upper(u); } h }
}
#[enum_derive(http_body1::Body)]
enum E<X, Y> { X(X), Y(Y) }
fn main() {
    for (l, u) in [(0, None), (5, None), (7, Some(7)), (2, Some(9))] {
        let e: E<B, B> = E::Y(B(l, u));
        assert_eq!((e.size_hint().lower(), e.size_hint().upper()), (l, u));
        let e: E<B, B> = E::X(B(l, u));
        assert_eq!(e.size_hint().exact(), B(l, u).size_hint().exact());
    }
}
''', "a body whose lower and upper size bounds differ", "the hint's upper bound is reported as the exact size", features="http_body1", deps='http-body = { version = "1", default-features = false }')
seed("c10-many-errors", "C10",
     [("src/derive/ty_impls/transpose.rs", 'let id = format_ident!("__E{}", i);', 'let id = format_ident!("__E{}", i & 7);')],
     r'''
use auto_enums::enum_derive;
#[enum_derive(Transpose)]
enum E<A, B, C, D, F, G, H, I, J> { A(A), B(B), C(C), D(D), F(F), G(G), H(H), I(I), J(J) }
fn main() {
    type R<T> = Result<T, &'static str>;
    let e: E<R<u8>, R<u8>, R<u8>, R<u8>, R<u8>, R<u8>, R<u8>, R<u8>, R<u16>> = E::J(Err("x"));
    match e.transpose() { Err(E::J(x)) => assert_eq!(x, "x"), _ => panic!() }
}
''', "an enum of more than eight variants", "two error parameters share a name and the enum does not compile", features="transpose_methods")
seed("c13-paren-diverge", "C13",
     [("src/auto_enum/expr.rs", """        | Expr::Group(ExprGroup { expr, .. })
        | Expr::Paren(ExprParen { expr, .. }) => is_unreachable(cx, expr),
""", """        | Expr::Group(ExprGroup { expr, .. }) => is_unreachable(cx, expr),
""")],
     r"""
#![allow(unused_parens)]
use auto_enums::auto_enum;
#[auto_enum(Iterator)]
fn f(n: u32) -> impl Iterator<Item = u32> {
    match n {
        0 => 0..3,
        1 => std::iter::once(7),
        2 => (panic!("two")),
        _ => vec![n].into_iter(),
    }
}
fn main() {
    assert_eq!(f(0).sum::<u32>(), 3);
    assert_eq!(f(1).collect::<Vec<_>>(), [7]);
    assert_eq!(f(9).collect::<Vec<_>>(), [9]);
}
""", "a branch that only panics, in parentheses", "that branch is taken for a result and the function does not compile")
