//! C09: rayon. Consumers and callbacks are recording stand-ins; no thread pool is involved.
use crate::support::*;
use rayon_crate::iter::{plumbing::*, IndexedParallelIterator, IntoParallelIterator, ParallelExtend, ParallelIterator};

/// A folder/consumer that records what it was fed.
#[derive(Clone, Copy)]
pub struct Rec(u64);
impl Folder<u64> for Rec {
    type Result = u64;
    fn consume(self, item: u64) -> Self { Rec(self.0.rotate_left(5) ^ item) }
    fn complete(self) -> u64 { self.0 }
    fn full(&self) -> bool { false }
}
pub struct Xor;
impl Reducer<u64> for Xor {
    fn reduce(self, a: u64, b: u64) -> u64 { a ^ b }
}
impl Consumer<u64> for Rec {
    type Folder = Rec;
    type Reducer = Xor;
    type Result = u64;
    fn split_at(self, _: usize) -> (Self, Self, Xor) { (self, self, Xor) }
    fn into_folder(self) -> Rec { self }
    fn full(&self) -> bool { false }
}
impl UnindexedConsumer<u64> for Rec {
    fn split_off_left(&self) -> Self { *self }
    fn to_reducer(&self) -> Xor { Xor }
}
pub struct Prod(u64);
impl Producer for Prod {
    type Item = u64;
    type IntoIter = core::option::IntoIter<u64>;
    fn into_iter(self) -> Self::IntoIter { Some(self.0).into_iter() }
    fn split_at(self, _: usize) -> (Self, Self) { (Prod(1), Prod(2)) }
}
pub struct Cb(u64);
impl ProducerCallback<u64> for Cb {
    type Output = u64;
    fn callback<T: Producer<Item = u64>>(self, p: T) -> u64 {
        let mut r = self.0;
        for v in p.into_iter() { r = r.rotate_left(5) ^ v }
        r
    }
}
impl<const K: u8> ParallelIterator for P<'_, K> {
    type Item = u64;
    fn drive_unindexed<C: UnindexedConsumer<u64>>(self, c: C) -> C::Result {
        let (h, v) = self.hit(1, 0);
        c.into_folder().consume(v).consume(h ^ 1).complete()
    }
    fn opt_len(&self) -> Option<usize> {
        let (h, v) = self.hit(2, 0);
        if h & 1 == 0 { None } else { Some(v as usize) }
    }
}
impl<const K: u8> IndexedParallelIterator for P<'_, K> {
    fn drive<C: Consumer<u64>>(self, c: C) -> C::Result {
        let (_, h) = self.hit(3, 0);
        c.into_folder().consume(h).complete()
    }
    fn len(&self) -> usize {
        self.hit(4, 0).1 as usize
    }
    fn with_producer<CB: ProducerCallback<u64>>(self, cb: CB) -> CB::Output {
        let (_, h) = self.hit(5, 0);
        cb.callback(Prod(h))
    }
}
/// A parallel iterator with an observable identity, for par_extend.
pub struct Fixed(u64);
impl ParallelIterator for Fixed {
    type Item = u64;
    fn drive_unindexed<C: UnindexedConsumer<u64>>(self, c: C) -> C::Result {
        c.into_folder().consume(self.0).complete()
    }
}
impl<const K: u8> ParallelExtend<u64> for P<'_, K> {
    fn par_extend<I: IntoParallelIterator<Item = u64>>(&mut self, i: I) {
        let v = i.into_par_iter().drive_unindexed(Rec(3));
        self.hit(6, v);
    }
}
shapes!(rayon::ParallelIterator, rayon::IndexedParallelIterator);
pub mod h {
    use super::*;
    for_shapes! {
        [4] drive_unindexed<E>(s) { diff_val!(s, E, |x| x.drive_unindexed(Rec(s.u64()))) }
        [4] opt_len<E>(s) { diff!(s, E, |x| x.opt_len()) }
        [4] drive<E>(s) { diff_val!(s, E, |x| x.drive(Rec(s.u64()))) }
        [4] len<E>(s) { diff!(s, E, |x| x.len()) }
        [4] with_producer<E>(s) { diff_val!(s, E, |x| x.with_producer(Cb(s.u64()))) }
    }
}
pub mod implied {
    use super::*;
    shapes!(rayon::IndexedParallelIterator);
    pub mod h {
        use super::*;
        for_shapes! { [4] dep_drive_unindexed<E>(s) { diff_val!(s, E, |x| x.drive_unindexed(Rec(s.u64()))) } }
    }
}
pub mod ext {
    use super::*;
    shapes_gen!(rayon::ParallelExtend);
    pub mod h {
        use super::*;
        for_shapes! { [4] par_extend<E>(s) { diff!(s, E, |x| x.par_extend(Fixed(s.u64()))) } }
    }
}
#[cfg(not(kani))]
pub const TABLES: &[(&str, &[(&str, fn(&mut Src))])] = &[("c09b::h", h::SHAPED), ("c09b::implied::h", implied::h::SHAPED), ("c09b::ext::h", ext::h::SHAPED)];
