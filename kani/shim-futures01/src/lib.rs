//! The trait declarations of futures 0.1 (signatures and defaults as in futures 0.1.31), because the
//! crate itself does not compile under Kani's macro overrides. Only used under `cfg(kani)`; native
//! replay uses the real crate.
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Async<T> { Ready(T), NotReady }
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum AsyncSink<T> { Ready, NotReady(T) }
pub type Poll<T, E> = Result<Async<T>, E>;
pub type StartSend<T, E> = Result<AsyncSink<T>, E>;
pub mod future {
    pub trait Future {
        type Item;
        type Error;
        fn poll(&mut self) -> crate::Poll<Self::Item, Self::Error>;
    }
}
pub mod stream {
    pub trait Stream {
        type Item;
        type Error;
        fn poll(&mut self) -> crate::Poll<Option<Self::Item>, Self::Error>;
    }
}
pub mod sink {
    pub trait Sink {
        type SinkItem;
        type SinkError;
        fn start_send(&mut self, item: Self::SinkItem) -> crate::StartSend<Self::SinkItem, Self::SinkError>;
        fn poll_complete(&mut self) -> crate::Poll<(), Self::SinkError>;
        fn close(&mut self) -> crate::Poll<(), Self::SinkError> {
            self.poll_complete()
        }
    }
}
pub use future::Future;
pub use sink::Sink;
pub use stream::Stream;
