//! The trait declarations of tokio 0.1 (tokio-io 0.1.13); see shim-futures01.
pub mod prelude {
    pub use shim_futures01::{Async, Poll};
}
pub mod io {
    use crate::prelude::*;
    use std::io as std_io;
    pub trait AsyncRead: std_io::Read {
        unsafe fn prepare_uninitialized_buffer(&self, buf: &mut [u8]) -> bool {
            for i in 0..buf.len() {
                buf[i] = 0;
            }
            true
        }
        fn poll_read(&mut self, buf: &mut [u8]) -> Poll<usize, std_io::Error> {
            match self.read(buf) {
                Ok(t) => Ok(Async::Ready(t)),
                Err(ref e) if e.kind() == std_io::ErrorKind::WouldBlock => Ok(Async::NotReady),
                Err(e) => Err(e),
            }
        }
    }
    pub trait AsyncWrite: std_io::Write {
        fn poll_write(&mut self, buf: &[u8]) -> Poll<usize, std_io::Error> {
            match self.write(buf) {
                Ok(t) => Ok(Async::Ready(t)),
                Err(ref e) if e.kind() == std_io::ErrorKind::WouldBlock => Ok(Async::NotReady),
                Err(e) => Err(e),
            }
        }
        fn poll_flush(&mut self) -> Poll<(), std_io::Error> {
            match self.flush() {
                Ok(t) => Ok(Async::Ready(t)),
                Err(ref e) if e.kind() == std_io::ErrorKind::WouldBlock => Ok(Async::NotReady),
                Err(e) => Err(e),
            }
        }
        fn shutdown(&mut self) -> Poll<(), std_io::Error>;
    }
}
