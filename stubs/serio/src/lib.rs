//! The part of `serio` the repository uses: typed send and receive.
use serde::{de::DeserializeOwned, Serialize};
use std::future::Future;
use std::pin::Pin;

pub trait Channel: Send {
    fn send_msg<'a, T: Serialize + Send + 'a>(&'a mut self, item: T) -> Pin<Box<dyn Future<Output = std::io::Result<()>> + Send + 'a>>;
    fn recv_msg<'a, T: DeserializeOwned + Send + 'a>(&'a mut self) -> Pin<Box<dyn Future<Output = std::io::Result<T>> + Send + 'a>>;
}
pub mod sink {
    pub use super::SinkExt;
}
pub mod stream {
    use super::*;
    pub trait IoStreamExt: Channel {
        fn expect_next<'a, T: DeserializeOwned + Send + 'a>(&'a mut self) -> Pin<Box<dyn Future<Output = std::io::Result<T>> + Send + 'a>> { self.recv_msg() }
    }
    impl<C: Channel> IoStreamExt for C {}
}
pub trait SinkExt: Channel {
    fn send<'a, T: Serialize + Send + 'a>(&'a mut self, item: T) -> Pin<Box<dyn Future<Output = std::io::Result<()>> + Send + 'a>> { self.send_msg(item) }
}
impl<C: Channel> SinkExt for C {}
