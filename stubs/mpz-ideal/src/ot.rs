//! Oblivious transfer: names only, the functionalities that would use it are
//! ideal.
use crate::Block;
use crate::common::{Context, Flush};
use async_trait::async_trait;
use std::marker::PhantomData;

#[derive(Debug, thiserror::Error)]
#[error("oblivious transfer error")]
pub struct OtError;

pub mod chou_orlandi {
    #[derive(Debug, Default, Clone)]
    pub struct Sender;
    #[derive(Debug, Default, Clone)]
    pub struct Receiver;
}
pub mod kos {
    use super::*;
    #[derive(Debug, Default, Clone)]
    pub struct SenderConfig;
    #[derive(Debug, Default, Clone)]
    pub struct ReceiverConfig;
    #[derive(Debug)]
    pub struct Sender<T>(PhantomData<fn() -> T>);
    impl<T> Sender<T> { pub fn new(_c: SenderConfig, _delta: Block, _base: T) -> Self { Sender(PhantomData) } }
    #[derive(Debug)]
    pub struct Receiver<T>(PhantomData<fn() -> T>);
    impl<T> Receiver<T> { pub fn new(_c: ReceiverConfig, _base: T) -> Self { Receiver(PhantomData) } }
}
pub mod ferret {
    use super::*;
    #[derive(Debug, Clone, Copy, Default)]
    pub enum LpnType { #[default] Uniform, Regular }
    #[derive(Debug, Clone, Default)]
    pub struct FerretConfig;
    #[derive(Debug, Default)]
    pub struct FerretConfigBuilder;
    impl FerretConfig { pub fn builder() -> FerretConfigBuilder { FerretConfigBuilder } }
    impl FerretConfigBuilder {
        pub fn lpn_type(&mut self, _t: LpnType) -> &mut Self { self }
        pub fn build(&mut self) -> Result<FerretConfig, OtError> { Ok(FerretConfig) }
    }
    #[derive(Debug)]
    pub struct Sender<T>(PhantomData<fn() -> T>);
    impl<T> Sender<T> { pub fn new(_c: FerretConfig, _seed: Block, _inner: T) -> Self { Sender(PhantomData) } }
    #[derive(Debug)]
    pub struct Receiver<T>(PhantomData<fn() -> T>);
    impl<T> Receiver<T> { pub fn new(_c: FerretConfig, _seed: Block, _inner: T) -> Self { Receiver(PhantomData) } }
}
pub mod rcot {
    pub trait RCOTSender<T> {}
    pub trait RCOTReceiver<T, U> {}
    pub mod shared {
        use super::super::*;
        use super::*;
        pub struct SharedRCOTSender<S, T>(PhantomData<fn() -> (S, T)>);
        impl<S, T> SharedRCOTSender<S, T> { pub fn new(_s: S) -> Self { Self(PhantomData) } }
        impl<S, T> Clone for SharedRCOTSender<S, T> { fn clone(&self) -> Self { Self(PhantomData) } }
        impl<S, T> std::fmt::Debug for SharedRCOTSender<S, T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("SharedRCOTSender") }
        }
        impl<S, T> RCOTSender<T> for SharedRCOTSender<S, T> {}
        pub struct SharedRCOTReceiver<S, T, U>(PhantomData<fn() -> (S, T, U)>);
        impl<S, T, U> SharedRCOTReceiver<S, T, U> { pub fn new(_s: S) -> Self { Self(PhantomData) } }
        impl<S, T, U> Clone for SharedRCOTReceiver<S, T, U> { fn clone(&self) -> Self { Self(PhantomData) } }
        impl<S, T, U> std::fmt::Debug for SharedRCOTReceiver<S, T, U> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("SharedRCOTReceiver") }
        }
        impl<S, T, U> RCOTReceiver<T, U> for SharedRCOTReceiver<S, T, U> {}
        #[async_trait]
        impl<S, T> Flush for SharedRCOTSender<S, T> {
            type Error = OtError;
            fn wants_flush(&self) -> bool { false }
            async fn flush(&mut self, _c: &mut Context) -> Result<(), OtError> { Ok(()) }
        }
        #[async_trait]
        impl<S, T, U> Flush for SharedRCOTReceiver<S, T, U> {
            type Error = OtError;
            fn wants_flush(&self) -> bool { false }
            async fn flush(&mut self, _c: &mut Context) -> Result<(), OtError> { Ok(()) }
        }
    }
}
macro_rules! wrapper {
    ($($name:ident),*) => { $(
        #[derive(Debug, Clone)]
        pub struct $name<T>(PhantomData<fn() -> T>);
        impl<T> $name<T> { pub fn new(_inner: T) -> Self { $name(PhantomData) } }
    )* };
}
pub mod cot {
    use super::*;
    wrapper!(DerandCOTSender, DerandCOTReceiver);
}
pub mod rot {
    pub mod any {
        use super::super::*;
        wrapper!(AnySender, AnyReceiver);
    }
    pub mod randomize {
        use super::super::*;
        wrapper!(RandomizeRCOTSender, RandomizeRCOTReceiver);
    }
}
pub mod ole {
    use super::*;
    #[derive(Debug)]
    pub struct Sender<T>(PhantomData<fn() -> T>);
    impl<T> Sender<T> { pub fn new(_delta: Block, _inner: T) -> Self { Sender(PhantomData) } }
    #[derive(Debug)]
    pub struct Receiver<T>(PhantomData<fn() -> T>);
    impl<T> Receiver<T> { pub fn new(_inner: T) -> Self { Receiver(PhantomData) } }
}
