pub use mpz_ideal::vm::{
    Call, CallBuilder, CallError, Callable, CallableExt, Execute, Vm, VmError, VmExt,
};
pub mod memory {
    pub use mpz_ideal::memory::*;
}
pub mod prelude {
    pub use mpz_ideal::memory::{
        Array, FromRaw, Memory, MemoryExt, Repr, Slice, StaticSize, ToRaw, Vector, View, ViewExt,
    };
    pub use mpz_ideal::vm::{Callable, CallableExt, Execute, VmExt};
}
