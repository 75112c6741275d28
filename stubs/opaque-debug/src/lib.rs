#![no_std]
/// Implements an opaque `Debug`.
#[macro_export]
macro_rules! implement {
    ($t:ident <$($p:ident),*>) => {
        impl<$($p),*> ::core::fmt::Debug for $t<$($p),*> {
            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                f.write_str(concat!(stringify!($t), " { ... }"))
            }
        }
    };
    ($t:ty) => {
        impl ::core::fmt::Debug for $t {
            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                f.write_str(concat!(stringify!($t), " { ... }"))
            }
        }
    };
}
