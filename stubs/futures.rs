// The real futures-preview (built here without its `async-await` feature), plus a
// type-level stand-in for `select!`: a non-deterministic choice between the arms,
// each awaiting its future, which is what the analysis needs to see.
extern crate futures_real;
pub use futures_real::*;
pub fn __choose() -> bool { unimplemented!() }
#[macro_export]
macro_rules! select {
    () => {};
    (complete => $b:expr $(, $($rest:tt)*)?) => { if $crate::__choose() { $b } $( $crate::select!{$($rest)*} )? };
    (default => $b:expr $(, $($rest:tt)*)?) => { if $crate::__choose() { $b } $( $crate::select!{$($rest)*} )? };
    ($p:pat = $f:expr => $b:block , $($rest:tt)*) => { if $crate::__choose() { let $p = ($f).await; $b } $crate::select!{$($rest)*} };
    ($p:pat = $f:expr => $b:block $($rest:tt)*) => { if $crate::__choose() { let $p = ($f).await; $b } $crate::select!{$($rest)*} };
    ($p:pat = $f:expr => $b:expr , $($rest:tt)*) => { if $crate::__choose() { let $p = ($f).await; $b } $crate::select!{$($rest)*} };
    ($p:pat = $f:expr => $b:expr) => { if $crate::__choose() { let $p = ($f).await; $b } };
}
