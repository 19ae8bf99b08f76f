// Type-level stand-in for `juniper` 0.13.
extern crate juniper_codegen;
extern crate serde;
extern crate serde_derive;
pub use juniper_codegen::object;
#[derive(Debug)] pub struct FieldError;
impl<T: std::fmt::Display> From<T> for FieldError { fn from(_e: T) -> FieldError { unimplemented!() } }
pub type FieldResult<T> = Result<T, FieldError>;
pub trait Context {}
pub struct RootNode<'a, Q, M>(std::marker::PhantomData<(&'a (), Q, M)>);
impl<'a, Q, M> RootNode<'a, Q, M> { pub fn new(_q: Q, _m: M) -> Self { unimplemented!() } }
pub mod graphiql { pub fn graphiql_source(_u: &str) -> String { unimplemented!() } }
pub mod http {
    use crate::RootNode;
    #[derive(serde_derive::Deserialize)] pub struct GraphQLRequest { pub query: String }
    #[derive(serde_derive::Serialize)] pub struct GraphQLResponse { pub ok: bool }
    impl GraphQLResponse { pub fn is_ok(&self) -> bool { unimplemented!() } }
    impl GraphQLRequest { pub fn execute<C, Q, M>(&self, _r: &RootNode<'_, Q, M>, _c: &C) -> GraphQLResponse { unimplemented!() } }
}
