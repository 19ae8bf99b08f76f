// Type-level stand-in for `tide` at the pinned revision (git dependency).
extern crate http as http_;
extern crate serde;
pub mod http { pub use http_::*; }
use std::future::Future;
#[derive(Debug)] pub struct Body;
pub type Response = http_::Response<Body>;
#[derive(Debug)] pub struct Error;
pub type EndpointResult<T = Response> = Result<T, Error>;
pub struct Context<S>(S);
impl<S> Context<S> {
    pub fn state(&self) -> &S { unimplemented!() }
    pub async fn body_json<T: serde::de::DeserializeOwned>(&mut self) -> std::io::Result<T> { unimplemented!() }
}
pub struct App<S>(S);
pub struct Route<'a, S>(&'a mut App<S>);
impl<S> App<S> {
    pub fn with_state(_s: S) -> Self { unimplemented!() }
    pub fn middleware<M>(&mut self, _m: M) -> &mut Self { unimplemented!() }
    pub fn at<'a>(&'a mut self, _p: &str) -> Route<'a, S> { unimplemented!() }
    pub async fn serve(self, _a: impl std::net::ToSocketAddrs) -> std::io::Result<()> { unimplemented!() }
}
impl<'a, S> Route<'a, S> {
    pub fn post<F: Fn(Context<S>) -> Fut, Fut: Future>(self, _f: F) -> Self { unimplemented!() }
    pub fn get<F: Fn(Context<S>) -> Fut, Fut: Future>(self, _f: F) -> Self { unimplemented!() }
}
pub mod error {
    pub trait ResultExt<T>: Sized { fn client_err(self) -> Result<T, crate::Error>; fn server_err(self) -> Result<T, crate::Error>; }
    impl<T, E> ResultExt<T> for Result<T, E> { fn client_err(self) -> Result<T, crate::Error> { unimplemented!() } fn server_err(self) -> Result<T, crate::Error> { unimplemented!() } }
}
pub mod response { pub fn json<T: serde::Serialize>(_t: T) -> crate::Response { unimplemented!() } }
pub mod middleware {
    pub struct CorsMiddleware;
    pub struct CorsOrigin;
    impl<'a> From<&'a str> for CorsOrigin { fn from(_s: &'a str) -> Self { unimplemented!() } }
    impl CorsMiddleware {
        pub fn new() -> Self { unimplemented!() }
        pub fn allow_origin(self, _o: CorsOrigin) -> Self { unimplemented!() }
        pub fn allow_methods(self, _o: http_::header::HeaderValue) -> Self { unimplemented!() }
    }
}
