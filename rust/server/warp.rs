//! Routes and websockets of the server; requests come from the harness.
use std::any::Any; use std::convert::Infallible; use std::future::Future; use std::pin::Pin; use std::task::{Context, Poll};
pub use sim::Request;
#[derive(Debug)] pub struct Error; impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("closed") } } impl std::error::Error for Error {}
pub mod reject { use super::*;
    #[derive(Debug)] pub struct Rejection(pub Option<Box<dyn Any>>); #[derive(Debug)] pub struct MethodNotAllowed; #[derive(Debug)] pub struct MissingHeader;
    impl Rejection { pub fn is_not_found(&self) -> bool { self.0.is_none() } pub fn find<T: 'static>(&self) -> Option<&T> { self.0.as_ref().and_then(|x| x.downcast_ref()) } } pub fn not_found() -> Rejection { Rejection(None) } }
pub use reject::Rejection;
pub mod http { #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct StatusCode(pub u16); impl StatusCode { pub const OK: Self = Self(200); pub const BAD_REQUEST: Self = Self(400); pub const UNAUTHORIZED: Self = Self(401); pub const FORBIDDEN: Self = Self(403); pub const NOT_FOUND: Self = Self(404); pub const METHOD_NOT_ALLOWED: Self = Self(405); pub const INTERNAL_SERVER_ERROR: Self = Self(500); pub fn as_u16(&self) -> u16 { self.0 } } }
pub struct Response { pub status: u16, pub body: String, pub upgrade: Option<Box<dyn FnOnce(ws::WebSocket) -> Pin<Box<dyn Future<Output = ()>>>>> }
pub mod reply { use super::*;
    pub trait Reply { fn into_response(self) -> Response; }
    fn plain(body: String) -> Response { Response { status: 200, body, upgrade: None } }
    impl Reply for String { fn into_response(self) -> Response { plain(self) } } impl Reply for &'static str { fn into_response(self) -> Response { plain(self.into()) } } impl Reply for Response { fn into_response(self) -> Response { self } } impl<T: Reply> Reply for (T,) { fn into_response(self) -> Response { self.0.into_response() } }
    pub struct Json(String); impl Reply for Json { fn into_response(self) -> Response { plain(self.0) } } pub fn json<T: serde::Serialize>(t: &T) -> Json { Json(serde_json::to_string(t).unwrap()) }
    pub struct WithStatus<R>(R, http::StatusCode); impl<R: Reply> Reply for WithStatus<R> { fn into_response(self) -> Response { let mut r = self.0.into_response(); r.status = self.1 .0; r } } pub fn with_status<R: Reply>(r: R, s: http::StatusCode) -> WithStatus<R> { WithStatus(r, s) }
}
pub use reply::Reply;
pub mod filters { pub mod ws { pub use crate::ws::*; } pub mod body { #[derive(Debug)] pub struct BodyDeserializeError; } }
pub mod ws { use super::*;
    #[derive(Debug, Clone)] pub struct Message(pub String); impl Message { pub fn text<S: Into<String>>(s: S) -> Self { Message(s.into()) } pub fn to_str(&self) -> Result<&str, ()> { Ok(&self.0) } }
    pub struct WebSocket(pub usize);
    impl Drop for WebSocket { fn drop(&mut self) { sim::world(|w| if let Some(c) = w.clients.get_mut(self.0) { c.live = false }); } }
    impl futures_core::Stream for WebSocket { type Item = Result<Message, Error>; fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> { let i = self.0; sim::wait(cx, |w| if w.clients[i].open { None } else { Some(None) }) } }
    impl futures_sink::Sink<Message> for WebSocket { type Error = Error;
        fn poll_ready(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Error>> { Poll::Ready(if sim::world(|w| w.clients[self.0].open) { Ok(()) } else { sim::world(|w| w.clients[self.0].sent_after_close += 1); Err(Error) }) }
        fn start_send(self: Pin<&mut Self>, m: Message) -> Result<(), Error> { sim::world(|w| if w.clients[self.0].open { w.clients[self.0].got.push(m.0); Ok(()) } else { Err(Error) }) }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Error>> { Poll::Ready(Ok(())) }
        fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Error>> { Poll::Ready(Ok(())) } }
    pub struct Ws; impl Ws { pub fn on_upgrade<F: FnOnce(WebSocket) -> U + 'static, U: Future<Output = ()> + 'static>(self, f: F) -> Response { Response { status: 101, body: String::new(), upgrade: Some(Box::new(move |s| Box::pin(f(s)))) } } pub fn max_message_size(self, _: usize) -> Self { self } }
}
pub trait Combine<B> { type Out; fn join(self, b: B) -> Self::Out; }
impl Combine<()> for () { type Out = (); fn join(self, _: ()) {} } impl<A> Combine<(A,)> for () { type Out = (A,); fn join(self, b: (A,)) -> (A,) { b } } impl<A> Combine<()> for (A,) { type Out = (A,); fn join(self, _: ()) -> (A,) { self } } impl<A, B> Combine<(B,)> for (A,) { type Out = (A, B); fn join(self, b: (B,)) -> (A, B) { (self.0, b.0) } }
pub trait Func<A> { type Out; fn apply(&self, a: A) -> Self::Out; }
impl<F: Fn() -> R, R> Func<()> for F { type Out = R; fn apply(&self, _: ()) -> R { self() } } impl<F: Fn(A) -> R, A, R> Func<(A,)> for F { type Out = R; fn apply(&self, a: (A,)) -> R { self(a.0) } } impl<F: Fn(A, B) -> R, A, B, R> Func<(A, B)> for F { type Out = R; fn apply(&self, a: (A, B)) -> R { self(a.0, a.1) } }
/// which errors a combination can have, as far as signatures of the server's functions may name them
pub trait Errors<B> { type One; } impl Errors<Rejection> for Rejection { type One = Rejection; } impl Errors<Infallible> for Rejection { type One = Rejection; } impl Errors<Rejection> for Infallible { type One = Rejection; } impl Errors<Infallible> for Infallible { type One = Infallible; }
pub trait Filter: Sized { type Extract; type Error; fn call(&self, r: &Request) -> Result<Self::Extract, Rejection>;
    fn and<F: Filter>(self, f: F) -> And<Self, F> where Self::Extract: Combine<F::Extract>, Self::Error: Errors<F::Error> { And(self, f) }
    fn and_then<F: Func<Self::Extract, Out = U>, U: Future<Output = Result<R, E>>, R, E: Into<Rejection>>(self, f: F) -> AndThen<Self, F> { AndThen(self, f) }
    fn untuple_one<T>(self) -> Untuple<Self> where Self: Filter<Extract = (T,)> { Untuple(self) }
    fn map<F: Func<Self::Extract>>(self, f: F) -> Map<Self, F> { Map(self, f) }
    fn or<F: Filter>(self, f: F) -> Or<Self, F> where Self::Extract: Reply, F::Extract: Reply { Or(self, f) }
    fn with<W>(self, _: W) -> Self { self }
    fn boxed(self) -> Self { self }
    fn recover<F: Fn(Rejection) -> U, U: Future<Output = Result<R, Infallible>>, R: Reply>(self, f: F) -> Recover<Self, F> where Self::Extract: Reply { Recover(self, f) } }
#[derive(Clone)] pub struct And<A, B>(A, B); impl<A: Filter, B: Filter> Filter for And<A, B> where A::Extract: Combine<B::Extract>, A::Error: Errors<B::Error> { type Extract = <A::Extract as Combine<B::Extract>>::Out; type Error = <A::Error as Errors<B::Error>>::One; fn call(&self, r: &Request) -> Result<Self::Extract, Rejection> { Ok(self.0.call(r)?.join(self.1.call(r)?)) } }
impl From<Infallible> for Rejection { fn from(x: Infallible) -> Rejection { match x {} } }
fn now<T>(f: impl Future<Output = T>) -> T { let mut f = Box::pin(f); let w = std::sync::Arc::new(sim::Flag(std::sync::atomic::AtomicBool::new(false))).into(); match f.as_mut().poll(&mut Context::from_waker(&w)) { Poll::Ready(x) => x, _ => panic!("a route waits") } }
#[derive(Clone)] pub struct AndThen<A, F>(A, F); impl<A: Filter, F: Func<A::Extract, Out = U>, U: Future<Output = Result<R, E>>, R, E: Into<Rejection>> Filter for AndThen<A, F> { type Extract = (R,); type Error = Rejection; fn call(&self, r: &Request) -> Result<Self::Extract, Rejection> { let x = self.0.call(r)?; now(self.1.apply(x)).map(|x| (x,)).map_err(Into::into) } }
#[derive(Clone)] pub struct Untuple<A>(A); impl<T, A: Filter<Extract = (T,)>> Filter for Untuple<A> { type Extract = T; type Error = A::Error; fn call(&self, r: &Request) -> Result<T, Rejection> { Ok(self.0.call(r)?.0) } }
#[derive(Clone)] pub struct Map<A, F>(A, F); impl<A: Filter, F: Func<A::Extract>> Filter for Map<A, F> { type Extract = (F::Out,); type Error = A::Error; fn call(&self, r: &Request) -> Result<Self::Extract, Rejection> { Ok((self.1.apply(self.0.call(r)?),)) } }
#[derive(Clone)] pub struct Or<A, B>(A, B); impl<A: Filter, B: Filter> Filter for Or<A, B> where A::Extract: Reply, B::Extract: Reply { type Extract = (Response,); type Error = Rejection; fn call(&self, r: &Request) -> Result<Self::Extract, Rejection> { match self.0.call(r) { Ok(x) => Ok((x.into_response(),)), Err(e) => match self.1.call(r) { Ok(y) => Ok((y.into_response(),)), Err(f) => Err(if f.is_not_found() { e } else { f }) } } } }
#[derive(Clone)] pub struct Recover<A, F>(A, F); impl<A: Filter, F: Fn(Rejection) -> U, U: Future<Output = Result<R, Infallible>>, R: Reply> Filter for Recover<A, F> where A::Extract: Reply { type Extract = (Response,); type Error = Infallible;
    fn call(&self, r: &Request) -> Result<Self::Extract, Rejection> { match self.0.call(r) { Ok(x) => Ok((x.into_response(),)), Err(e) => { let Ok(x) = now(self.1(e)); Ok((x.into_response(),)) } } } }
#[derive(Clone)] pub struct Path(&'static str); pub fn path(p: &'static str) -> Path { Path(p) } impl Filter for Path { type Extract = (); type Error = Rejection; fn call(&self, r: &Request) -> Result<(), Rejection> { if r.path.trim_start_matches('/').split('/').next() == Some(self.0) { Ok(()) } else { Err(reject::not_found()) } } }
#[derive(Clone, Copy)] pub struct AnyF; pub fn any() -> AnyF { AnyF } impl Filter for AnyF { type Extract = (); type Error = Infallible; fn call(&self, _: &Request) -> Result<(), Rejection> { Ok(()) } }
#[derive(Clone, Copy)] pub struct GetF; pub fn get() -> GetF { GetF } impl Filter for GetF { type Extract = (); type Error = Rejection; fn call(&self, _: &Request) -> Result<(), Rejection> { Ok(()) } }
#[derive(Clone, Copy)] pub struct WsF; pub fn ws() -> WsF { WsF } impl Filter for WsF { type Extract = (ws::Ws,); type Error = Rejection; fn call(&self, r: &Request) -> Result<(ws::Ws,), Rejection> { if r.client.is_some() { Ok((ws::Ws,)) } else { Err(Rejection(Some(Box::new(reject::MissingHeader)))) } } }
pub struct Cors; pub fn cors() -> Cors { Cors } impl Cors { pub fn allow_any_origin(self) -> Self { self } pub fn allow_origin(self, _: &str) -> Self { self } pub fn build(self) -> Self { self } }
pub struct Server<F>(F); pub fn serve<F: Filter>(f: F) -> Server<F> { Server(f) }
impl<F: Filter> Server<F> where F::Extract: Reply {
    pub async fn run(self, a: impl Into<std::net::SocketAddr>) { let a = a.into().to_string(); sim::world(|w| w.address = a); loop {
        let r = std::future::poll_fn(|cx| sim::wait(cx, |w| w.requests.pop_front())).await; let p = r.path.clone();
        let x = match self.0.call(&r) { Ok(x) => x.into_response(), Err(_) => Response { status: 599, body: String::new(), upgrade: None } };
        sim::world(|w| w.answers.push((p, x.status, x.body.clone())));
        match (r.client, x.upgrade) { (Some(i), Some(f)) => { sim::world(|w| w.clients[i].live = true); let f = f(ws::WebSocket(i)); sim::spawn_named(format!("connection of client {i}"), async move { f.await; sim::world(|w| { w.clients[i].ready_at = Some(w.published.len()); }); }); } _ => {} }
    } }
}
pub use ws::WebSocket;
