//! Stands in for warp, hyper and the network: routes are evaluated on the requests a scenario makes,
//! a websocket is a queue of messages in each direction whose behaviour the scenario decides.
#[path = "../../../harness/src/sym.rs"]
pub mod sym;
pub mod world;
mod scenarios;
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

#[derive(Debug)]
pub struct Error(pub &'static str);
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self.0) } }
impl std::error::Error for Error {}

// ------------------------------------------------------------ requests and replies
#[derive(Clone, Default)]
pub struct Request { pub post: bool, pub path: Vec<String>, pub body: Vec<u8>, pub at: usize, pub socket: Option<Rc<RefCell<world::Session>>> }
pub enum Out { Text(u16, Vec<u8>), Upgrade(Pin<Box<dyn Future<Output = ()>>>), File }
pub trait Reply { fn out(self) -> Out; }
impl<T: Reply> Reply for (T,) { fn out(self) -> Out { self.0.out() } }
impl Reply for Out { fn out(self) -> Out { self } }
impl Reply for String { fn out(self) -> Out { Out::Text(200, self.into_bytes()) } }
impl Reply for std::borrow::Cow<'static, str> { fn out(self) -> Out { Out::Text(200, self.as_bytes().to_vec()) } }
impl Reply for http::StatusCode { fn out(self) -> Out { Out::Text(self.as_u16(), vec![]) } }
impl<T: Reply> Reply for Box<T> { fn out(self) -> Out { (*self).out() } }
impl Reply for &'static str { fn out(self) -> Out { Out::Text(200, self.as_bytes().to_vec()) } }
impl Reply for Vec<u8> { fn out(self) -> Out { Out::Text(200, self) } }
impl<T: Reply> Reply for http::Result<T> { fn out(self) -> Out { match self { Ok(x) => x.out(), Err(_) => Out::Text(500, vec![]) } } }
impl<T: Into<body_of_hyper::Body>> Reply for http::Response<T> {
    fn out(self) -> Out { let s = self.status().as_u16(); Out::Text(s, world::bytes_of(self.into_body().into())) }
}
pub mod body_of_hyper {
    use futures::{Stream, StreamExt};
    use std::pin::Pin;
    pub enum Body { Full(Vec<u8>), Chunks(Pin<Box<dyn Stream<Item = Option<Vec<u8>>>>>) }
    impl From<String> for Body { fn from(s: String) -> Body { Body::Full(s.into_bytes()) } }
    impl From<&'static str> for Body { fn from(s: &'static str) -> Body { Body::Full(s.as_bytes().to_vec()) } }
    impl From<Vec<u8>> for Body { fn from(s: Vec<u8>) -> Body { Body::Full(s) } }
    impl Body {
        pub fn empty() -> Body { Body::Full(vec![]) }
        pub fn wrap_stream<S, T, E>(s: S) -> Body where S: Stream<Item = Result<T, E>> + 'static, T: Into<bytes::Bytes> {
            Body::Chunks(Box::pin(s.map(|x| x.ok().map(|x| x.into().to_vec()))))
        }
    }
}

// ------------------------------------------------------------ filters
pub trait Combine<T> { type Out; fn combine(self, t: T) -> Self::Out; }
impl Combine<()> for () { type Out = (); fn combine(self, _: ()) {} }
impl<A> Combine<(A,)> for () { type Out = (A,); fn combine(self, t: (A,)) -> (A,) { t } }
impl<A> Combine<()> for (A,) { type Out = (A,); fn combine(self, _: ()) -> (A,) { self } }
impl<A, B> Combine<(B,)> for (A,) { type Out = (A, B); fn combine(self, t: (B,)) -> (A, B) { (self.0, t.0) } }
pub trait Call<T> { type Out; fn call(&self, t: T) -> Self::Out; }
impl<F: Fn() -> R, R> Call<()> for F { type Out = R; fn call(&self, _: ()) -> R { self() } }
impl<F: Fn(A) -> R, A, R> Call<(A,)> for F { type Out = R; fn call(&self, t: (A,)) -> R { self(t.0) } }
impl<F: Fn(A, B) -> R, A, B, R> Call<(A, B)> for F { type Out = R; fn call(&self, t: (A, B)) -> R { self(t.0, t.1) } }
pub trait Filter: Sized {
    type Extract; type Error;
    fn run(&self, r: &mut Request) -> Option<Self::Extract>;
    fn and<F: Filter>(self, f: F) -> And<Self, F> where Self::Extract: Combine<F::Extract> { And(self, f) }
    fn or<F: Filter>(self, f: F) -> Or<Self, F> { Or(self, f) }
    fn map<F: Call<Self::Extract>>(self, f: F) -> Map<Self, F> { Map(self, f) }
    fn and_then<F: Call<Self::Extract>, R, E>(self, f: F) -> AndThen<Self, F> where F::Out: Future<Output = Result<R, E>> { AndThen(self, f) }
    fn boxed(self) -> Self { self }
    fn unify(self) -> Self { self }
}
#[derive(Clone)] pub struct And<A, B>(A, B);
impl<A: Filter, B: Filter> Filter for And<A, B> where A::Extract: Combine<B::Extract> {
    type Extract = <A::Extract as Combine<B::Extract>>::Out; type Error = Rejection;
    fn run(&self, r: &mut Request) -> Option<Self::Extract> { let a = self.0.run(r)?; let b = self.1.run(r)?; Some(a.combine(b)) }
}
#[derive(Clone)] pub struct Or<A, B>(A, B);
impl<A: Filter<Extract = (X,)>, B: Filter<Extract = (Y,)>, X: Reply, Y: Reply> Filter for Or<A, B> {
    type Extract = (Out,); type Error = Rejection;
    fn run(&self, r: &mut Request) -> Option<(Out,)> {
        let at = r.at;
        if let Some(x) = self.0.run(r) { return Some((x.0.out(),)) }
        r.at = at;
        self.1.run(r).map(|x| (x.0.out(),))
    }
}
#[derive(Clone)] pub struct Map<A, F>(A, F);
impl<A: Filter, F: Call<A::Extract>> Filter for Map<A, F> {
    type Extract = (F::Out,); type Error = Rejection;
    fn run(&self, r: &mut Request) -> Option<(F::Out,)> { self.0.run(r).map(|x| (self.1.call(x),)) }
}
pub struct AndThen<A, F>(A, F);
impl<A: Clone, F: Clone> Clone for AndThen<A, F> { fn clone(&self) -> Self { AndThen(self.0.clone(), self.1.clone()) } }
impl<A: Filter, F: Call<A::Extract>, R, E> Filter for AndThen<A, F> where F::Out: Future<Output = Result<R, E>> {
    type Extract = (R,); type Error = Rejection;
    fn run(&self, r: &mut Request) -> Option<(R,)> {
        let mut f = Box::pin(self.1.call(self.0.run(r)?));
        let w = futures::task::noop_waker();
        for _ in 0..1000 { if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&w)) { return x.ok().map(|x| (x,)) } }
        None
    }
}
#[derive(Debug)] pub struct Rejection;
#[derive(Clone)] pub struct Any;
impl Filter for Any { type Extract = (); type Error = Rejection; fn run(&self, _: &mut Request) -> Option<()> { Some(()) } }
pub fn any() -> Any { Any }
pub use http;
pub mod hyper { pub use crate::body_of_hyper::Body; }
pub mod filters { pub use crate::{body, fs, path, ws}; pub mod method { pub use crate::{get, post}; } }
pub mod reject { pub use crate::Rejection; pub fn not_found() -> Rejection { Rejection } pub fn reject() -> Rejection { Rejection } }
pub mod reply {
    use super::*;
    pub type Response = http::Response<body_of_hyper::Body>;
    pub fn html<T: Reply>(t: T) -> T { t }
    pub fn json<T: serde::Serialize>(t: &T) -> String { serde_json::to_string(t).unwrap() }
    pub fn with_status<T: Reply>(t: T, s: http::StatusCode) -> Out { match t.out() { Out::Text(_, v) => Out::Text(s.as_u16(), v), o => o } }
    pub fn with_header<T: Reply, K, V>(t: T, _: K, _: V) -> T { t }
}
#[macro_export]
macro_rules! path {
    (@ $f:expr;) => { $f };
    (@ $f:expr; $a:literal $(/ $($r:tt)*)?) => { $crate::path!(@ $crate::Filter::and($f, $crate::path($a)); $($($r)*)?) };
    (@ $f:expr; $a:ty) => { $crate::Filter::and($f, $crate::path::param::<$a>()) };
    (@ $f:expr; $a:ident / $($r:tt)*) => { $crate::path!(@ $crate::Filter::and($f, $crate::path::param::<$a>()); $($r)*) };
    ($($x:tt)+) => { $crate::Filter::and($crate::path!(@ $crate::any(); $($x)+), $crate::path::end()) };
}
#[derive(Clone)] pub struct Method(bool);
impl Filter for Method { type Extract = (); type Error = Rejection; fn run(&self, r: &mut Request) -> Option<()> { if r.post == self.0 { Some(()) } else { None } } }
pub fn get() -> Method { Method(false) }
pub fn post() -> Method { Method(true) }
pub mod path {
    use super::*;
    #[derive(Clone)] pub struct Exact(pub &'static str);
    impl Filter for Exact { type Extract = (); type Error = Rejection; fn run(&self, r: &mut Request) -> Option<()> { if r.path.get(r.at).map(|s| s.as_str()) == Some(self.0) { r.at += 1; Some(()) } else { None } } }
    impl<T> Clone for Param<T> { fn clone(&self) -> Self { Param(std::marker::PhantomData) } }
    pub struct Param<T>(std::marker::PhantomData<T>);
    impl<T: std::str::FromStr> Filter for Param<T> {
        type Extract = (T,); type Error = Rejection;
        fn run(&self, r: &mut Request) -> Option<(T,)> { let x = r.path.get(r.at)?.parse().ok()?; r.at += 1; Some((x,)) }
    }
    pub fn param<T: std::str::FromStr>() -> Param<T> { Param(std::marker::PhantomData) }
    #[derive(Clone)] pub struct End;
    impl Filter for End { type Extract = (); type Error = Rejection; fn run(&self, r: &mut Request) -> Option<()> { if r.at == r.path.len() { Some(()) } else { None } } }
    pub fn end() -> End { End }
}
pub fn path(s: &'static str) -> path::Exact { path::Exact(s) }
pub mod body {
    use super::*;
    #[derive(Clone)] pub struct Limit(u64);
    impl Filter for Limit { type Extract = (); type Error = Rejection; fn run(&self, r: &mut Request) -> Option<()> { if r.body.len() as u64 <= self.0 { Some(()) } else { None } } }
    pub fn content_length_limit(n: u64) -> Limit { Limit(n) }
    #[derive(Clone)] pub struct All;
    impl Filter for All { type Extract = (bytes::Bytes,); type Error = Rejection; fn run(&self, r: &mut Request) -> Option<(bytes::Bytes,)> { Some((bytes::Bytes::from(r.body.clone()),)) } }
    pub fn bytes() -> All { All }
}
pub mod fs {
    use super::*;
    #[derive(Clone)] pub struct Files(bool);
    impl Filter for Files { type Extract = (Out,); type Error = Rejection; fn run(&self, _: &mut Request) -> Option<(Out,)> { if self.0 { Some((Out::File,)) } else { None } } }
    pub fn file(_: &'static str) -> Files { Files(true) }
    pub fn dir(_: &'static str) -> Files { Files(false) }
}
pub mod ws {
    use super::*;
    #[derive(Debug, Clone)]
    pub enum Kind { Text(String), Binary(Vec<u8>) }
    #[derive(Debug, Clone)]
    pub struct Message(pub Kind);
    impl Message {
        pub fn text<S: Into<String>>(s: S) -> Message { Message(Kind::Text(s.into())) }
        pub fn binary<V: Into<Vec<u8>>>(v: V) -> Message { Message(Kind::Binary(v.into())) }
        pub fn is_text(&self) -> bool { matches!(self.0, Kind::Text(_)) }
        pub fn is_binary(&self) -> bool { !self.is_text() }
        pub fn is_close(&self) -> bool { false }
        pub fn to_str(&self) -> Result<&str, ()> { match &self.0 { Kind::Text(s) => Ok(s), _ => Err(()) } }
        pub fn as_bytes(&self) -> &[u8] { match &self.0 { Kind::Text(s) => s.as_bytes(), Kind::Binary(b) => b } }
    }
    pub struct Ws(Rc<RefCell<world::Session>>);
    impl Ws {
        pub fn on_upgrade<F, U>(self, f: F) -> Out where F: FnOnce(WebSocket) -> U, U: Future<Output = ()> + 'static { Out::Upgrade(Box::pin(f(WebSocket(self.0)))) }
    }
    #[derive(Clone)] pub struct Upgrade;
    impl Filter for Upgrade { type Extract = (Ws,); type Error = Rejection; fn run(&self, r: &mut Request) -> Option<(Ws,)> { r.socket.clone().map(|s| (Ws(s),)) } }
    pub fn ws() -> Upgrade { Upgrade }
    pub struct WebSocket(Rc<RefCell<world::Session>>);
    impl WebSocket {
        pub async fn close(self) -> Result<(), Error> { self.0.borrow_mut().close(); Ok(()) }
    }
    impl Drop for WebSocket { fn drop(&mut self) { self.0.borrow_mut().dropped = true } }
    impl futures::Stream for WebSocket {
        type Item = Result<Message, Error>;
        fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> { self.0.borrow_mut().receive() }
    }
    impl futures::Sink<Message> for WebSocket {
        type Error = Error;
        fn poll_ready(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Error>> { self.0.borrow_mut().ready() }
        fn start_send(self: Pin<&mut Self>, m: Message) -> Result<(), Error> { self.0.borrow_mut().send(m) }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Error>> { self.0.borrow_mut().flush() }
        fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Error>> { self.0.borrow_mut().close(); Poll::Ready(Ok(())) }
    }
}
pub fn ws() -> ws::Upgrade { ws::ws() }
pub struct Server<F>(F);
pub fn serve<F: Filter<Extract = (R,)> + 'static, R: Reply>(f: F) -> Server<F> { Server(f) }
impl<F: Filter<Extract = (R,)> + 'static, R: Reply> Server<F> {
    pub async fn run<A>(self, _: A) { let f = self.0; world::install(Rc::new(move |r: Request| { let mut r = r; f.run(&mut r).map(|x| x.0.out()) })) }
}
