//! The part of the client the server uses, over the harness's Redis.
use std::pin::Pin; use std::task::{Context, Poll};
#[derive(Debug)] pub struct RedisError(pub String); pub type RedisResult<T> = Result<T, RedisError>;
impl std::fmt::Display for RedisError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } } impl std::error::Error for RedisError {}
pub trait FromRedisValue: Sized { fn from(s: &str) -> RedisResult<Self>; }
impl FromRedisValue for () { fn from(_: &str) -> RedisResult<()> { Ok(()) } }
impl FromRedisValue for String { fn from(s: &str) -> RedisResult<String> { Ok(s.into()) } }
#[derive(Debug, Clone, PartialEq)] pub enum Value { Nil, Int(i64), Data(Vec<u8>), Bulk(Vec<Value>), Status(String), Okay }
impl FromRedisValue for Value { fn from(s: &str) -> RedisResult<Value> { Ok(if s == "OK" { Value::Okay } else { Value::Data(s.as_bytes().to_vec()) }) } }
impl FromRedisValue for i64 { fn from(s: &str) -> RedisResult<i64> { s.parse().map_err(|_| RedisError("type".into())) } }
impl FromRedisValue for u64 { fn from(s: &str) -> RedisResult<u64> { s.parse().map_err(|_| RedisError("type".into())) } }
pub trait ToRedisArgs { fn text(&self) -> String; }
impl<T: std::fmt::Display + ?Sized> ToRedisArgs for T { fn text(&self) -> String { self.to_string() } }
#[derive(Clone, Debug)] pub struct Client; impl Client { pub fn open<T: ToString>(_: T) -> RedisResult<Client> { Ok(Client) } pub async fn get_async_connection(&self) -> RedisResult<aio::Connection> { sim::yield_now().await; Ok(aio::Connection) } pub async fn get_multiplexed_async_connection(&self) -> RedisResult<aio::Connection> { self.get_async_connection().await } }
pub struct Cmd(Vec<String>); pub fn cmd(n: &str) -> Cmd { Cmd(vec![n.into()]) }
impl Cmd { pub fn arg<T: ToRedisArgs>(&mut self, t: T) -> &mut Self { self.0.push(t.text()); self }
    pub async fn query_async<C, T: FromRedisValue>(&self, _: &mut C) -> RedisResult<T> { sim::yield_now().await; let a = self.0.clone(); sim::world(|w| w.command(a)).map_err(RedisError).and_then(|s| T::from(&s)) } }
pub struct Msg(String, String); impl Msg { pub fn get_payload<T: FromRedisValue>(&self) -> RedisResult<T> { T::from(&self.1) } pub fn get_channel_name(&self) -> &str { &self.0 } }
pub struct MsgStream(Vec<String>);
impl futures_core::Stream for MsgStream { type Item = Msg; fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Msg>> { let ch = self.0.clone(); sim::wait(cx, |w| { let i = w.inbox.iter().position(|x| ch.contains(&x.0))?; let (c, m) = w.inbox.remove(i).unwrap(); Some(Some(Msg(c, m))) }) } }
pub mod aio {
    use super::*;
    pub struct Connection; pub struct PubSub(Vec<String>);
    impl Connection { pub fn into_pubsub(self) -> PubSub { PubSub(vec![]) } }
    impl PubSub { pub async fn subscribe<T: ToRedisArgs>(&mut self, ch: T) -> RedisResult<()> { let c = ch.text(); self.0.push(c.clone()); sim::yield_now().await; sim::outside(|w| w.subscribed.push(c)); Ok(()) } pub fn on_message(&mut self) -> MsgStream { MsgStream(self.0.clone()) } pub fn into_on_message(self) -> MsgStream { MsgStream(self.0) } }
}
