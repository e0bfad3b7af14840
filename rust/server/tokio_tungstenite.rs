use std::pin::Pin; use std::task::{Context, Poll};
pub mod tungstenite {
    #[derive(Debug)] pub struct Error; pub type Result<T, E = Error> = std::result::Result<T, E>;
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("websocket error") } } impl std::error::Error for Error {}
    #[derive(Debug, Clone)] pub enum Message { Text(String), Binary(Vec<u8>), Ping(Vec<u8>), Pong(Vec<u8>), Close(Option<()>) }
    pub mod protocol { pub use super::Message; }
}
use tungstenite::*;
pub struct WebSocketStream;
impl futures_core::Stream for WebSocketStream { type Item = Result<Message>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> { sim::wait(cx, |w| match w.input.pop_front() { Some(sim::Input::Text(s)) => Some(Some(Ok(Message::Text(s)))), Some(sim::Input::Binary(b)) => Some(Some(Ok(Message::Binary(b)))), Some(sim::Input::Ping(b)) => Some(Some(Ok(Message::Ping(b)))), None if !w.input_open => Some(None), None => None }) } }
pub async fn connect_async<R: ToString>(r: R) -> Result<(WebSocketStream, ())> { let s = r.to_string(); sim::yield_now().await; sim::world(|w| w.connected.push(s)); Ok((WebSocketStream, ())) }
