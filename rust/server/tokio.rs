//! tokio with tasks under the explorer's control.  Channels are tokio's own.
pub use tokio_main::main;
pub use sim::yield_now;
pub fn explore(server: fn() -> sim::Fut) { harness::main(server) }
pub mod task { pub use super::{spawn, JoinHandle}; pub use sim::yield_now; }
pub struct JoinHandle<T>(std::marker::PhantomData<T>);
impl<T> JoinHandle<T> { pub fn abort(&self) {} }
pub fn spawn<F: std::future::Future + 'static>(f: F) -> JoinHandle<F::Output> { sim::spawn_named(short(std::any::type_name::<F>()), async move { let _ = f.await; }); JoinHandle(std::marker::PhantomData) }
fn short(n: &str) -> String { n.replace("rtbot_server::", "").replace("::{{closure}}", "{}") }
pub mod sync {
    pub use real_tokio::sync::{mpsc, oneshot, broadcast, watch, Notify};
    #[derive(Debug, Default)] pub struct RwLock<T>(real_tokio::sync::RwLock<T>);
    impl<T> RwLock<T> { pub fn new(t: T) -> Self { Self(real_tokio::sync::RwLock::new(t)) }
        pub async fn write(&self) -> real_tokio::sync::RwLockWriteGuard<'_, T> { sim::yield_now().await; self.0.write().await }
        pub async fn read(&self) -> real_tokio::sync::RwLockReadGuard<'_, T> { sim::yield_now().await; self.0.read().await } }
    #[derive(Debug, Default)] pub struct Mutex<T>(real_tokio::sync::Mutex<T>);
    impl<T> Mutex<T> { pub fn new(t: T) -> Self { Self(real_tokio::sync::Mutex::new(t)) } pub async fn lock(&self) -> real_tokio::sync::MutexGuard<'_, T> { sim::yield_now().await; self.0.lock().await } }
}
