//! The world around the server: tasks, a small Redis, the input websocket, websocket clients.  One thread; what runs next is the explorer's choice.
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::sync::{atomic::{AtomicBool, Ordering::SeqCst}, Arc};
use std::task::{Context, Poll, Wake, Waker};
pub type Fut = Pin<Box<dyn Future<Output = ()>>>;
pub struct Flag(pub AtomicBool);
impl Wake for Flag { fn wake(self: Arc<Self>) { self.0.store(true, SeqCst); } }
struct Task { fut: Option<Fut>, flag: Arc<Flag>, name: String }
#[derive(Default, Clone, Debug)]
pub struct Client { pub open: bool, pub got: Vec<String>, pub live: bool, pub ready_at: Option<usize>, pub closed_at: Option<usize>, pub sent_after_close: usize }
#[derive(Clone, Debug)]
pub enum Input { Text(String), Binary(Vec<u8>), Ping(Vec<u8>) }
#[derive(Clone, Debug)]
pub struct Request { pub path: String, pub client: Option<usize> }
#[derive(Default)]
pub struct World {
    pub config: String, pub input: VecDeque<Input>, pub input_open: bool, pub connected: Vec<String>, pub clients: Vec<Client>, pub requests: VecDeque<Request>, pub answers: Vec<(String, u16, String)>, pub address: String,
    pub commands: Vec<Vec<String>>, pub json: BTreeMap<String, String>, pub series: BTreeMap<String, Vec<(String, String)>>, pub runs: Vec<(String, String, String)>, pub published: Vec<String>, pub subscribed: Vec<String>, pub inbox: VecDeque<(String, String)>,
    pub refuse: usize, pub refused: usize, pub refused_at: Option<usize>, pub missing: u8, pub results: usize, pub panics: Vec<String>, pub wakers: Vec<Waker>, pub ids: usize,
}
thread_local! { static TASKS: RefCell<Vec<Task>> = const { RefCell::new(vec![]) }; static WORLD: RefCell<World> = RefCell::new(World::default()); }
pub fn world<R>(f: impl FnOnce(&mut World) -> R) -> R { WORLD.with(|w| f(&mut w.borrow_mut())) }
/// something happened outside: everything waiting for the outside looks again
pub fn outside<R>(f: impl FnOnce(&mut World) -> R) -> R { let (r, w) = world(|w| (f(w), std::mem::take(&mut w.wakers))); for x in w { x.wake(); } r }
pub fn reset() { let old = TASKS.with(|t| std::mem::take(&mut *t.borrow_mut())); let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(old))); world(|w| *w = World::default()); }
pub fn spawn_named(name: String, f: impl Future<Output = ()> + 'static) -> usize { TASKS.with(|t| { let mut t = t.borrow_mut(); t.push(Task { fut: Some(Box::pin(f)), flag: Arc::new(Flag(AtomicBool::new(true))), name }); t.len() - 1 }) }
pub fn ready() -> Vec<usize> { TASKS.with(|t| t.borrow().iter().enumerate().filter(|(_, x)| x.fut.is_some() && x.flag.0.load(SeqCst)).map(|(i, _)| i).collect()) }
pub fn name(i: usize) -> String { TASKS.with(|t| t.borrow()[i].name.clone()) }
pub fn run(i: usize) {
    let (mut fut, flag) = TASKS.with(|t| { let mut t = t.borrow_mut(); let x = &mut t[i]; x.flag.0.store(false, SeqCst); (x.fut.take().unwrap(), x.flag.clone()) });
    let w = Waker::from(flag); let mut cx = Context::from_waker(&w);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| fut.as_mut().poll(&mut cx))) {
        Ok(Poll::Pending) => TASKS.with(|t| t.borrow_mut()[i].fut = Some(fut)),
        Ok(Poll::Ready(())) => { let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(fut))); }
        Err(p) => { let s = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(); let n = name(i); world(|w| w.panics.push(format!("{n}: {s}"))); let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(fut))); }
    }
}
/// a point at which another task may run
pub async fn yield_now() { let mut first = true; std::future::poll_fn(|cx| if first { first = false; cx.waker().wake_by_ref(); Poll::Pending } else { Poll::Ready(()) }).await }
/// waits for the outside
pub fn wait<R>(cx: &mut Context<'_>, f: impl FnOnce(&mut World) -> Option<R>) -> Poll<R> { world(|w| match f(w) { Some(r) => Poll::Ready(r), None => { w.wakers.push(cx.waker().clone()); Poll::Pending } }) }
impl World {
    /// the Redis module, as RTBOT.XRUN promises: every sample of the input series is processed, the result stored and published
    pub fn command(&mut self, a: Vec<String>) -> Result<String, String> {
        self.commands.push(a.clone()); let s: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
        if let Some(n) = self.refused_at { if n == self.commands.len() - 1 { return Err("refused".into()); } }
        match (s[0].to_uppercase().as_str(), s.len()) {
            ("TS.CREATE", n) if n >= 2 => { if self.series.contains_key(s[1]) { return Err("TSDB: key already exists".into()); } self.series.insert(s[1].into(), vec![]); Ok("OK".into()) }
            ("JSON.SET", 4) => { if s[2] != "$" { return Err("path".into()); } self.json.insert(s[1].into(), s[3].into()); Ok("OK".into()) }
            ("RTBOT.XRUN", 4) => { if !self.json.contains_key(s[1]) || !self.series.contains_key(s[2]) { return Err("no program or series".into()); } self.runs.push((s[1].into(), s[2].into(), s[3].into())); Ok("id".into()) }
            ("TS.ADD", n) if n >= 4 => {
                if self.refuse > 0 { self.refuse -= 1; self.refused += 1; return Err("refused".into()); }
                self.series.entry(s[1].into()).or_default().push((s[2].into(), s[3].into()));
                for (_, i, o) in self.runs.clone() { if i == s[1] { self.results += 1; let m = if self.results % 7 == 5 { format!("{},{}", s[2], (0..20).map(|i| format!("{i}e{i}")).collect::<Vec<_>>().join(",")) } else if self.results % 3 == 0 { format!("{},{}.5,{}", s[2], self.results, self.results) } else { format!("{},{}.5", s[2], self.results) }; let ch = format!("{o}:ps"); if self.subscribed.contains(&ch) { self.published.push(m.clone()); self.inbox.push_back((ch, m)); } } }
                let w = std::mem::take(&mut self.wakers); for x in w { x.wake(); }
                Ok(s[2].into())
            }
            _ => Err(format!("unknown command {a:?}")),
        }
    }
}
