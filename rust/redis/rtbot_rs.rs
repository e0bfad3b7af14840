//! The registry's real source, with a stand-in for the C++ engine.
extern crate shim as std;
#[allow(unused_macros)]
macro_rules! println { ($($t:tt)*) => {{ if false { let _ = format!($($t)*); } }} }
#[allow(unused_macros)]
macro_rules! eprintln { ($($t:tt)*) => {{ if false { let _ = format!($($t)*); } }} }
pub mod cxx_bindings {
    pub mod ffi {
        use ::std::cell::RefCell;
        use ::std::collections::BTreeMap;
        #[derive(Debug, Clone)]
        pub struct RtBotMessage { pub timestamp: u64, pub values: Vec<f64> }
        /// What a program does with a message: `sum` emits the running sum, `every2` the sum at every second message,
        /// with the number of messages as second value.
        #[derive(Clone, Debug, PartialEq, Default)]
        pub struct Prog { pub every: u64, pub n: u64, pub sum: f64 }
        impl Prog {
            pub fn of(text: &str) -> Option<Prog> { if text.contains("refuse") { None } else { Some(Prog { every: if text.contains("every2") { 2 } else { 1 }, n: 0, sum: 0.0 }) } }
            pub fn on(&mut self, t: u64, v: f64) -> Vec<RtBotMessage> { self.n += 1; self.sum += v; if self.n % self.every == 0 { vec![RtBotMessage { timestamp: t, values: if self.every == 2 { vec![self.sum, self.n as f64] } else { vec![self.sum] } }] } else { vec![] } }
        }
        thread_local! { pub static ENGINE: RefCell<(BTreeMap<String, Prog>, Vec<String>)> = RefCell::new(Default::default()); }
        pub fn create_pipeline(id: String, program: String) -> String {
            ENGINE.with(|e| { let mut e = e.borrow_mut(); if e.0.contains_key(&id) { e.1.push("two programs under one id".into()); return "exists".into(); } match Prog::of(&program) { Some(p) => { e.0.insert(id, p); String::new() } None => "refused".into() } })
        }
        pub fn delete_pipeline(id: String) -> String { ENGINE.with(|e| { let mut e = e.borrow_mut(); if e.0.remove(&id).is_some() { String::new() } else { e.1.push("deleted an unknown program".into()); "unknown".into() } }) }
        pub fn receive_message_in_pipeline(id: String, message: RtBotMessage) -> Vec<RtBotMessage> {
            ENGINE.with(|e| { let mut e = e.borrow_mut(); match e.0.get_mut(&id) { None => { e.1.push("message for an unknown program".into()); vec![] } Some(p) => { if message.values.len() != 1 { vec![] } else { p.on(message.timestamp, message.values[0]) } } } })
        }
    }
}
#[path = "@REPO@/apps/rtbot-rs/src/pipelines_registry.rs"]
pub mod pipelines_registry;
