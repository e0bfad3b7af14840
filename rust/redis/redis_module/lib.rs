//! Stands in for the redis_module crate: a small Redis with JSON documents, time series, publications and
//! keyspace events, whose every call can be made to fail.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt;
#[derive(Debug, Clone)]
pub enum RedisError { WrongArity, Str(&'static str), String(String), WrongType }
impl<T: std::error::Error> From<T> for RedisError { fn from(e: T) -> Self { RedisError::String(e.to_string()) } }
impl fmt::Display for RedisError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { match self { RedisError::WrongArity => write!(f, "wrong arity"), RedisError::Str(s) => write!(f, "{s}"), RedisError::String(s) => write!(f, "{s}"), RedisError::WrongType => write!(f, "wrong type") } } }
#[derive(Debug, Clone, PartialEq)]
pub enum RedisValue { SimpleStringStatic(&'static str), SimpleString(String), BulkString(String), StringBuffer(Vec<u8>), Integer(i64), Float(f64), Array(Vec<RedisValue>), Null, NoReply }
pub type RedisResult<T = RedisValue> = Result<T, RedisError>;
pub const REDIS_OK: RedisResult = Ok(RedisValue::SimpleStringStatic("OK"));
impl From<()> for RedisValue { fn from(_: ()) -> Self { RedisValue::Null } }
impl From<i64> for RedisValue { fn from(v: i64) -> Self { RedisValue::Integer(v) } }
impl From<usize> for RedisValue { fn from(v: usize) -> Self { RedisValue::Integer(v as i64) } }
impl From<f64> for RedisValue { fn from(v: f64) -> Self { RedisValue::Float(v) } }
impl From<String> for RedisValue { fn from(v: String) -> Self { RedisValue::BulkString(v) } }
impl From<&str> for RedisValue { fn from(v: &str) -> Self { RedisValue::BulkString(v.to_string()) } }
impl From<&String> for RedisValue { fn from(v: &String) -> Self { RedisValue::BulkString(v.clone()) } }
impl From<Vec<u8>> for RedisValue { fn from(v: Vec<u8>) -> Self { RedisValue::StringBuffer(v) } }
impl<T: Into<RedisValue>> From<Option<T>> for RedisValue { fn from(v: Option<T>) -> Self { v.map_or(RedisValue::Null, |x| x.into()) } }
impl<T: Into<RedisValue>> From<Vec<T>> for RedisValue where T: NotByte { fn from(v: Vec<T>) -> Self { RedisValue::Array(v.into_iter().map(|x| x.into()).collect()) } }
pub trait NotByte {}
impl NotByte for RedisValue {} impl NotByte for i64 {} impl NotByte for String {} impl NotByte for f64 {}
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct RedisString(String);
impl RedisString {
    pub fn create(_ctx: *mut (), s: &str) -> Self { RedisString(s.to_string()) }
    pub fn try_as_str(&self) -> Result<&str, RedisError> { Ok(&self.0) }
    pub fn to_string_lossy(&self) -> String { self.0.clone() }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn parse_integer(&self) -> Result<i64, RedisError> { self.0.parse::<i64>().map_err(|_| RedisError::Str("not an integer")) }
}
impl fmt::Display for RedisString { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) } }
impl From<RedisString> for String { fn from(s: RedisString) -> String { s.0 } }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct NotifyEvent(pub u32);
#[allow(non_upper_case_globals)]
impl NotifyEvent { pub const GENERIC: NotifyEvent = NotifyEvent(4); pub const STRING: NotifyEvent = NotifyEvent(8); pub const MODULE: NotifyEvent = NotifyEvent(8192); pub const ALL: NotifyEvent = NotifyEvent(!0); }
pub struct Context { pub ctx: *mut () }
pub type Command = fn(&Context, Vec<RedisString>) -> RedisResult;
pub type Handler = fn(&Context, NotifyEvent, &str, &str) -> RedisResult;

/// The database, and what the module registered.
#[derive(Default)]
pub struct Db {
    pub json: BTreeMap<String, String>, pub ts: BTreeMap<String, BTreeMap<i64, f64>>, pub published: Vec<(String, String)>,
    pub commands: Vec<(String, Command)>, pub handlers: Vec<(NotifyEvent, Handler)>,
    /// (command, key, which occurrence) that fails
    pub fault: Option<(&'static str, String, usize)>, pub faulted: bool, pub depth: usize, pub calls: usize, pub bad: Vec<String>, pub events: u64,
}
thread_local! { pub static DB: RefCell<Db> = RefCell::new(Db::default()); }
pub fn db<T>(f: impl FnOnce(&mut Db) -> T) -> T { DB.with(|d| f(&mut d.borrow_mut())) }
fn event(name: &str, key: &str) {
    let hs: Vec<(NotifyEvent, Handler)> = db(|d| { d.events += 1; d.depth += 1; if d.depth > 40 { d.depth = 0; panic!("events without end"); } d.handlers.clone() });
    for (mask, h) in hs { if mask.0 & NotifyEvent::MODULE.0 != 0 { let _ = h(&Context { ctx: std::ptr::null_mut() }, NotifyEvent::MODULE, name, key); } }
    db(|d| d.depth -= 1);
}
fn fails(cmd: &str, key: &str) -> bool {
    db(|d| match &mut d.fault { Some((c, k, n)) if *c == cmd && k == key => { if *n == 0 { d.fault = None; d.faulted = true; true } else { *n -= 1; false } } _ => false })
}
impl Context {
    pub fn dummy() -> Context { Context { ctx: std::ptr::null_mut() } }
    pub fn log_debug(&self, _: &str) {} pub fn log_notice(&self, _: &str) {} pub fn log_verbose(&self, _: &str) {} pub fn log_warning(&self, _: &str) {}
    pub fn call(&self, command: &str, args: &[&str]) -> RedisResult {
        let a: Vec<String> = args.iter().map(|s| s.to_string()).collect();
        let cmd = command.to_lowercase();
        db(|d| { d.calls += 1; if d.calls > 200000 { panic!("calls without end"); } });
        let key = a.get(0).cloned().unwrap_or_default();
        if fails(&cmd, &key) { return Err(RedisError::String(format!("ERR {cmd} failed"))); }
        let arity = |n: usize| if a.len() < n { Err(RedisError::WrongArity) } else { Ok(()) };
        let num = |s: &str| s.parse::<i64>().map_err(|_| RedisError::Str("TSDB: invalid timestamp"));
        match cmd.as_str() {
            "json.get" => { arity(1)?; Ok(db(|d| d.json.get(&key).map_or(RedisValue::Null, |s| RedisValue::SimpleString(s.clone())))) }
            "json.set" => { arity(3)?; db(|d| d.json.insert(key.clone(), a[2].clone())); event("json.set", &key); Ok(RedisValue::SimpleString("OK".into())) }
            "ts.range" => { arity(3)?; let from = if a[1] == "-" { i64::MIN } else { num(&a[1])? }; let to = if a[2] == "+" { i64::MAX } else { num(&a[2])? };
                db(|d| d.ts.get(&key).map(|s| RedisValue::Array(s.range(from..=to).map(|(t, v)| RedisValue::Array(vec![RedisValue::Integer(*t), RedisValue::SimpleString(v.to_string())])).collect())).ok_or(RedisError::Str("TSDB: the key does not exist"))) }
            "ts.get" => { arity(1)?; db(|d| d.ts.get(&key).map(|s| RedisValue::Array(s.iter().next_back().map_or(vec![], |(t, v)| vec![RedisValue::Integer(*t), RedisValue::SimpleString(v.to_string())]))).ok_or(RedisError::Str("TSDB: the key does not exist"))) }
            "ts.create" => { arity(1)?; if db(|d| d.ts.contains_key(&key)) { return Err(RedisError::Str("TSDB: key already exists")); } if a.len() > 1 && !(a.len() == 3 && a[1].eq_ignore_ascii_case("duplicate_policy") && a[2].eq_ignore_ascii_case("last")) { db(|d| d.bad.push(format!("time series created with {a:?}"))); }
                db(|d| d.ts.insert(key.clone(), BTreeMap::new())); event("ts.create", &key); Ok(RedisValue::SimpleString("OK".into())) }
            "ts.add" => { arity(3)?; let t = num(&a[1])?; let v = a[2].parse::<f64>().map_err(|_| RedisError::Str("TSDB: invalid value"))?; if t < 0 { return Err(RedisError::Str("TSDB: invalid timestamp, must be a nonnegative integer")); }
                db(|d| d.ts.entry(key.clone()).or_default().insert(t, v)); event("ts.add", &key); Ok(RedisValue::Integer(t)) }
            "del" => { let mut n = 0; for k in &a { let had = db(|d| d.ts.remove(k).is_some() | d.json.remove(k).is_some()); if had { n += 1; event("del", k); } } Ok(RedisValue::Integer(n)) }
            "publish" => { arity(2)?; db(|d| d.published.push((key.clone(), a[1].clone()))); Ok(RedisValue::Integer(1)) }
            _ => { let f = db(|d| d.commands.iter().find(|(n, _)| *n == cmd).map(|x| x.1)); match f { Some(f) => { let mut v = vec![RedisString(command.to_string())]; v.extend(a.into_iter().map(RedisString)); f(self, v) } None => Err(RedisError::String(format!("ERR unknown command '{command}'"))) } }
        }
    }
}
#[macro_export]
macro_rules! redis_module {
    (name: $name:expr, version: $v:expr, data_types: [$($dt:ident),* $(,)?], $(init: $init:ident,)* $(deinit: $deinit:ident,)*
     commands: [$([$cn:expr, $cf:expr, $($rest:expr),* $(,)?]),* $(,)?] $(, event_handlers: [$([$(@$ev:ident)|+ : $h:expr]),* $(,)?])? $(,)?) => {
        pub fn __commands() -> Vec<(String, $crate::Command)> { vec![$(($cn.to_string(), $cf as $crate::Command)),*] }
        pub fn __handlers() -> Vec<($crate::NotifyEvent, $crate::Handler)> { #[allow(unused_mut)] let mut v: Vec<($crate::NotifyEvent, $crate::Handler)> = vec![]; $($(v.push(($crate::NotifyEvent(0 $(| $crate::NotifyEvent::$ev.0)+), $h as $crate::Handler));)*)? v }
    }
}
/// Reads the arguments of a command one after the other.
pub trait NextArg {
    fn next_arg(&mut self) -> Result<RedisString, RedisError>;
    fn next_string(&mut self) -> Result<String, RedisError>;
    fn next_str<'a>(&mut self) -> Result<&'a str, RedisError>;
    fn next_i64(&mut self) -> Result<i64, RedisError>;
    fn next_u64(&mut self) -> Result<u64, RedisError>;
    fn next_f64(&mut self) -> Result<f64, RedisError>;
    fn done(&mut self) -> Result<(), RedisError>;
}
impl<T: Iterator<Item = RedisString>> NextArg for T {
    fn next_arg(&mut self) -> Result<RedisString, RedisError> { self.next().ok_or(RedisError::WrongArity) }
    fn next_string(&mut self) -> Result<String, RedisError> { Ok(self.next_arg()?.0) }
    fn next_str<'a>(&mut self) -> Result<&'a str, RedisError> { Ok(Box::leak(self.next_arg()?.0.into_boxed_str())) }
    fn next_i64(&mut self) -> Result<i64, RedisError> { self.next_arg()?.parse_integer() }
    fn next_u64(&mut self) -> Result<u64, RedisError> { self.next_arg()?.0.parse().map_err(|_| RedisError::Str("not an integer")) }
    fn next_f64(&mut self) -> Result<f64, RedisError> { self.next_arg()?.0.parse().map_err(|_| RedisError::Str("not a number")) }
    fn done(&mut self) -> Result<(), RedisError> { self.next().map_or(Ok(()), |_| Err(RedisError::WrongArity)) }
}
#[derive(Debug, Clone, Copy)] pub enum LogLevel { Debug, Notice, Verbose, Warning }
impl Context { pub fn log(&self, _: LogLevel, _: &str) {} }
impl AsRef<str> for RedisString { fn as_ref(&self) -> &str { &self.0 } }
impl RedisString { pub fn from_slice(_ctx: *mut (), s: &[u8]) -> Self { RedisString(std::string::String::from_utf8_lossy(s).into_owned()) } pub fn as_slice(&self) -> &[u8] { self.0.as_bytes() } pub fn is_empty(&self) -> bool { self.0.is_empty() } pub fn parse_float(&self) -> Result<f64, RedisError> { self.0.parse().map_err(|_| RedisError::Str("not a number")) } pub fn parse_unsigned_integer(&self) -> Result<u64, RedisError> { self.0.parse().map_err(|_| RedisError::Str("not an integer")) } }
