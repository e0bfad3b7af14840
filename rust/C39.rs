//! Every sequence of Redis commands and additions to time series, on the module's real commands, validator and registry
//! over a small Redis and a counting engine, against a reference model of what the commands promise.
use explore::{group, hash, Ctx};
use redis_module::{db, Context, Db, RedisValue};
use rtbot_rs::cxx_bindings::ffi::{Prog, ENGINE};
use rtbot_rs::pipelines_registry::PIPELINES_REGISTRY;
use std::collections::BTreeMap;
const HEAD: &str = r#"{"title":"t","entryNode":"i","operators":[{"id":"i","type":"Input"},{"id":"o","type":"Output"}],"connections":[{"from":"i","to":"o"}]"#;
fn programs() -> Vec<(&'static str, String, bool)> {   // key, text, can be created
    vec![("sum", format!("{HEAD},\"kind\":\"sum\"}}"), true), ("two", format!("{HEAD},\"kind\":\"every2\"}}"), true), ("no", format!("{HEAD},\"kind\":\"refuse\"}}"), false),
        ("shape", HEAD.replace("\"title\":\"t\",", "") + "}", false), ("conn", HEAD.replace(r#"{"from":"i","to":"o"}"#, r#"{"from":"i"}"#) + "}", false), ("oper", HEAD.replace(r#""type":"Input""#, r#""typ":"Input""#) + "}", false), ("text", "{\"title\":".into(), false), ("none", String::new(), false)]
}
const PAIRS: [(&str, &str); 4] = [("a", "x"), ("a", "b"), ("b", "y"), ("a", "z")];
/// other names for the keys, another origin of time and scale of the values
const NAMES: [[&str; 5]; 3] = [["a", "b", "x", "y", "z"], ["a:ps", "a", "x:ps", "A", "a:ps:ps"], ["s,1", "rtbot", "ts.add", "s,1,x", "s"]];
const SCALES: [(i64, f64); 4] = [(0, 1.0), (1_700_000_000_000, 0.1), (1 << 53, 1e300), (4294967290, -1e-9)];
thread_local! { static WORLD: std::cell::Cell<(usize, usize)> = std::cell::Cell::new((0, 0)); }
fn nm(k: &'static str) -> &'static str { NAMES[0].iter().position(|x| *x == k).map_or(k, |i| NAMES[WORLD.with(|w| w.get()).0][i]) }
fn sample(n: i64, half: bool) -> (i64, f64) { let (o, s) = SCALES[WORLD.with(|w| w.get()).1]; (o + n, (n as f64 + if half { 0.5 } else { 0.0 }) * s) }
#[derive(Clone, Debug)]
enum Op { Add(&'static str, bool), Run { x: bool, prog: &'static str, pair: usize, mode: Option<&'static str> }, Short(usize, bool), Del(&'static str), Fault { cmd: &'static str, key: &'static str, nth: usize, prog: &'static str, pair: usize, x: bool }, Other }
/// What the commands promise.
#[derive(Clone, Default, PartialEq)]
struct Model { ts: BTreeMap<String, BTreeMap<i64, f64>>, pubs: Vec<(String, String)>, live: BTreeMap<(String, String), (String, Prog)>, now: i64 }
type Fault<'a> = Option<(&'a str, &'a str, usize)>;
fn hit(f: &mut Fault, cmd: &str, key: &str) -> bool { match f { Some((c, k, n)) if *c == cmd && *k == key => { if *n == 0 { *f = None; true } else { *n -= 1; false } } _ => false } }
impl Model {
    /// a sample of a series: stored, sent to every pipeline of that series, whose results are samples of their output series and published
    fn add(&mut self, key: &str, t: i64, v: f64, f: &mut Fault) -> bool {
        if hit(f, "ts.add", key) { return false; }
        self.ts.entry(key.to_string()).or_default().insert(t, v);
        let outs: Vec<_> = self.live.iter_mut().filter(|(k, _)| k.0 == key).map(|(k, p)| (k.1.clone(), p.1.on(t as u64, v))).collect();
        for (k, m) in outs { for m in m { self.add(&k, m.timestamp as i64, m.values[0], f); if !hit(f, "publish", &format!("{k}:ps")) { self.pubs.push((format!("{k}:ps"), format!("{},{}", m.timestamp, m.values[0]))); } } }
        true
    }
    /// Err: refused.  Ok(true): a pipeline stays.
    fn run(&mut self, prog: &str, a: &str, y: &str, keep: bool, f: &mut Fault) -> Result<bool, ()> {
        let p = programs().into_iter().find(|p| p.0 == prog).unwrap();
        if hit(f, "json.get", prog) || !p.2 || self.live.contains_key(&(a.into(), y.into())) || hit(f, "ts.range", a) { return Err(()); }
        let Some(rows) = self.ts.get(a).cloned() else { return Err(()) };
        if hit(f, "del", y) { return Err(()); }
        self.ts.remove(y);
        if hit(f, "ts.create", y) { return Err(()); }
        self.ts.insert(y.into(), BTreeMap::new());
        let mut e = Prog::of(&p.1).unwrap();
        for (t, v) in rows { for m in e.on(t as u64, v) { if !self.add(y, m.timestamp as i64, m.values[0], f) { return Err(()); } } }
        if keep { self.live.insert((a.into(), y.into()), (String::new(), e)); }
        Ok(keep)
    }
}
fn call(cmd: &str, args: &[&str]) -> Result<RedisValue, String> { Context::dummy().call(cmd, args).map_err(|e| e.to_string()) }
fn text(v: &RedisValue) -> Option<String> { match v { RedisValue::SimpleString(s) | RedisValue::BulkString(s) => Some(s.clone()), RedisValue::SimpleStringStatic(s) => Some(s.to_string()), RedisValue::StringBuffer(b) => String::from_utf8(b.clone()).ok(), _ => None } }
fn one(m: &mut Model, op: &Op) -> Result<String, String> {
    let run = |m: &mut Model, x: bool, prog: &str, pair: usize, mode: Option<&str>, fault: Option<(&'static str, &'static str, usize)>| -> Result<String, String> {
        let (a, y) = (nm(PAIRS[pair].0), nm(PAIRS[pair].1)); let mut f: Fault = fault;
        let want = if mode == Some("maybe") { Err(()) } else { m.run(prog, a, y, x || mode == Some("true"), &mut f) };
        if let Some((c, k, n)) = fault { db(|d| { d.fault = Some((c, k.to_string(), n)); }); }
        let mut args = vec![prog, a, y]; if let Some(s) = mode { args.push(s); }
        let got = call(if x { "rtbot.xrun" } else { "rtbot.run" }, &args); db(|d| d.fault = None);
        match (&want, &got) {
            (Err(()), Err(_)) => {}
            (Ok(false), Ok(v)) => { if text(v).as_deref() != Some("OK") { return Err(format!("the run answered {v:?} instead of OK")); } }
            (Ok(true), Ok(v)) => { let id = text(v).ok_or(format!("the run answered {v:?} instead of the pipeline's id"))?; m.live.get_mut(&(a.to_string(), y.to_string())).unwrap().0 = id; }
            _ => return Err(format!("the command answered {got:?} where it {}", if want.is_ok() { "should succeed" } else { "should be refused" })),
        }
        Ok(format!("{got:?}"))
    };
    match op {
        Op::Add(k, same) => { if !*same { m.now += 1; } let ((t, v), k) = (sample(m.now, *same), nm(k)); m.add(k, t, v, &mut None); call("ts.add", &[k, &t.to_string(), &v.to_string()]).map(|v| format!("{v:?}")) }
        Op::Del(k) => { let k = nm(k); m.ts.remove(k); call("del", &[k]).map(|v| format!("{v:?}")) }
        Op::Run { x, prog, pair, mode } => run(m, *x, prog, *pair, *mode, None),
        Op::Fault { cmd, key, nth, prog, pair, x } => if prog.is_empty() {
            m.now += 1; let (t, v) = (m.now, m.now as f64); m.add("a", t, v, &mut Some((*cmd, *key, *nth))); db(|d| d.fault = Some((*cmd, key.to_string(), *nth))); let r = call("ts.add", &["a", &t.to_string(), &v.to_string()]); db(|d| d.fault = None); r.map(|v| format!("{v:?}"))
        } else { run(m, *x, prog, *pair, None, Some((*cmd, *key, *nth))) },
        Op::Short(n, x) => { let a = ["sum", "a", "x"]; match call(if *x { "rtbot.xrun" } else { "rtbot.run" }, &a[..*n]) { Err(e) => Ok(e), Ok(v) => Err(format!("a command with {n} arguments answered {v:?}")) } }
        Op::Other => { call("ts.create", &["other"]).ok(); call("json.set", &["doc", "$", "1"]).map(|v| format!("{v:?}")) }
    }
}
fn compare(m: &Model, op: &Op) -> Result<(), String> {
    let e = |w: String| Err(format!("after {op:?} {w}"));
    db(|d: &mut Db| {
        let mut ts = d.ts.clone(); ts.remove("other");
        if ts != m.ts { return e(format!("the series are {ts:?} instead of {:?}", m.ts)); }
        if d.published != m.pubs { return e(format!("the publications are {:?} instead of {:?}", d.published, m.pubs)); }
        if let Some(b) = d.bad.first() { return e(b.clone()); }
        Ok(())
    })?;
    ENGINE.with(|g| { let g = g.borrow(); if let Some(b) = g.1.first() { return e(b.clone()); }
        let want: BTreeMap<String, Prog> = m.live.values().cloned().collect();
        if g.0 != want { return e(format!("the engine has the programs {:?} instead of {want:?}", g.0)); } Ok(()) })
}
fn reset(progs: bool) {
    db(|d| { *d = Db::default(); d.commands = rtbot::__commands(); d.handlers = rtbot::__handlers(); if progs { for (k, t, _) in programs() { if !t.is_empty() { d.json.insert(k.into(), t); } } } });
    ENGINE.with(|e| *e.borrow_mut() = Default::default()); nanoid::reset();
    // nothing is registered when the module is loaded; a lock left held belongs to the previous execution
    static LOADED: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    let (p, n) = (&raw const PIPELINES_REGISTRY as *mut u8, std::mem::size_of_val(&PIPELINES_REGISTRY));
    unsafe { let b = LOADED.get_or_init(|| std::slice::from_raw_parts(p, n).to_vec()); std::ptr::copy_nonoverlapping(b.as_ptr(), p, n); }
}
fn sequence(c: &mut Ctx, setup: &[Op], alphabet: &[Op], depth: usize, last: &[Op]) -> Result<(), String> {
    reset(true); let mut m = Model::default(); let mut h = 0u64;
    let (names, scale) = WORLD.with(|w| w.get()); if names + scale > 0 { c.note(|| format!("keys {:?}, times from and values times {:?}", NAMES[names], SCALES[scale])); }
    let n = depth + (!last.is_empty()) as usize;
    for i in 0..setup.len() + n {
        let op = if i < setup.len() { setup[i].clone() } else if i == setup.len() + depth { c.pick(last).clone() } else { c.pick(alphabet).clone() };
        c.step();
        let r = one(&mut m, &op).map_err(|e| format!("{op:?}: {e}"))?;
        c.note(|| format!("{op:?} -> {r}")); compare(&m, &op)?;
        let s = format!("{:?}{:?}{:?}", m.ts, m.live.iter().map(|(k, v)| (k.clone(), v.1.clone())).collect::<Vec<_>>(), m.pubs.len()); c.states.insert(hash(&s)); h = h.wrapping_mul(31).wrapping_add(hash(&s));
    }
    // what stays of it: every pipeline gets the next samples
    for k in ["a", "b"] { let op = Op::Add(k, false); one(&mut m, &op).map_err(|e| format!("afterwards {op:?}: {e}"))?; compare(&m, &op)?; }
    c.outcomes.insert(h);
    Ok(())
}
fn main() {
    use Op::*;
    let run = |x, prog, pair, mode| Run { x, prog, pair, mode };
    let mut all = vec![Add("a", false), Add("b", false), Add("a", true), Del("a"), Del("x"), Del("b"), Other, Short(0, false), Short(2, false), Short(1, true), Short(2, true)];
    for p in ["sum", "two"] { for k in 0..4 { all.push(run(true, p, k, None)); all.push(run(false, p, k, None)); } all.push(run(false, p, 0, Some("true"))); all.push(run(false, p, 1, Some("false"))); all.push(run(false, p, 0, Some("maybe"))); }
    for p in ["no", "shape", "conn", "oper", "text", "none"] { all.push(run(true, p, 0, None)); all.push(run(false, p, 1, None)); }
    let few = vec![Add("a", false), Add("b", false), Add("a", true), Del("a"), run(true, "sum", 0, None), run(true, "two", 1, None), run(false, "sum", 1, None), run(true, "sum", 2, None), run(false, "two", 2, None), run(false, "two", 0, None), run(true, "no", 3, None)];
    let mut faults = vec![];
    for (pair, (a, y)) in PAIRS.iter().enumerate() { for prog in ["sum", "two"] { for x in [false, true] { for (cmd, key) in [("json.get", prog), ("ts.range", *a), ("del", *y), ("ts.create", *y)] { faults.push(Fault { cmd, key, nth: 0, prog, pair, x }); } for nth in 0..3 { faults.push(Fault { cmd: "ts.add", key: y, nth, prog, pair, x }); } } } }
    for (cmd, key) in [("ts.add", "x"), ("ts.add", "b"), ("ts.add", "y"), ("ts.add", "z"), ("publish", "x:ps"), ("publish", "b:ps"), ("publish", "y:ps")] { faults.push(Fault { cmd, key, nth: 0, prog: "", pair: 0, x: false }); }
    let live = vec![Add("a", false), Add("b", false), run(true, "sum", 0, None), run(true, "two", 1, None), run(true, "sum", 2, None)];
    let add2 = vec![Add("a", false), Add("b", false), Add("a", false)];
    let worlds = |name: &str, th: bool, setup: Vec<Op>, al: Vec<Op>, d: usize| group(name, th, move |c| { let w = (c.choose(NAMES.len()), c.choose(SCALES.len())); WORLD.with(|x| x.set(w)); let r = sequence(c, &setup, &al, d, &[]); WORLD.with(|x| x.set((0, 0))); r });
    // many samples in the series, many pipelines on one series
    let many = group("many samples and pipelines", false, move |c| {
        reset(true); let mut m = Model::default(); let n = *c.pick(&[9usize, 33, 100, 257, 1025]); let k = *c.pick(&[0usize, 1, 9, 33]); let (x, prog) = (c.flip(), *c.pick(&["sum", "two"]));
        static MORE: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new(); let outs = MORE.get_or_init(|| (0..40).map(|i| format!("out{i}")).collect());
        let add = |m: &mut Model, key: &'static str| one(m, &Add(key, false)).map(|_| ());
        for _ in 0..n - 1 { add(&mut m, "a")?; }
        for y in &outs[..k] { m.run("sum", "a", y, true, &mut None).map_err(|_| "model".to_string())?; let id = call("rtbot.xrun", &["sum", "a", y]).map_err(|e| format!("pipeline to {y}: {e}"))?; m.live.get_mut(&("a".to_string(), y.clone())).unwrap().0 = text(&id).ok_or("no id")?; }
        add(&mut m, "a")?; compare(&m, &Other)?; let op = Run { x, prog, pair: 0, mode: None }; let r = one(&mut m, &op).map_err(|e| format!("{n} samples, {k} pipelines: {op:?}: {e}"))?; c.note(|| format!("{n} samples, {k} pipelines: {op:?} -> {r}")); compare(&m, &op)?;
        for _ in 0..3 { c.step(); add(&mut m, "a")?; compare(&m, &Add("a", false))?; } let h = hash(&format!("{n} {k} {x} {prog}")); c.states.insert(h); c.outcomes.insert(h); Ok(()) });
    let seq = |name: &str, th: bool, setup: Vec<Op>, al: Vec<Op>, d: usize, last: Vec<Op>| group(name, th, move |c| sequence(c, &setup, &al, d, &last));
    explore::main("C39", "EVERY sequence of 3 calls out of 41 from an empty database and after pipelines run (additions and updates of samples, runs and persistent runs of eight program texts over four pairs of keys, arguments missing, deletions), of 5 calls out of 11 (4 from two starting points), of 3 with other names of keys, times up to 2^53 and values from 1e-9 to 1e300; series of up to 1025 samples with up to 33 pipelines; after every sequence of up to 2 calls EVERY single failing Redis call inside a run or an addition",
        &["a small Redis stands in for the server and a counting engine for the C++ engine (the bridge to it, cxx_bindings.cpp, does not compile against this version of the engine)", "samples are added in the order of time and pipelines form no loop", "the engine answers at most one message per message, as its interface says", "reading the sample just added does not fail"],
        vec![
            seq("all calls", false, vec![], all.clone(), 3, vec![]), seq("all calls, pipelines running", false, live.clone(), all.clone(), 3, vec![]),
            seq("main calls", false, vec![], few.clone(), 5, vec![]), seq("main calls, samples present", false, add2.clone(), few.clone(), 4, vec![]), seq("main calls, pipelines running", false, live.clone(), few.clone(), 4, vec![]),
            worlds("other keys, times and values", false, live.clone(), few.clone(), 3), worlds("other keys, times and values, samples present", false, add2.clone(), few.clone(), 3),
            many, seq("one call fails", false, add2.clone(), few.clone(), 2, faults.clone()), seq("one call fails, pipelines running", false, live.clone(), few.clone(), 2, faults.clone()),
            seq("main calls deep", true, add2.clone(), few.clone(), 6, vec![]), seq("main calls, pipelines running deep", true, live.clone(), few.clone(), 6, vec![]), seq("all calls deep", true, vec![], all.clone(), 4, vec![]), seq("one call fails deep", true, live, few, 4, faults),
        ]);
}
