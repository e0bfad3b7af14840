//! Explores the real PipelinesRegistry: every operation sequence up to a depth, and every interleaving
//! (at lock and engine calls) of small concurrent programs, against a sequential map as the specification.
extern crate shim as std;
#[allow(unused_macros)]
macro_rules! println { ($($t:tt)*) => {{ if false { let _ = format!($($t)*); } }} }
#[allow(unused_macros)]
macro_rules! eprintln { ($($t:tt)*) => {{ if false { let _ = format!($($t)*); } }} }

pub mod cxx_bindings {
    /// Stands in for the C++ engine: it knows which programs exist and how many messages each has had.
    pub mod ffi {
        use ::std::cell::RefCell;
        use ::std::collections::BTreeMap;
        use ::std::sync::Arc;
        use ::std::real::Mutex;
        #[derive(Debug, Clone)]
        pub struct RtBotMessage { pub(crate) timestamp: u64, pub(crate) values: Vec<f64> }
        #[derive(Default)]
        pub struct Engine { pub live: BTreeMap<String, u64>, pub busy: bool, pub bad: Vec<String>, pub calls: u64 }
        thread_local! { pub static ENGINE: RefCell<Arc<Mutex<Engine>>> = RefCell::new(Arc::new(Mutex::new(Engine::default()))); }
        fn call<T>(name: &str, f: impl FnOnce(&mut Engine) -> T) -> T {
            let e = ENGINE.with(|e| e.borrow().clone());
            { let mut g = e.lock().unwrap(); g.calls += 1; if g.busy { g.bad.push(format!("{name} entered the engine while another thread was in it")); } g.busy = true; }
            shim::sched::access();
            let mut g = e.lock().unwrap();
            g.busy = false;
            f(&mut g)
        }
        pub fn create_pipeline(id: String, program: String) -> String {
            call("create", |g| {
                if program.contains("bad") { return "refused".to_string(); }
                if g.live.contains_key(&id) { g.bad.push("two programs under one id".into()); return "exists".into(); }
                g.live.insert(id, 0);
                String::new()
            })
        }
        pub fn delete_pipeline(id: String) -> String {
            call("delete", |g| if g.live.remove(&id).is_some() { String::new() } else { g.bad.push("deleted an unknown program".into()); "unknown".into() })
        }
        pub fn receive_message_in_pipeline(id: String, message: RtBotMessage) -> Vec<RtBotMessage> {
            call("receive", |g| match g.live.get_mut(&id) {
                None => { g.bad.push("message for an unknown program".into()); vec![] }
                Some(n) => { *n += 1; let mut v = vec![*n as f64]; v.extend(message.values); vec![RtBotMessage { timestamp: message.timestamp, values: v }] }
            })
        }
    }
}
#[path = "@REPO@/apps/rtbot-rs/src/pipelines_registry.rs"]
mod pipelines_registry;
use cxx_bindings::ffi::{Engine, ENGINE};
use pipelines_registry::PipelinesRegistry;
use ::std::collections::{BTreeMap, BTreeSet};
use ::std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use ::std::sync::Arc;
use ::std::real::Mutex as RealMutex;

/// the names of the two inputs and outputs: unrelated, one the beginning of another, empty, inputs that are outputs as well, longer ones
const SETS: [[&str; 4]; 5] = [["a", "b", "x", "y"], ["k", "k1", "out", "out:ps"], ["", "a", "", " "], ["a", "A", "a", "A"], ["series:temperature:room:1", "series:temperature:room:10", "a\u{0}b", "\u{e9}"]];
static SET: AtomicUsize = AtomicUsize::new(0);
fn ins(i: usize) -> &'static str { if i < 2 { SETS[SET.load(SeqCst)][i] } else { outs(i) } }
fn outs(o: usize) -> &'static str {
    static MORE: ::std::sync::OnceLock<Vec<String>> = ::std::sync::OnceLock::new();
    if o < 2 { SETS[SET.load(SeqCst)][2 + o] } else { &MORE.get_or_init(|| (0..400).map(|n| format!("o{n}")).collect())[o] }
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Op { Create(usize, usize), Refused(usize, usize), Delete(usize, usize), DeleteAll(usize), Receive(usize) }
use Op::*;
impl Op {
    fn s(self) -> String {
        let (a, b) = (|i: usize| if i < 2 { ["a", "b"][i].to_string() } else { format!("[{i}]") }, |o: usize| if o < 2 { ["x", "y"][o].to_string() } else { o.to_string() });
        match self {
            Create(i, o) => format!("C{}{}", a(i), b(o)), Refused(i, o) => format!("B{}{}", a(i), b(o)),
            Delete(i, o) => format!("D{}{}", a(i), b(o)), DeleteAll(i) => format!("A{}", a(i)), Receive(i) => format!("R{}", a(i)),
        }
    }
    fn parse(s: &str) -> Op {
        let c: Vec<char> = s.chars().collect();
        let close = s.find(']');
        let i = match close { Some(e) => s[2..e].parse().unwrap(), None => (c[1] == 'b') as usize };
        let o = match &s[close.map_or(2, |e| e + 1)..] { "" | "x" => 0, "y" => 1, n => n.parse().unwrap() };
        match c[0] { 'C' => Create(i, o), 'B' => Refused(i, o), 'D' => Delete(i, o), 'A' => DeleteAll(i), _ => Receive(i) }
    }
}
#[derive(Clone, PartialEq, Debug)]
enum Res { Made(String), No, Done, Count(u64), Got(BTreeMap<String, Vec<(u64, Vec<f64>)>>) }

fn number(s: &str) -> u64 { let d: String = s.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect(); d.parse().unwrap_or(u64::MAX) }
/// `t` identifies the call: it is the time and the value of the message a receive sends.
fn perform(r: &PipelinesRegistry, op: Op, t: u64) -> Res {
    match op {
        Create(i, o) => match r.create("{}", ins(i), outs(o)) { Ok(id) => Res::Made(id), Err(_) => Res::No },
        Refused(i, o) => match r.create("bad", ins(i), outs(o)) { Ok(id) => Res::Made(id), Err(_) => Res::No },
        Delete(i, o) => match r.delete(ins(i), outs(o)) { Ok(_) => Res::Done, Err(_) => Res::No },
        DeleteAll(i) => match r.delete_by_input_key(ins(i)) { Ok(s) => Res::Count(number(&s)), Err(_) => Res::No },
        Receive(i) => match r.receive(ins(i), t, vec![t as f64]) {
            Ok(m) => Res::Got(m.into_iter().map(|(k, v)| (k, v.into_iter().map(|m| (m.timestamp, m.values)).collect())).collect()),
            Err(_) => Res::No,
        },
    }
}
/// The specification: one pipeline per pair of keys, each counting its messages.
#[derive(Clone, Default, PartialEq, Eq, PartialOrd, Ord)]
struct Spec { live: BTreeMap<(usize, usize), (String, u64)>, used: BTreeSet<String> }
impl Spec {
    fn step(&mut self, op: Op, t: u64, r: &Res) -> bool {
        match op {
            Create(i, o) => {
                if self.live.contains_key(&(i, o)) { return *r == Res::No; }
                match r { Res::Made(id) if self.used.insert(id.clone()) => { self.live.insert((i, o), (id.clone(), 0)); true } _ => false }
            }
            Refused(..) => *r == Res::No,
            Delete(i, o) => match self.live.remove(&(i, o)) { Some(_) => *r == Res::Done, None => *r == Res::No },
            DeleteAll(i) => { let n = self.live.len(); self.live.retain(|k, _| k.0 != i); *r == Res::Count((n - self.live.len()) as u64) }
            Receive(i) => {
                let mut want = BTreeMap::new();
                for (k, v) in self.live.iter_mut() { if k.0 == i { v.1 += 1; want.insert(outs(k.1).to_string(), vec![(t, vec![v.1 as f64, t as f64])]); } }
                *r == Res::Got(want)
            }
        }
    }
    fn ids(&self) -> BTreeMap<String, u64> { self.live.values().cloned().collect() }
}
struct Ev { op: Op, t: u64, from: usize, to: usize, res: Res }
/// Is there an order of the calls, respecting the real time order, that the specification answers the same?
fn linear(s: &Spec, evs: &[Ev], left: u32, ends: &dyn Fn(&Spec) -> bool) -> bool {
    if left == 0 { return ends(s); }
    for k in 0..evs.len() {
        if left >> k & 1 == 0 { continue; }
        if (0..evs.len()).any(|j| left >> j & 1 == 1 && evs[j].to < evs[k].from) { continue; }
        let mut n = s.clone();
        if n.step(evs[k].op, evs[k].t, &evs[k].res) && linear(&n, evs, left & !(1 << k), ends) { return true; }
    }
    false
}
static EXECS: AtomicU64 = AtomicU64::new(0);
static STEPS: AtomicU64 = AtomicU64::new(0);
fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(f)).map_err(|p| {
        if p.is::<shim::sched::Abort>() { "the call waits for a lock it holds itself".to_string() }
        else { format!("the call panicked: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()) }
    })
}
fn sequence(ops: &[Op], seen: &mut BTreeSet<u64>) -> Result<(), String> {
    EXECS.fetch_add(1, SeqCst);
    let e = Arc::new(RealMutex::new(Engine::default()));
    ENGINE.with(|x| *x.borrow_mut() = e.clone());
    let r = PipelinesRegistry::new();
    let mut s = Spec::default();
    for (n, &op) in ops.iter().enumerate() {
        STEPS.fetch_add(1, SeqCst);
        let t = n as u64 + 1;
        let res = match guarded(|| perform(&r, op, t)) { Ok(x) => x, Err(m) => { ::std::mem::forget(r); return Err(format!("call {} ({}): {}", n + 1, op.s(), m)); } };
        if !s.step(op, t, &res) { return Err(format!("call {} ({}) answered {:?}", n + 1, op.s(), res)); }
        let g = e.lock().unwrap();
        if let Some(b) = g.bad.first() { return Err(format!("call {} ({}): {}", n + 1, op.s(), b)); }
        if g.live != s.ids() { return Err(format!("after call {} ({}) the engine has the programs {:?}, the registry's specification has {:?}", n + 1, op.s(), g.live, s.ids())); }
        // the abstract state, ids forgotten
        let mut h = 1469598103934665603u64;
        for (k, v) in &s.live { for b in [k.0 as u64, k.1 as u64, v.1] { h = (h ^ (b + 1)).wrapping_mul(1099511628211); } }
        seen.insert(h);
    }
    Ok(())
}
#[derive(Clone)]
struct Scene { init: Vec<Op>, th: Vec<Vec<Op>> }
impl Scene { fn s(&self) -> String { let j = |v: &Vec<Op>| v.iter().map(|o| o.s()).collect::<Vec<_>>().join(","); format!("init[{}] {}", j(&self.init), self.th.iter().map(j).collect::<Vec<_>>().join(" || ")) } }
struct Out { err: Option<String>, path: Vec<(usize, usize)>, hash: u64 }
fn run_scene(sc: &Scene, path: Vec<(usize, usize)>) -> Out {
    EXECS.fetch_add(1, SeqCst);
    let eng = Arc::new(RealMutex::new(Engine::default()));
    ENGINE.with(|x| *x.borrow_mut() = eng.clone());
    let reg = Arc::new(PipelinesRegistry::new());
    let mut s0 = Spec::default();
    for (n, &op) in sc.init.iter().enumerate() {
        let t = 100 + n as u64;
        match guarded(|| perform(&reg, op, t)) {
            Ok(r) => if !s0.step(op, t, &r) { return Out { err: Some(format!("setting up: {} answered {:?}", op.s(), r)), path: vec![], hash: 0 }; },
            Err(m) => { ::std::mem::forget(reg); return Out { err: Some(m), path: vec![], hash: 0 }; }
        }
    }
    let ex = shim::sched::Exec::new(sc.th.len(), path);
    let clock = AtomicUsize::new(1 << 20);
    let evs = Arc::new(RealMutex::new(Vec::<Ev>::new()));
    let fail = Arc::new(RealMutex::new(None::<String>));
    let hs: Vec<_> = sc.th.iter().cloned().enumerate().map(|(me, ops)| {
        let (ex, reg, eng, evs, fail) = (ex.clone(), reg.clone(), eng.clone(), evs.clone(), fail.clone());
        ::std::thread::Builder::new().stack_size(256 << 10).spawn(move || {
            ENGINE.with(|x| *x.borrow_mut() = eng);
            shim::sched::CTX.with(|c| *c.borrow_mut() = Some((ex.clone(), me)));
            let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| {
                ex.wait_turn(me);
                for (n, &op) in ops.iter().enumerate() {
                    let t = (me * 10 + n + 1) as u64;
                    STEPS.fetch_add(1, SeqCst);
                    shim::sched::begin();
                    let res = perform(&reg, op, t);
                    let (from, to) = shim::sched::end();
                    evs.lock().unwrap().push(Ev { op, t, from, to, res });
                }
            }));
            if let Err(p) = r { if !p.is::<shim::sched::Abort>() {
                let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                fail.lock().unwrap().get_or_insert(format!("a call panicked: {m}"));
            } }
            shim::sched::CTX.with(|c| *c.borrow_mut() = None);
            drop(reg);
            ex.switch(me, shim::sched::Wait::Done);
        }).unwrap()
    }).collect();
    { let mut g = ex.m.lock().unwrap(); ex.pick(&mut g); }
    for h in hs { let _ = h.join(); }
    let (path, stop) = { let g = ex.m.lock().unwrap(); (g.path.clone(), g.stop.clone()) };
    let mut err = stop.or(fail.lock().unwrap().clone());
    let mut hash = 0;
    if err.is_none() {
        let mut evs = ::std::mem::take(&mut *evs.lock().unwrap());
        // what everyone can see afterwards is part of the history
        for (k, i) in [0usize, 1].into_iter().enumerate() {
            let from = clock.fetch_add(1, SeqCst);
            match guarded(|| perform(&reg, Receive(i), 900 + k as u64)) {
                Ok(res) => evs.push(Ev { op: Receive(i), t: 900 + k as u64, from, to: clock.fetch_add(1, SeqCst), res }),
                Err(m) => { err = Some(m); ::std::mem::forget(reg.clone()); }
            }
        }
        let g = eng.lock().unwrap();
        if let Some(b) = g.bad.first() { err = Some(b.clone()); }
        else if err.is_none() && !linear(&s0, &evs, (1u32 << evs.len()) - 1, &|s| s.ids() == g.live) {
            err = Some(format!("no order of the calls explains the answers: {}; programs in the engine: {:?}",
                evs.iter().map(|e| format!("[{}-{}] {}={:?}", e.from, e.to, e.op.s(), e.res)).collect::<Vec<_>>().join("; "), g.live));
        }
        for e in &evs { for b in format!("{}{}", e.op.s(), match &e.res { Res::Made(_) => "made".into(), r => format!("{r:?}") }).bytes() { hash = (hash ^ b as u64).wrapping_mul(1099511628211u64); } }
    } else { ::std::mem::forget(reg); }
    Out { err, path, hash }
}
fn next(p: &mut Vec<(usize, usize)>) -> bool {
    while let Some((c, n)) = p.pop() { if c + 1 < n { p.push((c + 1, n)); return true; } }
    false
}
struct Found { what: String, replay: String }

fn main() {
    let args: Vec<String> = ::std::env::args().skip(1).collect();
    let arg = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
    let thorough = ::std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let start = ::std::time::Instant::now();
    if ::std::env::var("MC_VERBOSE").is_err() { ::std::panic::set_hook(Box::new(|_| {})); }
    let rout = arg("--replay-out").unwrap_or("/dev/null".into());
    let say = |s: &str| { use ::std::io::Write; let _ = writeln!(::std::io::stdout(), "{s}"); };
    if let Some(f) = arg("--replay") {
        let txt = ::std::fs::read_to_string(&f).expect("replay file");
        let get = |k: &str| txt.lines().find_map(|l| l.strip_prefix(&format!("{k}=")).map(|s| s.to_string()));
        SET.store(get("keys").and_then(|k| k.parse().ok()).unwrap_or(0), SeqCst);
        let list = |s: &str| s.split(',').filter(|x| !x.is_empty()).map(Op::parse).collect::<Vec<_>>();
        let err = if let Some(q) = get("sequence") { sequence(&list(&q), &mut BTreeSet::new()).err() } else {
            let sc = Scene { init: list(&get("init").unwrap_or_default()), th: get("threads").unwrap().split('|').map(list).collect() };
            let path = get("choices").unwrap_or_default().split(',').filter(|x| !x.is_empty()).map(|x| (x.parse().unwrap(), 99)).collect();
            run_scene(&sc, path).err
        };
        match err { Some(m) => { say(&m); say(&format!("VIOLATION property=C34 replay={f}")); ::std::process::exit(1) } None => { say("held"); return } }
    }
    let found: RealMutex<Option<Found>> = RealMutex::new(None);
    let stop = AtomicBool::new(false);
    let report = |what: String, replay: String| { let mut g = found.lock().unwrap(); if g.is_none() { *g = Some(Found { what, replay }); } stop.store(true, SeqCst); };
    let mut per: Vec<(String, u64)> = vec![];
    let mut samples: Vec<String> = vec![];
    // 1. every sequence of calls
    let mut all = vec![];
    for i in 0..2 { for o in 0..2 { all.push(Create(i, o)); all.push(Delete(i, o)); all.push(Refused(i, o)); } all.push(DeleteAll(i)); all.push(Receive(i)); }
    let depth = if thorough { 6 } else { 5 };
    let states: RealMutex<BTreeSet<u64>> = RealMutex::new(BTreeSet::new());
    for (set, depth) in [(0, depth), (1, depth - 1), (2, depth - 1), (3, depth - 1), (4, depth - 1)] {
        if stop.load(SeqCst) { break; }
        let b = EXECS.load(SeqCst);
        SET.store(set, SeqCst);
        let n = all.len();
        let pairs = AtomicUsize::new(0);
        ::std::thread::scope(|sc| for _ in 0..8 { sc.spawn(|| {
            let mut seen = BTreeSet::new();
            loop {
                let p = pairs.fetch_add(1, SeqCst);
                if p >= n * n || stop.load(SeqCst) { break; }
                let mut ix = vec![0usize; depth];
                ix[0] = p / n; ix[1] = p % n;
                'all: loop {
                    let ops: Vec<Op> = ix.iter().map(|&k| all[k]).collect();
                    if let Err(m) = sequence(&ops, &mut seen) {
                        report(m, format!("keys={set}\nsequence={}\n", ops.iter().map(|o| o.s()).collect::<Vec<_>>().join(",")));
                        break;
                    }
                    let mut d = depth;
                    loop { d -= 1; if d < 2 { break 'all; } ix[d] += 1; if ix[d] < n { break; } ix[d] = 0; }
                }
            }
            states.lock().unwrap().extend(seen);
        }); });
        per.push((format!("sequences of {depth} calls{}", if set == 0 { String::new() } else { format!(", keys {:?}", SETS[set]).replace('"', "'") }), EXECS.load(SeqCst) - b));
    }
    SET.store(0, SeqCst);
    // many pipelines of one input, one of them deleted, all of them deleted, one made again
    let b = EXECS.load(SeqCst);
    'many: for n in [3usize, 9, 17, 33, 65, 130, 300] { for gone in [0, 1, n / 2, n - 1] { for tail in 0..4 {
        let mut ops: Vec<Op> = (0..n).map(|o| Create(0, o)).collect(); ops.insert(n / 2, Create(1, 0)); ops.extend([Receive(0), Create(0, gone), Delete(0, gone), Receive(0), Delete(0, gone)]);
        ops.extend(match tail { 0 => vec![DeleteAll(0), Receive(0), Create(0, gone), Receive(0), Receive(1)], 1 => vec![Create(0, gone), Receive(0), DeleteAll(0), Receive(1)], 2 => vec![DeleteAll(1), Receive(0), Receive(1), Refused(0, gone), DeleteAll(0)], _ => (0..n).map(|o| Delete(0, o)).chain([Receive(0), Receive(1)]).collect() });
        let mut seen = BTreeSet::new();
        if let Err(m) = sequence(&ops, &mut seen) { report(m, format!("keys=0\nsequence={}\n", ops.iter().map(|o| o.s()).collect::<Vec<_>>().join(","))); break 'many; }
        states.lock().unwrap().extend(seen);
    } } }
    // many inputs with one or two pipelines each
    'inputs: for n in [3usize, 17, 40, 120, 300] { for two in [false, true] { for tail in 0..3 {
        let mut ops: Vec<Op> = (0..n).flat_map(|i| if two && i % 3 == 0 { vec![Create(i, 0), Create(i, 1)] } else { vec![Create(i, 0)] }).collect();
        ops.extend((0..n).map(Receive)); ops.extend([Create(n / 2, 0), DeleteAll(n / 2), Delete(n - 1, 0), Receive(n / 2), Create(n / 2, 1)]);
        ops.extend((0..n).flat_map(|i| match tail { 0 => vec![DeleteAll(i), Receive(i)], 1 => vec![Delete(i, 0), Receive(n - 1 - i)], _ => vec![Refused(i, 1), Receive(i)] }));
        let mut seen = BTreeSet::new();
        if let Err(m) = sequence(&ops, &mut seen) { report(m, format!("keys=0\nsequence={}\n", ops.iter().map(|o| o.s()).collect::<Vec<_>>().join(","))); break 'inputs; }
        states.lock().unwrap().extend(seen);
    } } }
    per.push(("many pipelines".into(), EXECS.load(SeqCst) - b));
    samples.push("sequence Cax,Cay,Rb,Aa,Ra: made, made, nothing, 2 deleted, nothing".into());
    // 2. every interleaving of concurrent calls
    let ab: Vec<Op> = vec![Create(0, 0), Create(0, 1), Delete(0, 0), DeleteAll(0), Receive(0), Create(1, 0)];
    let small: Vec<Op> = vec![Create(0, 0), Delete(0, 0), DeleteAll(0), Receive(0)];
    let inits: Vec<Vec<Op>> = vec![vec![], vec![Create(0, 0)], vec![Create(0, 0), Create(0, 1)], vec![Create(0, 0), Create(0, 1), Receive(0), Delete(0, 0)]];
    let words = |a: &Vec<Op>, l: usize| { let mut v: Vec<Vec<Op>> = vec![vec![]]; for _ in 0..l { v = v.into_iter().flat_map(|w| a.iter().map(move |&o| { let mut x = w.clone(); x.push(o); x })).collect(); } v };
    let mut groups: Vec<(String, Vec<Scene>)> = vec![];
    let mut group = |name: &str, a: &Vec<Op>, lens: &[usize]| {
        let mut v = vec![];
        for init in &inits {
            let mut sets: Vec<Vec<Vec<Op>>> = vec![vec![]];
            for &l in lens { let w = words(a, l); sets = sets.into_iter().flat_map(|s| w.iter().map(move |x| { let mut y = s.clone(); y.push(x.clone()); y }).collect::<Vec<_>>()).collect(); }
            for th in sets {
                // threads of the same length are interchangeable
                if (1..th.len()).any(|k| lens[k] == lens[k - 1] && th[k] < th[k - 1]) { continue; }
                v.push(Scene { init: init.clone(), th });
            }
        }
        groups.push((name.to_string(), v));
    };
    group("2 threads, 1 call each", &all, &[1, 1]);
    group("2 threads, 2 calls each", &ab, &[2, 2]);
    group("3 threads, 1 call each", &ab, &[1, 1, 1]);
    group("2 threads, 3 and 1 calls", &ab, &[3, 1]);
    group("2 threads, 3 calls each", &small, &[3, 3]);
    group("3 threads, 2, 1 and 1 calls", &small, &[2, 1, 1]);
    group("4 threads, 1 call each", &ab, &[1, 1, 1, 1]);
    if thorough {
        group("2 threads, 3 calls each, 6 calls", &ab, &[3, 3]);
        group("3 threads, 2 calls each", &small, &[2, 2, 2]);
        group("3 threads, 2 calls each, 6 calls", &ab, &[2, 2, 2]);
        group("2 threads, 4 calls each", &small, &[4, 4]);
    }
    let outcomes: RealMutex<BTreeSet<u64>> = RealMutex::new(BTreeSet::new());
    for (name, scenes) in &groups {
        if stop.load(SeqCst) { break; }
        let b = EXECS.load(SeqCst);
        let nx = AtomicUsize::new(0);
        ::std::thread::scope(|s| for _ in 0..8 { s.spawn(|| {
            let mut oc = BTreeSet::new();
            loop {
                let k = nx.fetch_add(1, SeqCst);
                if k >= scenes.len() || stop.load(SeqCst) { break; }
                let mut path = vec![];
                loop {
                    let o = run_scene(&scenes[k], path);
                    oc.insert(o.hash);
                    if let Some(m) = o.err {
                        let j = |v: &Vec<Op>| v.iter().map(|o| o.s()).collect::<Vec<_>>().join(",");
                        report(format!("{}: {}", scenes[k].s(), m), format!("init={}\nthreads={}\nchoices={}\n", j(&scenes[k].init), scenes[k].th.iter().map(j).collect::<Vec<_>>().join("|"), o.path.iter().map(|c| c.0.to_string()).collect::<Vec<_>>().join(",")));
                        break;
                    }
                    path = o.path;
                    if !next(&mut path) || stop.load(SeqCst) { break; }
                }
            }
            outcomes.lock().unwrap().extend(oc);
        }); });
        if ::std::env::var("MC_VERBOSE").is_ok() { say(&format!("{name}: {} programs, {} executions, {:.1} s", scenes.len(), EXECS.load(SeqCst) - b, start.elapsed().as_secs_f64())); }
        per.push((name.clone(), EXECS.load(SeqCst) - b));
        samples.push(format!("{}: first of {} programs: {}", name, scenes.len(), scenes.first().map(|s| s.s()).unwrap_or_default()));
    }
    let f = found.lock().unwrap().take();
    let q = |s: &str| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""));
    let ev = format!("{{\"property\":\"C34\",\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"distinct_outcomes\":{},\"configs\":{},\"exhaustive\":{},\"bounds\":{},\"executions_per_config\":{{{}}},\"samples\":[{}]}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        q(if thorough { "thorough" } else { "quick" }), ::std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
        states.lock().unwrap().len(), STEPS.load(SeqCst), EXECS.load(SeqCst), outcomes.lock().unwrap().len(), per.len(), f.is_none(),
        q(&format!("every sequence of {depth} calls out of 16 (2 inputs x 2 outputs: create, refused create, delete, delete by input, receive), of one call less with 4 other sets of keys; up to 300 pipelines on one input and up to 300 inputs; every schedule, at lock and engine calls, of the concurrent programs listed, from 4 starting states")),
        per.iter().map(|(n, c)| format!("{}:{}", q(n), c)).collect::<Vec<_>>().join(","), samples.iter().map(|s| q(s)).collect::<Vec<_>>().join(","),
        q("the C++ engine is a stand-in that counts messages per program; sequentially consistent memory; scheduling points at lock operations and engine calls"), start.elapsed().as_secs_f64(), f.is_some() as u32);
    if let Some(p) = arg("--evidence") { let _ = ::std::fs::write(p, ev); }
    if let Some(f) = f {
        let _ = ::std::fs::write(&rout, &f.replay);
        say(&f.what);
        say(&format!("VIOLATION property=C34 replay={rout}"));
        ::std::process::exit(1);
    }
    say(&format!("C34 held: {} executions, {} calls, {:.1} s", EXECS.load(SeqCst), STEPS.load(SeqCst), start.elapsed().as_secs_f64()));
}
