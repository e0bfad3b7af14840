//! The server, its real source, with every task switch and every event of the outside chosen by the explorer.
use explore::{group, hash, Ctx};
use serde_json::{json, Value};
use sim::*;
type Server = fn() -> Fut;
const PROGRAM: &str = "{\"title\":\"t\",\"operators\":[]}";
#[derive(Clone, Debug, PartialEq)]
enum Ev { In(usize), Join, Leave(usize), Refuse, Get(usize), Cut }
/// payload, time, value: Some if the configured members can be read, text kinds the configuration leaves open have `open`
struct Payload { name: &'static str, text: fn(usize) -> Option<String>, want: fn(usize) -> Option<(u64, f64)>, open: bool }
fn payloads() -> Vec<Payload> { vec![
    Payload { name: "price", text: |n| Some(json!({"T": 1_700_000_000_000u64 + n as u64, "p": format!("{}.25", n), "q": "7"}).to_string()), want: |n| Some((1_700_000_000_000 + n as u64, n as f64 + 0.25)), open: false },
    Payload { name: "second value not a number", text: |n| Some(json!({"T": 5 + n, "p": format!("-{}e-3", n), "q": "x", "more": [1, 2]}).to_string()), want: |n| Some((5 + n as u64, format!("-{}e-3", n).parse().unwrap())), open: false },
    Payload { name: "value not a number", text: |n| Some(json!({"T": 9 + n, "p": "abc", "q": "1"}).to_string()), want: |_| None, open: false },
    Payload { name: "no value", text: |n| Some(json!({"T": 9 + n, "q": "1"}).to_string()), want: |_| None, open: false },
    Payload { name: "no time", text: |n| Some(json!({"p": n.to_string(), "q": "2"}).to_string()), want: |_| None, open: false },
    Payload { name: "time is a text", text: |n| Some(json!({"T": "soon", "p": n.to_string(), "q": "2"}).to_string()), want: |_| None, open: false },
    Payload { name: "negative time", text: |n| Some(json!({"T": -3, "p": n.to_string(), "q": "2"}).to_string()), want: |_| None, open: false },
    Payload { name: "not JSON", text: |_| Some("{\"result\":".into()), want: |_| None, open: false },
    Payload { name: "another message", text: |_| Some("{\"result\":null,\"id\":1}".into()), want: |_| None, open: false },
    Payload { name: "a list", text: |_| Some("[1,2]".into()), want: |_| None, open: false },
    Payload { name: "empty", text: |_| Some(String::new()), want: |_| None, open: false },
    Payload { name: "value as a number", text: |n| Some(json!({"T": 20 + n, "p": n, "q": "2"}).to_string()), want: |n| Some((20 + n as u64, n as f64)), open: true },
    Payload { name: "binary or ping", text: |_| None, want: |_| None, open: false },
] }
fn config(redis: bool, input: bool, port: Option<u16>, mapped: bool) -> String {
    let mut c = json!({"url": "http://localhost", "rtbot": {"program": {"json": PROGRAM}}}); if let Some(p) = port { c["port"] = p.into(); } if redis { c["redis"] = json!({"url": "redis://localhost"}); }
    if input { c["input_ws"] = json!({"url": "wss://feed/ws", "operator_id": "i1", "json_remap": if mapped { json!({"timestamp": "$.T", "values": ["$.p", "$.q"]}) } else { json!({}) }}); } c.to_string()
}
struct Setup { redis: bool, input: bool, port: Option<u16>, events: usize, alphabet: Vec<Ev>, deviations: usize, early: bool, missing: bool, kinds: bool }
/// Runs ready tasks oldest first, except for the explorer's deviations; an event happens when nothing is ready, or as a deviation.
fn scenario(c: &mut Ctx, server: Server, s: &Setup) -> Result<(), String> {
    reset(); nanoid::reset(); let pay = payloads(); let kinds: Vec<usize> = if s.kinds { (0..pay.len()).collect() } else { vec![0, 2, 7] };
    let missing = if s.missing { c.choose(3) as u8 } else { 0 }; world(|w| { w.config = config(s.redis, s.input, s.port, true); w.missing = missing; w.input_open = true; });
    c.note(|| format!("{}; what a path does not find is answered as {}", world(|w| w.config.clone()), ["an empty list", "null", "a list of null"][missing as usize]));
    spawn_named("main".into(), server()); let (mut left, mut dev, mut n) = (s.events, s.deviations, 0usize); let (mut expected, mut order): (Vec<(u64, f64, bool)>, Vec<usize>) = (vec![], vec![]); let mut started = s.early; let mut joined = 0; let mut trace = String::new(); let mut gets = vec![];
    for round in 0.. {
        if round > 4000 { return Err("the server does not come to rest".into()); }
        let mut r = ready(); r.sort_by_key(|i| { let p = order.iter().rposition(|x| x == i); p.map_or(0, |p| p + 1) }); let can_event = left > 0 && started;
        if r.is_empty() { started = true; if left == 0 { break; } }
        // what may happen now
        let k = if r.is_empty() { 0 } else { let m = if dev > 0 { r.len() + can_event as usize } else { 1 }; let k = c.choose(m); if k > 0 { dev -= 1; } k };
        c.step();
        if !r.is_empty() && k < r.len() { let i = r[k]; if c.logging { let nm = name(i); c.note(|| format!("  {nm}")); } order.push(i); run(i); continue; }
        let ev = c.pick(&s.alphabet).clone(); left -= 1; n += 1;
        let say = match &ev {
            Ev::In(_) if !world(|w| w.input_open) => "nothing: the feed has ended".into(),
            Ev::In(_) => { let p = &pay[*c.pick(&kinds)]; match (p.text)(n) { Some(t) => { outside(|w| w.input.push_back(Input::Text(t))); if let Some((t, v)) = (p.want)(n) { expected.push((t, v, p.open)); } } None => { let b = c.flip(); outside(|w| w.input.push_back(if b { Input::Binary(vec![0xff]) } else { Input::Ping(vec![1]) })) } }; format!("input: {}", p.name) }
            Ev::Join => { joined += 1; outside(|w| { let i = w.clients.len(); w.clients.push(sim::Client { open: true, ..Default::default() }); w.requests.push_back(Request { path: "/ws".into(), client: Some(i) }); }); format!("client {joined} connects") }
            Ev::Leave(k) => { let k = *k; outside(|w| if let Some(x) = w.clients.get_mut(k) { if x.open { x.open = false; x.closed_at = Some(w.published.len()); } }); format!("client {} leaves", k + 1) }
            Ev::Refuse => { world(|w| w.refuse += 1); "Redis refuses the next sample".into() }
            Ev::Get(k) => { let p = ["/health-check", "/nothing", "/ws"][*k]; gets.push(*k); outside(|w| w.requests.push_back(Request { path: p.into(), client: None })); format!("GET {p}") }
            Ev::Cut => { outside(|w| w.input_open = false); "the feed ends".into() }
        };
        trace += &say; trace += "; "; c.note(|| say);
    }
    let panics = world(|w| w.panics.clone()); let e = |m: String| Err(format!("{m}\n  events: {trace}\n  panics: {panics:?}"));
    world(|w| {
        if w.address != format!("127.0.0.1:{}", s.port.unwrap_or(9889)) { return e(format!("the server listens on {:?}", w.address)); }
        // the program runs under keys of its own, and receives what could be read
        let find = |c: &str| w.commands.iter().filter(|x| x[0].eq_ignore_ascii_case(c)).collect::<Vec<_>>();
        if !s.redis { if !w.commands.is_empty() { return e(format!("without Redis in the configuration it is sent {:?}", w.commands)); } }
        else {
            let (set, run) = (find("JSON.SET"), find("RTBOT.XRUN")); if set.len() != 1 || run.len() != 1 || set[0][3] != PROGRAM || run[0][1] != set[0][1] || w.runs.len() != 1 { return e(format!("the program is not started once: {:?}", w.commands)); }
            let (p, i, o) = w.runs[0].clone(); if p == i || i == o || p == o { return e(format!("the keys {p}, {i}, {o} are not different")); }
            let adds = find("TS.ADD"); if adds.iter().any(|a| a[1] != i) { return e(format!("samples went elsewhere: {:?}", w.commands)); }
            let sent: Vec<(u64, f64)> = adds.iter().map(|a| (a[2].parse().unwrap_or(0), a[3].parse().unwrap_or(f64::NAN))).collect();
            let mut at = 0; for (t, v, open) in &expected { if sent.get(at) == Some(&(*t, *v)) { at += 1; } else if !open { return e(format!("Redis was sent {sent:?}, the feed gave {expected:?}")); } } if at != sent.len() { return e(format!("Redis was sent {sent:?}, the feed gave {expected:?}")); }
            if s.input { if w.subscribed != vec![format!("{o}:ps")] { return e(format!("subscribed to {:?}, the program publishes on {o}:ps", w.subscribed)); } if w.connected != vec!["wss://feed/ws".to_string()] { return e(format!("connected to {:?}", w.connected)); } }
        }
        // every client got what was published while it was connected
        let all: Vec<Value> = w.published.iter().map(|m| { let x: Vec<&str> = m.split(',').collect(); json!({"timestamp": x[0].parse::<u64>().unwrap(), "values": x[1..]}) }).collect();
        for (k, cl) in w.clients.iter().enumerate() {
            let got: Vec<Value> = cl.got.iter().map(|g| serde_json::from_str(g).unwrap_or(Value::String(g.clone()))).collect(); let Some(r) = cl.ready_at else { return e(format!("client {} was never served", k + 1)) };
            let end = if cl.closed_at.is_some() { got.len() + all.len() } else { all.len() };
            // some stretch of what was published, from not later than its connection on, to the end unless it left
            let ok = (0..=r.min(all.len())).any(|from| all[from..].starts_with(&got) && (cl.closed_at.is_some() || from + got.len() == all.len())); let _ = end;
            if !ok { return e(format!("client {} connected after {r} of the published messages {all:?} and received {got:?}", k + 1)); }
            if let Some(x) = cl.closed_at { if cl.sent_after_close > 1 { return e(format!("client {} left and was sent {} messages", k + 1, cl.sent_after_close)); } if all.len() > x.max(r) + 1 && cl.live { return e(format!("client {} left and is still held after {} more messages", k + 1, all.len() - x.max(r))); } } else if !cl.live { return e(format!("client {} was dropped though it is connected", k + 1)); }
        }
        let mut a = w.answers.iter(); for k in &gets { let Some(x) = a.by_ref().find(|x| x.0 != "/ws" || x.1 != 101) else { return e("a request was not answered".into()) }; let ok = match k { 0 => x.1 == 200 && x.2 == "Server OK", 1 => x.1 == 404 && x.2 == "{\"detail\":\"Not found\"}", _ => x.1 >= 400 && x.1 < 599 && x.2.contains("detail") }; if !ok { return e(format!("{} was answered {} {}", x.0, x.1, x.2)); } }
        let o = format!("{:?}{:?}{:?}", w.commands, w.clients.iter().map(|x| x.got.clone()).collect::<Vec<_>>(), w.answers); c.outcomes.insert(hash(&o)); c.states.insert(hash(&format!("{o}{trace}{order:?}"))); Ok(())
    })
}
/// no timestamp in the configuration: the time of arrival; nothing in the configuration: the default members
fn mapping(c: &mut Ctx, server: Server) -> Result<(), String> {
    reset(); nanoid::reset(); let k = c.choose(5); let mut cfg: Value = serde_json::from_str(&config(true, true, None, false)).unwrap();
    let (remap, payload, t, v) = match k { 0 => (json!({}), json!({"timestamp": 77, "value": "2.5"}), Some(77u64), 2.5), 1 => (json!({"timestamp": null, "values": ["$.value"]}), json!({"timestamp": 77, "value": "2.5"}), None, 2.5), 2 => (json!({"timestamp": "$.a.t", "values": ["$.a.v[1]", "$.x"]}), json!({"a": {"t": 18446744073709551615u64, "v": ["0", "1e300"]}, "x": "9"}), Some(u64::MAX), 1e300), 3 => (json!({"timestamp": "$.time", "values": ["$.v1", "$.v2", "$.v3", "$.v4", "$.v5", "$.v6"]}), json!({"time": 3, "v1": "-0.75", "v2": "2", "v3": "3", "v4": "4", "v5": "5"}), Some(3), -0.75), _ => (json!({"timestamp": "$.t", "values": ["$.x", "$.y"]}), json!({"t": 1u64 << 53 | 1, "x": "0.1", "y": "3"}), Some(1 << 53 | 1), 0.1) };
    cfg["input_ws"]["json_remap"] = remap; world(|w| { w.config = cfg.to_string(); w.input_open = true; }); c.note(|| format!("{cfg} and {payload}"));
    let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64; let before = now();
    spawn_named("main".into(), server()); let rest = || { while let Some(i) = ready().first() { run(*i); } }; rest(); for _ in 0..2 { outside(|w| w.input.push_back(Input::Text(payload.to_string()))); rest(); } c.step(); c.states.insert(k as u64); c.outcomes.insert(k as u64);
    let sent: Vec<(u64, f64)> = world(|w| w.commands.iter().filter(|a| a[0].eq_ignore_ascii_case("TS.ADD")).map(|a| (a[2].parse().unwrap_or(0), a[3].parse().unwrap_or(f64::NAN))).collect());
    let ok = sent.len() == 2 && sent.iter().all(|(a, b)| *b == v && t.map_or(*a >= before && *a <= now(), |t| t == *a)); if ok { Ok(()) } else { Err(format!("{cfg} and twice {payload}: Redis was sent {sent:?}; panics: {:?}", world(|w| w.panics.clone()))) }
}
/// many clients, many messages: everyone gets everything published while connected
fn many(c: &mut Ctx, server: Server) -> Result<(), String> {
    reset(); nanoid::reset(); let (clients, messages) = (*c.pick(&[1usize, 9, 33, 70]), *c.pick(&[10usize, 40, 300])); let leave = c.choose(4); let burst = c.flip(); let rest = || { while let Some(i) = ready().first() { run(*i); } };
    world(|w| { w.config = config(true, true, None, true); w.input_open = true; }); c.note(|| format!("{clients} clients, {messages} messages, burst {burst}, leaving {leave}")); spawn_named("main".into(), server()); rest(); c.step();
    for i in 0..clients { outside(|w| { w.clients.push(sim::Client { open: true, ..Default::default() }); w.requests.push_back(Request { path: "/ws".into(), client: Some(i) }); }); if !burst { rest(); } } rest();
    let gone: Vec<usize> = match leave { 0 => vec![], 1 => vec![0], 2 => vec![clients - 1], _ => (0..clients).step_by(2).collect() }; let feed = |n: usize| outside(|w| w.input.push_back(Input::Text(json!({"T": n, "p": format!("{n}.5"), "q": "1"}).to_string())));
    let half = messages / 2; for n in 0..half { feed(n + 1); if !burst { rest(); } } rest(); for g in &gone { outside(|w| w.clients[*g].open = false); } rest(); for n in half..messages { feed(n + 1); if !burst { rest(); } } rest(); c.step();
    let e = |m: String| Err(format!("{clients} clients, {messages} messages, burst {burst}, leaving {leave}: {m}"));
    let r = world(|w| { if w.published.len() != messages { return e(format!("{} samples have reached Redis, panics {:?}", w.published.len(), w.panics)); }
        let all: Vec<Value> = w.published.iter().map(|m| { let x: Vec<&str> = m.split(',').collect(); json!({"timestamp": x[0].parse::<u64>().unwrap(), "values": x[1..]}) }).collect();
        for (k, cl) in w.clients.iter().enumerate() { let got: Vec<Value> = cl.got.iter().map(|g| serde_json::from_str(g).unwrap_or(Value::String(g.clone()))).collect(); let want = &all[..if gone.contains(&k) { half } else { messages }]; if got != want { let at = got.iter().zip(want).position(|(a, b)| a != b); return e(format!("client {} received {} of {} messages, the first wrong one {:?}, panics {:?}", k + 1, got.len(), want.len(), at.map(|i| &got[i]), w.panics)); } if gone.contains(&k) && cl.live { return e(format!("client {} left and is still held", k + 1)); } }
        let h = hash(&format!("{clients} {messages} {burst} {leave}")); c.states.insert(h); c.outcomes.insert(h); Ok(()) }); reset(); r
}
pub fn main(server: Server) {
    use Ev::*;
    let g = |name: &str, th: bool, s: Setup| group(name, th, move |c| scenario(c, server, &s));
    let all = || vec![In(0), Join, Leave(0), Leave(1), Refuse, Get(0), Get(1), Get(2)];
    explore::main("C42", "EVERY sequence of 5 events out of feed messages (3 kinds), clients connecting and leaving, refused samples and requests at rest, of 3 events with every 2 deviations from the oldest-first schedule (events arriving early included), of 2 feed messages out of 13 kinds in 3 styles of path answers, before and after the server has started; configurations without Redis, without a feed, with a port; up to 70 clients and 300 messages; 5 mappings (thorough: 6 events, 4 events with 3 deviations)",
        &["tokio's tasks, warp, redis, the websocket client, config, glob, url and jsonpath are stand-ins (tokio's channels and futures-util are the real ones); tasks switch where they wait, at locks, at websocket connections and at Redis commands", "the Redis side does what RTBOT.XRUN promises; what is published before the server has subscribed is nobody's", "a value given as a JSON number may be used or skipped", "the feed does not reconnect"],
        vec![
            g("events at rest", false, Setup { redis: true, input: true, port: None, events: 5, alphabet: all(), deviations: 0, early: false, missing: false, kinds: false }),
            g("schedules", false, Setup { redis: true, input: true, port: None, events: 3, alphabet: vec![In(0), Join, Leave(0), Refuse], deviations: 2, early: false, missing: false, kinds: false }),
            g("schedules from the start", false, Setup { redis: true, input: true, port: None, events: 3, alphabet: vec![In(0), Join, Leave(0)], deviations: 2, early: true, missing: false, kinds: false }),
            g("feed messages", false, Setup { redis: true, input: true, port: Some(80), events: 3, alphabet: vec![In(0)], deviations: 0, early: false, missing: true, kinds: true }),
            g("the feed ends", false, Setup { redis: true, input: true, port: None, events: 5, alphabet: vec![In(0), Join, Cut], deviations: 1, early: false, missing: false, kinds: false }),
            g("no Redis", false, Setup { redis: false, input: true, port: Some(9000), events: 3, alphabet: vec![Join, Leave(0), Get(0), Get(1), Get(2)], deviations: 1, early: true, missing: false, kinds: false }),
            g("no feed", false, Setup { redis: true, input: false, port: None, events: 3, alphabet: vec![Join, Leave(0), Get(0)], deviations: 1, early: true, missing: false, kinds: false }),
            group("mappings", false, move |c| mapping(c, server)), group("many clients and messages", false, move |c| many(c, server)),
            g("events at rest, deep", true, Setup { redis: true, input: true, port: None, events: 6, alphabet: all(), deviations: 0, early: false, missing: false, kinds: false }),
            g("schedules, deep", true, Setup { redis: true, input: true, port: None, events: 4, alphabet: vec![In(0), Join, Leave(0), Refuse], deviations: 3, early: true, missing: false, kinds: false }),
        ]);
}
