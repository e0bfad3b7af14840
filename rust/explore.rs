//! A small exhaustive explorer: re-executes a function for every sequence of choices it can make.
//! Worker processes share the tree of choices by its first levels.
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
pub struct Skip;
/// What a worker is doing: a step that does not end, or that ends the process, is a violation too.
struct Now { count: u64, group: String, choices: Vec<usize>, file: Option<std::path::PathBuf> }
static NOW: std::sync::Mutex<Now> = std::sync::Mutex::new(Now { count: 0, group: String::new(), choices: Vec::new(), file: None });
fn now() -> std::sync::MutexGuard<'static, Now> { NOW.lock().unwrap_or_else(|e| e.into_inner()) }
const LIMIT: u64 = 60;
fn list(c: &[usize]) -> String { c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") }
fn watch(f: impl Fn(&str, &str) + Send + 'static) {
    std::thread::spawn(move || { let (mut last, mut idle) = (0, 0);
        loop { std::thread::sleep(std::time::Duration::from_secs(1)); let n = now(); if n.count != last || n.count == 0 { last = n.count; idle = 0; } else { idle += 1; } if idle >= LIMIT { let (g, c) = (n.group.clone(), list(&n.choices)); drop(n); f(&g, &c); } } });
}
pub struct Ctx { path: Vec<(usize, usize)>, pos: usize, prefix: u64, share: Option<(u64, u64)>, pub steps: u64, pub states: HashSet<u64>, pub outcomes: HashSet<u64>, pub log: Vec<String>, pub logging: bool }
const LEVELS: usize = 2;
pub fn hash(s: &str) -> u64 { s.bytes().fold(1469598103934665603u64, |h, b| (h ^ b as u64).wrapping_mul(1099511628211)) }
impl Ctx {
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0);
        if self.pos == self.path.len() { self.path.push((0, n)); }
        let k = self.path[self.pos].0.min(n - 1); self.path[self.pos].1 = n; self.pos += 1;
        { let mut w = now(); w.choices.push(k); if let Some(f) = &w.file { let _ = std::fs::write(f, format!("{}\n{}", w.group, list(&w.choices))); } }
        if self.pos <= LEVELS { self.prefix = self.prefix.wrapping_mul(1000003).wrapping_add(k as u64 + 1); if self.pos == LEVELS { self.mine(); } }
        k
    }
    fn mine(&mut self) { if let Some((k, w)) = self.share { if (self.prefix ^ self.prefix >> 7) % w != k { std::panic::resume_unwind(Box::new(Skip)); } } }
    pub fn flip(&mut self) -> bool { self.choose(2) == 1 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let k = self.choose(v.len()); &v[k] }
    pub fn skip(&self) -> ! { std::panic::resume_unwind(Box::new(Skip)) }
    pub fn step(&mut self) { self.steps += 1; }
    pub fn note(&mut self, f: impl FnOnce() -> String) { if self.logging { let s = f(); self.log.push(s); } }
}
pub type Run = Box<dyn Fn(&mut Ctx) -> Result<(), String> + Send + Sync>;
pub struct Group { pub name: String, pub run: Run, pub thorough: bool }
pub fn group(name: &str, thorough: bool, f: impl Fn(&mut Ctx) -> Result<(), String> + Send + Sync + 'static) -> Group { Group { name: name.to_string(), run: Box::new(f), thorough } }
/// Runs once; Err(None) = skipped.
fn once(g: &Group, c: &mut Ctx) -> Result<(), Option<String>> {
    { let mut w = now(); w.count += 1; w.choices.clear(); if w.group != g.name { w.group = g.name.clone(); } if let Some(f) = &w.file { let _ = std::fs::write(f, format!("{}\n", w.group)); } }
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (g.run)(c))) {
        Ok(Ok(())) => Ok(()), Ok(Err(m)) => Err(Some(m)),
        Err(p) => if p.is::<Skip>() { Err(None) } else { Err(Some(what(&*p))) },
    }
}
pub fn what(p: &(dyn std::any::Any + Send)) -> String { format!("the code panicked: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("(waits for itself)".into())) }
fn q(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } } o.push('"'); o }
pub fn main(id: &str, bounds: &str, assumptions: &[&str], groups: Vec<Group>) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let arg = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    if std::env::var("MC_VERBOSE").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let say = |s: &str| { let _ = writeln!(std::io::stdout(), "{s}"); };
    let start = std::time::Instant::now();
    let new = |path: Vec<(usize, usize)>, share| Ctx { path, pos: 0, prefix: 7, share, steps: 0, states: HashSet::new(), outcomes: HashSet::new(), log: vec![], logging: false };
    let out = arg("--replay-out").unwrap_or("/dev/null".into());
    if let Some(f) = arg("--replay") {
        let txt = std::fs::read_to_string(&f).expect("replay file");
        let get = |k: &str| txt.lines().find_map(|l| l.strip_prefix(&format!("{k}=")).map(|s| s.to_string())).unwrap_or_default();
        let g = groups.iter().find(|g| g.name == get("group")).expect("group of the replay");
        { let (f, id) = (f.clone(), id.to_string()); watch(move |_, _| { println!("the step does not end (limit {LIMIT} s)\nVIOLATION property={id} replay={f}"); std::process::exit(1) }); }
        let mut c = new(get("choices").split(',').filter(|x| !x.is_empty()).map(|x| (x.parse().unwrap(), usize::MAX)).collect(), None); c.logging = true;
        let r = once(g, &mut c); for l in &c.log { say(l); }
        match r { Err(Some(m)) => { say(&m); say(&format!("VIOLATION property={id} replay={f}")); std::process::exit(1) } _ => { say("held"); return } }
    }
    let next = |p: &mut Vec<(usize, usize)>| { while let Some((c, n)) = p.pop() { if c + 1 < n { p.push((c + 1, n)); return true; } } false };
    if let Some(w) = arg("--worker") {   // k/W/file
        let v: Vec<&str> = w.splitn(3, '/').collect(); let (k, n) = (v[0].parse::<u64>().unwrap(), v[1].parse::<u64>().unwrap());
        { let (f, id) = (v[2].to_string(), id.to_string()); watch(move |g, c| { let _ = std::fs::write(format!("{f}.bad"), format!("property={id}\ngroup={g}\nchoices={c}\n\nthe step does not end (limit {LIMIT} s)\n")); std::process::exit(0) }); }
        if let Some(f) = arg("--now") { now().file = Some(f.into()); }
        let mut res = String::new(); let (mut states, mut outcomes) = (HashSet::new(), HashSet::new());
        for g in groups.iter().filter(|g| thorough || !g.thorough) {
            let (mut ex, mut st, mut path) = (0u64, 0u64, vec![]);
            loop {
                let mut c = new(path, Some((k, n)));
                let r = once(g, &mut c);
                // executions that end before the tree is shared out belong to the first worker
                let counts = c.pos >= LEVELS || k == 0;
                st += c.steps; states.extend(c.states.drain()); outcomes.extend(c.outcomes.drain());
                match r { Ok(()) => ex += counts as u64, Err(None) => {}, Err(Some(m)) => {
                    let mut d = new(c.path[..c.pos].iter().cloned().collect(), None); d.logging = true; let again = once(g, &mut d);
                    let m = if again == Err(Some(m.clone())) { m } else { format!("{m} (not repeatable)") };
                    let j = c.path[..c.pos].iter().map(|x| x.0.to_string()).collect::<Vec<_>>().join(",");
                    std::fs::write(format!("{}.bad", v[2]), format!("property={id}\ngroup={}\nchoices={j}\n\n{}\n{m}\n", g.name, d.log.join("\n"))).unwrap();
                    return; } }
                path = c.path[..c.pos].to_vec();
                if !next(&mut path) { break; }
            }
            res += &format!("{ex} {st}\n");
        }
        std::fs::write(v[2], res).unwrap();
        let b: Vec<u8> = states.iter().flat_map(|x| x.to_le_bytes()).collect(); std::fs::write(format!("{}.s", v[2]), b).unwrap();
        let b: Vec<u8> = outcomes.iter().flat_map(|x| x.to_le_bytes()).collect(); std::fs::write(format!("{}.o", v[2]), b).unwrap();
        return;
    }
    let w = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
    let dir = std::env::temp_dir().join(format!("mc_{id}_{}", std::process::id())); std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut kids: Vec<_> = (0..w).map(|k| std::process::Command::new(&exe).arg("--worker").arg(format!("{k}/{w}/{}", dir.join(format!("w{k}")).display())).spawn().unwrap()).collect();
    let mut bad: Option<String> = None; let mut broken = false; let mut dead = vec![];
    let mut open: Vec<usize> = (0..w).collect();
    while !open.is_empty() && bad.is_none() {
        open.retain(|&k| match kids[k].try_wait() { Ok(Some(s)) => { if let Ok(t) = std::fs::read_to_string(dir.join(format!("w{k}.bad"))) { bad.get_or_insert(t); } else if !s.success() { broken = true; dead.push(k); } false } _ => true });
        std::thread::sleep(std::time::Duration::from_millis(10));
    }
    for k in open { let _ = kids[k].kill(); let _ = kids[k].wait(); }
    // a worker that was ended by the code: once more, noting every step, and then that step alone
    if let (None, Some(&k)) = (&bad, dead.first()) {
        let note = dir.join("now"); let run = |a: &[&str]| std::process::Command::new(&exe).args(a).stdout(std::process::Stdio::null()).status();
        let _ = run(&["--worker", &format!("{k}/{w}/{}", dir.join(format!("w{k}")).display()), "--now", &note.display().to_string()]);
        if let Ok(t) = std::fs::read_to_string(&note) { let (g, c) = t.split_once('\n').unwrap_or((&t, "")); let f = dir.join("dead"); let text = format!("property={id}\ngroup={g}\nchoices={c}\n\nthe process was ended by the code\n"); std::fs::write(&f, &text).unwrap();
            if let Ok(s) = run(&["--replay", &f.display().to_string()]) { use std::os::unix::process::ExitStatusExt; if s.signal().is_some() { bad = Some(text); broken = false; } } }
    }
    let names: Vec<&Group> = groups.iter().filter(|g| thorough || !g.thorough).collect();
    let mut per = vec![(0u64, 0u64); names.len()]; let (mut states, mut outcomes): (HashSet<[u8; 8]>, HashSet<[u8; 8]>) = Default::default();
    for k in 0..w {
        if let Ok(t) = std::fs::read_to_string(dir.join(format!("w{k}"))) { for (i, l) in t.lines().enumerate() { let mut x = l.split(' ').map(|y| y.parse::<u64>().unwrap()); per[i].0 += x.next().unwrap(); per[i].1 += x.next().unwrap(); } }
        for (s, ext) in [(&mut states, "s"), (&mut outcomes, "o")] { if let Ok(b) = std::fs::read(dir.join(format!("w{k}.{ext}"))) { s.extend(b.chunks_exact(8).map(|c| <[u8; 8]>::try_from(c).unwrap())); } }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let (ex, st) = per.iter().fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1));
    let byg: BTreeMap<String, u64> = names.iter().zip(&per).map(|(g, p)| (g.name.clone(), p.0)).collect();
    let samples: Vec<String> = names.iter().filter_map(|g| { let mut c = new(vec![], None); c.logging = true; let _ = once(g, &mut c); if c.log.is_empty() { None } else { Some(q(&format!("{}: {}", g.name, c.log.join("; ").chars().take(600).collect::<String>()))) } }).collect();
    let ev = format!("{{\"property\":\"{id}\",\"tier\":\"{}\",\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{st},\"traces_validated_against_impl\":{ex},\"distinct_outcomes\":{},\"configs\":{},\"exhaustive\":{},\"bounds\":{},\"executions_per_config\":{{{}}},\"samples\":[{}]}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        if thorough { "thorough" } else { "quick" }, std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1), states.len(), outcomes.len(), names.len(), bad.is_none() && !broken, q(bounds),
        byg.iter().map(|(n, c)| format!("{}:{}", q(n), c)).collect::<Vec<_>>().join(","), samples.join(","), assumptions.iter().map(|s| q(s)).collect::<Vec<_>>().join(","), start.elapsed().as_secs_f64(), bad.is_some() as u32);
    if let Some(p) = arg("--evidence") { let _ = std::fs::write(p, ev); }
    if let Some(b) = bad { let _ = std::fs::write(&out, &b); say(&b); say(&format!("VIOLATION property={id} replay={out}")); std::process::exit(1); }
    if broken { say(&format!("{id}: a worker ended without an answer")); std::process::exit(2); }
    say(&format!("{id} held: executions={ex} steps={st} states={} distinct_outcomes={} wall={:.1}s", states.len(), outcomes.len(), start.elapsed().as_secs_f64()));
}
