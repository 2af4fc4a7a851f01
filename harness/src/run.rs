//! Driver: shards the cases of one property over worker processes, attributes crashes and hangs
//! to a case, shrinks failures and reports what was covered as JSON.

use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::io::{Read, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use serde_json::{json, Value as J};

use crate::tape::{hash_str, mix, shrink, Src};

/// One case.
pub struct Cx {
    pub src: Src,
    trivial: bool,
    desc: String,
    hash: u64,
    labels: Vec<&'static str>,
}

impl Cx {
    pub fn new(src: Src) -> Self {
        Cx { src, trivial: false, desc: String::new(), hash: 0, labels: vec![] }
    }
    /// Record the input of the case.
    pub fn input(&mut self, x: impl Debug) {
        let s = format!("{x:?}");
        self.hash = mix(self.hash, hash_str(&s));
        if self.desc.len() < 600 {
            if !self.desc.is_empty() {
                self.desc.push_str("; ");
            }
            self.desc.extend(s.chars().take(600));
        }
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    /// The case can't tell anything by the rule of its property.
    pub fn trivial(&mut self) {
        self.trivial = true;
    }
    pub fn trivial_if(&mut self, c: bool) {
        self.trivial |= c;
    }
}

pub type Res = Result<(), String>;

#[derive(Clone, Copy)]
pub struct Sub {
    pub name: &'static str,
    /// cases of the quick tier
    pub cases: u64,
    pub f: fn(&mut Cx) -> Res,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub subs: Vec<Sub>,
}

pub fn sub(name: &'static str, cases: u64, f: fn(&mut Cx) -> Res) -> Sub {
    Sub { name, cases, f }
}

static PANIC: Mutex<Option<String>> = Mutex::new(None);

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = match (info.payload().downcast_ref::<&str>(), info.payload().downcast_ref::<String>()) {
            (Some(s), _) => s.to_string(),
            (_, Some(s)) => s.clone(),
            _ => "panic".to_string(),
        };
        let at = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut p) = PANIC.lock() {
            *p = Some(format!("panic: {msg}{at}"));
        }
    }));
}

/// The message of the last panic.
pub fn last_panic() -> String {
    PANIC.lock().ok().and_then(|mut p| p.take()).unwrap_or_default()
}

fn run_case(s: &Sub, cx: &mut Cx) -> Res {
    match catch_unwind(AssertUnwindSafe(|| (s.f)(cx))) {
        Ok(r) => r,
        Err(_) => Err(last_panic()),
    }
}

fn case_seed(seed: u64, prop: &str, sub: &str, i: u64) -> u64 {
    mix(mix(mix(seed, hash_str(prop)), hash_str(sub)), i)
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    trivial: u64,
    seen: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    per_sub: BTreeMap<String, u64>,
}

impl Stats {
    fn add(&mut self, s: &Sub, cx: &Cx) {
        self.evaluations += 1;
        *self.per_sub.entry(s.name.to_string()).or_default() += 1;
        for l in &cx.labels {
            *self.labels.entry(l.to_string()).or_default() += 1;
        }
        if cx.trivial {
            self.trivial += 1;
        } else if self.seen.insert(mix(hash_str(s.name), cx.hash)) && self.per_sub[s.name] % 97 == 1 && self.samples.len() < 12 {
            self.samples.push(format!("{}: {}", s.name, cx.desc));
        }
    }
}

struct Args {
    prop: String,
    seed: u64,
    scale: f64,
    secs: u64,
    work: String,
}

fn worker(p: &Prop, a: &Args, shard: u64, of: u64, skip: &HashSet<(String, u64)>) -> J {
    let start = Instant::now();
    let mut progress = std::fs::File::create(format!("{}/progress.{shard}", a.work)).unwrap();
    let mut st = Stats::default();
    let mut fails: Vec<J> = vec![];
    let mut out_of_time = false;
    'subs: for s in &p.subs {
        let n = ((s.cases as f64 * a.scale) as u64).max(1);
        let mut i = shard;
        while i < n {
            if skip.contains(&(s.name.to_string(), i)) {
                i += of;
                continue;
            }
            if start.elapsed().as_secs() > a.secs {
                out_of_time = true;
                break 'subs;
            }
            let line = format!("{:>10} {}\n", i, s.name);
            progress.seek(SeekFrom::Start(0)).unwrap();
            progress.write_all(line.as_bytes()).unwrap();
            let mut cx = Cx::new(Src::random(case_seed(a.seed, p.id, s.name, i)));
            let r = run_case(s, &mut cx);
            if let Err(msg) = r {
                let tape = cx.src.tape();
                let (tape, msg) = shrink_case(s, tape, msg);
                fails.push(json!({"sub": s.name, "case": i, "tape": tape, "message": msg}));
                break 'subs;
            }
            st.add(s, &cx);
            i += of;
        }
    }
    json!({
        "evaluations": st.evaluations, "trivial": st.trivial, "seen": st.seen.iter().collect::<Vec<_>>(),
        "labels": st.labels, "samples": st.samples, "per_sub": st.per_sub, "fails": fails, "out_of_time": out_of_time,
    })
}

fn shrink_case(s: &Sub, tape: Vec<u64>, msg: String) -> (Vec<u64>, String) {
    let mut best = msg;
    let t0 = Instant::now();
    let tape = shrink(tape, 4000, &mut |t| {
        if t0.elapsed() > Duration::from_secs(20) {
            return false;
        }
        let mut cx = Cx::new(Src::replay(t.to_vec()));
        match run_case(s, &mut cx) {
            Ok(()) => false,
            Err(m) => {
                best = m;
                true
            }
        }
    });
    // the message of the final tape
    let mut cx = Cx::new(Src::replay(tape.clone()));
    if let Err(m) = run_case(s, &mut cx) {
        best = format!("{m}\n  input: {}", cx.desc);
    }
    (tape, best)
}

fn spawn(mode: &[String]) -> Child {
    Command::new(std::env::current_exe().unwrap()).args(mode).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap()
}

/// Outcome of a case run in a process of its own.
enum Alone {
    Ok,
    Fails(String),
    Crash(String),
    Hang,
}

fn alone(p: &str, sub: &str, tape_file: &str, secs: u64) -> Alone {
    let mut c = spawn(&["one".into(), p.into(), sub.into(), tape_file.into()]);
    let t0 = Instant::now();
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            let mut out = String::new();
            c.stdout.take().unwrap().read_to_string(&mut out).unwrap();
            return match st.code() {
                Some(0) => Alone::Ok,
                Some(1) => Alone::Fails(out),
                _ => Alone::Crash(format!("{st}")),
            };
        }
        if t0.elapsed().as_secs() >= secs {
            let _ = c.kill();
            let _ = c.wait();
            return Alone::Hang;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

/// The tape of a case that ends its process or never ends: written draw by draw.
fn traced_tape(a: &Args, sub: &str, case: u64, secs: u64) -> Vec<u64> {
    let f = format!("{}/trace", a.work);
    let mut c = spawn(&["trace".into(), a.prop.clone(), sub.into(), a.seed.to_string(), case.to_string(), f.clone()]);
    let t0 = Instant::now();
    while c.try_wait().unwrap().is_none() {
        if t0.elapsed().as_secs() >= secs {
            let _ = c.kill();
            let _ = c.wait();
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    let text = std::fs::read_to_string(&f).unwrap_or_default();
    text.lines().filter_map(|l| l.parse().ok()).collect()
}

fn write_tape(path: &str, t: &[u64]) {
    std::fs::write(path, t.iter().map(|n| n.to_string()).collect::<Vec<_>>().join("\n")).unwrap();
}

fn find<'a>(props: &'a [Prop], id: &str) -> &'a Prop {
    props.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("no property {id}"))
}

fn find_sub<'a>(p: &'a Prop, name: &str) -> &'a Sub {
    p.subs.iter().find(|s| s.name == name).unwrap_or_else(|| panic!("no check {name}"))
}

/// Deep recursion of the harness must not be what overflows.
fn with_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(256 << 20).spawn(f).unwrap().join().unwrap()
}

pub fn main(props: fn() -> Vec<Prop>) {
    let argv: &'static [String] = Vec::leak(std::env::args().skip(1).collect());
    let arg = move |i: usize| argv.get(i).cloned().unwrap_or_default();
    match arg(0).as_str() {
        "list" => {
            for p in props() {
                println!("{} {}", p.id, p.subs.iter().map(|s| format!("{}:{}", s.name, s.cases)).collect::<Vec<_>>().join(" "));
            }
        }
        // run ID SEED SCALE SECS WORK
        "run" => {
            let a = Args { prop: arg(1), seed: num(&arg(2)), scale: arg(3).parse().unwrap(), secs: num(&arg(4)), work: arg(5) };
            let out = coordinate(find(&props(), &a.prop), &a);
            println!("{out}");
        }
        // shard ID SEED SCALE SECS WORK SHARD OF SKIP...
        "shard" => {
            let out = with_stack(move || {
                quiet_panics();
                let a = Args { prop: arg(1), seed: num(&arg(2)), scale: arg(3).parse().unwrap(), secs: num(&arg(4)), work: arg(5) };
                let skip = argv[8..].iter().map(|s| s.split_once(' ').unwrap()).map(|(i, n)| (n.to_string(), num(i))).collect();
                worker(find(&props(), &a.prop), &a, num(&arg(6)), num(&arg(7)), &skip)
            });
            println!("{out}");
        }
        // one ID SUB TAPEFILE
        "one" => {
            let (msg, desc) = with_stack(move || {
                quiet_panics();
                let tape = std::fs::read_to_string(arg(3)).unwrap().lines().filter_map(|l| l.parse().ok()).collect();
                let ps = props();
                let mut cx = Cx::new(Src::replay(tape));
                let r = run_case(find_sub(find(&ps, &arg(1)), &arg(2)), &mut cx);
                (r.err(), cx.desc)
            });
            println!("input: {desc}");
            if let Some(m) = msg {
                println!("FAILS: {m}");
                std::process::exit(1);
            }
        }
        // trace ID SUB SEED CASE FILE
        "trace" => {
            with_stack(move || {
                quiet_panics();
                let ps = props();
                let mut src = Src::random(case_seed(num(&arg(3)), &arg(1), &arg(2), num(&arg(4))));
                src.trace(std::fs::File::create(arg(5)).unwrap());
                let mut cx = Cx::new(src);
                let _ = run_case(find_sub(find(&ps, &arg(1)), &arg(2)), &mut cx);
            });
        }
        "concurrent" => {
            quiet_panics();
            crate::props::concurrent_child(&arg(1));
        }
        m => panic!("unknown mode {m}"),
    }
}

fn num(s: &str) -> u64 {
    s.parse().unwrap_or_else(|_| panic!("not a number: {s}"))
}

const STALL: u64 = 60;
const HANG: u64 = 120;

fn coordinate(p: &Prop, a: &Args) -> J {
    let of = 8u64;
    let mut total = Stats::default();
    let mut out_of_time = false;
    let mut failure: Option<J> = None;
    let mut notes: Vec<String> = vec![];
    let mut jobs: Vec<(u64, Vec<String>)> = (0..of).map(|k| (k, vec![])).collect();
    // a crashed or hung shard is repeated without the case that turned out not to be reproducible
    for _round in 0..4 {
        let mut running: Vec<(u64, Vec<String>, Child, std::thread::JoinHandle<String>, String, Instant)> = vec![];
        for (k, skip) in jobs.drain(..) {
            let mut args: Vec<String> =
                vec!["shard".into(), p.id.into(), a.seed.to_string(), a.scale.to_string(), a.secs.to_string(), a.work.clone(), k.to_string(), of.to_string()];
            args.extend(skip.iter().cloned());
            let _ = std::fs::remove_file(format!("{}/progress.{k}", a.work));
            let mut c = spawn(&args);
            let mut o = c.stdout.take().unwrap();
            let reader = std::thread::spawn(move || {
                let mut s = String::new();
                let _ = o.read_to_string(&mut s);
                s
            });
            running.push((k, skip, c, reader, String::new(), Instant::now()));
        }
        while !running.is_empty() {
            std::thread::sleep(Duration::from_millis(20));
            let mut i = 0;
            while i < running.len() {
                let (k, _, c, _, last, since) = &mut running[i];
                let file = format!("{}/progress.{k}", a.work);
                let done = c.try_wait().unwrap();
                let mut hung = false;
                if done.is_none() {
                    let now = std::fs::read_to_string(&file).unwrap_or_default();
                    if now != *last {
                        *last = now;
                        *since = Instant::now();
                        i += 1;
                        continue;
                    } else if since.elapsed().as_secs() > STALL {
                        hung = true;
                        let _ = c.kill();
                        let _ = c.wait();
                    } else {
                        i += 1;
                        continue;
                    }
                }
                let (k, skip, _, reader, _, _) = running.swap_remove(i);
                let out = reader.join().unwrap();
                if let (Some(st), false) = (done, hung) {
                    if st.success() {
                        let j: J = serde_json::from_str(out.trim()).expect("bad worker output");
                        merge(&mut total, &j);
                        out_of_time |= j["out_of_time"].as_bool().unwrap_or(false);
                        for f in j["fails"].as_array().unwrap() {
                            if failure.is_none() {
                                failure = Some(f.clone());
                            }
                        }
                        continue;
                    }
                }
                // crash or stall: which case?
                let text = std::fs::read_to_string(&file).unwrap_or_default();
                let line = text.lines().next().unwrap_or("").trim();
                let Some((n, name)) = line.split_once(' ').map(|(n, s)| (n.to_string(), s.trim().to_string())) else {
                    notes.push(format!("shard {k} ended before its first case"));
                    continue;
                };
                if failure.is_some() {
                    continue;
                }
                let case = num(&n);
                let tape = traced_tape(a, &name, case, HANG);
                let tf = format!("{}/tape", a.work);
                write_tape(&tf, &tape);
                let what = match alone(p.id, &name, &tf, HANG) {
                    Alone::Crash(s) => Some(format!("the process ended: {s}")),
                    Alone::Hang => Some(format!("the case did not end within {HANG} s")),
                    Alone::Fails(s) => Some(s),
                    Alone::Ok => None,
                };
                match what {
                    Some(msg) => {
                        let hang = msg.starts_with("the case did not end");
                        let tape = if hang {
                            tape
                        } else {
                            let tf = format!("{}/tape.s", a.work);
                            let t0 = Instant::now();
                            shrink(tape, 300, &mut |t| {
                                if t0.elapsed().as_secs() > 40 {
                                    return false;
                                }
                                write_tape(&tf, t);
                                matches!(alone(p.id, &name, &tf, 20), Alone::Crash(_) | Alone::Fails(_))
                            })
                        };
                        failure = Some(json!({"sub": name, "case": case, "tape": tape, "message": msg}));
                    }
                    None => {
                        notes.push(format!("case {case} of {name} ended its process once, not when repeated"));
                        let mut skip = skip;
                        skip.push(format!("{case} {name}"));
                        jobs.push((k, skip));
                    }
                }
            }
            if failure.is_some() {
                for (_, _, c, _, _, _) in &mut running {
                    let _ = c.kill();
                    let _ = c.wait();
                }
                running.clear();
                jobs.clear();
            }
        }
        if jobs.is_empty() {
            break;
        }
    }
    if !jobs.is_empty() {
        notes.push("gave up on shards that kept ending".into());
    }
    json!({
        "property": p.id, "rule": p.rule, "evaluations": total.evaluations, "trivial": total.trivial,
        "distinct_nontrivial": total.seen.len(), "labels": total.labels, "samples": total.samples, "per_sub": total.per_sub,
        "out_of_time": out_of_time, "failure": failure, "notes": notes, "types": crate::zoo::reg().len(),
    })
}

fn merge(t: &mut Stats, j: &J) {
    t.evaluations += j["evaluations"].as_u64().unwrap();
    t.trivial += j["trivial"].as_u64().unwrap();
    t.seen.extend(j["seen"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()));
    for (k, v) in j["labels"].as_object().unwrap() {
        *t.labels.entry(k.clone()).or_default() += v.as_u64().unwrap();
    }
    for (k, v) in j["per_sub"].as_object().unwrap() {
        *t.per_sub.entry(k.clone()).or_default() += v.as_u64().unwrap();
    }
    for s in j["samples"].as_array().unwrap().iter().take(3) {
        if t.samples.len() < 12 {
            t.samples.push(s.as_str().unwrap().to_string());
        }
    }
}
