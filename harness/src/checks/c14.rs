//! Histories and threads.
use super::c05::{gaps, mutate_text};
use super::common::*;
use crate::gen;
use crate::render;
use crate::reval::{self, Stop};
use crate::rng::{hash_bytes, mix, Rng};
use crate::rparse::{self, Verdict};
use crate::run::*;
use serde_json::{json, Map, Value};
use serde_json_path::{JsonPath, JsonPathExt};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

/// one operation, whose outcome is a text
#[derive(Clone)]
pub struct Op {
    pub k: u8,
    pub t: String,
    pub d: Value,
}
impl Op {
    pub fn new(k: u8, t: String, d: Value) -> Op {
        Op { k, t, d }
    }
    pub fn with(&self, k: u8) -> Op {
        Op { k, ..self.clone() }
    }
    pub fn json(&self) -> Value {
        json!({"k": self.k, "t": self.t, "d": exact(&self.d)})
    }
    pub fn from(v: &Value) -> Op {
        Op { k: v["k"].as_u64().unwrap() as u8, t: v["t"].as_str().unwrap().into(), d: inexact(&v["d"]) }
    }
}
/// serde_json does not read every double back from its own text: their bits go to the other process
pub fn exact(v: &Value) -> Value {
    match v {
        Value::Number(n) if n.is_f64() => json!({"f": n.as_f64().unwrap().to_bits()}),
        Value::Array(a) => a.iter().map(exact).collect(),
        Value::Object(o) => json!({"o": o.iter().map(|(k, v)| (k.clone(), exact(v))).collect::<Map<_, _>>()}),
        v => v.clone(),
    }
}
pub fn inexact(v: &Value) -> Value {
    match v {
        Value::Array(a) => a.iter().map(inexact).collect(),
        Value::Object(o) => match o.get("f") {
            Some(b) => json!(f64::from_bits(b.as_u64().unwrap())),
            None => Value::Object(o["o"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), inexact(v))).collect()),
        },
        v => v.clone(),
    }
}
fn digest(s: &str) -> u64 {
    hash_bytes(s.as_bytes())
}
/// everything about a result, except for addresses
fn evaluate(p: &JsonPath, d: &Value) -> String {
    let mut o = String::new();
    let l = p.query_located(d);
    for n in l.iter() {
        o.push_str(&format!("{} {} = {}\n", n.location(), n.location().to_json_pointer(), n.node()));
        // the node is where it is said to be, now
        if d.pointer(&n.location().to_json_pointer()).map(addr) != Some(addr(n.node())) {
            o.push_str("NOT IN THE DOCUMENT\n");
        }
    }
    o.push_str("--\n");
    for n in p.query(d).iter() {
        o.push_str(&format!("{n}\n"));
    }
    o
}
fn outcome_raw(op: &Op) -> String {
    match op.k {
        0 => match JsonPath::parse(&op.t) {
            Ok(p) => format!("ok {p}"),
            Err(e) => format!("error {e} {} {}", e.position(), e.message()),
        },
        1 => match JsonPath::parse(&op.t) {
            Ok(p) => evaluate(&p, &op.d),
            Err(e) => format!("error {e}"),
        },
        2 => match serde_json::from_value::<JsonPath>(Value::String(op.t.clone())) {
            Ok(p) => {
                let q = p.clone();
                let a = evaluate(&q, &op.d);
                drop(q);
                let n = op.d.json_path(&p);
                format!("{a}{} {:?} {}", n.len(), n.first().map(|v| v.to_string()), serde_json::to_string(&p).unwrap())
            }
            Err(e) => format!("error {e}"),
        },
        _ => match op.t.parse::<JsonPath>() {
            Ok(p) => {
                let l = p.query_located(&op.d);
                let d = l.clone().dedup();
                let a: Vec<String> = d.locations().rev().map(|l| l.to_string()).collect();
                let n = p.query(&op.d);
                format!(
                    "{a:?} {} {} {} {:?} {:?} {}",
                    serde_json::to_string(&l).unwrap(),
                    serde_json::to_string(&n).unwrap(),
                    n.len(),
                    n.at_most_one().map(|v| v.map(|v| v.to_string())).map_err(|e| e.to_string()),
                    n.exactly_one().map(|v| v.to_string()).map_err(|e| e.to_string()),
                    l.iter().map(|n| n.location().len()).sum::<usize>()
                )
            }
            Err(e) => format!("error {e}"),
        },
    }
}
pub fn outcome(op: &Op) -> String {
    caught(|| outcome_raw(op))
}
fn caught(f: impl FnOnce() -> String) -> String {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(s) => s,
        #[cfg(feature = "functions")]
        Err(e) if e.is::<crate::funcs::custom::Boom>() => "the function's own panic".into(),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
            format!("PANIC {}", m.unwrap_or_default())
        }
    }
}

// ---- the outcome of an operation that is the first one of its process ------------------------

/// for each line an operation: forks a process that has never used the library, which runs it
pub fn alone_server() -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let mut fd = [0i32; 2];
        unsafe {
            if libc::pipe(fd.as_mut_ptr()) != 0 {
                return 2;
            }
            let pid = libc::fork();
            if pid < 0 {
                return 2;
            }
            if pid == 0 {
                libc::alarm(20);
                let op = Op::from(&serde_json::from_str(&line).unwrap());
                let o = outcome(&op);
                let r = json!([format!("{:x}", digest(&o)), clip(o)]).to_string() + "\n";
                let mut b = r.as_bytes();
                while !b.is_empty() {
                    let n = libc::write(fd[1], b.as_ptr() as *const libc::c_void, b.len());
                    if n <= 0 {
                        break;
                    }
                    b = &b[n as usize..];
                }
                libc::_exit(0);
            }
            libc::close(fd[1]);
            use std::os::fd::FromRawFd;
            let mut s = String::new();
            let _ = std::io::Read::read_to_string(&mut std::fs::File::from_raw_fd(fd[0]), &mut s);
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            if !s.ends_with('\n') {
                s = "null\n".into();
            }
            let _ = out.write_all(s.as_bytes());
            let _ = out.flush();
        }
    }
    0
}
struct Server(Child, ChildStdin, BufReader<ChildStdout>);
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}
thread_local! {
    static SERVER: RefCell<Option<Server>> = const { RefCell::new(None) };
}
fn spawn_aux(args: &[&str], exe: Option<&str>) -> Child {
    use std::os::unix::process::CommandExt;
    let mut c = match exe {
        Some(e) => Command::new(e),
        None => Command::new(std::env::current_exe().unwrap()),
    };
    c.arg("aux").args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        })
    };
    c.spawn().unwrap_or_else(|e| harness_bug(format!("spawn: {e}")))
}
/// digest and text of the outcome in a fresh process; None if it did not finish there
pub fn alone(op: &Op) -> Option<(u64, String)> {
    SERVER.with(|s| {
        let mut s = s.borrow_mut();
        let s = s.get_or_insert_with(|| {
            let mut c = spawn_aux(&["alone"], None);
            let (i, o) = (c.stdin.take().unwrap(), BufReader::new(c.stdout.take().unwrap()));
            Server(c, i, o)
        });
        let mut l = String::new();
        s.1.write_all((op.json().to_string() + "\n").as_bytes())
            .and_then(|_| s.2.read_line(&mut l))
            .unwrap_or_else(|e| harness_bug(format!("server: {e}")));
        let v: Value = serde_json::from_str(&l).unwrap_or_else(|e| harness_bug(format!("server: {e} {l:?}")));
        let h = v.get(0)?.as_str()?;
        Some((u64::from_str_radix(h, 16).ok()?, v[1].as_str()?.to_string()))
    })
}

// ---- operations -----------------------------------------------------------------------------

fn affordable(t: &str, d: &Value) -> bool {
    match rparse::parse(t) {
        Verdict::Accept(q) => super::common::affordable(&q, d, 8_000),
        Verdict::Unspec(_) => false,
        _ => true,
    }
}
pub(super) fn quote(s: &str) -> String {
    let j = serde_json::to_string(s).unwrap();
    j
}
/// operations that resemble each other, so that confusing two of them shows
pub fn family(r: &mut Rng, n: usize) -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    let mut tries = 0;
    let seeds = gaps();
    while v.len() < n && tries < 20 * n {
        tries += 1;
        let k = r.below(4) as u8;
        let cf = cfg!(feature = "functions");
        let kind = r.below(12);
        let (t, d) = match kind {
            0..=2 if !v.is_empty() => {
                // like an earlier one
                let o = r.pick(&v).clone();
                match r.below(4) {
                    0 => (o.t.clone(), gen::mutate(r, &o.d)),
                    1 => (o.t.clone(), r.pick(&v).d.clone()),
                    2 if o.t.contains("match(") => (o.t.replace("match(", "search("), o.d),
                    2 if o.t.contains("search(") => (o.t.replace("search(", "match("), o.d),
                    _ => (mutate_text(r, &o.t, &seeds), o.d),
                }
            }
            3..=5 if cfg!(feature = "regex") => {
                let re = gen::regex(r, 1);
                let mut subj: Vec<Value> = vec![json!(""), json!("a"), json!("ab"), json!("ba\n")];
                if let Ok(x) = crate::regexp::parse(&re) {
                    for _ in 0..3 {
                        let mut s = String::new();
                        gen::subject(r, &x, &mut s);
                        subj.push(json!(s));
                        subj.push(json!(format!("x{s}b")));
                    }
                }
                let f = *r.pick(&["match", "search", "!match", "!search"]);
                match r.below(3) {
                    0 => (format!("$[?{f}(@.s,@.r)]"), json!(subj.iter().map(|s| json!({"s": s, "r": if r.chance(1, 2) { re.clone() } else { gen::regex(r, 1) }})).collect::<Vec<_>>())),
                    _ => (format!("$[?{f}(@,{})]", quote(&re)), json!(subj)),
                }
            }
            6 if cf => {
                let at = r.below(5);
                let d: Vec<Value> = (0..6).map(|i| json!({"a": if i == at { "boom" } else { "calm" }, "b": [i]})).collect();
                (r.pick(&["$[?boom(@.a)]", "$..[?!boom(@.a)]", "$[?@.b[?boom($[3].a)]]", "$[?boom(@.zz)||boom(@.a)]", "$[?idl(boom(@.a)&&@.b)]"]).to_string(), json!(d))
            }
            7 if cf => {
                let inner = match r.below(4) {
                    0 => "$[?match(@,'a')]".to_string(),
                    1 => "$..a".to_string(),
                    2 => format!("$[?reenter({})==1]", quote("$.b.a")),
                    _ => r.pick(&seeds).clone(),
                };
                (format!("$[?reenter({})>={}]", quote(&inner), r.below(3)), json!([1, "a"]))
            }
            8 => {
                let s = r.pick(&seeds).clone();
                (mutate_text(r, &s, &seeds), gen::small(r, 3))
            }
            9 => {
                let t = r.pick(&seeds).clone();
                let n = r.below(40);
                (format!("$[?{}{}", "(".repeat(n), t.trim_start_matches('$')), gen::small(r, 2))
            }
            _ => {
                let d = gen::small(r, 3);
                let mut g = gen::Gen { r, root: &d, o: &gen::FULL, budget: 12 };
                let n = 1 + g.r.below(3);
                let q = g.query(true, Some(&d), n, 2);
                (if r.chance(1, 2) { render::plain(&q) } else { render::varied(r, &q) }, d)
            }
        };
        if affordable(&t, &d) && d.to_string().len() < 6000 {
            v.push(Op { k, t, d });
        }
    }
    v
}
/// with the outcomes they have alone
fn known_ops(tc: &mut Tc, n: usize) -> Vec<(Op, u64, String)> {
    let ops = family(&mut tc.rng, n);
    let mut v = vec![];
    for op in ops {
        match alone(&op) {
            Some((h, t)) => {
                if t.starts_with("PANIC") {
                    tc.count("skipped: panics alone");
                    continue;
                }
                if !t.starts_with("error") && t != "the function's own panic" && t != "--\n" {
                    tc.count("operations with a result");
                }
                v.push((op, h, t))
            }
            None => tc.count("skipped: does not finish alone"),
        }
    }
    tc.add("fresh processes", v.len() as u64);
    v
}
fn mismatch(tc: &mut Tc, when: &str, op: &Op, got: &str, want: &str) {
    tc.fail(
        format!(
            "{when}: {} on {}: got {}, but alone in a process {}",
            clip(op.t.clone()),
            clip(op.d.to_string().chars().take(300).collect()),
            clip(got.chars().take(400).collect()),
            clip(want.chars().take(400).collect())
        ),
        json!({"operation": op.json(), "got": clip(got.to_string()), "alone": want}),
    );
}
fn again(tc: &mut Tc, when: &str, o: &(Op, u64, String)) -> bool {
    tc.ev();
    let got = outcome(&o.0);
    if digest(&got) != o.1 {
        mismatch(tc, when, &o.0, &got, &o.2);
        return false;
    }
    true
}

// ---- threads --------------------------------------------------------------------------------

pub struct Race {
    pub bad: Vec<(usize, String, String)>,
    pub runs: u64,
    pub signature: u64,
    pub switches: u64,
}
/// all threads start at once; each runs every operation in an order of its own
pub fn race(ops: &[(Op, u64)], threads: usize, rounds: usize, seed: u64) -> Race {
    let shared: Vec<OnceLock<Option<Arc<JsonPath>>>> = ops.iter().map(|_| OnceLock::new()).collect();
    let docs: Vec<Arc<Value>> = ops.iter().map(|o| Arc::new(o.0.d.clone())).collect();
    // digests of plain evaluations, by whoever is first
    let evals: Vec<OnceLock<u64>> = ops.iter().map(|_| OnceLock::new()).collect();
    let ready = AtomicUsize::new(0);
    let clock = AtomicU64::new(0);
    let bad = Mutex::new(vec![]);
    let log = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (shared, docs, evals, ready, clock, bad, log) = (&shared, &docs, &evals, &ready, &clock, &bad, &log);
            s.spawn(move || {
                let mut r = Rng::new(mix(seed) ^ mix(t as u64 + 77));
                let mut order: Vec<usize> = (0..ops.len()).collect();
                let mut mine = vec![];
                ready.fetch_add(1, Ordering::SeqCst);
                while ready.load(Ordering::SeqCst) < threads {
                    std::hint::spin_loop();
                }
                for round in 0..rounds {
                    // the first operation is the same for all threads in half of the runs
                    if round > 0 || seed % 2 == 0 {
                        r.shuffle(&mut order);
                    }
                    for &i in &order {
                        match r.below(8) {
                            0 => std::thread::yield_now(),
                            1 if round > 0 => std::thread::sleep(Duration::from_micros(r.below(80) as u64)),
                            _ => {}
                        }
                        let op = &ops[i].0;
                        let (got, want) = if r.chance(1, 2) {
                            (outcome(op), ops[i].1)
                        } else {
                            // one object, used by all threads
                            let p = shared[i].get_or_init(|| JsonPath::parse(&op.t).ok().map(Arc::new)).clone();
                            match p {
                                Some(p) => {
                                    let g = caught(|| evaluate(&p, &docs[i]));
                                    let c = (*p).clone();
                                    if r.chance(1, 4) && c != *p {
                                        bad.lock().unwrap().push((i, "differs from its clone".into(), String::new()));
                                    }
                                    let w = *evals[i].get_or_init(|| digest(&g));
                                    (g, if op.k == 1 { ops[i].1 } else { w })
                                }
                                None => (outcome(op), ops[i].1),
                            }
                        };
                        if digest(&got) != want {
                            bad.lock().unwrap().push((i, got, format!("thread {t} of {threads}")));
                        }
                        mine.push((clock.fetch_add(1, Ordering::SeqCst), t));
                    }
                }
                log.lock().unwrap().extend(mine);
            });
        }
    });
    let mut log = log.into_inner().unwrap();
    log.sort();
    let signature = log.iter().fold(7, |h, x| mix(h ^ x.1 as u64));
    let switches = log.windows(2).filter(|w| w[0].1 != w[1].1).count() as u64;
    Race { bad: bad.into_inner().unwrap(), runs: log.len() as u64, signature, switches }
}
fn race_json(ops: &[(Op, u64, String)], threads: usize, rounds: usize, seed: u64) -> String {
    json!({
        "threads": threads, "rounds": rounds, "seed": seed.to_string(),
        "ops": ops.iter().map(|o| o.0.json()).collect::<Vec<_>>(),
        "want": ops.iter().map(|o| format!("{:x}", o.1)).collect::<Vec<_>>(),
    })
    .to_string()
        + "\n"
}
/// a process whose first use of the library is by many threads at once
pub fn race_process() -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let mut l = String::new();
    std::io::stdin().read_line(&mut l).unwrap();
    let v: Value = serde_json::from_str(&l).unwrap();
    let ops: Vec<(Op, u64)> = v["ops"]
        .as_array()
        .unwrap()
        .iter()
        .zip(v["want"].as_array().unwrap())
        .map(|(o, w)| (Op::from(o), u64::from_str_radix(w.as_str().unwrap(), 16).unwrap()))
        .collect();
    let n = |k: &str| v[k].as_u64().unwrap() as usize;
    let r = race(&ops, n("threads"), n("rounds"), v["seed"].as_str().unwrap().parse().unwrap());
    let bad: Vec<Value> = r.bad.iter().take(3).map(|b| json!([b.0, clip(b.1.clone()), b.2])).collect();
    println!("{}", json!({"bad": bad, "runs": r.runs, "signature": r.signature.to_string(), "switches": r.switches}));
    0
}
/// many processes, one after another, each forked from this one, which never uses the library, in
/// each of which a few threads use it for the first time at the same moment
pub fn stampede() -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let mut l = String::new();
    std::io::stdin().read_line(&mut l).unwrap();
    let v: Value = serde_json::from_str(&l).unwrap();
    let ops: Vec<(Op, u64)> = v["ops"]
        .as_array()
        .unwrap()
        .iter()
        .zip(v["want"].as_array().unwrap())
        .map(|(o, w)| (Op::from(o), u64::from_str_radix(w.as_str().unwrap(), 16).unwrap()))
        .collect();
    let seed: u64 = v["seed"].as_str().unwrap().parse().unwrap();
    let (mut runs, mut orders, mut bad) = (0u64, std::collections::HashSet::new(), vec![]);
    for child in 0..v["processes"].as_u64().unwrap() {
        let mut r = Rng::new(mix(seed ^ mix(child)));
        let threads = 2 + r.below(5);
        let mut fd = [0i32; 2];
        unsafe {
            if libc::pipe(fd.as_mut_ptr()) != 0 {
                return 2;
            }
            let pid = libc::fork();
            if pid < 0 {
                return 2;
            }
            if pid == 0 {
                libc::alarm(30);
                let ready = AtomicUsize::new(0);
                let clock = AtomicUsize::new(0);
                // all do the same, or each something else, and then all the same
                let same = r.chance(2, 3);
                let at = r.below(ops.len());
                let out: Vec<String> = std::thread::scope(|s| {
                    let h: Vec<_> = (0..threads)
                        .map(|t| {
                            let (ready, clock, ops) = (&ready, &clock, &ops);
                            let spin = if r.chance(1, 2) { 0 } else { r.below(3000) };
                            s.spawn(move || {
                                ready.fetch_add(1, Ordering::SeqCst);
                                while ready.load(Ordering::SeqCst) < threads {
                                    std::hint::spin_loop();
                                }
                                for _ in 0..spin {
                                    std::hint::spin_loop();
                                }
                                let mut o = String::new();
                                for k in 0..2 {
                                    let i = (at + if same || k == 1 { k } else { t }) % ops.len();
                                    let got = outcome(&ops[i].0);
                                    if digest(&got) != ops[i].1 {
                                        o += &(json!([i, clip(got), format!("thread {t} of {threads}")]).to_string() + "\n");
                                    }
                                    o += &format!("\"{} {t}\"\n", clock.fetch_add(1, Ordering::SeqCst));
                                }
                                o
                            })
                        })
                        .collect();
                    h.into_iter().map(|h| h.join().unwrap_or_else(|_| "[0,\"a thread panicked\",\"\"]\n".into())).collect()
                });
                let text = out.concat() + "\"end\"\n";
                let mut b = text.as_bytes();
                while !b.is_empty() {
                    let n = libc::write(fd[1], b.as_ptr() as *const libc::c_void, b.len());
                    if n <= 0 {
                        break;
                    }
                    b = &b[n as usize..];
                }
                libc::_exit(0);
            }
            libc::close(fd[1]);
            use std::os::fd::FromRawFd;
            let mut s = String::new();
            let _ = std::io::Read::read_to_string(&mut std::fs::File::from_raw_fd(fd[0]), &mut s);
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            let mut seq = vec![];
            let mut ended = false;
            for l in s.lines() {
                match serde_json::from_str::<Value>(l) {
                    Ok(Value::String(t)) if t == "end" => ended = true,
                    Ok(Value::String(t)) => {
                        let (a, b) = t.split_once(' ').unwrap();
                        seq.push((a.parse::<u32>().unwrap(), b.parse::<u32>().unwrap()));
                    }
                    Ok(v) if bad.len() < 3 => bad.push(v),
                    _ => {}
                }
            }
            if !ended {
                bad.push(json!([0, format!("the process ended with status {st}{}", if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGALRM { ", after 30 s" } else { "" }), ""]));
            }
            runs += seq.len() as u64;
            seq.sort();
            orders.insert(seq.iter().fold(mix(threads as u64), |h, x| mix(h ^ x.1 as u64)));
            if bad.len() >= 3 {
                break;
            }
        }
    }
    println!("{}", json!({"runs": runs, "bad": bad, "orders": orders.len()}));
    0
}
enum Ended {
    Done(Value, String),
    Blocked,
    Crashed(String),
    Unclear(String),
}
fn run_race(input: &str, exe: Option<&str>, env: &[(&str, &str)], secs: u64) -> Ended {
    let _ = env;
    let mut c = spawn_aux(&["race"], exe);
    let mut i = c.stdin.take().unwrap();
    let _ = i.write_all(input.as_bytes());
    drop(i);
    let mut o = c.stdout.take().unwrap();
    let mut e = c.stderr.take().unwrap();
    let a = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut o, &mut s);
        s
    });
    let b = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = std::io::Read::read_to_end(&mut e, &mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let t0 = Instant::now();
    let mut idle: Option<(Instant, u64)> = None;
    let st = loop {
        if let Some(st) = c.try_wait().unwrap() {
            break st;
        }
        match child_state(c.id()) {
            Some((t, true)) => match idle {
                Some((s, t1)) if t == t1 => {
                    if s.elapsed() > Duration::from_secs(20) {
                        let _ = c.kill();
                        let _ = c.wait();
                        return Ended::Blocked;
                    }
                }
                _ => idle = Some((Instant::now(), t)),
            },
            _ => idle = None,
        }
        if t0.elapsed() > Duration::from_secs(secs) {
            let _ = c.kill();
            let _ = c.wait();
            return Ended::Unclear("did not finish in time".into());
        }
        std::thread::sleep(Duration::from_millis(1));
    };
    let (out, err) = (a.join().unwrap(), b.join().unwrap());
    use std::os::unix::process::ExitStatusExt;
    match (st.code(), st.signal()) {
        (_, Some(s @ (libc::SIGABRT | libc::SIGSEGV | libc::SIGBUS | libc::SIGILL))) => Ended::Crashed(format!("signal {s} {}", clip(err))),
        (Some(_), _) => match serde_json::from_str(out.trim()) {
            Ok(v) => Ended::Done(v, err),
            Err(_) => Ended::Unclear(format!("{st:?} {} {}", clip(out), clip(err))),
        },
        x => Ended::Unclear(format!("{x:?}")),
    }
}
fn report_race(tc: &mut Tc, ops: &[(Op, u64, String)], e: Ended) -> bool {
    match e {
        Ended::Done(v, _) => {
            tc.evn(v["runs"].as_u64().unwrap_or(0));
            tc.add("thread switches between operations", v["switches"].as_u64().unwrap_or(0));
            if let Some(s) = v["signature"].as_str() {
                tc.nontrivial(s.parse().unwrap_or(0));
            }
            for b in v["bad"].as_array().into_iter().flatten() {
                let o = &ops[b[0].as_u64().unwrap() as usize];
                mismatch(tc, &format!("first use by several threads at once, {}", b[2].as_str().unwrap_or("")), &o.0, b[1].as_str().unwrap_or(""), &o.2);
                return false;
            }
            true
        }
        Ended::Blocked => {
            tc.fail("several threads: all of them blocked for 20 s", json!({"operations": ops.iter().map(|o| o.0.json()).collect::<Vec<_>>()}));
            false
        }
        Ended::Crashed(m) => {
            tc.fail(format!("several threads: the process died: {m}"), json!({"operations": ops.iter().map(|o| o.0.json()).collect::<Vec<_>>()}));
            false
        }
        Ended::Unclear(m) => {
            tc.count(&format!("unclear: {m}"));
            true
        }
    }
}

pub fn check(c: &Conf) -> Check {
    let mut sections = vec![];
    sections.push(sec("histories", c.n(500, 12_000), |tc, _| {
        let ops = known_ops(tc, 40);
        let mut h = 0u64;
        for step in 0..240 {
            let i = tc.rng.below(ops.len());
            h = mix(h ^ ops[i].1);
            if !again(tc, &format!("operation {step} of a history"), &ops[i]) {
                return;
            }
        }
        tc.nontrivial(h);
        tc.sample(|| json!({"operations": ops.iter().take(4).map(|o| json!([o.0.t, o.2.chars().take(80).collect::<String>()])).collect::<Vec<_>>()}));
    }));
    // a query object meets many versions of a document at one address
    sections.push(sec("documents that change", c.n(400, 10_000), |tc, _| {
        let fam = family(&mut tc.rng, 12);
        let mut objs: Vec<(String, JsonPath)> = vec![];
        for o in &fam {
            if let Ok(p) = JsonPath::parse(&o.t) {
                objs.push((o.t.clone(), p));
            }
        }
        if objs.is_empty() {
            return;
        }
        let mut doc = Box::new(fam[0].d.clone());
        for step in 0..10 {
            // in place: an element of it, or all of it
            match tc.rng.below(4) {
                0 => *doc = tc.rng.pick(&fam).d.clone(),
                1 => {
                    if let Value::Array(a) = &mut *doc {
                        if !a.is_empty() {
                            let i = tc.rng.below(a.len());
                            a[i] = gen::mutate(&mut tc.rng, &a[i].clone());
                        }
                    } else if let Value::Object(m) = &mut *doc {
                        if let Some(v) = m.values_mut().next() {
                            *v = gen::mutate(&mut tc.rng, &v.clone());
                        }
                    }
                }
                2 => {
                    // freed and allocated again
                    let n = gen::mutate(&mut tc.rng, &doc);
                    drop(doc);
                    doc = Box::new(n);
                }
                _ => *doc = gen::mutate(&mut tc.rng, &doc),
            }
            for _ in 0..3 {
                let i = tc.rng.below(objs.len());
                if !affordable(&objs[i].0, &doc) {
                    continue;
                }
                let op = Op { k: 1, t: objs[i].0.clone(), d: (*doc).clone() };
                let Some((h, want)) = alone(&op) else { continue };
                tc.add("fresh processes", 1);
                tc.ev();
                let got = caught(|| evaluate(&objs[i].1, &doc));
                if digest(&got) != h {
                    mismatch(tc, &format!("version {step} of a document"), &op, &got, &want);
                    return;
                }
                if got.len() > 4 {
                    tc.nontrivial(mix(h));
                }
                if tc.rng.chance(1, 6) {
                    let c = objs[i].1.clone();
                    if c != objs[i].1 {
                        tc.fail(format!("a clone differs after evaluations: {}", op.t), op.json());
                        return;
                    }
                    objs[i].1 = c;
                }
            }
        }
    }));
    // more different things than anything would remember
    let many = if c.thorough { 6000 } else { 1500 };
    sections.push(sec("many queries", c.n(8, 24), move |tc, i| {
        let mut all = vec![];
        let mut keep = vec![];
        let mut reps = vec![];
        for k in 0..many {
            let op = match i % 4 {
                0 => {
                    // expressions that differ in one place
                    let re = format!("a{{{}}}b|{}", k % 30, ["x", "y", "z", "[a-c]+", "k*"][k % 5].repeat(1 + k / 150));
                    let f = ["match", "search"][k / 7 % 2];
                    Op { k: 1, t: format!("$[?{f}(@,{})]", quote(&re)), d: json!([format!("{}b", "a".repeat(k % 30)), "x", "yy", "zaz", format!("q{}b", "a".repeat(k % 29)), "abcabc", "kkk", ""]) }
                }
                1 => Op { k: 1, t: format!("$['k{k}','k{}'][{}:{}:{}]", k + 1, k % 5, k % 7, 1 + k % 3), d: json!({format!("k{k}"): [0, 1, 2, 3, 4, 5, 6, 7], format!("k{}", k + 1): [k]}) },
                2 => Op { k: 0, t: if k % 3 == 0 { format!("$[?@.a=={k}") } else { format!("$[?@.a=={k}&&f{k}(@)]") }, d: Value::Null },
                _ => Op { k: 1, t: format!("$..[?@.a=={}&&length(@.b)>={}].b", k % 50, k % 4), d: json!([{"a": k % 50, "b": "x".repeat(k % 6)}, {"a": 1, "b": "yy"}]) },
            };
            let got = outcome(&op);
            tc.ev();
            if k % 25 == 0 {
                match alone(&op) {
                    Some((h, want)) => {
                        tc.add("fresh processes", 1);
                        if digest(&got) != h {
                            mismatch(tc, &format!("operation {k} of many different ones"), &op, &got, &want);
                            return;
                        }
                        reps.push((op.clone(), h, want));
                    }
                    None => continue,
                }
            }
            if let Ok(p) = JsonPath::parse(&op.t) {
                keep.push((p, all.len()));
            }
            all.push((op, digest(&got)));
            // the first ones again, now and then
            if k % 50 == 49 {
                let o = tc.rng.pick(&reps).clone();
                if !again(tc, &format!("after {k} different operations"), &o) {
                    return;
                }
            }
        }
        tc.max("different queries alive", keep.len() as u64);
        // all of them again, the objects too, in another order
        tc.rng.shuffle(&mut keep);
        for (p, j) in &keep {
            let (op, h) = &all[*j];
            if op.k != 1 {
                continue;
            }
            tc.ev();
            let got = caught(|| evaluate(p, &op.d));
            if digest(&got) != *h {
                let want = alone(op).map(|x| x.1).unwrap_or_default();
                mismatch(tc, "the second time", op, &got, &want);
                return;
            }
            tc.nontrivial(mix(*h ^ *j as u64));
        }
        // half of them dropped, the others must not mind
        while keep.len() > many / 2 {
            keep.pop();
        }
        for (p, j) in keep.iter().take(200) {
            let (op, h) = &all[*j];
            if op.k == 1 && digest(&caught(|| evaluate(p, &op.d))) != *h {
                mismatch(tc, "after others were dropped", op, "", "");
                return;
            }
        }
        for o in &reps {
            if !again(tc, "after many others", o) {
                return;
            }
        }
    }));
    // the same thing over and over
    let often = if c.thorough { 400_000 } else { 70_000 };
    let tiny = [
        ("$.a", 1), ("$[?@.a==1]", 1), ("$[?length(@.b)>1]", 1), ("$[?@.a", 0), ("$[?nosuch(@)]", 0), ("$..a", 3), ("$[?@[?@.a]]", 2), ("$['\\u00e9\\n']", 0), ("$[?value(@.a)==1]", 1), ("$[::-1]", 1), ("$[1:2,0,*]", 3), ("$[?!(@.a&&@.b)||@.a>0]", 1), ("$[?match(@.b,'xy')]", 1), ("$[?boom(@.c)]", 1), ("$[?reenter('$.b.a')==1]", 1), ("$[?idl(@.a==1&&@.b)]", 1),
    ];
    sections.push(sec("over and over", tiny.len() as u64, move |tc, i| {
        let (t, k) = tiny[i as usize];
        let op = Op { k, t: t.into(), d: json!([{"a": 1, "b": "xyz", "c": "boom"}, {"a": 2, "b": "xy"}]) };
        let Some((h, want)) = alone(&op) else { return };
        let n = if t.contains("match") || t.contains("boom") || t.contains("reenter") { often / 3 } else { often };
        let p = JsonPath::parse(t).ok();
        let first = p.as_ref().map(|p| digest(&caught(|| evaluate(p, &op.d))));
        for j in 0..n {
            let got = outcome(&op);
            if digest(&got) != h {
                mismatch(tc, &format!("repetition {j}"), &op, &got, &want);
                return;
            }
            if let (Some(p), true) = (&p, j % 4 == 0) {
                let g = caught(|| evaluate(p, &op.d));
                if Some(digest(&g)) != first {
                    mismatch(tc, &format!("evaluation {j} of one object"), &op, &g, "");
                    return;
                }
            }
        }
        tc.evn(n);
        tc.nontrivial(h ^ i);
        tc.max("repetitions", n);
    }).cpu(120));
    // one process, threads that share objects
    sections.push(sec("threads", c.n(60, 1500), |tc, i| {
        let ops = known_ops(tc, 30);
        let seed = tc.rng.next();
        let raw: Vec<(Op, u64)> = ops.iter().map(|o| (o.0.clone(), o.1)).collect();
        let n = [4, 8, 16, 32][i as usize % 4];
        let r = race(&raw, n, 3, seed);
        tc.evn(r.runs);
        tc.add("thread switches between operations", r.switches);
        tc.nontrivial(r.signature);
        tc.max("threads", n as u64);
        if let Some((k, got, who)) = r.bad.into_iter().next() {
            mismatch(tc, &who, &ops[k].0, &got, &ops[k].2);
            return;
        }
        // and it is as before afterwards
        for o in &ops {
            if !again(tc, "after threads", o) {
                return;
            }
        }
    }).threads(2));
    // processes whose first use of the library is by threads at the same moment
    sections.push(sec("first use", c.n(240, 6000), |tc, i| {
        let mut ops = known_ops(tc, 6);
        // something with functions first
        let d = json!([{"a": "xy", "b": [1, 2]}, {"a": "x", "b": []}]);
        let first = ["$[?length(@.a)==2]", "$[?match(@.a,'x.')]", "$[?count(@.b.*)>1]", "$[?idv(@.a)=='x']", "$[?search(@.a,'y')||value(@.b[0])==1]", "$[?length(@.a)==2&&reenter('$[?count(@)==1]')>0]", "$[?length(@.a,1)==2]", "$[?nosuch(@.a)]"];
        let op = Op { k: (i % 2) as u8, t: first[i as usize % first.len()].into(), d };
        let Some((h, t)) = alone(&op) else { return };
        ops.insert(0, (op, h, t));
        let threads = 2 + tc.rng.below(20);
        let seed = tc.rng.next() & !1 | (i & 1);
        let e = run_race(&race_json(&ops, threads, 1, seed), None, &[], 60);
        tc.count("processes");
        report_race(tc, &ops, e);
    }).threads(4));
    // thousands of short-lived processes
    sections.push(sec("simultaneous first use", c.n(32, 600), |tc, i| {
        let d = json!([{"a": "xy", "b": [1, 2]}, {"a": "x", "b": []}]);
        let mut ops = vec![];
        for t in ["$[?length(@.a)==2]", "$[?match(@.a,'x.')]", "$[?count(@.b.*)>1]", "$[?idv(@.a)=='x']", "$[?search(@.a,'y')]", "$[?value(@.b[0])==1]", "$[?length(@.a,1)==2]", "$[?nosuch(@.a)]", "$[?value(@.b[1])<length(@.b)]", "$..[?idl(@.b[?@>1])]"] {
            for k in [0, 1, 3] {
                let op = Op { k, t: t.into(), d: d.clone() };
                if let Some((h, w)) = alone(&op) {
                    ops.push((op, h, w));
                }
            }
        }
        tc.rng.shuffle(&mut ops);
        let n = 150;
        let mut c = spawn_aux(&["stampede"], None);
        let mut w = c.stdin.take().unwrap();
        let line = json!({
            "processes": n, "seed": mix(tc.conf.seed ^ i).to_string(),
            "ops": ops.iter().map(|o| o.0.json()).collect::<Vec<_>>(),
            "want": ops.iter().map(|o| format!("{:x}", o.1)).collect::<Vec<_>>(),
        });
        let _ = w.write_all((line.to_string() + "\n").as_bytes());
        drop(w);
        let o = c.wait_with_output().unwrap();
        let Ok(v) = serde_json::from_slice::<Value>(&o.stdout) else {
            tc.count("processes that could not be started");
            return;
        };
        tc.evn(v["runs"].as_u64().unwrap_or(0));
        tc.add("processes forked", n);
        tc.add("distinct orders of completion, each first use", v["orders"].as_u64().unwrap_or(0));
        tc.nontrivial(mix(i));
        for b in v["bad"].as_array().into_iter().flatten() {
            let o = &ops[b[0].as_u64().unwrap() as usize];
            mismatch(tc, &format!("first use by several threads at the same moment, {}", b[2].as_str().unwrap_or("")), &o.0, b[1].as_str().unwrap_or(""), &o.2);
            return;
        }
    }).threads(2));
    // the library is used while thread-local data of the thread is already being destroyed
    sections.push(sec("ending threads", c.n(60, 800), |tc, _| {
        let ops = Arc::new(known_ops(tc, 8));
        struct AtExit(Arc<Vec<(Op, u64, String)>>, Arc<Mutex<Vec<(usize, String)>>>);
        impl Drop for AtExit {
            fn drop(&mut self) {
                for (i, o) in self.0.iter().enumerate() {
                    let g = outcome(&o.0);
                    if let Ok(mut v) = self.1.lock() {
                        v.push((i, g));
                    }
                }
            }
        }
        thread_local! {
            static EARLY: RefCell<Option<AtExit>> = const { RefCell::new(None) };
            static LATE: RefCell<Option<AtExit>> = const { RefCell::new(None) };
        }
        let res = Arc::new(Mutex::new(vec![]));
        let (o2, r2) = (ops.clone(), res.clone());
        let j = std::thread::spawn(move || {
            EARLY.with(|e| *e.borrow_mut() = Some(AtExit(o2.clone(), r2.clone())));
            for o in o2.iter() {
                outcome(&o.0);
            }
            LATE.with(|e| *e.borrow_mut() = Some(AtExit(o2, r2)));
        });
        if j.join().is_err() {
            tc.fail("a thread panicked while ending", Value::Null);
            return;
        }
        for (i, got) in res.lock().unwrap().iter() {
            tc.ev();
            if digest(got) != ops[*i].1 {
                let o = ops[*i].clone();
                mismatch(tc, "in a thread that is ending", &o.0, got, &o.2);
                return;
            }
            tc.nontrivial(ops[*i].1);
        }
        tc.count("threads ended");
    }));
    Check {
        rule: "every outcome is compared with the outcome of the same operation as the first one of a freshly forked process; non-trivial = distinct histories, distinct interleavings of the threads' operations (order of completion), distinct operations repeated",
        assumptions: vec![
            "outcomes are compared as texts (locations, pointers, values, displayed queries, errors), and the address of each node with the one its location leads to at that moment",
            "interleavings are those that the scheduler, yields and short sleeps give, not all; ThreadSanitizer sees races between any two accesses of the runs it observes",
        ],
        sections,
        need: vec!["fresh processes", "operations with a result", "thread switches between operations", "processes", "threads ended"],
    }
}

/// the same races under ThreadSanitizer
pub fn extra(conf: &Conf) -> Result<(Map<String, Value>, Vec<Value>), String> {
    let b = Command::new(format!("{}/bin/build", conf.verif)).arg("tsan").output().map_err(|e| e.to_string())?;
    if !b.status.success() {
        return Err(format!("the build with ThreadSanitizer failed: {}", String::from_utf8_lossy(&b.stderr)));
    }
    let exe = String::from_utf8_lossy(&b.stdout).trim().to_string();
    let mut m = Map::new();
    let mut tc = Tc::new(conf);
    tc.sec = "ThreadSanitizer";
    std::env::set_var("TSAN_OPTIONS", "exitcode=0 halt_on_error=0 report_bugs=1 history_size=4");
    let n = if conf.thorough { 200 } else { 16 };
    let (mut runs, mut reports, mut races, mut why) = (0u64, vec![], 0, vec![]);
    for i in 0..n {
        tc.rng = Rng::new(mix(conf.seed) ^ mix(i + 4242));
        tc.idx = i;
        let ops = known_ops(&mut tc, 14);
        let threads = [2, 4, 8, 12][i as usize % 4];
        match run_race(&race_json(&ops, threads, 2, i), Some(&exe), &[], 240) {
            Ended::Done(v, err) => {
                races += 1;
                runs += v["runs"].as_u64().unwrap_or(0);
                if err.contains("WARNING: ThreadSanitizer") {
                    reports.push(clip(err));
                } else if let Some(b) = v["bad"].as_array().and_then(|b| b.first()) {
                    reports.push(format!("different outcome under ThreadSanitizer: {b}"));
                }
            }
            Ended::Blocked => reports.push("all threads blocked".into()),
            // the tool itself can be unable to run here
            Ended::Crashed(w) | Ended::Unclear(w) => why.push(w.chars().take(200).collect::<String>()),
        }
    }
    m.insert("thread_sanitizer".into(), json!({"processes": races, "operations": runs, "reports": reports.len(), "not_run": why.iter().take(3).collect::<Vec<_>>()}));
    Ok((
        m,
        reports
            .into_iter()
            .take(2)
            .map(|r| json!({"section": "ThreadSanitizer", "index": 0, "msg": format!("ThreadSanitizer: {}", r.chars().take(500).collect::<String>()), "detail": {"report": r}}))
            .collect(),
    ))
}
