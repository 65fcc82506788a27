//! The same workload in several builds of the library.
use super::c14::{exact, family, outcome, Op};
use super::common::*;
use crate::gen;
use crate::rng::{hash_bytes, mix, Rng};
use crate::run::*;
use serde_json::{json, Map, Value};
use serde_json_path::JsonPath;
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, Write};
use std::process::{Command, Stdio};

/// the value's text with sorted members, whatever the order in which the map keeps them
fn sorted(v: &Value, o: &mut String) {
    match v {
        Value::Array(a) => {
            o.push('[');
            for x in a {
                sorted(x, o);
                o.push(',');
            }
            o.push(']');
        }
        Value::Object(m) => {
            o.push('{');
            let mut k: Vec<_> = m.iter().collect();
            k.sort_by_key(|x| x.0);
            for (k, x) in k {
                o.push_str(&format!("{k:?}:"));
                sorted(x, o);
                o.push(',');
            }
            o.push('}');
        }
        v => o.push_str(&v.to_string()),
    }
}
/// what must not depend on the order of members
fn unordered(op: &Op) -> String {
    match guarded(|| {
        let p = match JsonPath::parse(&op.t) {
            Ok(p) => p,
            Err(e) => return format!("error {e}"),
        };
        let mut a: Vec<String> = p
            .query_located(&op.d)
            .iter()
            .map(|n| {
                let mut s = n.location().to_string();
                s.push(' ');
                sorted(n.node(), &mut s);
                s
            })
            .collect();
        let mut b: Vec<String> = p
            .query(&op.d)
            .iter()
            .map(|n| {
                let mut s = String::new();
                sorted(n, &mut s);
                s
            })
            .collect();
        let d: Vec<String> = p.query_located(&op.d).dedup().iter().map(|n| n.location().to_string()).collect();
        a.sort();
        b.sort();
        format!("{p} {a:?} {b:?} {d:?}")
    }) {
        Ok(s) => s,
        Err((m, _)) => format!("PANIC {m}"),
    }
}
fn result(op: &Op) -> String {
    if op.k == 9 {
        unordered(op)
    } else {
        outcome(op)
    }
}

/// runs the operations on stdin
pub fn transcript() -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(|| {
            let mut out = std::io::BufWriter::new(std::io::stdout());
            for l in std::io::stdin().lock().lines() {
                let Ok(l) = l else { break };
                let op = Op::from(&serde_json::from_str(&l).unwrap());
                let o = result(&op);
                let _ = writeln!(out, "{}", json!([format!("{:x}", hash_bytes(o.as_bytes())), clip(o)]));
            }
            #[cfg(feature = "trace")]
            {
                use std::sync::atomic::Ordering::Relaxed;
                let _ = writeln!(out, "{}", json!({"spans": crate::trace::SPANS.load(Relaxed), "events": crate::trace::EVENTS.load(Relaxed)}));
            }
            let _ = out.flush();
        })
        .unwrap()
        .join()
        .map_or(3, |_| 0)
}

/// the JSON text of an operation, members of its document in a random order
fn shuffled(op: &Op, r: &mut Rng) -> String {
    fn w(v: &Value, r: &mut Rng, o: &mut String) {
        match v {
            Value::Array(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    w(x, r, o);
                }
                o.push(']');
            }
            Value::Object(m) => {
                let mut k: Vec<_> = m.iter().collect();
                r.shuffle(&mut k);
                o.push('{');
                for (i, (k, x)) in k.into_iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push_str(&Value::String(k.clone()).to_string());
                    o.push(':');
                    w(x, r, o);
                }
                o.push('}');
            }
            v => o.push_str(&v.to_string()),
        }
    }
    let mut o = format!("{{\"k\":{},\"t\":{},\"d\":", op.k, Value::String(op.t.clone()));
    w(&exact(&op.d), r, &mut o);
    o.push('}');
    o
}
/// names followed by a parenthesis, and those that are mentioned anywhere
fn called(t: &str) -> HashSet<String> {
    let mut s = HashSet::new();
    let mut w = String::new();
    for c in t.chars() {
        if c.is_ascii_alphanumeric() || c == '_' {
            w.push(c);
        } else {
            if c == '(' && !w.is_empty() {
                s.insert(w.clone());
            }
            w.clear();
        }
    }
    s
}
/// needs the regex feature, needs custom functions
pub(super) fn needs(t: &str) -> (bool, bool) {
    let c = called(t);
    let std = ["length", "count", "value", "match", "search"];
    let rx = t.contains("match") || t.contains("search");
    // anything unknown, or the tail of a longer name, counts as custom
    (rx, c.iter().any(|n| !std.contains(&n.as_str()) && crate::funcs::sig(n).is_some()))
}

fn workload(conf: &Conf) -> Vec<Op> {
    let mut v = vec![];
    for i in 0..conf.n(900, 8000) {
        let mut r = Rng::new(mix(conf.seed ^ mix(i + 150_000)));
        v.extend(family(&mut r, 8));
        // documents with many members, and the same operations apart from the order
        for _ in 0..3 {
            let d = gen::small(&mut r, 4);
            let q = gen::gen_query(&mut r, &d, if i % 2 == 0 { &gen::FULL } else { &gen::PLAIN });
            if super::common::affordable(&q, &d, 8_000) {
                v.push(Op::new(1 + r.below(3) as u8, crate::render::varied(&mut r, &q), d));
            }
        }
    }
    v
}

struct Build {
    name: &'static str,
    exe: String,
    /// how a subscriber listens
    sub: &'static str,
    regex: bool,
    functions: bool,
    order: bool,
}

enum Built {
    Exe(String),
    Rejected(String),
    Failed(String),
}
fn build(conf: &Conf, cfg: &str) -> Built {
    let b = match Command::new(format!("{}/bin/build", conf.verif)).arg(cfg).output() {
        Ok(b) => b,
        Err(e) => return Built::Failed(e.to_string()),
    };
    if b.status.success() {
        return Built::Exe(String::from_utf8_lossy(&b.stdout).trim().to_string());
    }
    let e = String::from_utf8_lossy(&b.stderr).to_string();
    if e.contains("could not compile `serde_json_path") {
        Built::Rejected(e)
    } else {
        Built::Failed(e)
    }
}

/// lines and exit state of a process that gets these operations
fn play(b: &Build, lines: &[String]) -> Result<(Vec<(String, String)>, Value), String> {
    use std::os::unix::process::CommandExt;
    let mut c = Command::new(&b.exe);
    c.args(["aux", "transcript"]).env("VH_SUBSCRIBER", b.sub).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            let z = libc::rlimit { rlim_cur: 500, rlim_max: 510 };
            libc::setrlimit(libc::RLIMIT_CPU, &z);
            Ok(())
        })
    };
    let mut ch = c.spawn().map_err(|e| e.to_string())?;
    let mut i = ch.stdin.take().unwrap();
    let text = lines.join("\n") + "\n";
    let w = std::thread::spawn(move || {
        let _ = i.write_all(text.as_bytes());
    });
    let o = ch.wait_with_output().map_err(|e| e.to_string())?;
    let _ = w.join();
    let mut v = vec![];
    let mut last = Value::Null;
    for l in String::from_utf8_lossy(&o.stdout).lines() {
        match serde_json::from_str::<Value>(l) {
            Ok(Value::Array(a)) if a.len() == 2 => v.push((a[0].as_str().unwrap_or("").to_string(), a[1].as_str().unwrap_or("").to_string())),
            Ok(x) => last = x,
            Err(_) => {}
        }
    }
    if v.len() != lines.len() || !o.status.success() {
        return Err(format!("{} of {} operations answered, then {:?}", v.len(), lines.len(), o.status));
    }
    Ok((v, last))
}
/// in several processes
fn play_all(b: &Build, lines: &[String]) -> Result<(Vec<(String, String)>, u64), (usize, String)> {
    let n = lines.len().div_ceil(8).max(1);
    let parts: Vec<_> = std::thread::scope(|s| {
        let h: Vec<_> = lines.chunks(n).map(|c| s.spawn(move || play(b, c))).collect();
        h.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut v = vec![];
    let mut events = 0;
    for (i, p) in parts.into_iter().enumerate() {
        match p {
            Ok((x, l)) => {
                v.extend(x);
                events += l["events"].as_u64().unwrap_or(0);
            }
            Err(e) => {
                // which operation is it?
                let part = &lines[i * n..(i * n + n).min(lines.len())];
                for (k, l) in part.iter().enumerate() {
                    if play(b, std::slice::from_ref(l)).is_err() && play(b, std::slice::from_ref(l)).is_err() {
                        return Err((i * n + k, e));
                    }
                }
                return Err((usize::MAX, e));
            }
        }
    }
    Ok((v, events))
}

/// the sections of another check in another build
fn other(conf: &Conf, b: &Build, id: &str, slice: u64) -> Result<Value, String> {
    use std::os::unix::process::CommandExt;
    let dir = format!("{}/evidence/run-C15-{}", conf.verif, std::process::id());
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let (of, cf) = (format!("{dir}/o-{}-{id}", b.name), format!("{dir}/c-{}-{id}", b.name));
    let _ = Crumbs::open(&cf, true);
    let mut c = Command::new(&b.exe);
    c.args([id, "--tier", "quick", "--seed", &conf.seed.to_string(), "--verif", &conf.verif, "--deadline", "120", "--slice", &slice.to_string()])
        .args(["--worker", &of, &cf])
        .env("VH_SUBSCRIBER", b.sub)
        .stdout(Stdio::null())
        .stderr(Stdio::null());
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            Ok(())
        })
    };
    let mut ch = c.spawn().map_err(|e| e.to_string())?;
    let t0 = std::time::Instant::now();
    let st = loop {
        match ch.try_wait().map_err(|e| e.to_string())? {
            Some(s) => break Some(s),
            None if t0.elapsed().as_secs() > 300 => {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            None => std::thread::sleep(std::time::Duration::from_millis(20)),
        }
    };
    let r = std::fs::read_to_string(&of).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok());
    let _ = std::fs::remove_file(&of);
    let _ = std::fs::remove_file(&cf);
    match (st, r) {
        (Some(s), Some(r)) if s.success() => Ok(r),
        (None, _) => Ok(json!({"slow": true, "fails": []})),
        (Some(s), _) => Err(format!("the process ended with {s:?}")),
    }
}

pub fn check(_: &Conf) -> Check {
    Check {
        rule: "an operation (query text, document and way of running it) with a non-empty result",
        assumptions: vec![
            "features are those of serde_json_path and the map implementation of serde_json",
            "a failure that the build with default features shows as well is no matter of this property",
        ],
        sections: vec![],
        need: vec![],
    }
}

pub fn extra(conf: &Conf) -> Result<(Map<String, Value>, Vec<Value>), String> {
    let r = all(conf);
    let _ = std::fs::remove_dir_all(format!("{}/evidence/run-C15-{}", conf.verif, std::process::id()));
    r
}
fn all(conf: &Conf) -> Result<(Map<String, Value>, Vec<Value>), String> {
    let main = Build { name: "main", exe: std::env::current_exe().unwrap().display().to_string(), sub: "", regex: true, functions: true, order: false };
    // name of the build, subscriber, what it has, checks to repeat in it
    type Row = (&'static str, &'static str, bool, bool, bool, &'static [&'static str]);
    let mut rows: Vec<Row> = vec![
        ("trace", "", true, true, false, &["C01", "C02", "C03", "C04", "C05", "C08", "C09", "C13", "C18"]),
        ("trace", "all", true, true, false, &["C03", "C05", "C06", "C10", "C12", "C18"]),
        ("trace", "some", true, true, false, &["C05", "C10"]),
        ("noregex", "", false, true, false, &["C02", "C04", "C05", "C08", "C10", "C13", "C18"]),
        ("nofunc", "", true, false, false, &["C02", "C03", "C04", "C05", "C08", "C10", "C18"]),
        ("bare", "", false, false, false, &["C02", "C03", "C04", "C05", "C08", "C10", "C18"]),
        ("order", "", true, true, true, &["C01", "C02", "C03", "C04", "C08", "C09", "C10", "C11", "C12", "C13"]),
    ];
    if conf.thorough {
        rows.extend([
            ("tracebare", "all", false, false, false, &["C05", "C06", "C10", "C18"] as &[_]),
            ("ordertrace", "all", true, true, true, &["C03", "C06", "C10", "C12"] as &[_]),
            ("orderbare", "", false, false, true, &["C01", "C02", "C04", "C08", "C09", "C11"] as &[_]),
        ]);
    }
    let ops = workload(conf);
    let mut unord: Vec<Op> = vec![];
    for o in &ops {
        if !needs(&o.t).1 {
            unord.push(o.with(9));
        }
    }
    let plain = |ops: &[Op]| -> Vec<String> { ops.iter().map(|o| o.json().to_string()).collect() };
    let lines = plain(&ops);
    let ulines = plain(&unord);
    let base = play_all(&main, &lines).map_err(|e| format!("transcript of the default build: {e:?}"))?.0;
    let ubase = play_all(&main, &ulines).map_err(|e| format!("transcript of the default build: {e:?}"))?.0;
    let mut fails: Vec<Value> = vec![];
    let mut fail = |what: String, cfg: &str, i: usize, d: Value| {
        fails.push(json!({"section": cfg, "index": i, "msg": what, "detail": d}));
    };
    let (mut total, mut nontrivial) = (0u64, HashSet::new());
    for (o, b) in ops.iter().zip(&base) {
        if !b.1.starts_with("error") && b.1 != "--\n" {
            nontrivial.insert(mix(hash_bytes(o.json().to_string().as_bytes())));
        }
    }
    let mut per = vec![];
    let mut samples = vec![];
    let mut built: BTreeMap<&str, Option<String>> = BTreeMap::new();
    let mut in_main: BTreeMap<String, bool> = BTreeMap::new();
    for (cfg, sub, regex, functions, order, checks) in rows {
        let label = if sub.is_empty() { cfg.to_string() } else { format!("{cfg}+subscriber({sub})") };
        if !built.contains_key(cfg) {
            let e = match build(conf, cfg) {
                Built::Exe(e) => Some(e),
                Built::Rejected(e) => {
                    fail(format!("the library does not compile in configuration {cfg}"), &label, 0, json!({"error": clip(e)}));
                    None
                }
                Built::Failed(e) => return Err(format!("build {cfg}: {e}")),
            };
            built.insert(cfg, e);
        }
        let Some(exe) = built[cfg].clone() else { continue };
        let b = Build { name: cfg, exe, sub, regex, functions, order };
        let t0 = std::time::Instant::now();
        let (mut same, mut absent, mut unord_n) = (0u64, 0u64, 0u64);
        let mut events = 0;
        // the transcript
        match play_all(&b, &lines) {
            Ok((got, ev)) => {
                events += ev;
                for (i, (g, w)) in got.iter().zip(&base).enumerate() {
                    let (rx, cf) = needs(&ops[i].t);
                    let missing = (rx && !b.regex) || (cf && !b.functions);
                    let rejected = |s: &str| s.starts_with("error");
                    total += 1;
                    let bad = if !missing {
                        same += 1;
                        g != w
                    } else {
                        absent += 1;
                        // what was rejected stays rejected; what used the missing function is now
                        let names = called(&strip_strings(&ops[i].t));
                        let gone = names.iter().any(|n| (!b.regex && (n == "match" || n == "search")) || (!b.functions && !["length", "count", "value", "match", "search"].contains(&n.as_str())));
                        (rejected(&w.1) || gone) && !rejected(&g.1)
                    };
                    if bad {
                        fail(
                            format!("{} on {} in configuration {label}: {}, but in the default one {}", clip(ops[i].t.clone()), clip(ops[i].d.to_string().chars().take(200).collect()), g.1.chars().take(300).collect::<String>(), w.1.chars().take(300).collect::<String>()),
                            &label,
                            i,
                            json!({"operation": ops[i].json(), "got": g.1, "default": w.1}),
                        );
                    }
                }
                if samples.len() < 12 {
                    samples.push(json!({"configuration": label, "query": ops[17].t, "outcome": got[17].1.chars().take(200).collect::<String>()}));
                }
            }
            Err((usize::MAX, e)) => return Err(format!("transcript in {label}: {e}")),
            Err((i, e)) => fail(format!("{} on {} in configuration {label}: {e}; the default one answers", clip(ops[i].t.clone()), show(&ops[i].d)), &label, i, json!({"operation": ops[i].json()})),
        }
        if b.order {
            // members in an order of their own
            let sh: Vec<String> = unord.iter().enumerate().map(|(i, o)| shuffled(o, &mut Rng::new(mix(conf.seed ^ (i as u64 + 7))))).collect();
            match play_all(&b, &sh) {
                Ok((got, _)) => {
                    for (i, (g, w)) in got.iter().zip(&ubase).enumerate() {
                        let (rx, cf) = needs(&unord[i].t);
                        if (rx && !b.regex) || (cf && !b.functions) {
                            continue;
                        }
                        total += 1;
                        unord_n += 1;
                        if g != w {
                            fail(
                                format!("{} on {sh} in configuration {label}: {} but {}", clip(unord[i].t.clone()), g.1.chars().take(300).collect::<String>(), w.1.chars().take(300).collect::<String>(), sh = clip(sh[i].clone()).chars().take(300).collect::<String>()),
                                &label,
                                i,
                                json!({"operation": sh[i], "got": g.1, "default": w.1}),
                            );
                        }
                    }
                }
                Err((usize::MAX, e)) => return Err(format!("transcript in {label}: {e}")),
                Err((i, e)) => fail(format!("{} in configuration {label}: {e}", sh[i]), &label, i, Value::Null),
            }
        }
        // other checks in this build
        let slice = if conf.thorough { 1500 } else { 120 };
        let mut ran = Map::new();
        for id in checks {
            let r = other(conf, &b, id, slice).or_else(|_| other(conf, &b, id, slice));
            let (n, msg) = match &r {
                Ok(v) => {
                    events += v["counts"]["trace events"].as_u64().unwrap_or(0);
                    (v["evaluations"].as_u64().unwrap_or(0), v["fails"][0]["msg"].as_str().map(|s| s.to_string()))
                }
                Err(e) => (0, Some(e.clone())),
            };
            ran.insert(id.to_string(), n.into());
            total += n;
            if let Some(m) = msg {
                // the same without the configuration?
                let ok = *in_main.entry(id.to_string()).or_insert_with(|| (0..2).all(|_| matches!(other(conf, &main, id, slice * 4), Ok(v) if v["fails"].as_array().is_some_and(|f| f.is_empty()))));
                if !ok {
                    ran.insert(format!("{id} fails by default, too"), m.into());
                } else if m.starts_with("HARNESS") {
                    return Err(format!("{id} in {label}: {m}"));
                } else {
                    fail(format!("check {id} in configuration {label}, but not in the default one: {m}"), &label, 0, r.unwrap_or(Value::Null)["fails"].clone());
                }
            }
        }
        if sub == "all" && events == 0 {
            return Err("the subscriber saw no event".into());
        }
        per.push(json!({"configuration": label, "operations compared": same, "operations that need what is missing": absent, "operations on reordered documents": unord_n, "trace events": events, "executions in other checks": ran, "wall_s": t0.elapsed().as_secs_f64()}));
    }
    if nontrivial.len() < 100 {
        return Err("hardly any operation had a result".into());
    }
    let mut m = Map::new();
    m.insert("evaluations".into(), total.into());
    m.insert("distinct_nontrivial".into(), nontrivial.len().into());
    m.insert("configurations".into(), json!(per));
    m.insert("samples".into(), json!(samples));
    Ok((m, fails))
}
fn strip_strings(t: &str) -> String {
    let mut o = String::new();
    let mut q = None;
    let mut esc = false;
    for c in t.chars() {
        match q {
            Some(e) => {
                if esc {
                    esc = false
                } else if c == '\\' {
                    esc = true
                } else if c == e {
                    q = None;
                    o.push(c);
                }
            }
            None => {
                o.push(c);
                if c == '\'' || c == '"' {
                    q = Some(c);
                }
            }
        }
    }
    o
}
