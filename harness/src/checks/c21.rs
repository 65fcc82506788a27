//! Other platforms and other schedules, interpreted by Miri.
use super::c14::{quote, Op};
use super::common::*;
use crate::gen;
use crate::render;
use crate::rng::{hash_bytes, mix, Rng};
use crate::run::*;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const FAST: &str = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-disable-alignment-check -Zmiri-disable-data-race-detector";

pub fn check(_: &Conf) -> Check {
    Check {
        rule: "an operation with an outcome that is neither an error nor empty, on a platform or under a schedule",
        assumptions: vec!["Miri's model of the platforms (pointer size, byte order, memory model, scheduler) is that of Rust", "the outcomes of the native build are those that the other checks judge"],
        sections: vec![],
        need: vec![],
    }
}

/// integers at which types of 32 and 64 bits end
fn ends() -> Vec<i128> {
    let mut v: Vec<i128> = vec![0, 1, 2, 3, 5, 6, 7, 127, 128, 255, 256, 32767, 32768, 65535, 65536];
    for p in [31, 32, 33, 52, 53, 62, 63, 64, 65] {
        for d in -2..=3 {
            v.push((1i128 << p) + d);
        }
    }
    let n: Vec<i128> = v.iter().map(|x| -x).collect();
    v.extend(n);
    v
}
const MAXI: i128 = (1 << 53) - 1;

/// what may be different elsewhere
fn directed(r: &mut Rng) -> Op {
    let all = ends();
    let valid: Vec<i128> = all.iter().copied().filter(|x| x.abs() <= MAXI).collect();
    let arr = |r: &mut Rng| -> Value {
        let n = r.below(7);
        json!((0..n).map(|i| if r.chance(1, 4) { json!([i, [i + 1], {"a": i}]) } else { json!(i) }).collect::<Vec<_>>())
    };
    let int = |r: &mut Rng| -> i128 {
        if r.chance(1, 3) {
            r.below(9) as i128 - 4
        } else {
            *r.pick(&valid)
        }
    };
    let opt = |r: &mut Rng| -> String { if r.chance(1, 3) { String::new() } else { int(r).to_string() } };
    match r.below(14) {
        0 | 1 => Op::new(1, format!("$[{},{}]", int(r), int(r)), arr(r)),
        2 | 3 => Op::new(1 + 2 * r.below(2) as u8, format!("$[{}:{}:{}]", opt(r), opt(r), opt(r)), arr(r)),
        4 => Op::new(1, format!("$..[{}::{}]", opt(r), opt(r)), arr(r)),
        5 => Op::new(1, format!("$[?@[{}] {} {}]", r.pick(&valid).abs(), r.pick(&["==", "!=", "<", ">="]), r.below(3)), arr(r)),
        6 => Op::new(1, format!("$[?plat_first(@[{}]) == {}]", opt(r).trim_start_matches('-').parse::<i128>().unwrap_or(0), r.below(3)), arr(r)),
        // verdicts
        7 => Op::new(0, format!("$[{}]", *r.pick(&all)), Value::Null),
        8 => Op::new(0, format!("$[{}:{}:{}]", *r.pick(&all), *r.pick(&valid), *r.pick(&valid)), Value::Null),
        // numbers
        9 => {
            let big: Vec<Value> = all.iter().filter_map(|x| i64::try_from(*x).map(|x| json!(x)).or_else(|_| u64::try_from(*x).map(|x| json!(x))).ok()).collect();
            let d: Vec<Value> = (0..5).map(|_| if r.chance(1, 4) { json!(f64::from_bits(0x41e0_0000_0000_0000 + r.below(64) as u64)) } else { r.pick(&big).clone() }).collect();
            let lit = r.pick(&d).clone();
            let lit = if r.chance(1, 4) { "1e9".to_string() } else { lit.to_string() };
            Op::new(1, format!("$[?@ {} {lit}]", r.pick(&["==", "!=", "<", "<=", ">"])), json!(d))
        }
        10 => {
            let s: Vec<Value> = (0..4).map(|_| json!(gen::string(r))).collect();
            Op::new(1, format!("$[?length(@) {} {}, {}]", r.pick(&["==", "<", ">"]), r.below(5), quote(s[0].as_str().unwrap())), json!(s))
        }
        11 => Op::new(1, format!("$[?plat_many(@.*)||count(@..*)=={}||plat_sum(@[0],{})==1]", r.below(4), int(r)), json!([arr(r), arr(r), {"a": arr(r)}])),
        12 => Op::new(2, format!("$['{}',{},\"{}\"]", r.pick(&["a", "\\ud83d\\ude00", "\\u00e9\\n", "\\uffff", "\\ud7ff"]), int(r), r.pick(&["\u{1F600}", "é", "\\/"])), json!({"\u{1F600}": 1, "é\n": 2, "\u{ffff}": [3], "a": 4, "é": 5, "/": 6, "\u{d7ff}": 7})),
        _ => Op::new(9, format!("{} {}", *r.pick(&all), *r.pick(&all)), Value::Null),
    }
}
fn random(r: &mut Rng) -> Option<Op> {
    let d = gen::small(r, 3);
    let q = gen::gen_query(r, &d, &gen::FULL);
    let t = render::varied(r, &q);
    let (rx, custom) = super::c15::needs(&t);
    // regular expressions take seconds
    if custom || t.len() > 120 || (rx && !r.chance(1, 12)) || d.to_string().len() > 300 || !affordable(&q, &d, 120) {
        return None;
    }
    let k = r.below(4) as u8;
    // some are damaged
    if r.chance(1, 5) {
        return Some(Op::new(0, super::c05::mutate_text(r, &t, &super::c05::gaps()), Value::Null));
    }
    Some(Op::new(k, t, d))
}
fn workload(seed: u64, n: usize) -> Vec<Op> {
    let mut v = vec![];
    let mut i = 0;
    while v.len() < n {
        let mut r = Rng::new(mix(seed ^ mix(i + 21_000_000)));
        i += 1;
        if i % 5 < 3 {
            v.push(directed(&mut r));
        } else if let Some(o) = random(&mut r) {
            v.push(o);
        }
    }
    v
}

struct Done {
    ok: bool,
    out: Vec<Value>,
    err: String,
    late: bool,
}
fn run(mut c: Command, lines: &[String], limit: Duration) -> Result<Done, String> {
    use std::os::unix::process::CommandExt;
    c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    unsafe {
        c.pre_exec(|| {
            libc::setpgid(0, 0);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            Ok(())
        })
    };
    let mut ch = c.spawn().map_err(|e| e.to_string())?;
    let mut i = ch.stdin.take().unwrap();
    let text = lines.join("\n") + "\n";
    let w = std::thread::spawn(move || {
        let _ = i.write_all(text.as_bytes());
    });
    let (mut o, mut e) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
    let ho = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = o.read_to_end(&mut s);
        s
    });
    let he = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = e.read_to_end(&mut s);
        s
    });
    let t0 = Instant::now();
    let mut late = false;
    let st = loop {
        match ch.try_wait().map_err(|e| e.to_string())? {
            Some(s) => break s,
            None if t0.elapsed() > limit => {
                late = true;
                // cargo, cargo-miri and the interpreter
                unsafe { libc::kill(-(ch.id() as i32), libc::SIGKILL) };
                break ch.wait().map_err(|e| e.to_string())?;
            }
            None => std::thread::sleep(Duration::from_millis(10)),
        }
    };
    let _ = w.join();
    let out = String::from_utf8_lossy(&ho.join().unwrap()).lines().filter_map(|l| serde_json::from_str(l).ok()).collect();
    Ok(Done { ok: st.success(), out, err: String::from_utf8_lossy(&he.join().unwrap()).to_string(), late })
}
fn plat(conf: &Conf, args: &[&str], flags: &str) -> Command {
    let mut c = Command::new(format!("{}/bin/plat", conf.verif));
    c.args(args).env("MIRIFLAGS", flags);
    c
}
fn trouble(err: &str) -> String {
    let i = err.find("error:").unwrap_or(0);
    err[i..].chars().take(900).collect()
}

pub fn extra(conf: &Conf) -> Result<(Map<String, Value>, Vec<Value>), String> {
    let targets: Vec<&str> = if conf.thorough {
        vec!["i686-unknown-linux-gnu", "s390x-unknown-linux-gnu", "powerpc-unknown-linux-gnu", "x86_64-unknown-linux-gnu"]
    } else {
        vec!["i686-unknown-linux-gnu", "s390x-unknown-linux-gnu"]
    };
    let mut names = vec!["native", "x86_64-unknown-linux-gnu"];
    names.extend(targets.iter().filter(|t| **t != "x86_64-unknown-linux-gnu"));
    let t0 = Instant::now();
    let built: Vec<Result<String, String>> = std::thread::scope(|s| {
        let h: Vec<_> = names
            .iter()
            .map(|t| {
                s.spawn(move || {
                    let o = plat(conf, &["build", t], "").output().map_err(|e| e.to_string())?;
                    if o.status.success() {
                        Ok(String::from_utf8_lossy(&o.stdout).trim().to_string())
                    } else {
                        Err(format!("{t}: {}", String::from_utf8_lossy(&o.stderr)))
                    }
                })
            })
            .collect();
        h.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let native = built[0].clone()?;
    let mut fails: Vec<Value> = vec![];
    for (b, t) in built.iter().zip(&names).skip(1) {
        if let Err(e) = b {
            // it compiles natively: is it the library that does not compile for this platform?
            if e.contains("could not compile `serde_json_path") {
                fails.push(json!({"section": t, "index": 0, "msg": format!("the library does not compile for {t}"), "detail": {"error": clip(e.clone())}}));
                return Ok((Map::from_iter([("evaluations".to_string(), json!(0)), ("distinct_nontrivial".to_string(), json!(0))]), fails));
            }
            return Err(e.clone());
        }
    }
    let build_s = t0.elapsed().as_secs_f64();

    // 1. the same outcomes on each platform
    let (time1, time2) = if conf.thorough { (330, 230) } else { (95, 60) };
    let ops = workload(conf.seed, if conf.thorough { 6000 } else { 1500 });
    let lines: Vec<String> = ops.iter().map(|o| o.json().to_string()).collect();
    let per = ops.len().div_ceil(8);
    let expected: Vec<Value> = {
        let parts: Vec<_> = std::thread::scope(|s| {
            let native = &native;
            let h: Vec<_> = lines
                .chunks(per)
                .map(|c| {
                    s.spawn(move || {
                        let mut m = Command::new(native);
                        m.arg("ops");
                        run(m, c, Duration::from_secs(120))
                    })
                })
                .collect();
            h.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut v = vec![];
        for p in parts {
            let p = p?;
            if !p.ok {
                return Err(format!("natively: {}", trouble(&p.err)));
            }
            v.extend(p.out);
        }
        v
    };
    if expected.len() != ops.len() {
        return Err("the native program did not answer everything".into());
    }
    const CHUNK: usize = 10;
    let next = AtomicUsize::new(0);
    let m: Mutex<(BTreeMap<String, u64>, HashSet<u64>, Vec<Value>, Option<String>, Vec<Value>)> = Mutex::default();
    let began = Instant::now();
    let mut jobs: Vec<(usize, &str, &str)> = vec![];
    for a in (0..ops.len()).step_by(CHUNK) {
        for (k, t) in targets.iter().enumerate() {
            // every eighth with all that Miri looks for
            jobs.push((a, t, if (a / CHUNK + k) % 8 == 7 { "-Zmiri-disable-isolation" } else { FAST }));
        }
    }
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let j = next.fetch_add(1, Ordering::Relaxed);
                if j >= jobs.len() || began.elapsed().as_secs() > time1 || m.lock().unwrap().2.len() > 20 {
                    return;
                }
                let (a, t, flags) = jobs[j];
                let b = (a + CHUNK).min(ops.len());
                let d = match run(plat(conf, &["run", t, "ops"], flags), &lines[a..b], Duration::from_secs(200)) {
                    Ok(d) => d,
                    Err(e) => {
                        m.lock().unwrap().3 = Some(e);
                        return;
                    }
                };
                let mut m = m.lock().unwrap();
                let what = |i: usize| format!("{} on {} (kind {}) on {t}", clip(ops[i].t.clone()), clip(ops[i].d.to_string().chars().take(200).collect()), ops[i].k);
                for (i, got) in (a..b).zip(&d.out) {
                    *m.0.entry(format!("operations on {t}")).or_default() += 1;
                    if *got != expected[i] {
                        m.2.push(json!({"section": t, "index": i, "msg": format!("{}: {got}, but natively {}", what(i), expected[i]).chars().take(900).collect::<String>(), "detail": {"operation": ops[i].json(), "got": got, "native": expected[i]}}));
                    } else {
                        let o = got.as_str().unwrap_or("");
                        if !o.starts_with("error") && o != "--\n" {
                            m.1.insert(hash_bytes(lines[i].as_bytes()) ^ hash_bytes(t.as_bytes()));
                        }
                        if m.4.len() < 12 && i % 7 == 3 {
                            let x = json!({"platform": t, "operation": ops[i].json(), "outcome": o.chars().take(200).collect::<String>()});
                            m.4.push(x);
                        }
                    }
                }
                if d.late {
                    *m.0.entry("processes that took too long".into()).or_default() += 1;
                } else if d.out.len() < b - a || !d.ok {
                    let i = (a + d.out.len()).min(b - 1);
                    let e = trouble(&d.err);
                    if e.contains("unsupported operation") || !e.contains("error:") && d.err.contains("cargo") {
                        m.3 = Some(e);
                    } else {
                        m.2.push(json!({"section": t, "index": i, "msg": format!("{}: {e}", what(i)), "detail": {"operation": ops[i].json(), "stderr": clip(d.err.clone())}}));
                    }
                }
            });
        }
    });
    let (mut counts, mut nontrivial, f, e, samples) = m.into_inner().unwrap();
    fails.extend(f);
    if let Some(e) = e {
        return Err(e);
    }
    let n1: u64 = counts.values().sum();

    // 2. undefined behaviour, races and schedules: small histories of several threads
    let next = AtomicUsize::new(0);
    let m: Mutex<(BTreeSet<String>, Vec<Value>, Option<String>, u64, BTreeMap<String, u64>, HashSet<u64>)> = Mutex::default();
    let began = Instant::now();
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let j = next.fetch_add(1, Ordering::Relaxed) as u64;
                if began.elapsed().as_secs() > time2 || m.lock().unwrap().1.len() > 5 {
                    return;
                }
                let mut r = Rng::new(mix(conf.seed ^ mix(j / 4 + 77_000)));
                let threads = 2 + r.below(2);
                let mut ops: Vec<Op> = vec![];
                while ops.len() < 3 {
                    match r.below(9) {
                        // what the registry, the types of functions and compiled expressions are needed for
                        0 => ops.push(Op::new(1, format!("$[?match(@,'{}')]", r.pick(&["a", "ab", "a|b", "[ab]"])), json!(["a"]))),
                        1..=3 => ops.push(Op::new(r.below(4) as u8, r.pick(&["$[?length(@)>1]", "$[?count(@.*)==1]", "$[?value(@.*)==1]", "$[?plat_many(@.*)]", "$[?unknown(@)]", "$[?search(@.a)]", "$[?match(@)]"]).to_string(), json!(["ab", {"a": 1}, [1, 2]]))),
                        4 | 5 => ops.push(directed(&mut r)),
                        _ => ops.extend(random(&mut r).filter(|o| !super::c15::needs(&o.t).0)),
                    }
                    ops.retain(|o| o.k != 9);
                }
                let lines: Vec<String> = ops.iter().map(|o| o.json().to_string()).collect();
                let mut mine = Rng::new(mix(conf.seed ^ mix(j + 990_000)));
                let flags = format!("-Zmiri-disable-isolation -Zmiri-seed={} -Zmiri-preemption-rate={}", mine.below(1 << 30), mine.pick(&["0", "0.003", "0.01", "0.1"]));
                // even: all threads do the same at the same time; without yields if it is divisible by four
                let mode = format!("threads{threads}.{}", mine.below(1 << 28) * 4 + if j % 3 == 0 { 0 } else { mine.below(4) });
                let t = if j % 4 == 3 { "i686-unknown-linux-gnu" } else { "x86_64-unknown-linux-gnu" };
                let mut one = Command::new(&native);
                one.arg("threads1.0");
                let (a, d) = match (run(one, &lines, Duration::from_secs(60)), run(plat(conf, &["run", t, &mode], &flags), &lines, Duration::from_secs(240))) {
                    (Ok(a), Ok(d)) => (a, d),
                    (Err(e), _) | (_, Err(e)) => {
                        m.lock().unwrap().2 = Some(e);
                        return;
                    }
                };
                let want: BTreeMap<u64, Value> = a.out.iter().filter_map(|x| Some((x[0].as_u64()?, x[1].clone()))).collect();
                let mut m = m.lock().unwrap();
                let what = format!("{mode} on {t} with {flags}");
                if d.late {
                    *m.4.entry("processes that took too long".into()).or_default() += 1;
                    continue;
                }
                if !d.ok {
                    let e = trouble(&d.err);
                    if e.contains("unsupported operation") || !e.contains("error:") && d.err.contains("cargo") {
                        m.2 = Some(e);
                    } else {
                        m.1.push(json!({"section": "schedules", "index": j, "msg": format!("{what}: {e}"), "detail": {"operations": lines, "mode": mode, "flags": flags, "stderr": clip(d.err.clone())}}));
                    }
                    continue;
                }
                for x in &d.out {
                    if let Some(o) = x["order"].as_str() {
                        m.0.insert(format!("{} {o}", j / 4));
                    } else if let Some(i) = x[0].as_u64() {
                        m.3 += 1;
                        m.5.insert(mix(j ^ mix(i)));
                        if want.get(&i) != Some(&x[1]) {
                            m.1.push(json!({"section": "schedules", "index": j, "msg": format!("{what}: {} gives {}, but alone {:?}", ops[i as usize].t, x[1], want.get(&i)).chars().take(900).collect::<String>(), "detail": {"operations": lines, "mode": mode, "flags": flags}}));
                        }
                    }
                }
                *m.4.entry(format!("histories of threads on {t}")).or_default() += 1;
            });
        }
    });
    let (orders, f, e, n2, c2, seen) = m.into_inner().unwrap();
    if let Some(e) = e {
        return Err(e);
    }
    fails.extend(f);
    nontrivial.extend(seen);
    counts.extend(c2);
    if fails.is_empty() && (n1 < 40 || n2 < 6) {
        return Err(format!("hardly anything was interpreted in time: {counts:?}"));
    }
    let mut o = Map::new();
    o.insert("evaluations".into(), (n1 + n2).into());
    o.insert("distinct_nontrivial".into(), nontrivial.len().into());
    o.insert("platforms".into(), json!(counts));
    o.insert("distinct orders of events among threads".into(), orders.len().into());
    o.insert("building_s".into(), json!(build_s));
    o.insert("samples".into(), json!(samples));
    Ok((o, fails))
}
