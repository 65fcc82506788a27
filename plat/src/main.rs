//! Operations on the library whose outcomes are texts: run natively and in the interpreter, for
//! other platforms (`ops`) and under many schedules (`threads`).
use serde_json::{json, Map, Value};
use serde_json_path::functions::{LogicalType, NodesType, ValueType};
use serde_json_path::{JsonPath, JsonPathExt};
use serde_json_path_core::spec::integer::Integer;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

#[serde_json_path::function]
fn plat_many(n: NodesType) -> LogicalType {
    (n.len() > 1).into()
}
#[serde_json_path::function]
fn plat_first(n: NodesType) -> ValueType {
    n.first().map_or(ValueType::Nothing, ValueType::Node)
}
#[serde_json_path::function]
fn plat_sum<'a>(a: ValueType<'a>, b: ValueType<'a>) -> ValueType<'a> {
    match (
        a.as_value().and_then(Value::as_i64),
        b.as_value().and_then(Value::as_i64),
    ) {
        (Some(a), Some(b)) => json!(a.wrapping_add(b)).into(),
        _ => ValueType::Nothing,
    }
}

/// doubles are sent as bits
fn inexact(v: &Value) -> Value {
    match v {
        Value::Array(a) => a.iter().map(inexact).collect(),
        Value::Object(o) => match o.get("f") {
            Some(b) => json!(f64::from_bits(b.as_u64().unwrap())),
            None => Value::Object(
                o["o"]
                    .as_object()
                    .unwrap()
                    .iter()
                    .map(|(k, v)| (k.clone(), inexact(v)))
                    .collect::<Map<_, _>>(),
            ),
        },
        v => v.clone(),
    }
}
struct Op {
    k: u64,
    t: String,
    d: Value,
}

fn addr<T>(v: &T) -> usize {
    v as *const T as usize
}
fn evaluate(p: &JsonPath, d: &Value) -> String {
    let mut o = String::new();
    let l = p.query_located(d);
    for n in l.iter() {
        let ptr = n.location().to_json_pointer();
        o += &format!(
            "{} {ptr} {} = {}\n",
            n.location(),
            n.location().len(),
            n.node()
        );
        if d.pointer(&ptr).map(addr) != Some(addr(n.node())) {
            o += "NOT IN THE DOCUMENT\n";
        }
    }
    o += "--\n";
    let n = p.query(d);
    if !n.iter().map(|v| addr(*v)).eq(l.nodes().map(addr)) {
        o += "OTHER NODES\n";
        for v in n.iter() {
            o += &format!("{v}\n");
        }
    }
    o
}
fn raw(op: &Op) -> String {
    match op.k {
        0 => match JsonPath::parse(&op.t) {
            Ok(p) => format!("ok {p}"),
            Err(e) => format!("error {e} {} {}", e.position(), e.message()),
        },
        1 => match JsonPath::parse(&op.t) {
            Ok(p) => evaluate(&p, &op.d),
            Err(e) => format!("error {e}"),
        },
        2 => match serde_json::from_value::<JsonPath>(Value::String(op.t.clone())) {
            Ok(p) => {
                let q = p.clone();
                let s = serde_json::to_string(&p).unwrap();
                let r = serde_json::from_str::<JsonPath>(&s);
                let n = op.d.json_path(&q);
                format!(
                    "{s} {} {} {:?}",
                    p == q,
                    r.map_or("REFUSED".into(), |r| (r == p).to_string()),
                    n.iter().map(|v| v.to_string()).collect::<Vec<_>>()
                )
            }
            Err(e) => format!("error {e}"),
        },
        3 => match op.t.parse::<JsonPath>() {
            Ok(p) => {
                let l = p.query_located(&op.d);
                let d = l.clone().dedup();
                let n = p.query(&op.d);
                let mid = l.len() / 2;
                format!(
                    "{:?} {:?} {} {} {} {:?} {:?} {:?} {:?} {:?} {:?}",
                    d.locations()
                        .rev()
                        .map(|l| l.to_string())
                        .collect::<Vec<_>>(),
                    d.iter()
                        .map(|n| n
                            .location()
                            .iter()
                            .map(|e| (e.is_name(), e.as_index(), e.as_name().map(str::len)))
                            .collect::<Vec<_>>())
                        .collect::<Vec<_>>(),
                    serde_json::to_string(&l).unwrap(),
                    serde_json::to_string(&n).unwrap(),
                    n.len(),
                    n.at_most_one()
                        .map(|v| v.map(|v| v.to_string()))
                        .map_err(|e| e.to_string()),
                    n.exactly_one()
                        .map(|v| v.to_string())
                        .map_err(|e| e.to_string()),
                    n.get(mid).map(|v| v.to_string()),
                    l.get(mid).map(|v| v.location().to_string()),
                    l.first()
                        .map(|v| v.location() < l.last().unwrap().location()),
                    (n.get(usize::MAX).is_some(), l.get(usize::MAX).is_some()),
                )
            }
            Err(e) => format!("error {e}"),
        },
        // integers: the text of two numbers
        _ => {
            let v: Vec<i128> = op.t.split(' ').map(|x| x.parse().unwrap()).collect();
            let mut o = String::new();
            for x in &v {
                let i = Integer::try_from(*x);
                o += &format!(
                    "{:?} {:?} ",
                    i.as_ref().map(|i| i.to_string()).ok(),
                    x.to_string().parse::<Integer>().map(|i| i.to_string()).ok()
                );
                let by = |r: Option<Integer>| r.map(|r| r.to_string());
                o += &format!(
                    "{:?} {:?} {:?} ",
                    i64::try_from(*x)
                        .ok()
                        .and_then(|x| by(Integer::try_from(x).ok())),
                    u64::try_from(*x)
                        .ok()
                        .and_then(|x| by(Integer::try_from(x).ok())),
                    u128::try_from(*x)
                        .ok()
                        .and_then(|x| by(Integer::try_from(x).ok()))
                );
                o += &format!(
                    "{:?} {:?} ",
                    i32::try_from(*x).ok().map(|x| Integer::from(x).to_string()),
                    u32::try_from(*x).ok().map(|x| Integer::from(x).to_string())
                );
                // what depends on the size of a pointer is judged here
                if let Ok(u) = usize::try_from(*x) {
                    if Integer::try_from(u).ok() != i.as_ref().ok().copied() {
                        o += "WRONG FROM usize ";
                    }
                }
                if let Ok(s) = isize::try_from(*x) {
                    if Integer::try_from(s).ok() != i.as_ref().ok().copied() {
                        o += "WRONG FROM isize ";
                    }
                }
                if let Ok(i) = i {
                    if usize::try_from(i).ok() != usize::try_from(*x).ok() {
                        o += "WRONG TO usize ";
                    }
                    o += &format!("{} ", i.abs());
                }
            }
            if let (Ok(a), Ok(b)) = (Integer::try_from(v[0]), Integer::try_from(v[1])) {
                o += &format!(
                    "{:?} {:?} {:?} {:?}",
                    a.checked_add(b).map(|x| x.to_string()),
                    a.checked_sub(b).map(|x| x.to_string()),
                    a.checked_mul(b).map(|x| x.to_string()),
                    a.cmp(&b)
                );
            }
            o
        }
    }
}
fn outcome(op: &Op) -> String {
    match catch_unwind(AssertUnwindSafe(|| raw(op))) {
        Ok(s) => s,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
            format!("PANIC {}", m.unwrap_or_default())
        }
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mode = std::env::args().nth(1).unwrap_or_default();
    let ops = std::io::stdin()
        .lock()
        .lines()
        .map_while(Result::ok)
        .map(|l| {
            let v: Value = serde_json::from_str(&l).unwrap();
            Op {
                k: v["k"].as_u64().unwrap(),
                t: v["t"].as_str().unwrap().into(),
                d: inexact(&v["d"]),
            }
        });
    let mut out = std::io::stdout().lock();
    if mode == "ops" {
        for op in ops {
            writeln!(out, "{}", Value::String(outcome(&op))).unwrap();
        }
        out.flush().unwrap();
        return;
    }
    // threads: all run all operations, each from another one on; queries parsed by one are run by
    // others; nothing of the library has been used before they start
    let ops: Arc<Vec<Op>> = Arc::new(ops.collect());
    // threadsN.SEED: N threads, which yield a while before each operation as the seed says
    let (n, seed) = mode.trim_start_matches("threads").split_once('.').unwrap();
    let (n, seed): (usize, u64) = (n.parse().unwrap(), seed.parse().unwrap());
    let shared: Arc<Vec<Mutex<Option<Arc<JsonPath>>>>> =
        Arc::new(ops.iter().map(|_| Mutex::new(None)).collect());
    let clock = Arc::new(AtomicUsize::new(0));
    let h: Vec<_> = (0..n)
        .map(|i| {
            let (ops, shared, clock) = (ops.clone(), shared.clone(), clock.clone());
            std::thread::spawn(move || {
                let mut log = vec![];
                for j in 0..ops.len() {
                    let j = if seed % 2 == 0 {
                        // all the same at the same time
                        j
                    } else if i % 2 == 0 {
                        (j + i / 2) % ops.len()
                    } else {
                        (2 * ops.len() - 1 - j - i / 2) % ops.len()
                    };
                    let op = &ops[j];
                    let mut x =
                        (seed ^ (i as u64) << 32 ^ j as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
                    x ^= x >> 29;
                    if seed % 4 > 1 && x % 3 > 0 {
                        for _ in 0..x % (1 << (x >> 40) % 10) {
                            std::thread::yield_now();
                        }
                    }
                    let a = clock.fetch_add(1, Ordering::Relaxed);
                    let mut o = outcome(op);
                    let known = shared[j].lock().unwrap().clone();
                    match known {
                        Some(p) => o += &format!("\nshared {p} {:?}", p.query(&op.d).all()),
                        None => match JsonPath::parse(&op.t) {
                            Ok(p) => {
                                let p = Arc::new(p);
                                *shared[j].lock().unwrap() = Some(p.clone());
                                o += &format!("\nshared {p} {:?}", p.query(&op.d).all())
                            }
                            Err(_) => o += "\nnone",
                        },
                    }
                    log.push((j, o, a, clock.fetch_add(1, Ordering::Relaxed)));
                }
                log
            })
        })
        .collect();
    let mut order = vec![];
    for (i, h) in h.into_iter().enumerate() {
        for (j, o, a, b) in h.join().unwrap() {
            writeln!(out, "{}", json!([j, o])).unwrap();
            order.push((a, i));
            order.push((b, i));
        }
    }
    order.sort();
    writeln!(
        out,
        "{}",
        json!({"order": order.iter().map(|x| x.1.to_string()).collect::<Vec<_>>().concat()})
    )
    .unwrap();
    out.flush().unwrap();
}
