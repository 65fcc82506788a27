//! Work stays proportional to the query, the document and the result.
use super::alloc::{measure, Usage};
use super::c05::{gaps, mutate_text};
use super::c07::NESTS;
use super::common::*;
use crate::ast::*;
use crate::gen;
use crate::render;
use crate::reval::{self, Stop};
use crate::rng::hash_bytes;
use crate::rparse;
use crate::run::*;
use serde_json::{json, Value};
use serde_json_path::{JsonPath, NormalizedPath};

/// CPU time of this thread, in nanoseconds
fn cpu() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}
#[derive(Clone, Copy, Debug)]
struct Cost {
    n: u64,
    bytes: u64,
    peak: u64,
    ns: u64,
}
/// how much may be spent
#[derive(Clone, Copy, Debug)]
struct Limit {
    n: u64,
    bytes: u64,
    peak: u64,
    ns: u64,
}
fn meter<T>(f: impl FnOnce() -> T) -> (T, Cost) {
    let t = cpu();
    let (r, Usage { n, bytes, peak }) = measure(f);
    (r, Cost { n, bytes, peak, ns: cpu() - t })
}
/// times are taken again before they are believed
fn judge<T>(tc: &mut Tc, kind: &str, what: impl Fn() -> String, l: Limit, mut f: impl FnMut() -> T) -> Option<(T, Cost)> {
    tc.ev();
    let (mut r, mut c) = meter(&mut f);
    for _ in 0..4 {
        if c.ns <= l.ns {
            break;
        }
        tc.count("times taken again");
        let (s, d) = meter(&mut f);
        r = s;
        c.ns = c.ns.min(d.ns);
    }
    for (name, spent, limit) in [("allocations", c.n, l.n), ("bytes allocated", c.bytes, l.bytes), ("bytes held", c.peak, l.peak), ("nanoseconds", c.ns, l.ns)] {
        tc.max(&format!("{kind}: {name}, per mille of the limit"), spent.saturating_mul(1000) / limit.max(1));
        if spent > limit {
            tc.fail(
                format!("{kind}: {spent} {name}, limit {limit}: {}", clip(what())),
                json!({"what": what(), "measure": name, "spent": spent, "limit": limit, "cost": format!("{c:?}")}),
            );
            return None;
        }
    }
    tc.add("allocations", c.n);
    tc.add("microseconds", c.ns / 1000);
    Some((r, c))
}

/// levels of brackets that are open at once, in strings or not
fn depth(t: &str) -> u64 {
    let (mut d, mut m) = (0i64, 0i64);
    for b in t.bytes() {
        match b {
            b'(' | b'[' => d += 1,
            b')' | b']' => d -= 1,
            _ => {}
        }
        m = m.max(d);
    }
    m as u64
}
fn parse_limit(t: &str) -> Limit {
    let l = t.len() as u64 + 16;
    let d = depth(t);
    Limit { n: l * (100 + 3 * d), bytes: l * (10_000 + 200 * d), peak: l * (4_000 + 200 * d), ns: 2_000_000 + l * (10_000 + 200 * d) }
}
fn parse(tc: &mut Tc, kind: &str, t: &str) -> bool {
    let r = judge(tc, kind, || t.to_string(), parse_limit(t), || JsonPath::parse(t));
    if let Some((r, c)) = &r {
        tc.nontrivial(hash_bytes(t.as_bytes()));
        tc.count(if r.is_ok() { "texts that parse" } else { "texts that do not parse" });
        tc.max("length of a text", t.len() as u64);
        tc.max(&format!("{kind}: allocations per 1000 bytes"), c.n * 1000 / (t.len() as u64 + 16));
        tc.max(&format!("{kind}: bytes per byte"), c.bytes / (t.len() as u64 + 16));
    }
    r.is_some()
}

/// more that can be repeated; what is nested is in NESTS
const FLAT: &[(&str, &str, &str, &str, &str)] = &[
    ("$", "['a','b']", "", "", ""),
    ("$", "..a", "", "", ""),
    ("$", "[0:1:2]", "", "", ""),
    ("$", "[?@]", "", "", ""),
    ("$", "[?@.a==1]", "", "", ""),
    ("$[", "'a',", "*", "", "]"),
    ("$[", "?@.a,", "1", "", "]"),
    ("$[", "?@.a==1,", "1", "", "]"),
    ("$[", "1:2:3,", ":", "", "]"),
    ("$[", " 1 , ", "1", "", "]"),
    ("$[", "?length(@.a)>1,", "1", "", "]"),
    ("$[?", "@.a==1||", "@", "", "]"),
    ("$[?", "@.a==1&&", "@", "", "]"),
    ("$[?", "length(@.a)==1&&", "@", "", "]"),
    ("$[?", "1==length(@.a)||", "@", "", "]"),
    ("$[?", "!@.a||@.b&&", "@", "", "]"),
    ("$[?", "(@.a)&&", "@", "", "]"),
    ("$[?", "!(@.a||@.b)&&", "@", "", "]"),
    ("$[?", "match(@.a,'b')||", "@", "", "]"),
    ("$[?", "idl(@.a&&@.b)||", "@", "", "]"),
    ("$[?", "  ", "@", "  ", "]"),
    ("$[?@", "['a']", "", "", "==1]"),
    ("$[?@", "[-1]", "", "", "==1]"),
    ("$[?1==@", ".a", "", "", "]"),
    ("$[?length(@", ".a", "", "", ")==1]"),
    ("$[?count(@", ".*", "", "", ")==1]"),
    ("$[?idl(@", ".a", "", "", ")]"),
    ("$[?idl(", "@.a&&", "@", "", ")]"),
    ("$[?idl(", "@.a||", "@", "", ")]"),
    ("$[?foo(", "@,", "@", "", ")]"),
    ("$[?count(", "@,", "@", "", ")>1]"),
    ("$[?", "a", "(@)", "", "]"),
    ("$[?", "true", "(@)", "", "]"),
    ("$.", "a", "", "", ""),
    ("$.", "é", "", "", ""),
    ("$.", "a1", "", "", ""),
    ("$.", "aé_1", "", "", ""),
    ("$..", "a1", "", "", ""),
    ("$['", "x\\n", "", "", "']"),
    ("$[\"", "é\\t'", "", "", "\"]"),
    ("$[?@=='", "\"\\\\", "", "", "']"),
    ("$[?@!=\"", "x\\ud83d\\ude00", "", "", "\"]"),
    ("$", " \n[\t1 ]", "", "", ""),
    ("$", "['a']\n..b.c [0]", "", "", ""),
    ("$[?", "a1_", "(@)", "", "]"),
    ("$[?foo(", "'a','b',1,", "1", "", ")]"),
    ("$[?", "@.a==1&&!@.b||", "@", "", "]"),
    ("$[?", "!(@.a<1)||count(@.*)>1&&", "@", "", "]"),
    ("$['", "x", "", "", "']"),
    ("$[\"", "\\n", "", "", "\"]"),
    ("$['", "\\u00e9", "", "", "']"),
    ("$[?@=='", "\\'", "", "", "']"),
    ("$[?@==-", "1", "", "", "]"),
    ("$[?@==1.", "5", "", "", "]"),
    ("$[?@==1.5e-", "1", "", "", "]"),
    ("$[", " ", "0", " ", "]"),
    ("$", " \t\r\n", "", "", ".a"),
    ("$.a", ".b", "", "", "["),
    ("$", "[", "", "", ""),
    ("$", "]", "", "", ""),
    ("$[?", "&&", "", "", "]"),
    ("$[?", "@==", "@", "", "]"),
    ("$[?", "1", "", "", ""),
    ("$[?", "==", "", "", ""),
    ("$", ".", "", "", ""),
    ("$[", "-", "1", "", "]"),
    ("$[", ":", "", "", "]"),
    ("", "$", "", "", ""),
    ("", " ", "$", "", ""),
    ("$", "é", "", "", ""),
    ("$['", "\u{1}", "", "", "']"),
    ("$['", "\\x", "", "", "']"),
    ("$['", "\\ud800", "", "", "']"),
];
/// flat repetition: nothing gets nested
pub fn flat_families() -> Vec<(&'static str, &'static str, &'static str, &'static str, &'static str)> {
    let open = |o: &str| o.matches(['(', '[']).count() > o.matches([')', ']']).count();
    NESTS.iter().chain(FLAT).filter(|f| f.3.trim().is_empty() && !open(f.1)).copied().collect()
}
/// whether what it takes grows in proportion, from one to `factor` times the size
fn proportional(tc: &mut Tc, kind: &str, what: &dyn Fn() -> String, factor: u64, slack: u64, small: Cost, large: Cost) -> bool {
    for (name, a, b, base, times) in [
        ("allocations", small.n, large.n, 1_000, 5),
        ("bytes allocated", small.bytes, large.bytes, 100_000, 5),
        ("bytes held", small.peak, large.peak, 100_000, 5),
        ("nanoseconds", small.ns, large.ns, 3_000_000, 2 * slack),
    ] {
        // at most times/2 of what is in proportion
        let limit = (a * factor * times / 2).max(a) + base;
        tc.max(&format!("{kind}: {name}, per mille of the limit"), b.saturating_mul(1000) / limit);
        if b > limit {
            tc.fail(
                format!("{kind}: {name} grow from {a} to {b} when the size grows {factor} times: {}", clip(what())),
                json!({"what": what(), "measure": name, "small": format!("{small:?}"), "large": format!("{large:?}"), "factor": factor}),
            );
            return false;
        }
    }
    true
}
/// the least of several measurements, and the outcome
fn least<T>(times: usize, mut f: impl FnMut() -> T) -> (T, Cost) {
    let (mut r, mut c) = meter(&mut f);
    for _ in 1..times {
        drop(r);
        let (s, d) = meter(&mut f);
        r = s;
        c.ns = c.ns.min(d.ns);
    }
    (r, c)
}
/// the same for a size and for `factor` times this size; the larger is taken again if need be
fn grows<T>(tc: &mut Tc, kind: &str, what: &dyn Fn() -> String, factor: u64, slack: u64, mut small: impl FnMut() -> T, mut large: impl FnMut() -> T) -> bool {
    tc.evn(2);
    let (_, mut a) = least(3, &mut small);
    let (_, mut b) = least(1, &mut large);
    for _ in 0..5 {
        if b.ns <= 3_000_000 + a.ns * factor * slack {
            break;
        }
        tc.count("times taken again");
        b.ns = b.ns.min(least(1, &mut large).1.ns);
        a.ns = a.ns.max(least(1, &mut small).1.ns);
    }
    proportional(tc, kind, what, factor, slack, a, b)
}
fn rungs(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=24.min(max)).collect();
    let mut n = 32;
    while n <= max {
        v.extend([n, n + n / 2].iter().filter(|k| **k <= max));
        n *= 2;
    }
    v
}
fn levels(open: &str) -> usize {
    open.matches(['(', '[']).count().max(1)
}
/// a text and what it becomes when damaged
fn variants((a, o, core, z, b): (&str, &str, &str, &str, &str), n: usize) -> Vec<String> {
    let (os, zs) = (o.repeat(n), z.repeat(n));
    let whole = format!("{a}{os}{core}{zs}{b}");
    let mut v = vec![
        format!("{a}{os}{core}"),
        format!("{a}{os}"),
        format!("{a}{os}{core}{zs}{z}{b}"),
        format!("{a}{os}{core}{}{b}", z.repeat(n.saturating_sub(1))),
        format!("{a}{os}#{core}{zs}{b}"),
        format!("{a}{os}{core}{zs}{b}é"),
        format!("{a}{os}{core}{zs}==foo(){b}"),
        format!("{a}{os}{core}==1{zs}{b}"),
    ];
    for k in [whole.len() / 2, whole.len() * 3 / 4] {
        if whole.is_char_boundary(k) {
            v.push(whole[..k].to_string());
        }
    }
    v.push(whole);
    v
}

/// steps of the definition, every operand evaluated
#[derive(Clone, Copy, Debug)]
struct Work {
    steps: u64,
    /// those due to compiling regular expressions and searching
    re: u64,
    nodes: usize,
}
fn work(q: &Query, doc: &Value, budget: u64) -> Option<Work> {
    // where a defect of the library (see reval) leads elsewhere, it has to go there; results are judged
    // by other checks
    let mut w = Work { steps: 0, re: 0, nodes: 0 };
    for m in 0..8 {
        let v = work1(q, doc, budget, m)?;
        w = Work { steps: w.steps.max(v.steps), re: w.re.max(v.re), nodes: w.nodes.max(v.nodes) };
    }
    Some(w)
}
fn work1(q: &Query, doc: &Value, budget: u64, mask: u8) -> Option<Work> {
    let mut c = reval::ctx(doc, budget, false);
    c.mask = mask;
    c.calls = Some(Default::default());
    match c.query(q, &reval::Node { v: doc, path: None }, false) {
        Ok(n) => Some(Work { steps: c.steps.get() - c.re.get(), re: c.re.get(), nodes: n.len() }),
        Err(Stop::Budget | Stop::Unspec) => None,
    }
}
/// `unit`: what a step may have to do with a value; `depth`: the length of a location
fn eval_limit(w: Work, unit: u64, depth: u64) -> Limit {
    let s = (w.steps + 16) * (depth / 4 + 1);
    Limit { n: 24 * s + 400 * w.re, bytes: 3000 * s * unit + 200_000 * w.re, peak: 1200 * s * unit + 200_000 * w.re, ns: 2_000_000 + 4_000 * s * unit + 100_000 * w.re }
}
/// calls of functions of the harness
struct Own(bool);
impl Edit for Own {
    fn func(&mut self, f: &mut Func) {
        self.0 |= !["length", "count", "value", "match", "search"].contains(&&f.name[..]);
    }
}
/// the query on the document, in both ways
fn evaluate(tc: &mut Tc, kind: &str, q: &Query, t: &str, doc: &Value, depth: u64, unit: u64, budget: u64) -> bool {
    let Some(w) = work(q, doc, budget) else {
        tc.count("skipped: dear by definition");
        return true;
    };
    let Some(p) = must_parse(tc, t) else { return false };
    let kind = if w.re > 0 { format!("{kind} with regular expressions") } else { kind.to_string() };
    let what = || format!("{t} on {} ({w:?})", show(doc).chars().take(150).collect::<String>());
    let Some((_, c)) = judge(tc, &kind, what, eval_limit(w, unit, 0), || p.query(doc).len()) else { return false };
    let what = || format!("{t} on {} ({w:?}), located", show(doc).chars().take(150).collect::<String>());
    let Some((_, d)) = judge(tc, &format!("{kind}, located"), what, eval_limit(w, unit, depth), || p.query_located(doc).len()) else { return false };
    tc.nontrivial(hash_bytes(t.as_bytes()) ^ hash_doc(doc));
    tc.max("steps of a query", w.steps);
    tc.sample(|| json!({"query": clip(t.to_string()), "steps": w.steps, "nodes": w.nodes, "allocations": c.n, "bytes": c.bytes, "nanoseconds": c.ns, "located": format!("{d:?}")}));
    true
}
/// documents of about n nodes; also their depth
fn grown(kind: usize, n: usize) -> (Value, u64) {
    let d = n.min(200);
    let chain = |f: &dyn Fn(Value, usize) -> Value| {
        let mut v = json!(1);
        for i in 0..d {
            v = f(v, i);
        }
        (v, d as u64)
    };
    match kind {
        0 => (Value::Array((0..n).map(|i| json!(i)).collect()), 1),
        1 => (Value::Object((0..n).map(|i| (format!("k{i}"), json!(i))).collect()), 1),
        2 => (Value::Array((0..n / 4 + 1).map(|i| json!({"a": i, "b": {"a": [i, "x"]}, "c": "xyz"})).collect()), 4),
        3 => chain(&|v, _| json!([v])),
        4 => chain(&|v, _| json!({"a": v})),
        5 => chain(&|v, i| if i % 2 == 0 { json!([v, 1, "x"]) } else { json!({"a": v, "b": [i], "c": {"a": 1}}) }),
        6 => {
            // balanced
            let mut v = json!({"a": 1, "b": "x"});
            let mut k = 2;
            let mut depth = 1;
            while k * 3 < n {
                v = json!([v, {"a": v, "b": 2}, v]);
                k *= 3;
                depth += 2;
            }
            (v, depth)
        }
        7 => (json!({"a": "x".repeat(n), "b": ["y".repeat(n)]}), 2),
        _ => (json!([vec![json!([1, 2, {"a": 3}]); n / 8 + 1], {"a": vec![json!(1); n / 2 + 1]}]), 3),
    }
}
const GROWN: usize = 9;
const QUERIES: &[&str] = &[
    "$", "$.*", "$..*", "$..a", "$..[0]", "$..[-1]", "$..['a','b']", "$[0,0,0]", "$[*,*]", "$..[*,*]", "$[::2]", "$[::-1]", "$..[1:3]", "$[?@]", "$[?@.a]", "$..[?@.a]", "$[?@.a==1]", "$..[?@.a==1]", "$[?@.a>1&&@.b]", "$[?@.a>1||@.b||@.c]",
    "$[?!@.a]", "$[?@[?@]]", "$[?@[?@[?@]]]", "$..[?@[?@[?@]]]", "$..[?@..a]", "$..[?count(@.*)>1]", "$..[?length(@)>1]", "$..[?value(@.*)==1]", "$[?length(@.a)>0]", "$[?count(@..*)>2]", "$..[?@.a==@.b]", "$..[?@.a<$.a]", "$[?@.a!='x']", "$.a.a.a.a", "$[0][0][0]", "$..*..*", "$.*.*.*", "$..a..b", "$[?@>5][?@]", "$[?length(value(@..a))>1]",
    "$[?(@.a||@.b)&&!(@.c&&@.d)]", "$..[?@.a.a.a==1]", "$[?$[0]==@]", "$[0]", "$['a']", "$.k1", "$.missing", "$[?@.missing]", "$[?@['k1']==@]", "$[1:10:3]", "$[-5:]", "$..[?@.a==1,?@.b==1,*]", "$[0:9007199254740991:9007199254740991]", "$[9007199254740991:-9007199254740991:-9007199254740991]",
];
const RE_QUERIES: &[&str] = &["$..[?match(@,'x*')]", "$..[?search(@,'y')]", "$..[?match(@.c,'x.z')]"];

const BOUNDS: &[i64] = &[0, 1, -1, 2, -2, 5, -5, 63, -63, 64, -64, 65, 1000, -1000, i32::MAX as i64, i32::MIN as i64, u32::MAX as i64, 1 << 52, -(1 << 52), 9007199254740991, -9007199254740991];

/// an expression, and what its subject repeats: the kind of thing that makes backtracking explode
const RES: &[(&str, &str)] = &[
    ("a*", "a"), ("(a*)*", "a"), ("(a*)*b", "a"), ("(a+)+b", "a"), ("(a|a)*b", "a"), ("(a|aa)+b", "a"), ("a*a*a*a*a*b", "a"), ("(a?){20}a{20}", "a"), (".*.*.*=.*", "x=x"), ("(.*)(.*)(.*)(.*)x", "y"), ("([a-z]+)*[0-9]", "abc"), ("(a|b|ab)*c", "ab"),
    ("\\p{L}+\\p{N}", "é"), ("[^a]*a", "b"), ("(é|.)*x", "é"), ("((a{2}){2}){2}b", "a"), ("x*y?z+", "z"), ("(x+x+)+y", "x"), ("(.|a|[b-c])*!!", "c"), (".{0,50}.{0,50}q", "p"),
];
fn nodes_in(v: &Value) -> u64 {
    1 + match v {
        Value::Array(a) => a.iter().map(nodes_in).sum(),
        Value::Object(m) => m.iter().map(|(k, v)| k.len() as u64 / 8 + nodes_in(v)).sum(),
        Value::String(s) => s.len() as u64 / 8,
        _ => 0,
    }
}

pub fn check(c: &Conf) -> Check {
    let mut sections = vec![];
    let fams: Vec<_> = NESTS.iter().chain(FLAT).copied().collect();
    let nf = fams.len() as u64;
    let (flat, nested) = if c.thorough { (32768, 250) } else { (2048, 250) };
    let fam = fams.clone();
    sections.push(sec("growing queries", nf, move |tc, i| {
        let f = fam[i as usize];
        let max = if f.3.is_empty() { flat } else { nested / levels(f.1) };
        // what is opened without an end is nested, too
        let open = f.1.matches(['(', '[']).count() > f.1.matches([')', ']']).count();
        let max = if open { max.min(nested / levels(f.1)) } else { max };
        for n in rungs(max) {
            for t in variants(f, n) {
                if !parse(tc, "growing queries", &t) {
                    return;
                }
            }
            tc.max("repetitions", n as u64);
        }
    }).cpu(60));
    let flats = flat_families();
    let factor = if c.thorough { 128 } else { 32 };
    sections.push(sec("long queries", flats.len() as u64, move |tc, i| {
        let f = flats[i as usize];
        const SMALL: usize = 2048;
        let texts = |n: usize| {
            let t = format!("{}{}{}{}", f.0, f.1.repeat(n), f.2, f.3.repeat(n));
            [format!("{t}{}", f.4), format!("{t}#{}", f.4), t, format!("{}{}#{}{}{}", f.0, f.1.repeat(n - 1), f.1, f.2, f.4)]
        };
        for (a, b) in texts(SMALL).iter().zip(&texts(SMALL * factor as usize)) {
            let what = || format!("{} times {:?} in {:?}", SMALL * factor as usize, f.1, a.chars().take(60).collect::<String>());
            if !grows(tc, "long queries", &what, factor, 6, || JsonPath::parse(a), || JsonPath::parse(b)) {
                return;
            }
            tc.nontrivial(hash_bytes(a.as_bytes()));
            tc.max("length of a text", b.len() as u64);
            if let (Ok(p), Ok(q)) = (JsonPath::parse(a), JsonPath::parse(b)) {
                let ok = grows(tc, "displaying long queries", &what, factor, 6, || p.to_string(), || q.to_string())
                    && grows(tc, "serializing long queries", &what, factor, 6, || serde_json::to_string(&p).unwrap(), || serde_json::to_string(&q).unwrap())
                    && grows(tc, "cloning and comparing long queries", &what, factor, 12, || p == p.clone(), || q == q.clone());
                if !ok {
                    return;
                }
            }
        }
    }).cpu(120));
    sections.push(sec("mixed nesting", c.n(3_000, 60_000), |tc, _| {
        let kinds: Vec<usize> = (0..1 + tc.rng.below(4)).map(|_| tc.rng.below(26)).collect();
        // growing: were it exponential, the small ones would show it
        for n in [4, 8, 12, 16, 20, 24, 32, 64, 128, 250] {
            let (mut open, mut close, mut last, mut have) = (String::new(), String::new(), "@", 0);
            while have < n {
                let (_, o, c, z, _) = NESTS[*tc.rng.pick(&kinds)];
                open.push_str(o);
                close.insert_str(0, z);
                last = c;
                have += levels(o);
            }
            let t = format!("$[?{open}{last}{close}]");
            if !parse(tc, "mixed nesting", &t) {
                return;
            }
            for _ in 0..3 {
                let cut = tc.rng.below(t.len());
                let junk = *tc.rng.pick(&["", "#", "]", ")", " ", "==", "&&", "'"]);
                if !parse(tc, "mixed nesting", &format!("{}{junk}", &t[..cut])) || !parse(tc, "mixed nesting", &format!("{}{junk}{}", &t[..cut], &t[cut..])) {
                    return;
                }
            }
        }
    }));
    let seeds = gaps();
    sections.push(sec("random queries", c.n(60_000, 1_000_000), move |tc, i| {
        let s = if i % 3 == 0 {
            tc.rng.pick(&seeds).clone()
        } else {
            let doc = gen::small(&mut tc.rng, 3);
            let mut g = gen::Gen { r: &mut tc.rng, root: &doc, o: &gen::FULL, budget: 40 };
            let q = g.query(true, Some(&doc), 4, 6);
            render::varied(&mut tc.rng, &q)
        };
        if !parse(tc, "random queries", &s) {
            return;
        }
        for _ in 0..3 {
            let m = mutate_text(&mut tc.rng, &s, &seeds);
            if !parse(tc, "random queries", &m) {
                return;
            }
        }
    }));
    let qs: Vec<(Query, String)> = QUERIES
        .iter()
        .chain(if cfg!(feature = "regex") { RE_QUERIES } else { &[] })
        .map(|t| match rparse::parse(t) {
            rparse::Verdict::Accept(q) => (q, t.to_string()),
            _ => harness_bug(format!("{t} is no query")),
        })
        .collect();
    let nq = qs.len();
    let top = if c.thorough { 60_000 } else { 6_000 };
    sections.push(sec("growing documents", (nq * GROWN) as u64, move |tc, i| {
        let (q, t) = &qs[i as usize % nq];
        for n in rungs(top) {
            if n > 24 && n & (n - 1) != 0 && n < 1000 {
                continue;
            }
            let (d, depth) = grown(i as usize / nq, n);
            if !evaluate(tc, "growing documents", q, t, &d, depth, if i as usize / nq == 7 { n as u64 / 50 + 1 } else { 1 }, 2_000_000) {
                return;
            }
            tc.max("size of a document", n as u64);
        }
    }).cpu(60));
    sections.push(sec("random evaluation", c.n(60_000, 1_000_000), |tc, _| {
        let doc = gen::doc(&mut tc.rng);
        let mut q = gen::gen_query(&mut tc.rng, &doc, &gen::FULL);
        let mut own = Own(false);
        q.edit(&mut own);
        if own.0 {
            return;
        }
        let t = render::plain(&q);
        evaluate(tc, "random evaluation", &q, &t, &doc, 8, 1, 200_000);
    }));
    let nb = BOUNDS.len() as u64 + 1;
    sections.push(sec("slices", nb * nb, move |tc, i| {
        let f = |k: u64| if k == 0 { None } else { Some(BOUNDS[k as usize - 1]) };
        let (a, b) = (f(i % nb), f(i / nb));
        for n in [0, 1, 2, 64, 65, 3000] {
            let d = Value::Array((0..n).map(|i| json!(i)).collect());
            for k in 0..nb {
                for (abs, desc) in [(true, false), (true, true)] {
                    let q = Query { abs, segs: vec![] }.with(desc, vec![Sel::Slice(a, b, f(k))]);
                    let t = render::plain(&q);
                    if !evaluate(tc, "slices", &q, &t, &d, 1, 1, 2_000_000) {
                        return;
                    }
                }
                // within a filter, for each element
                if n == 64 || n == 2 {
                    let x = json!([d, d]);
                    let q = filter(Expr::Exist(Query::cur().with(false, vec![Sel::Slice(a, b, f(k))])));
                    let t = render::plain(&q);
                    if !evaluate(tc, "slices", &q, &t, &x, 2, 1, 2_000_000) {
                        return;
                    }
                }
            }
            if let Some(a) = a {
                let q = Query { abs: true, segs: vec![] }.with(false, vec![Sel::Index(a)]);
                let t = render::plain(&q);
                if !evaluate(tc, "slices", &q, &t, &d, 1, 1, 2_000_000) {
                    return;
                }
            }
        }
    }));
    // the same test, once for each level: doing a part of it twice would double the work with each
    sections.push(sec("nested filters", 12 * 9, |tc, i| {
        let kind = i as usize % 12;
        let dk = i as usize / 12;
        for n in 1..=if dk == 3 || dk == 4 { 40 } else { 6 } {
            let mut e = Expr::Exist(Query::cur());
            for _ in 0..n {
                let q = Query::cur().with(false, vec![Sel::Filter(e.clone())]);
                let lit = |x: &str| Cmpb::Lit(Lit::Num(x.into()));
                e = match kind {
                    0 => Expr::Exist(q),
                    1 => Expr::Not(Box::new(Expr::Exist(q))),
                    2 => Expr::Not(Box::new(Expr::Paren(Box::new(Expr::Exist(q))))),
                    3 => Expr::And(vec![Expr::Exist(Query::cur()), Expr::Exist(q)]),
                    4 => Expr::Or(vec![Expr::Exist(Query::cur().name("zz")), Expr::Exist(q)]),
                    5 => Expr::Cmp(Cmpb::Func(func("count", vec![Arg::Query(q)])), Op::Ge, lit("0")),
                    6 => Expr::Cmp(lit("9"), Op::Gt, Cmpb::Func(func("count", vec![Arg::Query(q)]))),
                    7 => Expr::Cmp(Cmpb::Func(func("value", vec![Arg::Query(q)])), Op::Ne, lit("7")),
                    8 => Expr::Cmp(Cmpb::Func(func("length", vec![Arg::Func(func("value", vec![Arg::Query(q)]))])), Op::Ne, lit("7")),
                    9 => Expr::Exist(Query::cur().with(false, vec![Sel::Filter(e), Sel::Index(7)])),
                    10 => Expr::Exist(Query::cur().with(false, vec![Sel::Filter(e)]).with(false, vec![Sel::Wild])),
                    _ => Expr::Paren(Box::new(Expr::Paren(Box::new(Expr::Exist(q))))),
                };
            }
            let q = filter(e);
            let t = render::plain(&q);
            for size in [20, 60, 200] {
                let (d, depth) = grown(dk, size);
                if !evaluate(tc, "nested filters", &q, &t, &d, depth, 1, 400_000) {
                    return;
                }
            }
            tc.max("nested filters", n as u64);
        }
    }));
    let top = if c.thorough { 40_000 } else { 4_000 };
    sections.push(sec("operations on results", 8, move |tc, i| {
        let mut n = 1;
        while n <= top {
            let (d, _) = match i {
                0..=5 => grown([0, 1, 2, 5, 6, 8][i as usize], n),
                6 => (Value::Object((0..n / 2 + 1).map(|k| ("x'\\".repeat(k % 40), json!([k, k]))).collect()), 2),
                _ => (json!({"a": vec![json!([[1]]); n / 3 + 1]}), 4),
            };
            for t in ["$..*", "$..[*,*]", "$[*,*,*,*]", "$..[::-1]"] {
                let p = must_parse(tc, t).unwrap();
                let l = p.query_located(&d);
                let k = p.query(&d);
                // the length of all locations together
                let len: u64 = l.locations().map(|x| 1 + x.len() as u64).sum();
                let text: u64 = l.locations().map(|x| x.to_string().len() as u64).sum();
                let size: u64 = l.nodes().map(nodes_in).sum();
                let lg = 64 - len.leading_zeros() as u64 + 1;
                let lim = |n: u64, ns: u64| Limit { n: 64 + 8 * n, bytes: 4096 + 2000 * n, peak: 4096 + 2000 * n, ns: 2_000_000 + ns };
                let what = |x: &str| format!("{x}: {t} on document {i} of size {n}");
                let mut ok = true;
                // sorting compares locations, and equal ones by their nodes
                ok = ok && judge(tc, "dedup", || what("dedup"), lim(2 * len, 2_000 * (len * lg + size)), || l.clone().dedup().len()).is_some();
                ok = ok && judge(tc, "clone and compare", || what("clone and compare"), lim(2 * len, 1_000 * (len + size)), || l.clone() == l && k.clone() == k).is_some();
                ok = ok && judge(tc, "iterate", || what("iterate"), lim(len, 1_000 * len), || l.iter().count() + l.nodes().rev().count() + l.locations().rev().map(|x| x.iter().count()).sum::<usize>() + l.clone().into_iter().map(|x| x.to_location().len()).sum::<usize>()).is_some();
                ok = ok && judge(tc, "step through", || what("step through"), lim(len, 1_000 * len), || {
                    let mut a = 0;
                    let mut it = l.locations();
                    while let Some(x) = it.next() {
                        a += x.len() + it.len();
                    }
                    let mut it = l.nodes();
                    while it.next_back().is_some() {
                        a += it.len() + it.size_hint().0;
                    }
                    (0..l.len()).filter(|x| l.get(*x).is_some() && k.get(*x).is_some()).count() + a
                }).is_some();
                ok = ok && judge(tc, "pick", || what("pick"), lim(len, 1_000 * len), || (k.first().is_some(), k.last().is_some(), k.is_empty(), k.at_most_one().is_ok(), k.exactly_one().is_ok(), l.first().is_some(), l.last().is_some(), l.clone().exactly_one().is_ok())).is_some();
                ok = ok && judge(tc, "display locations", || what("display"), lim(len + text, 2_000 * (len + text)), || l.locations().map(|x| x.to_string().len() + x.to_json_pointer().len()).sum::<usize>()).is_some();
                ok = ok && judge(tc, "serialize locations", || what("serialize"), lim(len + text, 2_000 * (len + text)), || l.locations().map(|x| serde_json::to_string(x).unwrap().len()).sum::<usize>()).is_some();
                if size < 200_000 {
                    ok = ok && judge(tc, "serialize the list", || what("serialize"), lim(len + text + 20 * size, 2_000 * (len + text + 20 * size)), || (serde_json::to_string(&k).unwrap().len(), serde_json::to_string(&l).unwrap().len())).is_some();
                }
                ok = ok && judge(tc, "compare locations", || what("compare"), lim(len, 2_000 * len), || {
                    let v: Vec<&NormalizedPath> = l.locations().collect();
                    v.windows(2).filter(|w| w[0] < w[1]).count() + v.windows(2).filter(|w| w[0] == w[1]).count()
                }).is_some();
                if !ok {
                    return;
                }
                tc.nontrivial(hash_bytes(t.as_bytes()) ^ (i << 32 | n as u64));
                tc.max("nodes in a result", l.len() as u64);
            }
            n *= 2;
        }
    }).cpu(60));
    // the same in proportion to results that are sixteen times as long: a factor that is hidden by the
    // limits above at the sizes above, but is in the length of the result
    sections.push(sec("operations on long results", 6, move |tc, i| {
        let n = if tc.conf.thorough { 16_000 } else { 4_000 };
        let doc = |n: usize| match i % 3 {
            0 => json!(vec![1; n]),
            1 => Value::Object((0..n).map(|k| (format!("k{:07}", k * 7919 % 10_000_019), json!(k))).collect()),
            _ => Value::Array((0..n).map(|k| json!({"a": k})).collect()),
        };
        let (small, large) = (doc(n), doc(16 * n));
        for t in if i < 3 { ["$[*,*]", "$[*]", "$[*]['a','a','a']"] } else { ["$[?@,?@]", "$..[*,*]", "$[::-1,0,::2]"] } {
            let p = must_parse(tc, t).unwrap();
            if p.query(&small).is_empty() {
                continue;
            }
            let (a, b) = (p.query_located(&small), p.query_located(&large));
            let (c, d) = (p.query(&small), p.query(&large));
            let what = |x: &str| format!("{x} of results of {t} on document {i} and on one sixteen times as large");
            macro_rules! op {
                ($n:literal, $l:ident, $e:expr) => {{
                    let w = || what($n);
                    if !grows(tc, concat!("long results: ", $n), &w, 16, 6, || { let $l = &a; $e }, || { let $l = &b; $e }) {
                        return;
                    }
                }};
                ($n:literal, plain $l:ident, $e:expr) => {{
                    let w = || what($n);
                    if !grows(tc, concat!("long results: ", $n), &w, 16, 6, || { let $l = &c; $e }, || { let $l = &d; $e }) {
                        return;
                    }
                }};
            }
            let w = || what("query");
            if !grows(tc, "long results: query", &w, 16, 6, || p.query(&small).len(), || p.query(&large).len()) || !grows(tc, "long results: query_located", &w, 16, 6, || p.query_located(&small).len(), || p.query_located(&large).len()) {
                return;
            }
            op!("dedup", l, l.clone().dedup().len());
            op!("dedup again", l, {
                let mut m = l.clone().dedup();
                m.dedup_in_place();
                m.len()
            });
            op!("dedup backwards", l, serde_json_path::LocatedNodeList::from(l.iter().rev().cloned().collect::<Vec<_>>()).dedup().len());
            op!("clone and compare", l, *l == l.clone());
            op!("iterate", l, l.iter().count() + l.nodes().rev().count() + l.locations().map(|x| x.len()).sum::<usize>() + l.clone().into_iter().map(|x| x.to_location().len()).sum::<usize>());
            op!("step", l, {
                let (mut k, mut it, mut jt) = (0, l.locations(), l.nodes());
                while let (Some(x), Some(_)) = (it.next(), jt.next_back()) {
                    k += x.len() + it.len() + jt.size_hint().0;
                }
                k
            });
            op!("positions", l, (0..l.len()).filter(|k| l.get(*k).is_some()).count());
            op!("locations as text", l, l.locations().map(|x| x.to_string().len() + x.to_json_pointer().len()).sum::<usize>());
            op!("serialize", l, serde_json::to_string(l).unwrap().len());
            op!("take", l, (l.clone().all().len(), l.clone().at_most_one().is_ok(), l.clone().exactly_one().is_ok()));
            op!("clone and compare nodes", plain l, *l == l.clone());
            op!("iterate nodes", plain l, l.iter().count() + l.iter().rev().count() + l.clone().into_iter().count() + (0..l.len()).filter(|k| l.get(*k).is_some()).count());
            op!("serialize nodes", plain l, serde_json::to_string(l).unwrap().len());
            op!("take nodes", plain l, (l.clone().all().len(), l.at_most_one().is_ok(), l.exactly_one().is_ok(), l.clone().one().is_some()));
            tc.nontrivial(hash_bytes(t.as_bytes()) ^ i << 48);
        }
    }).cpu(40));
    sections.push(sec("operations on queries", nf, move |tc, i| {
        let f = fams[i as usize];
        let max = if f.3.is_empty() { 1000 } else { 250 / levels(f.1) };
        for n in rungs(max) {
            let t = format!("{}{}{}{}{}", f.0, f.1.repeat(n), f.2, f.3.repeat(n), f.4);
            let Ok(p) = JsonPath::parse(&t) else { continue };
            let l = t.len() as u64 + 16;
            let (d, shown) = (depth(&t), p.to_string());
            let l = l.max(shown.len() as u64);
            let lim = Limit { n: l * (20 + d), bytes: l * (2_000 + 100 * d), peak: l * (2_000 + 100 * d), ns: 2_000_000 + l * (2_000 + 100 * d) };
            let what = |x: &str| format!("{x} of {t}");
            let ok = judge(tc, "display a query", || what("Display"), lim, || p.to_string().len()).is_some()
                && judge(tc, "serialize a query", || what("Serialize"), lim, || serde_json::to_string(&p).unwrap().len()).is_some()
                && judge(tc, "clone a query", || what("Clone"), lim, || p.clone()).is_some()
                && judge(tc, "compare queries", || what("PartialEq"), lim, || p == p.clone()).is_some();
            if !ok {
                return;
            }
            tc.nontrivial(hash_bytes(t.as_bytes()));
        }
    }));
    sections.push(sec("regular expressions", if cfg!(feature = "regex") { RES.len() as u64 } else { 1 }, move |tc, i| {
        if !cfg!(feature = "regex") {
            tc.ev();
            return;
        }
        let (re, s) = RES[i as usize];
        for n in [1usize, 2, 4, 8, 12, 16, 20, 24, 28, 32, 64, 256, 1024, 4096] {
            let sub = s.repeat(n);
            let d = json!([{"s": sub, "t": format!("{sub}!"), "r": re}]);
            for (name, e) in [("match", "@.s"), ("search", "@.s"), ("match", "@.t"), ("search", "@.t")] {
                for r in ["@.r".to_string(), serde_json::to_string(re).unwrap()] {
                    let t = format!("$[?{name}({e},{r})]");
                    let Some(p) = must_parse(tc, &t) else { return };
                    let l = (sub.len() + re.len()) as u64 + 16;
                    let lim = Limit { n: 20_000 + 2 * l, bytes: 20_000_000 + 1_000 * l, peak: 20_000_000 + 1_000 * l, ns: 50_000_000 + 20_000 * l };
                    if judge(tc, "regular expressions", || format!("{t} on {} times {s:?}, {re:?}", n), lim, || p.query(&d).len()).is_none() {
                        return;
                    }
                    tc.nontrivial(hash_bytes(t.as_bytes()) ^ (i << 32 | n as u64));
                }
            }
        }
    }).cpu(60));
    Check {
        rule: "a distinct text, a distinct query and document, or a distinct operation on one of these",
        assumptions: vec![
            "allocations, bytes and CPU time of the observing thread stand for the work done; the limits are linear in the length of the text (plus a term for the product of length and nesting) and in the steps of the definition, with constants some four times above what was observed",
            "times are taken up to five times, and the least counts",
            "the number of steps is that of the reference evaluator with every operand evaluated",
        ],
        sections,
        need: vec!["texts that parse", "texts that do not parse"],
    }
}
