//! The function attribute, applied to generated definitions in crates of their own that depend on
//! `serde_json_path` (and `serde_json`) alone; rustc, the attribute and the resulting programs are
//! what is observed.
use super::common::clip;
use crate::rng::{hash_bytes, Rng};
use crate::run::*;
use serde_json::{json, Value};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;

struct Deps {
    dir: String,
    path: String,
    json: String,
}
fn deps(verif: &str) -> &'static Deps {
    static D: OnceLock<Deps> = OnceLock::new();
    D.get_or_init(|| {
        let o = Command::new(format!("{verif}/bin/attr")).stdin(Stdio::null()).output().unwrap_or_else(|e| harness_bug(e.to_string()));
        if !o.status.success() {
            harness_bug(format!("bin/attr: {}", String::from_utf8_lossy(&o.stderr)));
        }
        let t = String::from_utf8_lossy(&o.stdout).to_string();
        let mut l = t.lines().map(String::from);
        let mut n = || l.next().unwrap_or_else(|| harness_bug("bin/attr printed too little"));
        Deps { dir: n(), path: n(), json: n() }
    })
}

static SERIAL: AtomicU64 = AtomicU64::new(0);
/// a directory that goes away
struct Scratch(String);
impl Scratch {
    fn new(verif: &str) -> Self {
        let d = format!("{verif}/.build/attr/work-{}-{}", std::process::id(), SERIAL.fetch_add(1, Ordering::Relaxed));
        std::fs::create_dir_all(&d).unwrap_or_else(|e| harness_bug(e.to_string()));
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Debug)]
struct Diag {
    message: String,
    rendered: String,
    /// lines in the source, of the places it points at and of the macro uses these come from
    lines: Vec<usize>,
}
fn lines(v: &Value, out: &mut Vec<usize>) {
    if let Some(a) = v["spans"].as_array() {
        for s in a {
            span(s, out);
        }
    }
    if let Some(a) = v["children"].as_array() {
        for c in a {
            lines(c, out);
        }
    }
}
fn span(s: &Value, out: &mut Vec<usize>) {
    if s["file_name"].as_str().is_some_and(|f| f.ends_with("x.rs")) {
        out.push(s["line_start"].as_u64().unwrap_or(0) as usize);
        out.push(s["line_end"].as_u64().unwrap_or(0) as usize);
    }
    if s["expansion"].is_object() {
        span(&s["expansion"]["span"], out);
    }
}
/// runs rustc; the errors, if there are any
fn rustc(verif: &str, dir: &str, src: &str, edition: &str, run: bool) -> Result<(), Vec<Diag>> {
    let d = deps(verif);
    let file = format!("{dir}/x.rs");
    std::fs::write(&file, src).unwrap_or_else(|e| harness_bug(e.to_string()));
    let mut c = Command::new("timeout");
    c.args(["200", "rustc", "--edition", edition, "--crate-name", "x", "--crate-type", "bin", "--error-format=json", "-Cdebuginfo=0", "-Copt-level=0", "-Ccodegen-units=4"]);
    c.args(["--extern", &format!("serde_json_path={}", d.path), "--extern", &format!("serde_json={}", d.json), "-L", &format!("dependency={}", d.dir)]);
    c.args(if run { ["--emit=link", "-o"] } else { ["--emit=metadata", "-o"] });
    c.arg(format!("{dir}/x{}", if run { "" } else { ".rmeta" })).arg(&file);
    c.env("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu").env_remove("RUSTFLAGS").stdin(Stdio::null());
    let home = std::env::var("HOME").unwrap_or("/root".into());
    c.env("PATH", format!("{home}/.cargo/bin:{}", std::env::var("PATH").unwrap_or_default()));
    let o = c.output().unwrap_or_else(|e| harness_bug(e.to_string()));
    if o.status.success() {
        return Ok(());
    }
    let mut v = vec![];
    for l in String::from_utf8_lossy(&o.stderr).lines() {
        let Ok(m) = serde_json::from_str::<Value>(l) else { continue };
        if m["level"] != "error" || m["message"].as_str().is_some_and(|m| m.starts_with("aborting")) {
            continue;
        }
        let mut ls = vec![];
        lines(&m, &mut ls);
        v.push(Diag { message: m["message"].as_str().unwrap_or("").into(), rendered: m["rendered"].as_str().unwrap_or("").into(), lines: ls });
    }
    if v.is_empty() {
        harness_bug(format!("rustc ended with {:?}: {}", o.status, clip(String::from_utf8_lossy(&o.stderr).into())));
    }
    Err(v)
}

/// what every generated crate has
const SUPPORT: &str = r##"
mod support {
    #![allow(dead_code)]
    use serde_json::{json, Value};
    use serde_json_path::functions::{LogicalType, NodesType, ValueType};
    use serde_json_path::JsonPath;
    use std::cell::RefCell;
    thread_local!(static LOG: RefCell<Vec<(String, Vec<String>)>> = RefCell::new(vec![]));
    pub fn doc() -> &'static Value {
        static D: std::sync::OnceLock<Value> = std::sync::OnceLock::new();
        D.get_or_init(|| json!([{"a": 1, "b": "x", "c": [1, 2, null]}]))
    }
    pub fn at(p: &str) -> &'static Value {
        doc().pointer(p).unwrap()
    }
    pub fn dv(v: &ValueType<'_>) -> String {
        v.as_value().map_or("nothing".into(), |v| v.to_string())
    }
    pub fn dl(l: &LogicalType) -> String {
        format!("{}", bool::from(l.clone()))
    }
    pub fn dn(n: &NodesType<'_>) -> String {
        n.iter().map(|n| n.to_string() + ";").collect()
    }
    pub fn log(tag: &str, d: &[String]) {
        LOG.with(|l| l.borrow_mut().push((tag.into(), d.to_vec())));
    }
    fn h(tag: &str, d: &[String]) -> u32 {
        let mut h = 7u32;
        for b in tag.bytes().chain(d.iter().flat_map(|d| d.bytes())) {
            h = h.wrapping_mul(31).wrapping_add(b as u32);
        }
        h ^ (h >> 13)
    }
    pub fn rv(tag: &str, d: &[String]) -> ValueType<'static> {
        ValueType::Value(json!(h(tag, d)))
    }
    pub fn rl(tag: &str, d: &[String]) -> LogicalType {
        (h(tag, d) % 2 == 0).into()
    }
    pub fn rn() -> NodesType<'static> {
        NodesType::default()
    }
    pub enum Out {
        V(Option<Value>),
        B(bool),
    }
    pub fn ov(v: ValueType<'_>) -> Out {
        Out::V(v.as_value().cloned())
    }
    pub fn ol(l: LogicalType) -> Out {
        Out::B(l.into())
    }
    pub fn on(n: NodesType<'_>) -> Out {
        Out::B(!n.is_empty())
    }
    /// a call in Rust, the same call in a query, a call with another number of arguments
    pub fn test(tag: &str, direct: &dyn Fn() -> Out, call: &str, wrong: &[&str]) {
        let take = || LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
        let bad = |m: String| println!("BAD {tag} {}", m.replace('\n', " "));
        take();
        let r = direct();
        let want = take();
        if want.is_empty() || want.iter().any(|w| w.0 != tag) {
            return bad(format!("called from Rust, something else runs: {want:?}"));
        }
        let (text, exp) = match &r {
            Out::B(b) => (format!("$[?{call}]"), *b as usize),
            Out::V(None) => (format!("$[?{call}==@.nothing]"), 1),
            Out::V(Some(v)) if v.is_array() || v.is_object() => (format!("$[?{call}!=@.nothing]"), 1),
            Out::V(Some(v)) => (format!("$[?{call}=={v}]"), 1),
        };
        let p = match JsonPath::parse(&text) {
            Ok(p) => p,
            Err(e) => return bad(format!("{text} is rejected: {e}")),
        };
        let got = p.query(doc()).len();
        let calls = take();
        if calls.is_empty() || calls.iter().any(|c| !want.contains(c)) {
            return bad(format!("{text}: called with {calls:?} where {want:?} is expected"));
        }
        if got != exp {
            return bad(format!("{text}: {got} nodes, {exp} expected"));
        }
        for w in wrong {
            for t in [format!("$[?{w}]"), format!("$[?{w}==1]")] {
                if JsonPath::parse(&t).is_ok() {
                    return bad(format!("{t} is accepted"));
                }
            }
        }
        println!("RAN {tag}");
    }
}
"##;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum K {
    V,
    L,
    N,
}
/// a definition, and how to try it
struct Def {
    tag: String,
    /// the module, attribute included
    src: String,
    /// the same without the attribute
    plain: String,
    /// the statement that tries it
    test: String,
}
const TYPES: &[&str] = &["", "serde_json_path::functions::", "::serde_json_path::functions::", "functions::", "f::", "crate::paths::functions::", "super::paths::LogicalType::", "crate::paths::ValueType::NodesType::", "crate::paths::NodesType::"];
fn ty(k: K, lt: &str, path: &str, strict: bool) -> String {
    let n = match k {
        K::V => "ValueType",
        K::L => return format!("{path}LogicalType"),
        K::N => "NodesType",
    };
    let l = match lt {
        "" => if strict { "<'_>".to_string() } else { String::new() },
        l => format!("<{l}>"),
    };
    format!("{path}{n}{l}")
}
/// things that a module can have around it
const SHADOWS: &[&str] = &[
    "#[allow(dead_code)] pub(crate) struct String;",
    "#[allow(dead_code)] pub(crate) type Result<T> = ::std::result::Result<T, ()>;",
    "#[allow(unused_imports)] use crate::other::Ok;",
    "#[allow(dead_code)] pub(crate) enum Option { A }",
    "#[allow(dead_code)] pub(crate) struct Box; #[allow(dead_code)] pub(crate) struct Vec; #[allow(dead_code)] pub(crate) struct VecDeque;",
    "#[allow(dead_code)] pub(crate) struct JsonPathValue; #[allow(dead_code)] pub(crate) struct Function; #[allow(dead_code)] pub(crate) struct Validator; #[allow(dead_code)] pub(crate) struct Evaluator;",
    "#[allow(dead_code)] pub(crate) mod inventory {} #[allow(dead_code)] pub(crate) mod serde_json_path_core {}",
    "#[allow(unused_macros)] macro_rules! vec { () => {} } #[allow(unused_macros)] macro_rules! panic { () => {} }",
    "#[allow(dead_code)] pub(crate) fn drop() {} #[allow(dead_code)] pub(crate) fn from() {}",
    "#[allow(dead_code)] pub(crate) trait Into { fn into(self) -> u8; } impl<T> Into for T { fn into(self) -> u8 { 0 } }",
    "#[allow(dead_code)] pub(crate) static LAZY: u8 = 0; #[allow(dead_code)] pub(crate) const V: u8 = 0;",
];
const PARAMS: &[&str] = &["x", "y", "z", "v", "a", "f", "args", "name", "value", "nodes", "tk", "err", "e", "r#type", "r#fn", "_u", "arg_0", "arg_1", "i", "self_", "_0", "validator", "root", "core", "std_", "ok", "idx", "res"];
const RAW: &[&str] = &["r#match", "r#type", "r#fn", "r#loop", "r#use", "r#async", "r#move", "r#dyn"];
const ATTRS: &[&str] = &["#[inline(always)]", "#[inline(never)]", "#[cold]", "/// documented\n", "#[doc = \"documented\"]", "#[allow(unused_variables)]", "#[allow(clippy::all, unused)]", "#[cfg(all())]", "#[cfg_attr(any(), nothing)]", "#[must_use]", "#[doc(hidden)]"];

fn define(r: &mut Rng, i: usize, strict: bool, raws: &mut Vec<&'static str>) -> Def {
    let tag = format!("m{i}");
    let np = *r.pick(&[0, 1, 1, 1, 2, 2, 3, 4, 5, 8, 12]);
    let kinds: Vec<K> = (0..np).map(|_| *r.pick(&[K::V, K::V, K::N, K::L])).collect();
    let ret = *r.pick(&[K::V, K::L, K::N]);
    let path = *r.pick(TYPES);
    let import = match path {
        "" => "#[allow(unused_imports)] use serde_json_path::functions::{LogicalType, NodesType, ValueType};",
        "functions::" => "#[allow(unused_imports)] use serde_json_path::functions;",
        "f::" => "#[allow(unused_imports)] use serde_json_path::functions as f;",
        _ => "",
    };
    // names
    let mut pool: Vec<&str> = PARAMS.to_vec();
    r.shuffle(&mut pool);
    if path == "f::" || path == "functions::" {
        pool.retain(|p| *p != "f");
    }
    let own: String;
    let by_own: String;
    let raw = r.chance(1, 10) && !raws.is_empty();
    let upper = !raw && r.chance(1, 12);
    if raw {
        own = raws.pop().unwrap().to_string();
        by_own = own[2..].to_string();
    } else if upper {
        own = format!("Camel{i}");
        by_own = own.clone();
    } else {
        own = match r.below(6) {
            0 => format!("v_{i}"),
            1 => format!("a{i}_"),
            2 => format!("json_path_type{i}"),
            3 => format!("f_{i}_x"),
            4 => format!("validator_{i}_evaluator"),
            _ => format!("some_function_{i}"),
        };
        by_own = own.clone();
    }
    // names that only another module has, too
    let renamed = upper || (by_own == "match") || r.chance(1, 3);
    let name = if renamed { ["n", "match_", "w", "x_1_"][r.below(4)].to_string() + &format!("{i}") } else { by_own.clone() };
    let attr = if renamed {
        let n = match r.below(3) {
            0 => format!("\"{name}\""),
            1 => format!("r\"{name}\""),
            _ => format!("r#\"{name}\"#"),
        };
        match r.below(3) {
            0 => format!("(name = {n})"),
            1 => format!("(name={n})"),
            _ => format!("(\n  name = {n}\n)"),
        }
    } else if r.chance(1, 6) {
        "()".into()
    } else {
        String::new()
    };
    let (attr, ua) = match r.below(5) {
        0 => (format!("#[function{attr}]"), "use serde_json_path::function;"),
        1 => (format!("#[self::fun{attr}]"), "use serde_json_path::function as fun;"),
        2 => (format!("#[::serde_json_path::function{attr}]"), ""),
        _ => (format!("#[serde_json_path::function{attr}]"), ""),
    };
    let attr = if attr.contains('"') || r.chance(3, 4) { attr } else { format!("#[cfg_attr(all(), {})]", &attr[2..attr.len() - 1]) };
    // lifetimes: the parameter that is given back, if any, shares one with the result
    let back = kinds.iter().enumerate().filter(|(_, k)| **k == ret && ret != K::L).map(|(i, _)| i).collect::<Vec<_>>();
    let back = if back.is_empty() || r.chance(1, 3) { None } else { Some(*r.pick(&back)) };
    let borrowed = kinds.iter().filter(|k| **k != K::L).count();
    let mut gen: Vec<&str> = vec![];
    let mut lts: Vec<&str> = vec![""; np];
    let rlt;
    let mut wh = "";
    match back {
        Some(b) => {
            if borrowed == 1 && r.chance(1, 2) {
                rlt = "";
            } else {
                gen.push("'a");
                lts[b] = "'a";
                rlt = "'a";
                for i in 0..np {
                    if lts[i].is_empty() && kinds[i] != K::L {
                        match r.below(4) {
                            0 => lts[i] = "'a",
                            1 => {
                                lts[i] = "'b";
                                if !gen.contains(&"'b") {
                                    gen.push("'b");
                                }
                            }
                            _ => {}
                        }
                    }
                }
                if gen.contains(&"'b") {
                    wh = ["", " where 'b: 'a", " where 'b: 'a, 'a: 'a,"][r.below(3)];
                }
            }
        }
        None => rlt = if borrowed == 1 && r.chance(1, 2) { "" } else { "'static" },
    }
    let bounds = if gen.contains(&"'b") && wh.is_empty() && r.chance(1, 3) { "<'a, 'b: 'a>".to_string() } else if gen.is_empty() { ["", "<>"][(r.below(8) == 0) as usize].into() } else { format!("<{}>", gen.join(", ")) };
    let mut muts = String::new();
    let mut params = vec![];
    // types in parentheses, and the definition made by a macro that is given some of its parts
    let by_macro = r.chance(1, 6);
    let mut frags: Vec<(String, &str, String)> = vec![];
    let mut part = |r: &mut Rng, t: String| {
        let t = if r.chance(1, 12) { format!("({t})") } else { t };
        if by_macro && r.chance(2, 3) {
            let n = format!("$t{}", frags.len());
            frags.push((n.clone(), if t.starts_with('(') || r.chance(2, 3) { "ty" } else { "path" }, t));
            n
        } else {
            t
        }
    };
    let names: Vec<String> = (0..np).map(|k| pool[k % pool.len()].to_string()).collect();
    for k in 0..np {
        let m = if r.chance(1, 8) {
            muts.push_str(&format!("let _ = &mut {};", names[k]));
            "mut "
        } else {
            ""
        };
        let pa = if r.chance(1, 12) { "#[allow(unused_variables)] " } else { "" };
        let t = part(r, ty(kinds[k], lts[k], path, strict));
        params.push(format!("{pa}{m}{}: {t}", names[k]));
    }
    let mut plist = params.join(", ");
    if np > 0 && r.chance(1, 5) {
        plist.push(',');
    }
    let rty = match ret {
        K::L => ty(ret, "", path, strict),
        _ => ty(ret, rlt, path, strict),
    };
    let rty = part(r, rty);
    // body
    let dig: Vec<String> = (0..np).map(|k| format!("crate::support::d{}(&{})", ["v", "l", "n"][kinds[k] as usize], names[k])).collect();
    let result = match (back, ret) {
        (Some(b), _) => names[b].clone(),
        (None, K::V) => format!("crate::support::rv(\"{tag}\", &the_digests)"),
        (None, K::L) => format!("crate::support::rl(\"{tag}\", &the_digests)"),
        (None, K::N) => "crate::support::rn()".into(),
    };
    let tail = match r.below(6) {
        0 => format!("return {result};"),
        1 => format!("if !the_digests.is_empty() {{ return {result}; }}\n {result}"),
        2 => format!("let outcome = {result}; outcome"),
        3 => format!("'around: loop {{ break 'around {result}; }}"),
        4 => format!("#[allow(dead_code)] fn inner() -> u8 {{ 1 }}\n let closure = |x| x; closure({result})"),
        _ => result.clone(),
    };
    let body = format!("{{ let the_digests: [::std::string::String; {np}] = [{}]; crate::support::log(\"{tag}\", &the_digests); {muts} {tail} }}", dig.join(", "));
    let vis = *r.pick(&["", "", "pub ", "pub(crate) ", "pub(super) ", "pub(in crate) "]);
    let mut before = String::new();
    let mut after = String::new();
    for _ in 0..*r.pick(&[0, 0, 0, 1, 1, 2]) {
        let a = *r.pick(ATTRS);
        if before.contains(&a[..6]) || after.contains(&a[..6]) {
            continue;
        }
        let t = if r.chance(1, 3) { &mut before } else { &mut after };
        t.push_str(a);
        t.push(' ');
    }
    if upper {
        after.push_str("#[allow(non_snake_case)] ");
    }
    let qual = if r.chance(1, 20) { "extern \"C\" " } else { "" };
    let qual = if qual.is_empty() || ret == K::L { qual } else { "" };
    let item = format!("{after}{vis}{qual}fn {own}{bounds}({plist}) -> {rty}{wh} {body}");
    let item = item.replace("extern \"C\" fn", "fn");
    let (mac_a, mac_b) = if by_macro {
        let pat: Vec<String> = frags.iter().map(|(n, k, _)| format!("{n}:{k}")).collect();
        let arg: Vec<String> = frags.iter().map(|(_, _, t)| t.clone()).collect();
        (format!("macro_rules! definition {{ ({}) => {{\n", pat.join(", ")), format!("\n}} }}\ndefinition! {{ {} }}\n", arg.join(", ")))
    } else {
        (String::new(), String::new())
    };
    // the call
    let args: Vec<(String, String)> = kinds
        .iter()
        .map(|k| {
            let (q, d) = match k {
                K::V => *r.pick(&[
                    ("5", "serde_json_path::functions::ValueType::Value(serde_json::json!(5))"),
                    ("'s'", "serde_json_path::functions::ValueType::Value(serde_json::json!(\"s\"))"),
                    ("null", "serde_json_path::functions::ValueType::Value(serde_json::json!(null))"),
                    ("@.a", "serde_json_path::functions::ValueType::Node(crate::support::at(\"/0/a\"))"),
                    ("$[0].c", "serde_json_path::functions::ValueType::Node(crate::support::at(\"/0/c\"))"),
                    ("@.nope", "serde_json_path::functions::ValueType::Nothing"),
                ]),
                K::L => *r.pick(&[
                    ("@.a==1", "serde_json_path::functions::LogicalType::True"),
                    ("@.a==2", "serde_json_path::functions::LogicalType::False"),
                    ("@.*", "serde_json_path::functions::LogicalType::True"),
                    ("@.nope", "serde_json_path::functions::LogicalType::False"),
                ]),
                K::N => *r.pick(&[
                    ("@.c[*]", "serde_json_path::functions::NodesType::from(vec![crate::support::at(\"/0/c/0\"), crate::support::at(\"/0/c/1\"), crate::support::at(\"/0/c/2\")])"),
                    ("@['b','a','b']", "serde_json_path::functions::NodesType::from(vec![crate::support::at(\"/0/b\"), crate::support::at(\"/0/a\"), crate::support::at(\"/0/b\")])"),
                    ("$", "serde_json_path::functions::NodesType::from(vec![crate::support::doc()])"),
                    ("@.nope", "serde_json_path::functions::NodesType::default()"),
                ]),
            };
            (q.to_string(), d.to_string())
        })
        .collect();
    let qa: Vec<&str> = args.iter().map(|a| &a.0[..]).collect();
    let da: Vec<&str> = args.iter().map(|a| &a.1[..]).collect();
    let mut wrong = vec![];
    {
        let mut more: Vec<&str> = qa.clone();
        more.push("1");
        wrong.push(format!("{name}({})", more.join(",")));
        if np > 0 {
            wrong.push(format!("{name}({})", qa[1..].join(",")));
        }
        if renamed && !["match"].contains(&&by_own[..]) {
            wrong.push(format!("{by_own}({})", qa.join(",")));
        }
        if raw {
            wrong.push(format!("{own}({})", qa.join(",")));
        }
        wrong.push(format!("{name}x({})", qa.join(",")));
    }
    let call = format!("{name}({})", qa.join(","));
    // directly from elsewhere, where it can be seen from there
    let within = vis.is_empty();
    let o = ["v", "l", "n"][ret as usize];
    let path_to = if within { own.clone() } else { format!("crate::{tag}::{own}") };
    let t = |p: &str| format!("crate::support::test({tag:?}, &|| crate::support::o{o}({p}({})), {call:?}, &{wrong:?});", da.join(", "));
    let (inside, test) = if within { (format!("pub(crate) fn run() {{ {} }}", t(&path_to).replace("vec![", "::std::vec![")), format!("crate::{tag}::run();")) } else { (String::new(), t(&path_to)) };
    let shadow = if r.chance(1, 3) { *r.pick(SHADOWS) } else { "" };
    let ua_plain = if ua.is_empty() { String::new() } else { format!("#[allow(unused_imports)] {ua}") };
    let make = |attr: &str| {
        if within && tag.ends_with('3') {
            // a definition in the body of a function
            format!("mod {tag} {{\n#[allow(unused_imports)] use serde_json_path; {import} {ua_plain} {shadow}\npub(crate) fn run() {{\n{mac_a}{before}{attr}\n{item}\n{mac_b}{}\n}}\n}}\n", t(&own).replace("vec![", "::std::vec!["))
        } else {
            format!("mod {tag} {{\n#[allow(unused_imports)] use serde_json_path; {import} {ua_plain} {shadow}\n{mac_a}{before}{attr}\n{item}\n{mac_b}{inside}\n}}\n")
        }
    };
    Def { src: make(&attr), plain: make("#[allow(dead_code)]"), tag, test }
}

/// what a crate can begin with
const CRATES: &[&str] = &["", "", "#![forbid(unsafe_code)]", "#![allow(warnings)]", "#![deny(unsafe_op_in_unsafe_fn)]", "#![warn(missing_docs)]", "#![warn(warnings)]\n#![forbid(unsafe_code)]"];

/// the program of these definitions, and the line at which each begins
fn program(head: &str, defs: &[&Def], plain: bool) -> (String, Vec<usize>) {
    let mut s = format!("{head}\n//! A generated crate.\n");
    s.push_str("#[allow(dead_code)] mod other { #[allow(non_snake_case)] pub(crate) fn Ok<T>(x: T) -> ::std::result::Result<T, ::std::string::String> { ::std::result::Result::Ok(x) } }\n");
    s.push_str(SUPPORT);
    s.push_str("#[allow(non_snake_case, unused_imports, dead_code)] mod paths { pub(crate) use serde_json_path::functions; pub(crate) mod LogicalType { pub(crate) use serde_json_path::functions::*; } pub(crate) mod NodesType { pub(crate) use serde_json_path::functions::*; } pub(crate) mod ValueType { pub(crate) use super::NodesType; } }\n");
    let mut at = vec![];
    for d in defs {
        at.push(s.lines().count() + 1);
        s.push_str(if plain { &d.plain } else { &d.src });
    }
    at.push(s.lines().count() + 1);
    s.push_str("fn main() {\n");
    for d in defs {
        s.push_str(&d.test);
        s.push('\n');
    }
    s.push_str("println!(\"END\");\n}\n");
    (s, at)
}
fn run(dir: &str) -> (String, bool) {
    let o = Command::new("timeout").args(["60", &format!("{dir}/x")]).stdin(Stdio::null()).output().unwrap_or_else(|e| harness_bug(e.to_string()));
    (String::from_utf8_lossy(&o.stdout).to_string() + &String::from_utf8_lossy(&o.stderr), o.status.success())
}
const EDITIONS: &[&str] = &["2021", "2018", "2024"];

fn valid(tc: &mut Tc, n: usize) {
    let edition = *tc.rng.pick(EDITIONS);
    let head = *tc.rng.pick(CRATES);
    let mut raws = RAW.to_vec();
    let defs: Vec<Def> = (0..n).map(|i| define(&mut tc.rng, i, i % 2 == 0, &mut raws)).collect();
    let all: Vec<&Def> = defs.iter().collect();
    let verif = tc.conf.verif.clone();
    let dir = Scratch::new(&verif);
    let (mut src, _) = program(head, &all, false);
    tc.evn(n as u64);
    if let Err(e) = rustc(&verif, &dir.0, &src, edition, true) {
        // which ones are it?
        let mut rest = vec![];
        for d in &defs {
            let (s, _) = program(head, &[d], false);
            let Err(e) = rustc(&verif, &dir.0, &s, edition, false) else {
                rest.push(d);
                continue;
            };
            let (p, _) = program(head, &[d], true);
            if let Err(e) = rustc(&verif, &dir.0, &p, edition, false) {
                // not a valid function to begin with
                tc.count("definitions that do not compile without the attribute either");
                tc.sample(|| json!({"does not compile without the attribute either": e[0].message, "definition": d.plain, "crate": head}));
                continue;
            }
            tc.fail(format!("a definition that compiles without the attribute does not compile with it: {} (edition {edition}, {head:?})", e[0].message), json!({"definition": d.src, "errors": clip(e[0].rendered.clone()), "crate": s, "edition": edition}));
        }
        if tc.failed() {
            return;
        }
        src = program(head, &rest, false).0;
        if let Some(f) = rustc(&verif, &dir.0, &src, edition, true).err() {
            let first = if rest.len() == defs.len() { &e } else { &f };
            tc.fail(format!("definitions that compile each for itself do not compile together: {}", first[0].message), json!({"crate": src, "errors": clip(first[0].rendered.clone()), "edition": edition}));
            return;
        }
    }
    let (out, ok) = run(&dir.0);
    let bad: Vec<&str> = out.lines().filter(|l| l.starts_with("BAD ")).collect();
    for b in bad.iter().take(3) {
        let tag = b.split(' ').nth(1).unwrap_or("");
        let d = defs.iter().find(|d| d.tag == tag).unwrap_or(&defs[0]);
        tc.fail(format!("a function does not do as declared: {} in {}", b, d.src), json!({"definition": d.src, "said": b, "edition": edition}));
    }
    if bad.is_empty() && (!ok || !out.contains("END")) {
        tc.fail(format!("a program with registered functions ends badly: {}", clip(out.clone())), json!({"crate": src, "output": clip(out), "edition": edition}));
        return;
    }
    for d in &defs {
        if out.lines().any(|l| l == format!("RAN {}", d.tag)) {
            tc.nontrivial(hash_bytes(d.src.as_bytes()));
            tc.count("definitions compiled and called");
        }
    }
    tc.count(&format!("crates of edition {edition}"));
    tc.sample(|| json!({"edition": edition, "crate": head, "definition": defs[0].src, "test": defs[0].test}));
}

/// definitions that must not compile; the tail says what is wrong with them
fn wrongs(r: &mut Rng) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = fixed_wrongs().iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    // an otherwise fine definition with one thing that is wrong
    const BAD: &[&str] = &["bool", "u8", "()", "String", "&str", "&'static str", "serde_json::Value", "&serde_json::Value", "Option<ValueType<'static>>", "&ValueType<'_>", "&mut ValueType<'_>", "&NodesType<'_>", "&LogicalType", "[LogicalType; 1]", "&[LogicalType]", "(LogicalType,)", "(LogicalType, LogicalType)", "Box<LogicalType>", "fn() -> LogicalType", "*const LogicalType", "Vec<&serde_json::Value>", "serde_json_path::NodeList<'_>", "serde_json_path::JsonPath", "impl Sized", "dyn Send", "Values", "ValueTypes", "valuetype", "Nodes", "Type", "std::string::String", "NodesType::Item", "<NodesType<'static> as IntoIterator>::Item", "Result<LogicalType, ()>", "_"];
    const GOOD: &[&str] = &["ValueType<'_>", "NodesType<'_>", "LogicalType", "serde_json_path::functions::ValueType<'_>", "(LogicalType)"];
    const NAMES: &[&str] = &["\"\"", "\"x\"", "\"y_1\"", "r\"x\"", "r#\"\"#", "\"length\""];
    const JUNK: &[&str] = &["name", "name = ", "name: \"x\"", "name = x", "name = 1", "name = 'x'", "name = b\"x\"", "name = c\"x\"", "name = true", "name == \"x\"", "name(\"x\")", "name = (\"x\")", "name = \"x\".into()", "name = concat!(\"x\")", "name = -1", "name => \"x\"", "name = [\"x\"]"];
    for k in 0..40 {
        let mut p: Vec<&str> = (0..r.below(7)).map(|_| *r.pick(GOOD)).collect();
        let mut attr = if r.chance(1, 3) { format!("(name = \"random_wrong_{k}\")") } else { String::new() };
        let mut ret = ["LogicalType", "ValueType<'static>", "NodesType<'static>"][r.below(3)];
        let what = match r.below(5) {
            0 => {
                let sep = *r.pick(&[", ", ",", " , "]);
                attr = format!("(name = {}{sep}name = {})", r.pick(NAMES), r.pick(NAMES));
                format!("two names {attr}")
            }
            1 => {
                // (parts of `name = "x".into()` may be taken for arguments that the macro does not know)
                let j = *r.pick(JUNK);
                if j.ends_with(".into()") {
                    continue;
                }
                attr = format!("({j})");
                format!("attribute arguments {attr}")
            }
            2 => {
                ret = r.pick(BAD);
                format!("result {ret}")
            }
            _ => {
                let b = *r.pick(BAD);
                let i = r.below(p.len() + 1);
                p.insert(i, b);
                format!("parameter {i} of {}: {b}", p.len())
            }
        };
        let params: Vec<String> = p.iter().enumerate().map(|(i, t)| format!("_p{i}: {t}")).collect();
        v.push((what, format!("#[serde_json_path::function{attr}]\nfn F({}) -> {ret} {{ todo!() }}", params.join(", "))));
    }
    v
}
fn fixed_wrongs() -> Vec<(&'static str, &'static str)> {
    vec![
        ("no result", "#[serde_json_path::function]\nfn F(_x: ValueType) {}"),
        ("no result, with a block's value", "#[serde_json_path::function]\nfn F(_x: ValueType) -> () {}"),
        ("bool result", "#[serde_json_path::function]\nfn F(_x: ValueType) -> bool { true }"),
        ("Value result", "#[serde_json_path::function]\nfn F(_x: ValueType) -> serde_json::Value { serde_json::Value::Null }"),
        ("usize result", "#[serde_json_path::function]\nfn F(x: NodesType) -> usize { x.len() }"),
        ("optional result", "#[serde_json_path::function]\nfn F(x: ValueType) -> Option<ValueType> { Some(x) }"),
        ("borrowed result", "#[serde_json_path::function]\nfn F<'a>(_x: ValueType<'a>) -> &'a ValueType<'a> { todo!() }"),
        ("tuple result", "#[serde_json_path::function]\nfn F(_x: ValueType) -> (LogicalType,) { (LogicalType::True,) }"),
        ("impl result", "#[serde_json_path::function]\nfn F(_x: ValueType) -> impl Into<LogicalType> { true }"),
        ("boxed result", "#[serde_json_path::function]\nfn F(x: ValueType) -> Box<ValueType> { Box::new(x) }"),
        ("never result", "#[serde_json_path::function]\nfn F(_x: ValueType) -> ! { loop {} }"),
        ("list result", "#[serde_json_path::function]\nfn F(x: NodesType) -> Vec<&serde_json::Value> { x.all() }"),
        ("NodeList result", "#[serde_json_path::function]\nfn F(_x: NodesType) -> serde_json_path::NodeList<'static> { todo!() }"),
        ("bool parameter", "#[serde_json_path::function]\nfn F(x: bool) -> LogicalType { x.into() }"),
        ("Value parameter", "#[serde_json_path::function]\nfn F(_x: serde_json::Value) -> LogicalType { LogicalType::True }"),
        ("borrowed Value parameter", "#[serde_json_path::function]\nfn F(_x: &serde_json::Value) -> LogicalType { LogicalType::True }"),
        ("str parameter", "#[serde_json_path::function]\nfn F(_x: &str) -> LogicalType { LogicalType::True }"),
        ("string parameter", "#[serde_json_path::function]\nfn F(_x: String) -> LogicalType { LogicalType::True }"),
        ("optional parameter", "#[serde_json_path::function]\nfn F(_x: Option<ValueType>) -> LogicalType { LogicalType::True }"),
        ("borrowed parameter", "#[serde_json_path::function]\nfn F(_x: &ValueType) -> LogicalType { LogicalType::True }"),
        ("borrowed nodes", "#[serde_json_path::function]\nfn F(_x: &NodesType) -> LogicalType { LogicalType::True }"),
        ("mutably borrowed parameter", "#[serde_json_path::function]\nfn F(_x: &mut LogicalType) -> LogicalType { LogicalType::True }"),
        ("slice parameter", "#[serde_json_path::function]\nfn F(_x: &[ValueType]) -> LogicalType { LogicalType::True }"),
        ("array parameter", "#[serde_json_path::function]\nfn F(_x: [ValueType; 1]) -> LogicalType { LogicalType::True }"),
        ("tuple parameter", "#[serde_json_path::function]\nfn F(_x: (ValueType, ValueType)) -> LogicalType { LogicalType::True }"),
        ("list of nodes as parameter", "#[serde_json_path::function]\nfn F(_x: serde_json_path::NodeList) -> LogicalType { LogicalType::True }"),
        ("impl parameter", "#[serde_json_path::function]\nfn F(_x: impl Into<LogicalType>) -> LogicalType { LogicalType::True }"),
        ("function pointer parameter", "#[serde_json_path::function]\nfn F(_x: fn(ValueType) -> ValueType) -> LogicalType { LogicalType::True }"),
        ("wrong second parameter", "#[serde_json_path::function]\nfn F(_x: ValueType, _y: u8) -> LogicalType { LogicalType::True }"),
        ("wrong last parameter", "#[serde_json_path::function]\nfn F(_a: ValueType, _b: NodesType, _c: LogicalType, _y: usize) -> LogicalType { LogicalType::True }"),
        ("wrong parameter and result", "#[serde_json_path::function]\nfn F(_y: u8) -> u8 { 0 }"),
        ("another type of the same name as parameter", "struct ValueType;\n#[serde_json_path::function]\nfn F(_x: ValueType) -> serde_json_path::functions::LogicalType { serde_json_path::functions::LogicalType::True }"),
        ("another type of the same name as result", "struct LogicalType;\n#[serde_json_path::function]\nfn F() -> LogicalType { LogicalType }"),
        ("type parameter", "#[serde_json_path::function]\nfn F<T: Default>(_x: ValueType) -> LogicalType { let _ = T::default(); LogicalType::True }"),
        ("type parameter as result", "#[serde_json_path::function]\nfn F<T: Default>() -> T { T::default() }"),
        ("self", "#[serde_json_path::function]\nfn F(self) -> LogicalType { LogicalType::True }"),
        ("borrowed self", "#[serde_json_path::function]\nfn F(&self, _x: ValueType) -> LogicalType { LogicalType::True }"),
        ("async", "#[serde_json_path::function]\nasync fn F(_x: ValueType<'_>) -> LogicalType { LogicalType::True }"),
        ("unsafe", "#[serde_json_path::function]\nunsafe fn F(_x: ValueType<'_>) -> LogicalType { LogicalType::True }"),
        ("structure", "#[serde_json_path::function]\npub(crate) struct F;"),
        ("constant", "#[serde_json_path::function]\npub(crate) const F: u8 = 1;"),
        ("module", "#[serde_json_path::function]\nmod F {}"),
        ("trait", "#[serde_json_path::function]\npub(crate) trait F { fn f(x: ValueType) -> ValueType; }"),
        ("closure", "#[serde_json_path::function]\npub(crate) static F: fn(LogicalType) -> LogicalType = |x| x;"),
        ("declaration without body", "#[serde_json_path::function]\nfn F(_x: ValueType) -> LogicalType;"),
        ("number as name", "#[serde_json_path::function(name = 5)]\nfn F(_x: ValueType) -> LogicalType { LogicalType::True }"),
        ("identifier as name", "#[serde_json_path::function(name = match_)]\nfn F(_x: ValueType) -> LogicalType { LogicalType::True }"),
        ("no name", "#[serde_json_path::function(name)]\nfn F(_x: ValueType) -> LogicalType { LogicalType::True }"),
        ("nothing for a name", "#[serde_json_path::function(name = )]\nfn F(_x: ValueType) -> LogicalType { LogicalType::True }"),
        ("two names", "#[serde_json_path::function(name = \"one\", name = \"two\")]\nfn F(_x: ValueType) -> LogicalType { LogicalType::True }"),
        ("byte string as name", "#[serde_json_path::function(name = b\"one\")]\nfn F(_x: ValueType) -> LogicalType { LogicalType::True }"),
        ("body of another type", "#[serde_json_path::function]\nfn F(_x: ValueType) -> LogicalType { true }"),
        ("body of another kind", "#[serde_json_path::function]\nfn F(x: NodesType) -> ValueType { x }"),
        ("result that does not live long enough", "#[serde_json_path::function]\nfn F<'a>(_x: ValueType<'a>) -> ValueType<'a> { let v = serde_json::json!(1); ValueType::Node(&v) }"),
    ]
}

fn invalid(tc: &mut Tc) {
    let edition = *tc.rng.pick(EDITIONS);
    let verif = tc.conf.verif.clone();
    let dir = Scratch::new(&verif);
    let w = wrongs(&mut tc.rng);
    let mut pick: Vec<usize> = (0..w.len()).collect();
    tc.rng.shuffle(&mut pick);
    let head = "#![allow(warnings)]\n";
    let part = |i: usize| format!("mod w{i} {{\n#[allow(unused_imports)] use serde_json_path::functions::*;\n{}\n}}\n", w[i].1.replace('F', &format!("wrong_{i}")));
    let mut s = head.to_string();
    let mut at = vec![];
    for i in &pick {
        let a = s.lines().count() + 1;
        s.push_str(&part(*i));
        at.push((a, s.lines().count()));
    }
    s.push_str("fn main() {}\n");
    let judge = |tc: &mut Tc, i: usize, e: &[Diag], at: (usize, usize)| -> bool {
        let mine: Vec<&Diag> = e.iter().filter(|d| d.lines.iter().any(|l| *l >= at.0 && *l <= at.1)).collect();
        if mine.is_empty() {
            return false;
        }
        if let Some(p) = mine.iter().find(|d| d.message.contains("panicked")) {
            tc.fail(format!("the attribute panics instead of reporting an error ({}): {}", w[i].0, p.message), json!({"definition": part(i), "error": p.rendered}));
        }
        tc.nontrivial(hash_bytes(w[i].0.as_bytes()));
        tc.count("definitions rejected");
        tc.sample(|| json!({"what is wrong": w[i].0, "definition": part(i), "error": mine[0].message}));
        true
    };
    tc.evn(pick.len() as u64);
    let e = rustc(&verif, &dir.0, &s, edition, false).err().unwrap_or_default();
    let mut rest = vec![];
    for (i, at) in pick.iter().zip(&at) {
        if !judge(tc, *i, &e, *at) {
            rest.push(*i);
        }
    }
    // errors of the one kind hide errors of the other
    for i in rest {
        let s = format!("{head}{}fn main() {{}}\n", part(i));
        match rustc(&verif, &dir.0, &s, edition, false) {
            Err(e) => {
                if !judge(tc, i, &e, (3, s.lines().count() - 1)) {
                    tc.fail(format!("the error does not point at the definition ({}): {}", w[i].0, e[0].message), json!({"definition": part(i), "error": e[0].rendered}));
                }
            }
            Ok(()) => tc.fail(format!("a definition is accepted that is not one of a function over the three types ({}): {}", w[i].0, w[i].1), json!({"definition": part(i), "edition": edition})),
        }
    }
}

pub fn check(c: &Conf) -> Check {
    let mut sections = vec![];
    sections.push(sec("valid definitions", c.n(24, 320), |tc, _| valid(tc, 30)).cpu(0));
    sections.push(sec("invalid definitions", c.n(8, 80), |tc, _| invalid(tc)).cpu(0));
    // many together, and one alone
    sections.push(sec("numbers of definitions", c.n(3, 24), |tc, i| valid(tc, [1, 200, 2, 400][i as usize % 4])).cpu(0));
    Check {
        rule: "a distinct definition that was compiled in a crate of its own making, called from Rust and from a query, or rejected",
        assumptions: vec!["rustc's own judgement of the definition without the attribute says whether it is a valid function", "crates depend on serde_json_path and serde_json alone"],
        sections,
        need: vec!["definitions compiled and called", "definitions rejected"],
    }
}
