//! Custom functions.
use super::c05;
use super::common::*;
use crate::ast::*;
use crate::funcs::custom::CALLS;
use crate::funcs::{Sig, Ty, GEN, SIGS};
use crate::gen;
use crate::render;
use crate::reval::{self, Stop};
use crate::rng::hash_bytes;
use crate::rparse::{self, Verdict};
use crate::run::*;
use serde_json::{json, Map, Value};
use serde_json_path::JsonPath;
use std::cell::RefCell;
use std::collections::HashSet;

/// evaluates with every call of a generated function recorded; the calls need to be among those
/// that the query's definition gives rise to (operands that do not matter may be left out)
fn observe(tc: &mut Tc, q: &Query, p: &JsonPath, text: &str, doc: &Value) -> bool {
    if !affordable(q, doc, 100_000) {
        tc.count("skipped: more steps than the budget, or not specified");
        return true;
    }
    let allowed = |mask: u8| -> Result<HashSet<String>, Stop> {
        let mut c = reval::ctx(doc, 4_000_000, false);
        c.mask = mask;
        c.calls = Some(RefCell::new(HashSet::new()));
        c.query(q, &reval::Node { v: doc, path: None }, false)?;
        Ok(c.calls.take().unwrap().into_inner())
    };
    let want = match allowed(0) {
        Ok(w) => w,
        Err(_) => {
            tc.count("skipped: more steps than the budget, or not specified");
            return true;
        }
    };
    CALLS.with(|c| *c.borrow_mut() = Some(Default::default()));
    let ok = check_parsed(tc, q, p, text, doc).is_some();
    let (got, n) = CALLS.with(|c| c.borrow_mut().take()).unwrap();
    if !ok {
        return !tc.failed();
    }
    tc.add("calls observed", n);
    let extra: Vec<&String> = got.iter().filter(|g| !want.contains(*g)).collect();
    if !extra.is_empty() {
        for m in masks(tc) {
            match allowed(m) {
                Ok(w) if got.iter().all(|g| w.contains(g)) => {
                    note_known(tc, m, || json!({"query": text, "document": show(doc)}));
                    return true;
                }
                Err(_) => return true,
                _ => {}
            }
        }
        let mut w: Vec<&String> = want.iter().collect();
        w.sort();
        w.truncate(20);
        tc.fail(
            format!("{} on {}: a function was called with {}", clip(text.to_string()), clip(show(doc)), clip(extra[0].clone())),
            json!({"query": text, "document": show(doc), "calls_not_due": extra.iter().take(10).collect::<Vec<_>>(), "calls_due": w}),
        );
        return false;
    }
    for g in &got {
        tc.nontrivial(hash_bytes(text.as_bytes()) ^ hash_bytes(g.split(" | ").next().unwrap().as_bytes()).rotate_left(9) ^ got.len() as u64);
    }
    if got.is_empty() {
        tc.nontrivial(hash_bytes(text.as_bytes()));
    }
    tc.sample(|| json!({"query": clip(text.to_string()), "document": show(doc).chars().take(200).collect::<String>(), "calls": got.iter().take(5).collect::<Vec<_>>()}));
    true
}

pub const FORMS: &[&str] = &[
    "null", "true", "1", "-1.5", "'s'", "\"t\"", "@", "$", "@.a", "$[0]", "@['x'][1]", "$[-1].a", "@.*", "$..a", "@[?@.a]", "@[0,1]", "@[1:]", "@..b", "(@.a)", "!@.a", "!(@.*)", "@.a==1", "1==1", "@.a&&@.b", "@.a||!@.b", "'a'<@.b",
    "zero0()", "length(@.a)", "nil()", "value(@..a)", "yes()", "match(@.a,'b')", "none()", "idn(@.*)", "rev($[0].*)", "(yes())", "!yes()", "(none())", "!none()", "length('a')==1", "(length('a'))", "length('a')", "idl(idn(@.*))", "null==nil()",
];
const CTX: &[(&str, &str)] = &[
    ("$[?", "]"), ("$[?!", "]"), ("$[?", "==1]"), ("$[?1<", "]"), ("$[?(", ")]"), ("$[?", "&&@.a]"), ("$[?@.zz||", "]"), ("$[?idv(", ")==1]"), ("$[?idl(", ")]"), ("$[?count(", ")>0]"), ("$[?nonempty(", ")]"), ("$[?@.a==", "]"), ("$..[?@[?", "]]"), ("$[?f_v_v(", ")!=nil()]"), ("$[?f_l_l(", ")]"), ("$[?f_n_l(", ")]"),
];
fn default_arg(t: Ty) -> &'static str {
    match t {
        Ty::V => "@.a",
        Ty::L => "@.b==1",
        Ty::N => "@.*",
    }
}
fn docs() -> Vec<Value> {
    vec![
        json!([{"a": 1, "b": 1, "x": [0, "s"]}, {"a": "b", "b": null, "c": {"b": 2}}, ["b"], 5, {"a": [1, 2], "b": 1.0}]),
        json!({"p": {"a": {"a": "x"}, "b": 1}, "q": [[{"a": 1}], {"b": "c"}], "r": {}}),
    ]
}
/// acceptance, and the meaning when accepted
fn both(tc: &mut Tc, t: &str, docs: &[Value]) -> bool {
    match c05::judge(tc, t, false) {
        Some(true) => {
            let Verdict::Accept(q) = rparse::parse(t) else { unreachable!() };
            let Some(p) = must_parse(tc, t) else { return false };
            docs.iter().all(|d| observe(tc, &q, &p, t, d))
        }
        Some(false) => {
            tc.nontrivial(hash_bytes(t.as_bytes()));
            true
        }
        None => !tc.failed(),
    }
}
fn call(name: &str, args: &[&str]) -> String {
    format!("{name}({})", args.join(","))
}
fn all_sigs() -> Vec<&'static Sig> {
    SIGS.iter().filter(|s| crate::funcs::sig(s.name).is_some()).chain(GEN).collect()
}

pub fn check(c: &Conf) -> Check {
    let sigs = all_sigs();
    let n = sigs.len() as u64;
    let mut sections = vec![probes()];
    // every form in every parameter of every signature, in every context
    let s = sigs.clone();
    sections.push(sec("arguments and contexts", n * FORMS.len() as u64, move |tc, i| {
        let sg = s[(i % n) as usize];
        let form = FORMS[(i / n) as usize];
        let docs = docs();
        for pos in 0..sg.params.len().max(1) {
            let args: Vec<&str> = sg.params.iter().enumerate().map(|(k, t)| if k == pos { form } else { default_arg(*t) }).collect();
            let text = call(sg.name, &args);
            for (k, (a, b)) in CTX.iter().enumerate() {
                // of long signatures only some contexts at a time
                if sg.params.len() > 3 && (k + pos) % 4 != (i as usize) % 4 {
                    continue;
                }
                if !both(tc, &format!("{a}{text}{b}"), &docs) {
                    return;
                }
            }
        }
    }));
    let s = sigs.clone();
    sections.push(sec("numbers of arguments", n, move |tc, i| {
        let sg = s[i as usize];
        let docs = docs();
        let ctx = match sg.ret {
            Ty::V => ("$[?", "==1]"),
            _ => ("$[?", "]"),
        };
        for k in 0..=sg.params.len() + 3 {
            for filler in ["@.a", "1", "@.*", "@.a==1", "yes()", "null"] {
                let args: Vec<&str> = (0..k).map(|x| sg.params.get(x).map_or(filler, |t| default_arg(*t))).collect();
                if !both(tc, &format!("{}{}{}", ctx.0, call(sg.name, &args), ctx.1), &docs) {
                    return;
                }
                if k > 0 {
                    let mut a = args.clone();
                    a.rotate_right(1);
                    let mut b = args.clone();
                    b.reverse();
                    for x in [a, b] {
                        if !both(tc, &format!("{}{}{}", ctx.0, call(sg.name, &x), ctx.1), &docs) {
                            return;
                        }
                    }
                }
            }
        }
    }));
    // names that are almost those of functions
    let s = sigs.clone();
    sections.push(sec("names", n, move |tc, i| {
        let sg = s[i as usize];
        let docs = docs();
        let args: Vec<&str> = sg.params.iter().map(|t| default_arg(*t)).collect();
        let name: Vec<char> = sg.name.chars().collect();
        let mut names = vec![sg.name.to_string(), String::new(), sg.name.repeat(2), sg.name.to_uppercase(), format!("{} ", sg.name), format!(" {}", sg.name)];
        for k in 0..=name.len().min(12) {
            for c in "abcdefghijklmnopqrstuvwxyz0123456789_A-.é".chars() {
                let mut v = name.clone();
                v.insert(k, c);
                names.push(v.iter().collect());
                if k < name.len() {
                    let mut v = name.clone();
                    v[k] = c;
                    names.push(v.iter().collect());
                }
            }
            if k < name.len() {
                let mut v = name.clone();
                v.remove(k);
                names.push(v.iter().collect());
                names.push(name[..k].iter().collect());
                names.push(name[k..].iter().collect());
            }
        }
        for nm in names {
            let t = match sg.ret {
                Ty::V => format!("$[?{}==1]", call(&nm, &args)),
                _ => format!("$[?{}]", call(&nm, &args)),
            };
            if !both(tc, &t, &docs) {
                return;
            }
        }
    }));
    // random arguments for every signature
    let s = sigs.clone();
    let per = c.n(500, 8000);
    sections.push(sec("random arguments", n * per, move |tc, i| {
        let sg = s[(i % n) as usize];
        if matches!(sg.name, "boom" | "reenter" | "spy") {
            return;
        }
        let doc = if tc.rng.chance(2, 3) { gen::records(&mut tc.rng) } else { gen::small(&mut tc.rng, 3) };
        let at = match &doc {
            Value::Array(a) => a.first(),
            Value::Object(o) => o.values().next(),
            _ => None,
        };
        let mut g = gen::Gen { r: &mut tc.rng, root: &doc, o: &gen::SIGS, budget: 14 };
        let args = sg.params.iter().map(|p| g.arg(*p, at, 1)).collect();
        let f = Func { name: sg.name.to_string(), args };
        let mut e = match (sg.ret, g.r.below(4)) {
            (Ty::V, k) => {
                let op = *g.r.pick(&OPS);
                let o = if k == 0 { Cmpb::Func(f.clone()) } else { g.cmpb(at, 1) };
                if g.r.chance(1, 2) {
                    Expr::Cmp(Cmpb::Func(f), op, o)
                } else {
                    Expr::Cmp(o, op, Cmpb::Func(f))
                }
            }
            (_, 0) => Expr::Not(Box::new(Expr::Func(f))),
            (Ty::N, 1) => {
                let op = *g.r.pick(&OPS);
                Expr::Cmp(Cmpb::Func(func(*g.r.pick(&["count", "value", "head", "f_n_v"]), vec![Arg::Func(f)])), op, g.cmpb(at, 1))
            }
            (_, 2) => Expr::Func(func(*g.r.pick(&["idl", "f_l_l"]), vec![Arg::Func(f)])),
            _ => Expr::Func(f),
        };
        if g.r.chance(1, 4) {
            let o = g.basic(at, 1);
            e = if g.r.chance(1, 2) { Expr::And(vec![e, o]) } else { Expr::Or(vec![o, e]) };
        }
        let q = filter(e);
        let text = render::varied(&mut tc.rng, &q);
        if let Some(p) = must_parse(tc, &text) {
            observe(tc, &q, &p, &text, &doc);
        }
    }));
    sections.push(sec("queries and documents", c.n(60_000, 1_500_000), |tc, _| {
        let doc = gen::doc(&mut tc.rng);
        let q = gen::gen_query(&mut tc.rng, &doc, &gen::SIGS);
        let text = render::varied(&mut tc.rng, &q);
        if let Some(p) = must_parse(tc, &text) {
            let near = gen::mutate(&mut tc.rng, &doc);
            let _ = observe(tc, &q, &p, &text, &doc) && observe(tc, &q, &p, &text, &near);
        }
    }));
    // nodelists of many sizes and queries of many kinds reach the function complete and in order
    let mut sizes: Vec<usize> = gen::SIZES.to_vec();
    sizes.extend([511, 512, 513, 1000, 1024, 2000]);
    sections.push(sec("sizes of nodelists", sizes.len() as u64, move |tc, i| {
        let n = sizes[i as usize];
        let doc = json!([{ "a": (0..n).map(|k| json!({ "k": k % 7 })).collect::<Vec<_>>(), "o": (0..n).map(|k| (format!("k{k}"), json!(k))).collect::<Map<_, _>>() }]);
        for q in ["@.a[*]", "@.o.*", "@..k", "@.a[?@.k>3]", "@.a[::-1]", "@.a[*,*]", "@.a[1:-1:3].k", "idn(@.a[*])", "rev(@.o[*])", "f_nn_n(@.a.*,@.o.*)", "@..*"] {
            for f in ["f_n_v", "f_n_l", "f_n_n", "f_l_l", "nonempty", "f_lnn_v"] {
                let Some(sg) = crate::funcs::sig(f) else { continue };
                let args: Vec<&str> = sg.params.iter().map(|_| q).collect();
                let t = call(f, &args);
                let t = if sg.ret == Ty::V { format!("$[?{t}==nil()]") } else { format!("$[?{t}]") };
                if !both(tc, &t, &[doc.clone()]) {
                    return;
                }
            }
        }
        tc.max("nodes in an argument", n as u64);
    }));
    // deep nests of calls
    sections.push(sec("nested calls", 60, |tc, i| {
        let n = i as usize + 1;
        let docs = docs();
        for f in ["idv", "f_v_v"] {
            for a in ["@.a", "1", "@.zz", "nil()"] {
                let t = format!("{}{a}{}", format!("{f}(").repeat(n), ")".repeat(n));
                if !both(tc, &format!("$[?{t}==1]"), &docs) {
                    return;
                }
            }
        }
        for f in ["idl", "f_l_l", "false_1", "idn", "f_n_n", "rev"] {
            for a in ["@.*", "@.a", "yes()", "@.a==1", "none()"] {
                let t = format!("{}{a}{}", format!("{f}(").repeat(n), ")".repeat(n));
                if !both(tc, &format!("$[?{t}]"), &docs) || !both(tc, &format!("$[?!{t}]"), &docs) {
                    return;
                }
            }
        }
    }));
    Check {
        rule: "156 functions with different signatures are registered that record their arguments and return a hash of them; a distinct (query, function, number of distinct calls), or a distinct rejected text",
        assumptions: vec![
            "operands that do not decide the result may or may not be evaluated: calls need to be a subset of those due, and the result to be right",
            "values are compared as numbers are in comparisons (1 and 1.0 are the same argument); whether a value arrives as a copy or as a reference is not judged",
        ],
        sections,
        need: vec!["calls observed", "valid texts", "invalid texts"],
    }
}

/// ways of writing functions: another crate, built and run
pub fn extra(conf: &Conf) -> Result<(Map<String, Value>, Vec<Value>), String> {
    let o = std::process::Command::new(format!("{}/bin/macroprobe", conf.verif)).output().map_err(|e| e.to_string())?;
    let text = String::from_utf8_lossy(&o.stdout).to_string();
    let mut m = Map::new();
    m.insert("macroprobe".into(), json!(text.lines().last().unwrap_or("")));
    match o.status.code() {
        Some(0) if text.contains("RAN") => Ok((m, vec![])),
        Some(1) => Ok((
            m,
            vec![json!({"section": "macroprobe", "index": 0, "msg": format!("custom functions written in other ways: {}", clip(text.clone())), "detail": {"output": clip(text)}})],
        )),
        c => Err(format!("macroprobe: {c:?} {}", clip(text))),
    }
}
