//! What several checks share.
use crate::ast::*;
use crate::render;
use crate::reval::{self, Node, Stop};
use crate::rng::{hash_bytes, mix};
use crate::run::Tc;
use serde_json::{json, Value};
use serde_json_path::JsonPath;

pub fn addr(v: &Value) -> usize {
    v as *const Value as usize
}
pub fn hash_doc(d: &Value) -> u64 {
    hash_bytes(d.to_string().as_bytes())
}
pub fn clip(s: String) -> String {
    if s.len() <= 4000 {
        s
    } else {
        let mut n = 4000;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        format!("{}… ({} bytes)", &s[..n], s.len())
    }
}
pub fn show(d: &Value) -> String {
    clip(d.to_string())
}

/// parse a text that is valid; a failure is a failure of the property at hand
pub fn must_parse(tc: &mut Tc, text: &str) -> Option<JsonPath> {
    match JsonPath::parse(text) {
        Ok(p) => Some(p),
        Err(e) => {
            if !matches!(crate::rparse::parse(text), crate::rparse::Verdict::Accept(_)) {
                crate::run::harness_bug(format!("generated an invalid query: {text}: {e}, {:?}", crate::rparse::parse(text)));
            }
            tc.fail(
                format!("a valid query is rejected: {} ({e})", clip(text.to_string())),
                json!({"query": clip(text.to_string()), "error": e.to_string()}),
            );
            None
        }
    }
}

fn list(v: &[(String, &Value)]) -> Vec<String> {
    v.iter().take(40).map(|(p, v)| format!("{p} = {}", clip(v.to_string()))).collect()
}

pub fn eq_nodes(got: &[&Value], exp: &[Node]) -> bool {
    got.len() == exp.len() && got.iter().zip(exp).all(|(g, e)| std::ptr::eq(*g, e.v))
}
/// subsets of the recorded defects, the smaller ones first
pub fn masks(tc: &Tc) -> Vec<u8> {
    let all = reval::DEFECTS.iter().filter(|d| tc.conf.knows(d.1)).fold(0, |a, d| a | d.0);
    let mut v: Vec<u8> = (1..8).filter(|m| m & !all == 0).collect();
    v.sort_by_key(|m| m.count_ones());
    v
}
pub fn note_known(tc: &mut Tc, mask: u8, detail: impl Fn() -> Value) {
    for (m, k) in reval::DEFECTS {
        if mask & m != 0 {
            tc.known(k, &detail);
        }
    }
}
/// Is the result what a recorded defect makes of the query? Some(true) also when it can not be told.
fn explained(tc: &mut Tc, q: &Query, text: &str, doc: &Value, got: &[&Value]) -> bool {
    for m in masks(tc) {
        match reval::eval_mask(q, doc, m) {
            Ok(n) if eq_nodes(got, &n) => {
                note_known(tc, m, || json!({"query": clip(text.to_string()), "document": show(doc)}));
                return true;
            }
            Err(s) => {
                tc.count(if s == Stop::Unspec { "skipped: result not specified" } else { "skipped: more steps than the budget" });
                return true;
            }
            _ => {}
        }
    }
    false
}

/// compares the nodes themselves: identity, order and multiplicity
pub fn same_nodes(tc: &mut Tc, what: &str, q: &Query, text: &str, doc: &Value, got: &[&Value], exp: &[Node]) -> bool {
    if eq_nodes(got, exp) || explained(tc, q, text, doc, got) {
        return true;
    }
    let e: Vec<_> = exp.iter().map(|n| (reval::npath(&reval::steps(&n.path)), n.v)).collect();
    let mut loc = std::collections::HashMap::new();
    all_nodes(doc, String::from("$"), &mut |p, v| {
        loc.insert(addr(v), p.to_string());
    });
    let g: Vec<_> = got
        .iter()
        .map(|v| (loc.get(&addr(v)).cloned().unwrap_or_else(|| "(not in the document)".into()), *v))
        .collect();
    let at = g.iter().zip(&e).position(|(a, b)| a.0 != b.0).unwrap_or(g.len().min(e.len()));
    tc.fail(
        format!(
            "{what}: {} on {}: {} nodes, expected {}; first difference at {at}",
            clip(text.to_string()),
            clip(doc.to_string().chars().take(200).collect()),
            g.len(),
            e.len()
        ),
        json!({"query": text, "document": show(doc), "got": list(&g), "expected": list(&e), "first_difference": at}),
    );
    false
}
pub fn all_nodes<'a>(v: &'a Value, p: String, f: &mut impl FnMut(&str, &'a Value)) {
    f(&p, v);
    match v {
        Value::Array(a) => {
            for (i, c) in a.iter().enumerate() {
                all_nodes(c, format!("{p}[{i}]"), f);
            }
        }
        Value::Object(o) => {
            for (k, c) in o {
                let n = render::normalized([render::El::Name(k)].into_iter());
                all_nodes(c, format!("{p}{}", &n[1..]), f);
            }
        }
        _ => {}
    }
}

/// the reference result, or None when it is unspecified or too large
pub fn reference<'a>(tc: &mut Tc, q: &Query, doc: &'a Value) -> Option<Vec<Node<'a>>> {
    match reval::eval(q, doc) {
        // whichever operands are left out
        Ok(_) if !affordable(q, doc, 2_000_000) => {
            tc.count("skipped: more steps than the budget");
            None
        }
        Ok(n) => Some(n),
        Err(Stop::Budget) => {
            tc.count("skipped: more steps than the budget");
            None
        }
        Err(Stop::Unspec) => {
            tc.count("skipped: result not specified");
            None
        }
    }
}

/// Is the query cheap on the document, by its definition, whichever operands are left out, and also
/// where a recorded defect leads elsewhere?
pub fn affordable(q: &Query, doc: &Value, budget: u64) -> bool {
    (0..8).all(|m| {
        let mut c = reval::ctx(doc, budget, false);
        c.mask = m;
        c.calls = Some(Default::default());
        c.query(q, &Node { v: doc, path: None }, false).is_ok()
    })
}

/// runs both evaluations of an already parsed query and compares with the reference
pub fn check_parsed(tc: &mut Tc, q: &Query, p: &JsonPath, text: &str, doc: &Value) -> Option<usize> {
    let exp = reference(tc, q, doc)?;
    tc.evn(2);
    let got = p.query(doc).all();
    if !same_nodes(tc, "query", q, text, doc, &got, &exp) {
        return None;
    }
    let loc = p.query_located(doc);
    let loc: Vec<&Value> = loc.iter().map(|n| n.node()).collect();
    if !same_nodes(tc, "query_located", q, text, doc, &loc, &exp) {
        return None;
    }
    tc.add("nodes compared", 2 * exp.len() as u64);
    tc.max("nodes in a result", exp.len() as u64);
    if !exp.is_empty() {
        tc.count("non-empty results");
    }
    Some(exp.len())
}
pub fn check_eval(tc: &mut Tc, q: &Query, text: &str, doc: &Value) -> Option<usize> {
    let p = must_parse(tc, text)?;
    check_parsed(tc, q, &p, text, doc)
}
/// distinct (query, document) pair
pub fn pair(text: &str, d: u64) -> u64 {
    mix(hash_bytes(text.as_bytes()) ^ d.rotate_left(17))
}
pub fn note_pair(tc: &mut Tc, text: &str, doc: &Value, d: u64, n: usize) {
    if n > 0 {
        tc.nontrivial(pair(text, d));
    }
    tc.sample(|| json!({"query": clip(text.to_string()), "document": show(doc).chars().take(400).collect::<String>(), "nodes": n}));
}
pub fn filter(e: Expr) -> Query {
    Query::root().with(false, vec![Sel::Filter(e)])
}
pub fn str_lit(s: &str) -> Lit {
    Lit::Str(s.to_string())
}
pub fn func(name: &str, args: Vec<Arg>) -> Func {
    Func { name: name.to_string(), args }
}

/// one plain case for each recorded defect of comparisons, so that every run meets them
pub fn probes() -> crate::run::Section {
    crate::run::sec("recorded findings", 3, |tc, i| {
        let (l, op, r, doc) = match i {
            0 => (Cmpb::Query(Query::cur().index(-1)), Op::Eq, Cmpb::Lit(Lit::Num("1".into())), json!([[1], [2]])),
            1 => (Cmpb::Lit(Lit::Bool(true)), Op::Gt, Cmpb::Lit(Lit::Bool(false)), json!([1])),
            _ => (Cmpb::Query(Query::cur().name("a")), Op::Eq, Cmpb::Query(Query::cur().name("b")), serde_json::from_str(r#"[{"a":[1],"b":[1.0]}]"#).unwrap()),
        };
        let q = filter(Expr::Cmp(l, op, r));
        check_eval(tc, &q, &render::plain(&q), &doc);
    })
}
