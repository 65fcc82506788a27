//! Agreement of the ways of running a query.
use super::common::*;
use crate::ast::*;
use crate::gen;
use crate::render;
use crate::rng::hash_bytes;
use crate::run::*;
use serde_json::{json, Value};
use serde_json_path::{JsonPath, JsonPathExt};

type Locs = Vec<String>;
fn addrs(v: &[&Value]) -> Vec<usize> {
    v.iter().map(|v| addr(v)).collect()
}
/// all ways on one document: the addresses and locations found
fn agree(tc: &mut Tc, p: &JsonPath, text: &str, doc: &Value) -> Option<(Vec<usize>, Locs)> {
    let q = addrs(&p.query(doc).all());
    let l = p.query_located(doc);
    let ln: Vec<usize> = l.iter().map(|n| addr(n.node())).collect();
    let lv = addrs(&l.nodes().collect::<Vec<_>>());
    let locs: Locs = l.locations().map(|n| n.to_string()).collect();
    let e = addrs(&doc.json_path(p).all());
    tc.evn(3);
    for (what, x) in [("query_located", &ln), ("query_located's nodes", &lv), ("json_path", &e)] {
        if *x != q {
            let at = x.iter().zip(&q).position(|(a, b)| a != b).unwrap_or(x.len().min(q.len()));
            tc.fail(
                format!("{what} gives {} nodes where query gives {}, first difference at {at}: {} on {}", x.len(), q.len(), clip(text.into()), show(doc).chars().take(200).collect::<String>()),
                json!({"query": text, "document": show(doc), "way": what, "difference_at": at, "query_len": q.len(), "other_len": x.len(), "locations": locs}),
            );
            return None;
        }
    }
    if locs.len() != q.len() {
        tc.fail(format!("{} locations for {} nodes: {text}", locs.len(), q.len()), json!({"query": text, "document": show(doc)}));
        return None;
    }
    Some((q, locs))
}
fn same<T: PartialEq>(tc: &mut Tc, what: &str, text: &str, doc: &Value, a: &T, b: &T) -> bool {
    if a != b {
        tc.fail(format!("{what} gives another result: {} on {}", clip(text.into()), show(doc).chars().take(200).collect::<String>()), json!({"query": text, "document": show(doc), "what": what}));
        return false;
    }
    true
}
fn full(tc: &mut Tc, text: &str, docs: &[&Value]) {
    let Some(p) = must_parse(tc, text) else { return };
    let c = p.clone();
    let mut first = vec![];
    for d in docs {
        let Some(r) = agree(tc, &p, text, d) else { return };
        first.push(r);
    }
    let again = JsonPath::parse(text).unwrap();
    let st: JsonPath = text.parse().unwrap();
    // other documents in between, in the other order, repeatedly
    for (d, r) in docs.iter().zip(&first).rev() {
        for (what, x) in [("a clone", &c), ("a re-parsed copy", &again), ("a copy from FromStr", &st), ("evaluating again", &p)] {
            let Some(y) = agree(tc, x, text, d) else { return };
            if !same(tc, what, text, d, r, &y) {
                return;
            }
        }
        let copy = (*d).clone();
        let Some(y) = agree(tc, &p, text, &copy) else { return };
        if !same(tc, "an equal copy of the document", text, d, &r.1, &y.1) {
            return;
        }
    }
    // neither of them has changed
    if !same(tc, "the query, after being evaluated,", text, docs[0], &p, &c) {
        return;
    }
    let (d, r) = (docs[0], &first[0]);
    drop(p);
    let Some(y) = agree(tc, &c, text, d) else { return };
    if !same(tc, "a clone that outlives the original", text, d, r, &y) {
        return;
    }
    for (d, r) in docs.iter().zip(&first) {
        if !r.0.is_empty() {
            tc.nontrivial(pair(text, hash_doc(d)));
            tc.count("non-empty results");
        }
        tc.add("nodes compared", r.0.len() as u64);
        tc.max("nodes in a result", r.0.len() as u64);
    }
    tc.sample(|| json!({"query": clip(text.into()), "document": show(docs[0]).chars().take(300).collect::<String>(), "nodes": first[0].0.len()}));
}
fn cheap(q: &Query, d: &Value) -> bool {
    affordable(q, d, 300_000)
}

const SELS: &[&str] = &[
    "'a'", "'b'", "'c'", "*", "0", "1", "-1", "-2", "9", "0:2", "::-1", "1:", ":-1", "::2", "5:0:-2", "::0", "?@", "?@.a", "?@[0]", "?!@.a", "?@>1", "?@.a==@.b", "?@.*", "?@..a", "?$.a", "?length(@)>1", "?count(@.*)==2", "?@[?@]", "?@!=null",
];

pub fn check(c: &Conf) -> Check {
    let mut sections = vec![];
    let n = SELS.len() as u64;
    let depth = if c.thorough { 3 } else { 2 };
    let total: u64 = (1..=depth).map(|k| (2 * n).pow(k)).sum();
    sections.push(sec("all sequences of selectors", total, move |tc, i| {
        let docs = [
            json!({"a": [1, {"a": 2, "b": 2, "c": [3, [4]]}, "x", null], "b": {"a": {"a": []}, "c": 1}, "c": [[1, 2, 3, 4, 5, 6], [], {}]}),
            json!([[1, 2, [3, 4]], {"a": 1, "b": [1, 2]}, {"a": {"b": {"a": 0}}, "b": null}, 5, "str", [[[]]]]),
            json!({"x": {"y": {"a": 1, "b": 2}}, "a": {"0": 1}}),
            json!("scalar"),
        ];
        let mut k = i;
        let mut len = 1;
        while k >= (2 * n).pow(len) {
            k -= (2 * n).pow(len);
            len += 1;
        }
        let mut t = String::from("$");
        for _ in 0..len {
            let x = k % (2 * n);
            k /= 2 * n;
            t.push_str(if x >= n { "..[" } else { "[" });
            t.push_str(SELS[(x % n) as usize]);
            t.push(']');
        }
        if len < 3 {
            full(tc, &t, &[&docs[0], &docs[1], &docs[2], &docs[3]]);
        } else if let Some(p) = must_parse(tc, &t) {
            for d in &docs {
                agree(tc, &p, &t, d);
            }
            tc.nontrivial(hash_bytes(t.as_bytes()));
        }
    }));
    sections.push(sec("lists of selectors", n * n, move |tc, i| {
        let (a, b) = (SELS[(i % n) as usize], SELS[(i / n) as usize]);
        let d = json!({"a": [1, {"a": 2, "b": 2, "c": [3]}, "x"], "b": {"a": {"a": []}, "c": 1}, "c": [[1, 2, 3], [], {}]});
        let e = json!([[1, 2, [3, 4]], {"a": 1, "b": [1, 2]}, 5, "str"]);
        for t in [format!("$[{a},{b}]"), format!("$..[{a},{b}]"), format!("$[*][{a},{b},{a}]"), format!("$[{a},{b}][*]"), format!("$[?@[{a},{b}]]"), format!("$..[{a}]..[{b}]")] {
            full(tc, &t, &[&d, &e]);
        }
    }));
    sections.push(sec("queries and documents", c.n(60_000, 1_000_000), |tc, _| {
        let doc = gen::doc(&mut tc.rng);
        let q = gen::gen_query(&mut tc.rng, &doc, &gen::FULL);
        let t = render::varied(&mut tc.rng, &q);
        let near = gen::mutate(&mut tc.rng, &doc);
        let far = gen::doc(&mut tc.rng);
        if !cheap(&q, &doc) || !cheap(&q, &near) || !cheap(&q, &far) {
            tc.count("skipped: more steps than the budget, or not specified");
            return;
        }
        full(tc, &t, &[&doc, &near, &far]);
    }));
    sections.push(sec("queries without filters", c.n(40_000, 600_000), |tc, _| {
        let doc = gen::doc(&mut tc.rng);
        let q = gen::gen_query(&mut tc.rng, &doc, &gen::PLAIN);
        if !cheap(&q, &doc) {
            tc.count("skipped: more steps than the budget, or not specified");
            return;
        }
        let t = render::varied(&mut tc.rng, &q);
        full(tc, &t, &[&doc]);
    }));
    // sizes at which an implementation might change its ways
    let sizes: Vec<usize> = gen::SIZES.iter().chain(gen::BIG_SIZES).copied().collect();
    sections.push(sec("sizes", sizes.len() as u64 * 3, move |tc, i| {
        let n = sizes[i as usize % sizes.len()];
        let kind = i as usize / sizes.len();
        let doc = match kind {
            0 => Value::Array((0..n).map(|i| json!(i % 7)).collect()),
            1 => Value::Object((0..n).map(|i| (format!("k{i}"), json!([i % 5]))).collect()),
            _ => Value::Array((0..n).map(|i| json!({"a": i % 3, "b": [i % 2, "x"]})).collect()),
        };
        for t in ["$[*]", "$..*", "$[?@]", "$[?@>3]", "$[?@.a==1]", "$[::-1]", "$[1:-1:3]", "$[-1]", "$[?@[0]==1]", "$..[0]", "$[*,*]", "$[*].b", "$[?@.b[?@==1]]", "$['k1','k2']", "$..b[1]", "$[?@.a<2]['b','a']"] {
            full(tc, t, &[&doc]);
        }
    }));
    Check {
        rule: "a distinct (query, document) pair with a non-empty result, identical in every way of running it",
        assumptions: vec!["results are compared by the addresses of the nodes, in order; no reference evaluator is involved"],
        sections,
        need: vec!["non-empty results"],
    }
}
