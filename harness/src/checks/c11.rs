//! Deduplication.
use super::common::*;
use crate::gen;
use crate::render;
use crate::reval::{self, Stop};
use crate::rng::{hash_bytes, mix};
use crate::run::*;
use serde_json::{json, Value};
use serde_json_path::{JsonPath, LocatedNode, LocatedNodeList};
use std::collections::BTreeMap;

type Key = (String, usize);
fn keys(l: &LocatedNodeList) -> Vec<Key> {
    l.iter().map(|n| (n.location().to_string(), addr(n.node()))).collect()
}
fn judge(tc: &mut Tc, what: &str, doc: &Value, list: LocatedNodeList) -> Option<Vec<Key>> {
    let before = keys(&list);
    let mut want: BTreeMap<String, usize> = BTreeMap::new();
    for (l, a) in &before {
        want.insert(l.clone(), *a);
    }
    tc.evn(3);
    let copy = list.clone();
    let mut inplace = list.clone();
    let d = list.dedup();
    inplace.dedup_in_place();
    let (kd, ki) = (keys(&d), keys(&inplace));
    macro_rules! ensure {
        ($c:expr, $($f:tt)*) => {
            if !$c {
                let m = format!($($f)*);
                let s = |k: &[Key]| k.iter().take(60).map(|x| x.0.clone()).collect::<Vec<_>>();
                tc.fail(
                    format!("{m} ({what}; {} entries, {} distinct, {} left)", before.len(), want.len(), kd.len()),
                    json!({"document": show(doc), "from": what, "before": s(&before), "after": s(&kd), "in_place": s(&ki), "problem": m}),
                );
                return None;
            }
        };
    }
    ensure!(kd == ki && d == inplace, "dedup and dedup_in_place differ");
    let mut sorted = kd.clone();
    sorted.sort();
    let exp: Vec<Key> = want.iter().map(|(l, a)| (l.clone(), *a)).collect();
    let lost = exp.iter().filter(|k| !sorted.contains(k)).count();
    ensure!(sorted == exp, "deduplication leaves other entries than one for each location ({lost} lost)");
    ensure!(kd.len() == d.len(), "length and iteration differ");
    if before.len() == want.len() {
        ensure!(kd.len() == before.len(), "a list without duplicates changes its length");
        tc.count("lists without duplicates");
    } else {
        tc.count("lists with duplicates");
    }
    let twice = d.clone().dedup();
    ensure!(keys(&twice) == kd, "not idempotent");
    inplace.dedup_in_place();
    ensure!(keys(&inplace) == kd, "not idempotent in place");
    // neither the nodes nor an earlier clone are touched
    ensure!(keys(&copy) == before, "a clone made before changed");
    tc.max("entries", before.len() as u64);
    tc.add("entries removed", (before.len() - kd.len()) as u64);
    Some(kd)
}
fn all(tc: &mut Tc, text: &str, doc: &Value) {
    let Some(p) = must_parse(tc, text) else { return };
    let l = p.query_located(doc);
    let nodes: Vec<LocatedNode> = l.iter().cloned().collect();
    let Some(k) = judge(tc, text, doc, l) else { return };
    // other orders and multiplicities of the same locations
    for round in 0..3 {
        let mut v = nodes.clone();
        if !nodes.is_empty() {
            for _ in 0..tc.rng.below(1 + nodes.len().min(60)) {
                v.push(nodes[tc.rng.below(nodes.len())].clone());
            }
        }
        match round {
            0 => tc.rng.shuffle(&mut v),
            1 => v.reverse(),
            _ => {
                let m = tc.rng.below(v.len() + 1);
                v.rotate_left(m);
            }
        }
        let Some(o) = judge(tc, &format!("{text}, in another order"), doc, LocatedNodeList::from(v)) else { return };
        if o != k {
            tc.fail(
                format!("the outcome depends on the order or multiplicity of the input: {text}"),
                json!({"query": text, "document": show(doc), "one": k.iter().take(60).map(|x| &x.0).collect::<Vec<_>>(), "other": o.iter().take(60).map(|x| &x.0).collect::<Vec<_>>()}),
            );
            return;
        }
    }
    if nodes.len() > k.len() {
        tc.nontrivial(pair(text, hash_doc(doc)));
    } else if k.len() > 1 {
        tc.nontrivial(mix(pair(text, hash_doc(doc))));
    }
    tc.sample(|| json!({"query": clip(text.into()), "document": show(doc).chars().take(300).collect::<String>(), "entries": nodes.len(), "left": k.len()}));
}

/// the same values all over, so that equal values at different places abound
fn repetitive(tc: &mut Tc) -> Value {
    let r = &mut tc.rng;
    let leaf = gen::leaf(r);
    let sub = match r.below(3) {
        0 => json!([leaf, leaf]),
        1 => json!({"a": leaf, "b": leaf}),
        _ => leaf.clone(),
    };
    let mut v = sub.clone();
    for _ in 0..1 + r.below(4) {
        let n = 1 + r.below(4);
        v = if r.chance(1, 2) {
            Value::Array((0..n).map(|i| if i == 0 { v.clone() } else { [&v, &sub, &leaf][r.below(3)].clone() }).collect())
        } else {
            Value::Object((0..n).map(|i| (if r.chance(1, 3) { gen::key(r) } else { ["a", "b", "ab", "aa"][i % 4].to_string() }, [&v, &sub, &leaf][r.below(3)].clone())).collect())
        };
    }
    v
}
const DUPS: &[&str] = &[
    "$..*", "$[*,*]", "$..[*,*]", "$..[*]..*", "$..*..*", "$[0,0,1,-1]", "$..[0,-1,::-1]", "$..a", "$..['a','a']", "$..['a','b','a']", "$..[?@]", "$..[?@,?@]", "$[*,'a','b']", "$[::-1,::2,0]", "$", "$..[*][*]", "$[*]..[*,0]", "$..a..*", "$..[?@==1]", "$..[?@!=$]", "$.*..*", "$..[1:0:-1,0]", "$..[-1,0,-1]",
];

pub fn check(c: &Conf) -> Check {
    let mut sections = vec![];
    sections.push(sec("duplicates", c.n(100_000, 500_000), |tc, i| {
        let doc = repetitive(tc);
        let t = DUPS[i as usize % DUPS.len()];
        let crate::rparse::Verdict::Accept(q) = crate::rparse::parse(t) else { harness_bug(t) };
        if !affordable(&q, &doc, 200_000) {
            return;
        }
        all(tc, t, &doc);
    }));
    sections.push(sec("queries and documents", c.n(150_000, 1_200_000), |tc, _| {
        let doc = if tc.rng.chance(1, 2) { gen::doc(&mut tc.rng) } else { repetitive(tc) };
        let o = if tc.rng.chance(1, 2) { gen::PLAIN } else { gen::FULL };
        let mut q = gen::gen_query(&mut tc.rng, &doc, &o);
        // more overlap
        for s in q.segs.iter_mut() {
            if tc.rng.chance(1, 4) {
                let x = s.sels[tc.rng.below(s.sels.len())].clone();
                s.sels.push(x);
            }
            if tc.rng.chance(1, 4) {
                s.desc = true;
            }
        }
        if !affordable(&q, &doc, 200_000) {
            tc.count("skipped: more steps than the budget, or not specified");
            return;
        }
        let t = render::varied(&mut tc.rng, &q);
        all(tc, &t, &doc);
    }));
    // results of several queries on one document, together
    sections.push(sec("merged results", c.n(80_000, 600_000), |tc, _| {
        let doc = repetitive(tc);
        let mut v: Vec<LocatedNode> = vec![];
        let mut names = vec![];
        for _ in 0..2 + tc.rng.below(4) {
            let t = *tc.rng.pick(DUPS);
            let crate::rparse::Verdict::Accept(q) = crate::rparse::parse(t) else { harness_bug(t) };
            if matches!(reval::eval_n(&q, &doc, 30_000).0, Err(Stop::Budget)) {
                continue;
            }
            let Ok(p) = JsonPath::parse(t) else {
                tc.fail(format!("does not parse: {t}"), Value::Null);
                return;
            };
            v.extend(p.query_located(&doc));
            names.push(t);
        }
        let mut w = v.clone();
        tc.rng.shuffle(&mut w);
        let what = names.join(" + ");
        let a = judge(tc, &what, &doc, LocatedNodeList::from(v));
        let b = judge(tc, &what, &doc, LocatedNodeList::from(w));
        if a.is_some() && b.is_some() && a != b {
            tc.fail(format!("the outcome depends on the order of the input: {what}"), json!({"document": show(&doc)}));
        }
        tc.nontrivial(hash_bytes(what.as_bytes()) ^ hash_doc(&doc));
    }));
    // lists long enough for another sorting algorithm
    let sizes: Vec<usize> = gen::SIZES.iter().chain(gen::BIG_SIZES).copied().collect();
    sections.push(sec("sizes", sizes.len() as u64 * 4, move |tc, i| {
        let n = sizes[i as usize % sizes.len()];
        let doc = match i as usize / sizes.len() {
            0 => Value::Array((0..n).map(|_| json!(1)).collect()),
            1 => Value::Object((0..n).map(|i| (format!("k{i}"), json!(null))).collect()),
            2 => Value::Array((0..n).map(|i| json!({"a": [i % 2]})).collect()),
            _ => Value::Object((0..n).map(|i| (format!("{}", i * 7919 % 10007), json!([0]))).collect()),
        };
        for t in ["$[*]", "$[*,*]", "$[::-1]", "$[::-1,::2]", "$..*", "$..[*,*]", "$[?@,?@]", "$[*]..[*]", "$..[0]", "$[-1,0,-1,1:]"] {
            all(tc, t, &doc);
        }
    }));
    Check {
        rule: "a distinct (query, document) pair whose result had duplicates (or several entries) and was deduplicated",
        assumptions: vec!["lists hold nodes of one document; lists merged from several documents are not in the statement's range"],
        sections,
        need: vec!["lists with duplicates", "lists without duplicates"],
    }
}
