//! Structural selection against the reference evaluator.
use super::common::*;
use crate::ast::*;
use crate::gen::{self, PLAIN};
use crate::render;
use crate::rng::mix;
use crate::reval;
use crate::run::*;
use serde_json::{json, Map, Value};
use serde_json_path::JsonPath;

const MAX: i64 = crate::rparse::MAX_INT;
fn bounds(n: i64) -> Vec<Option<i64>> {
    let mut v = vec![None];
    v.extend((-n..=n).map(Some));
    for x in [MAX, MAX - 1, 1 << 31, (1 << 31) - 1, 1 << 32, (1 << 32) - 1, (1 << 32) + 1, 1 << 52, 255, 256, 65535, 65536] {
        v.extend([Some(x), Some(-x)]);
    }
    v
}

pub fn values() -> Vec<Value> {
    vec![
        Value::Null,
        json!(true),
        json!(false),
        json!(0),
        json!(-1),
        json!(1.5),
        json!(""),
        json!("abc"),
        json!("a"),
        json!([]),
        json!([0]),
        json!([null, "x", [1, [2]], {"a": [3]}]),
        json!({}),
        json!({"a": null}),
        json!({"0": 1, "a": [1, 2], "-1": 3, "*": 4, "length": 5}),
        json!([[], {}, [[]], [{}]]),
        json!({"a": {}, "b": [], "c": {"a": {"a": 1}}}),
    ]
}

pub fn check(c: &Conf) -> Check {
    let lens: i64 = if c.thorough { 14 } else { 9 };
    let bs = bounds(lens + 2);
    let mut steps = bounds(if c.thorough { 9 } else { 5 });
    steps.retain(|s| s.map_or(true, |s| s.abs() < 100 || s.abs() >= 255));
    let nb = bs.len() as u64;

    let slices = sec("slices", lens as u64 * nb, move |tc, i| {
        let len = (i / nb) as usize;
        let a = bs[(i % nb) as usize];
        let arr: Vec<Value> = (0..len).map(|k| json!(k)).collect();
        let doc = if i % 2 == 0 { Value::Array(arr) } else { json!({ "a": arr }) };
        for b in &bs {
            for s in &steps {
                let mut q = Query::root();
                if i % 2 == 1 {
                    q = q.name("a");
                }
                let q = q.with(false, vec![Sel::Slice(a, *b, *s)]);
                let text = render::plain(&q);
                tc.evn(1);
                let Some(p) = must_parse(tc, &text) else { return };
                let arr = if i % 2 == 0 { &doc } else { &doc["a"] }.as_array().unwrap();
                let exp = reval::slice_indices(len, a, *b, *s);
                let got = p.query(&doc);
                if got.len() != exp.len() || got.iter().zip(&exp).any(|(g, e)| !std::ptr::eq(*g, &arr[*e])) {
                    tc.fail(
                        format!("slice {text} of {len} elements"),
                        json!({"query": text, "length": len, "got": format!("{got:?}"), "expected indices": exp}),
                    );
                    return;
                }
                if tc.rng.chance(1, 8) {
                    check_parsed(tc, &q, &p, &text, &doc);
                }
                if !exp.is_empty() {
                    tc.count("slices with elements");
                    tc.nontrivial(mix(i ^ mix(b.unwrap_or(1 << 60) as u64) ^ mix(mix(s.unwrap_or(1 << 61) as u64))));
                }
            }
        }
        tc.sample(|| json!({"array length": len, "start": a, "ends": bs.len(), "steps": steps.len()}));
    });

    let mut ilens: Vec<usize> = (0..=12).collect();
    ilens.extend(gen::SIZES.iter().filter(|n| **n > 12));
    ilens.extend(gen::BIG_SIZES);
    let indices = sec("indices", ilens.len() as u64, move |tc, i| {
        let n = ilens[i as usize];
        let doc = Value::Array((0..n).map(|k| json!(k)).collect());
        let l = n as i64;
        let mut ix: Vec<i64> = vec![];
        if n <= 70 {
            ix.extend(-l - 3..=l + 3);
        } else {
            for c in [-l, -l / 2, -1, 0, l / 2, l] {
                ix.extend(c - 3..=c + 3);
            }
            for _ in 0..20 {
                ix.push(tc.rng.range(-l, l));
            }
        }
        ix.extend(bounds(0).into_iter().flatten());
        for k in ix {
            let q = Query::root().index(k);
            let text = render::plain(&q);
            if let Some(r) = check_eval(tc, &q, &text, &doc) {
                let want = if k < 0 { k >= -l } else { k < l };
                if want != (r == 1) {
                    harness_bug("index reference");
                }
                note_pair(tc, &text, &json!(format!("array of {n}")), n as u64, r);
            } else {
                return;
            }
        }
    });

    // every name against an object with all names, with only that one, and without it
    let nk = gen::KEYS.len() as u64;
    let names = sec("names", nk, move |tc, i| {
        let k = gen::KEYS[i as usize];
        let mut all = Map::new();
        for (j, x) in gen::KEYS.iter().enumerate() {
            all.insert(x.to_string(), json!(j));
        }
        let mut only = Map::new();
        only.insert(k.to_string(), json!([k]));
        let mut without = all.clone();
        without.remove(k);
        let near: Vec<String> = vec![
            format!("{k} "),
            format!(" {k}"),
            format!("{k}\u{0}"),
            k.to_uppercase(),
            k.to_lowercase(),
            format!("{k}{k}"),
            k.chars().skip(1).collect(),
            k.chars().rev().collect(),
            k.trim().to_string(),
            k.replace('\\', ""),
            k.replace('\\', "\\\\"),
        ];
        for x in &near {
            if x != k {
                without.insert(x.clone(), json!("near"));
                all.insert(x.clone(), json!("near"));
            }
        }
        let arr: Vec<Value> = (0..4).map(|i| json!(i)).collect();
        for doc in [Value::Object(all), Value::Object(only), Value::Object(without), Value::Array(arr), json!(k), json!([{k: 1}, {"x": {k: 2}}])] {
            let d = hash_doc(&doc);
            for desc in [false, true] {
                let q = Query::root().with(desc, vec![Sel::Name(k.to_string())]);
                for j in 0..6 {
                    let text = if j == 0 { render::plain(&q) } else { render::varied(&mut tc.rng, &q) };
                    let Some(n) = check_eval(tc, &q, &text, &doc) else { return };
                    note_pair(tc, &text, &doc, d, n);
                }
            }
        }
    });

    let vs = values();
    let kinds = sec("kinds", (vs.len() * 2) as u64, move |tc, i| {
        let v = vs[(i / 2) as usize].clone();
        let desc = i % 2 == 1;
        let mut sels = vec![Sel::Wild];
        for k in ["", "0", "1", "-1", "a", "b", "length", "*", "constructor", "__proto__"] {
            sels.push(Sel::Name(k.into()));
        }
        for k in [0, 1, -1, 2, -2, 5, MAX, -MAX] {
            sels.push(Sel::Index(k));
        }
        for (a, b, s) in [(None, None, None), (Some(0), Some(1), None), (None, None, Some(-1)), (Some(1), None, Some(0)), (Some(-1), Some(-9), Some(-1)), (Some(MAX), Some(-MAX), Some(-MAX)), (Some(-MAX), Some(MAX), Some(MAX))] {
            sels.push(Sel::Slice(a, b, s));
        }
        for doc in [v.clone(), json!({ "a": v }), json!([v, 1, v])] {
            let d = hash_doc(&doc);
            for s in &sels {
                for t in [None].into_iter().chain(sels.iter().map(Some)) {
                    let mut q = Query::root().with(desc, vec![s.clone()]);
                    match t {
                        Some(t) if d & 1 == 0 => q.segs[0].sels.push(t.clone()),
                        Some(t) => q = q.with(d & 2 == 0, vec![t.clone()]),
                        None => {}
                    }
                    let text = render::plain(&q);
                    let Some(n) = check_eval(tc, &q, &text, &doc) else { return };
                    note_pair(tc, &text, &doc, d, n);
                }
            }
        }
    });

    let random = sec("random", c.n(90_000, 1_200_000), |tc, _| {
        let doc = gen::doc(&mut tc.rng);
        let d = hash_doc(&doc);
        let other = if tc.rng.chance(1, 2) { gen::mutate(&mut tc.rng, &doc) } else { gen::doc(&mut tc.rng) };
        for _ in 0..4 {
            let q = gen::gen_query(&mut tc.rng, &doc, &PLAIN);
            let text = if tc.rng.chance(2, 3) { render::varied(&mut tc.rng, &q) } else { render::plain(&q) };
            let Some(p) = must_parse(tc, &text) else { return };
            let Some(n) = check_parsed(tc, &q, &p, &text, &doc) else { continue };
            note_pair(tc, &text, &doc, d, n);
            tc.max("segments", q.segs.len() as u64);
            if check_parsed(tc, &q, &p, &text, &other).is_none() {
                continue;
            }
            check_parsed(tc, &q, &p, &text, &doc);
        }
    });

    let mut sizes: Vec<usize> = gen::SIZES.to_vec();
    sizes.extend(gen::BIG_SIZES);
    let ns = sizes.len() as u64;
    let sizes2 = sizes.clone();
    let size = sec("sizes", ns * 4, move |tc, i| {
        let n = sizes[(i / 4) as usize];
        let l = n as i64;
        let arr = |n: usize| Value::Array((0..n).map(|k| json!(k)).collect());
        let obj = |n: usize| Value::Object((0..n).map(|k| (format!("k{k}"), json!(k))).collect());
        let doc = match i % 4 {
            0 => arr(n),
            1 => obj(n),
            2 => json!({"a": (0..n.min(600)).map(|k| json!({"a": [k], "b": {"a": k}})).collect::<Vec<_>>()}),
            _ => json!([arr(n), obj(n), [], {}, [arr(2), n]]),
        };
        let d = hash_doc(&doc);
        let mut qs = vec![];
        for desc in [false, true] {
            for s in [
                Sel::Wild,
                Sel::Slice(None, None, None),
                Sel::Slice(None, None, Some(-1)),
                Sel::Slice(Some(1), Some(-1), Some(2)),
                Sel::Slice(Some(l - 1), None, Some(-3)),
                Sel::Slice(Some(-l), Some(l), Some(7)),
                Sel::Slice(None, None, Some(l.max(1))),
                Sel::Slice(None, None, Some(l + 1)),
                Sel::Index(l - 1),
                Sel::Index(-l),
                Sel::Index(l),
                Sel::Name(format!("k{}", n.saturating_sub(1))),
                Sel::Name(format!("k{n}")),
                Sel::Name("a".into()),
            ] {
                let q = Query::root().with(desc, vec![s.clone()]);
                qs.push(q.clone().with(false, vec![Sel::Wild]));
                qs.push(q.clone().with(true, vec![Sel::Name("a".into())]));
                qs.push(q);
            }
        }
        for q in qs {
            let text = render::plain(&q);
            let Some(r) = check_eval(tc, &q, &text, &doc) else {
                if tc.failed() {
                    return;
                }
                continue;
            };
            note_pair(tc, &text, &doc, d, r);
        }
        tc.max("children of one node", n as u64);
    });
    // many selectors in a segment, many segments in a query
    let many = sec("many", ns * 2, move |tc, i| {
        let n = sizes2[(i / 2) as usize].max(1);
        if i % 2 == 0 {
            let doc = json!({"a": 1, "b": [1, 2, 3], "c": {"a": null}});
            let mut sels = vec![];
            for _ in 0..n {
                let k = tc.rng.below(6);
                sels.push(match k {
                    0 => Sel::Wild,
                    1 => Sel::Index(tc.rng.range(-4, 4)),
                    2 => Sel::Slice(None, None, Some(tc.rng.range(-2, 2))),
                    _ => Sel::Name(["a", "b", "c", "d"][tc.rng.below(4)].into()),
                });
            }
            for desc in [false, true] {
                let q = Query::root().with(desc, sels.clone());
                let text = render::plain(&q);
                let Some(r) = check_eval(tc, &q, &text, &doc) else { return };
                note_pair(tc, &text, &doc, n as u64 ^ tc.conf.seed, r);
            }
            tc.max("selectors in a segment", n as u64);
        } else {
            let n = n.min(700);
            let mut doc = json!("end");
            let mut q = Query::root();
            let mut els = vec![];
            for _ in 0..n {
                if tc.rng.chance(1, 2) {
                    doc = json!([0, doc]);
                    els.push(Sel::Index(*tc.rng.pick(&[1, -1])));
                } else {
                    doc = json!({"a": doc, "b": 1});
                    els.push(Sel::Name("a".into()));
                }
            }
            for e in els.into_iter().rev() {
                q = q.with(false, vec![e]);
            }
            for q in [q.clone(), q.clone().name("x"), q.clone().with(false, vec![Sel::Wild])] {
                let text = if tc.rng.chance(1, 2) { render::plain(&q) } else { render::varied(&mut tc.rng, &q) };
                let Some(r) = check_eval(tc, &q, &text, &doc) else { return };
                note_pair(tc, &text, &json!(format!("{n} levels")), n as u64, r);
            }
            tc.max("segments", n as u64);
        }
    });
    let deep = sec("deep", c.n(1500, 20000), |tc, i| {
        let n = 1 + (i as usize * 7) % 250;
        let doc = gen::deep(&mut tc.rng, n);
        let d = hash_doc(&doc);
        for t in ["$..*", "$..a", "$..[0]", "$..[-1]", "$..['a','b']", "$..[*]", "$..[::-1]", "$..a..b", "$..[1,0]"] {
            let Ok(q) = parse_ref(t) else { harness_bug(t) };
            let Some(r) = check_eval(tc, &q, t, &doc) else {
                if tc.failed() {
                    return;
                }
                continue;
            };
            note_pair(tc, t, &doc, d, r);
        }
        tc.max("document depth", n as u64);
    });
    let multi = sec("descendants twice", c.n(3000, 60000), |tc, _| {
        let doc = gen::small(&mut tc.rng, 4);
        let d = hash_doc(&doc);
        for t in ["$..*..*", "$..[*,*]", "$..*.*", "$..a..a", "$..[0,0,-1]..*", "$..[:,0]", "$..*..[0]", "$..['a','a',*]"] {
            let Ok(q) = parse_ref(t) else { harness_bug(t) };
            let Some(r) = check_eval(tc, &q, t, &doc) else {
                if tc.failed() {
                    return;
                }
                continue;
            };
            note_pair(tc, t, &doc, d, r);
        }
    });
    // all lists of up to four, with repetitions; filters are members like all others
    const POOL: &[&str] = &["*", "'a'", "\"b\"", "0", "-1", "1", ":", "::-1", "1:", "?@", "?@.a", "?@==1"];
    let np = POOL.len() as u64;
    let lists = sec("lists of selectors", np * np, move |tc, i| {
        let docs = [json!({"a": 1, "b": [1, {"a": 1}], "c": {"a": [1]}}), json!([1, {"a": 1, "b": 1}, [1, [1]]]), json!([[1, 1], {"b": {"a": null}, "c": 1}, 1, "a"])];
        let ds: Vec<u64> = docs.iter().map(hash_doc).collect();
        let (a, b) = (POOL[(i % np) as usize], POOL[(i / np) as usize]);
        let rest = std::iter::once(String::new()).chain(POOL.iter().map(|c| format!(",{c}"))).chain(POOL.iter().flat_map(|c| POOL.iter().map(move |d| format!(", {c} ,{d}"))));
        for r in rest {
            for t in [format!("$[{a},{b}{r}]"), format!("$..[{a},{b}{r}]"), format!("$.*[{a}][{b}{r}]")] {
                let Ok(q) = parse_ref(&t) else { harness_bug(t) };
                let Some(p) = must_parse(tc, &t) else { return };
                for (doc, d) in docs.iter().zip(&ds) {
                    let Some(n) = check_parsed(tc, &q, &p, &t, doc) else { return };
                    note_pair(tc, &t, doc, *d, n);
                }
            }
        }
    });
    // nothing is an error: every selector on every value through public entry points only
    let chains = sec("same query object on many documents", c.n(4000, 60000), |tc, _| {
        let d0 = gen::doc(&mut tc.rng);
        let q = gen::gen_query(&mut tc.rng, &d0, &PLAIN);
        let text = render::varied(&mut tc.rng, &q);
        let Some(p) = must_parse(tc, &text) else { return };
        let mut doc = d0;
        for _ in 0..10 {
            let d = hash_doc(&doc);
            let Some(n) = check_parsed(tc, &q, &p, &text, &doc) else { break };
            note_pair(tc, &text, &doc, d, n);
            doc = gen::mutate(&mut tc.rng, &doc);
        }
        let _: Option<JsonPath> = Some(p);
    });
    Check {
        rule: "every execution compares the addresses of the returned nodes, one by one and in order, with those the reference evaluator (written from RFC 9535) selects from the same document; non-trivial = distinct (query text, document) pair with a non-empty result",
        assumptions: vec!["object members are visited in the iteration order of serde_json's map, by the library and by the reference alike"],
        sections: vec![slices, indices, names, kinds, random, size, many, deep, multi, lists, chains],
        need: vec!["non-empty results", "slices with elements", "nodes compared"],
    }
}

pub fn parse_ref(t: &str) -> Result<Query, ()> {
    match crate::rparse::parse(t) {
        crate::rparse::Verdict::Accept(q) => Ok(q),
        _ => Err(()),
    }
}
