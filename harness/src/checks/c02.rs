//! Filters: boolean structure, existence, `@` and `$`.
use super::c01::values;
use super::common::*;
use crate::ast::*;
use crate::gen::{self, FILTERS, FULL};
use crate::render;
use crate::rng::mix;
use crate::run::*;
use serde_json::{json, Map, Value};

fn atom(i: usize) -> Expr {
    Expr::Exist(Query::cur().name(["a", "b", "c", "d", "e", "f"][i]))
}
fn not(e: Expr) -> Expr {
    match e {
        e @ (Expr::Exist(_) | Expr::Func(_) | Expr::Paren(_)) => Expr::Not(Box::new(e)),
        e => Expr::Not(Box::new(paren(e))),
    }
}
fn paren(e: Expr) -> Expr {
    Expr::Paren(Box::new(e))
}
/// joins operands by a flat list of operators, with the usual precedence
fn flat(ops: &[bool], xs: Vec<Expr>) -> Expr {
    let mut ors: Vec<Vec<Expr>> = vec![vec![]];
    for (i, x) in xs.into_iter().enumerate() {
        if i > 0 && !ops[i - 1] {
            ors.push(vec![]);
        }
        ors.last_mut().unwrap().push(x);
    }
    let mut v: Vec<Expr> =
        ors.into_iter().map(|mut a| if a.len() == 1 { a.pop().unwrap() } else { Expr::And(a) }).collect();
    if v.len() == 1 {
        v.pop().unwrap()
    } else {
        Expr::Or(v)
    }
}
/// all objects over n presence bits; present members have falsy values in turn
fn assignments(n: usize, as_object: bool) -> Value {
    let vals = [Value::Null, json!(false), json!(0), json!(""), json!([]), json!({}), json!(true), json!(1)];
    let recs = (0..1usize << n).map(|m| {
        let mut o = Map::new();
        for k in 0..n {
            if m >> k & 1 == 1 {
                o.insert(["a", "b", "c", "d", "e", "f"][k].into(), vals[(m + k) % vals.len()].clone());
            }
        }
        Value::Object(o)
    });
    if as_object {
        Value::Object(recs.enumerate().map(|(i, v)| (format!("m{i:02}"), v)).collect())
    } else {
        Value::Array(recs.collect())
    }
}
// an evaluator that knows nothing but bits: a second opinion on the reference's boolean part
fn truth(e: &Expr, m: usize) -> bool {
    match e {
        Expr::Or(v) => v.iter().any(|x| truth(x, m)),
        Expr::And(v) => v.iter().all(|x| truth(x, m)),
        Expr::Not(x) => !truth(x, m),
        Expr::Paren(x) => truth(x, m),
        Expr::Exist(q) => match &q.segs[0].sels[0] {
            Sel::Name(n) => m >> ("abcdef".find(n.as_str()).unwrap()) & 1 == 1,
            _ => unreachable!(),
        },
        _ => unreachable!(),
    }
}
fn table(tc: &mut Tc, e: &Expr, n: usize) {
    for as_object in [false, true] {
        let doc = assignments(n, as_object);
        let q = filter(e.clone());
        let text = if tc.rng.chance(1, 2) { render::plain(&q) } else { render::varied(&mut tc.rng, &q) };
        let kids: Vec<&Value> = match &doc {
            Value::Array(a) => a.iter().collect(),
            Value::Object(o) => o.values().collect(),
            _ => unreachable!(),
        };
        let exp: Vec<&Value> = kids.iter().enumerate().filter(|(m, _)| truth(e, *m)).map(|(_, v)| *v).collect();
        let Some(p) = must_parse(tc, &text) else { return };
        let got = p.query(&doc).all();
        tc.evn(1);
        tc.add("truth table rows", 1 << n);
        if got.len() != exp.len() || got.iter().zip(&exp).any(|(a, b)| !std::ptr::eq(*a, *b)) {
            tc.fail(
                format!("truth table of {text} differs: {} of {} rows selected, expected {}", got.len(), 1 << n, exp.len()),
                json!({"query": text, "document": show(&doc), "got": format!("{got:?}"), "expected": format!("{exp:?}")}),
            );
            return;
        }
        if !exp.is_empty() && exp.len() < 1 << n {
            tc.nontrivial_s(&text);
        }
        if as_object {
            check_parsed(tc, &q, &p, &text, &doc);
        }
        let k = exp.len();
        tc.sample(|| json!({"query": text, "rows": 1 << n, "true in": k}));
    }
}
fn random_bool(tc: &mut Tc, n: usize, depth: usize) -> Expr {
    let ors = 1 + tc.rng.below(3);
    let mut o = vec![];
    for _ in 0..ors {
        let ands = 1 + tc.rng.below(3);
        let mut a = vec![];
        for _ in 0..ands {
            a.push(match tc.rng.below(6) {
                0 if depth > 0 => paren(random_bool(tc, n, depth - 1)),
                1 | 2 if depth > 0 => not(paren(random_bool(tc, n, depth - 1))),
                3 => not(atom(tc.rng.below(n))),
                _ => atom(tc.rng.below(n)),
            });
        }
        o.push(if a.len() == 1 { a.pop().unwrap() } else { Expr::And(a) });
    }
    if o.len() == 1 {
        o.pop().unwrap()
    } else {
        Expr::Or(o)
    }
}

pub fn check(c: &Conf) -> Check {
    // 3 operators x 4 negations x groups
    let exhaustive = sec("boolean shapes", 8 * 16 * 11, |tc, i| {
        let ops: Vec<bool> = (0..3).map(|k| i >> k & 1 == 1).collect();
        let neg = (i / 8) % 16;
        let shape = i / 128;
        let x: Vec<Expr> = (0..4).map(|k| if neg >> k & 1 == 1 { not(atom(k)) } else { atom(k) }).collect();
        let grp = |a: usize, b: usize, n: bool| {
            let e = flat(&ops[a..b], x[a..=b].to_vec());
            if n {
                not(paren(e))
            } else {
                paren(e)
            }
        };
        // groups of neighbouring operands
        let e = match shape {
            0 => flat(&ops, x.clone()),
            1 | 2 => flat(&ops[1..], vec![grp(0, 1, shape == 2), x[2].clone(), x[3].clone()]),
            3 | 4 => flat(&[ops[0], ops[2]], vec![x[0].clone(), grp(1, 2, shape == 4), x[3].clone()]),
            5 | 6 => flat(&ops[..2], vec![x[0].clone(), x[1].clone(), grp(2, 3, shape == 6)]),
            7 => flat(&ops[2..], vec![grp(0, 2, false), x[3].clone()]),
            8 => flat(&ops[..1], vec![x[0].clone(), grp(1, 3, true)]),
            9 => flat(&[ops[1]], vec![grp(0, 1, false), grp(2, 3, true)]),
            _ => not(paren(paren(not(paren(flat(&ops, x.clone())))))),
        };
        table(tc, &e, 4);
    });
    let random = sec("random boolean", c.n(6000, 120_000), |tc, _| {
        let n = 2 + tc.rng.below(5);
        let e = random_bool(tc, n, 3);
        table(tc, &e, n);
    });

    // existence tests on every kind of value
    let vs = values();
    let nv = vs.len() as u64;
    let exists = sec("existence", nv, move |tc, i| {
        let v = &vs[i as usize];
        let doc = json!([{"a": v}, {"b": v}, {"a": {"a": v}}, [v], [v, v], v, {}, [], {"a": v, "b": v}, {"": v}, [[v]], {"a": [v, {"a": v}]}]);
        let obj = Value::Object(doc.as_array().unwrap().iter().enumerate().map(|(i, v)| (format!("{i:02}"), v.clone())).collect());
        for t in [
            "@", "@.a", "@['a']", "@[0]", "@[-1]", "@[1]", "@.*", "@[*]", "@..a", "@..*", "@.a.a", "@[0:1]", "@[::-1]", "@['a','b']", "@['b','a']", "@['']",
            "@[?@]", "@[?@.a]", "@.a[?@]", "$", "$[0]", "$['00']", "$[0].a", "$[99]", "$.zzz", "$..a", "@[5]", "@[0,1]", "@.a[0]", "@..[0]", "@[0:0]", "@[::0]", "@[?!@.a]",
            "@.length", "@[?$]", "@[?@[?@]]",
        ] {
            for neg in [false, true] {
                for (pre, d) in [("$", &doc), ("$", &obj), ("$..", v), ("$", v)] {
                    let text = format!("{pre}[?{}{t}]", if neg { "!" } else { "" });
                    let Ok(q) = super::c01::parse_ref(&text) else { harness_bug(text) };
                    let h = hash_doc(d);
                    let Some(n) = check_eval(tc, &q, &text, d) else { return };
                    note_pair(tc, &text, d, h, n);
                }
            }
        }
    });

    let filters = sec("random filters", c.n(50_000, 800_000), |tc, _| {
        let doc = gen::doc(&mut tc.rng);
        let d = hash_doc(&doc);
        let other = gen::mutate(&mut tc.rng, &doc);
        for k in 0..4 {
            let o = if k % 2 == 0 { &FILTERS } else { &FULL };
            let mut q = gen::gen_query(&mut tc.rng, &doc, o);
            if !q.has_filter() {
                let mut g = gen::Gen { r: &mut tc.rng, root: &doc, o, budget: 40 };
                let kid = match &doc {
                    Value::Array(a) => a.first(),
                    Value::Object(m) => m.values().next(),
                    _ => None,
                };
                let e = g.or(kid, 2);
                q = filter(e);
            }
            let text = if tc.rng.chance(2, 3) { render::varied(&mut tc.rng, &q) } else { render::plain(&q) };
            let Some(p) = must_parse(tc, &text) else { return };
            let Some(n) = check_parsed(tc, &q, &p, &text, &doc) else { continue };
            note_pair(tc, &text, &doc, d, n);
            check_parsed(tc, &q, &p, &text, &other);
        }
    });

    // `@` and `$` at every depth
    let nested = sec("nested", c.n(6000, 100_000), |tc, i| {
        let doc = if i % 2 == 0 { gen::records(&mut tc.rng) } else { gen::small(&mut tc.rng, 5) };
        let h = hash_doc(&doc);
        let n = 1 + tc.rng.below(6);
        let mut e = leaf_cmp(tc);
        for _ in 0..n {
            let mut q = if tc.rng.chance(1, 4) { Query::root() } else { Query::cur() };
            if tc.rng.chance(1, 2) {
                q = q.name(*tc.rng.pick(&["a", "b", "c"]));
            }
            let desc = tc.rng.chance(1, 6);
            let mut sels = vec![Sel::Filter(e)];
            if tc.rng.chance(1, 5) {
                sels.insert(0, Sel::Filter(leaf_cmp(tc)));
            }
            q = q.with(desc, sels);
            if tc.rng.chance(1, 4) {
                q = q.with(false, vec![Sel::Wild]);
            }
            let t = Expr::Exist(q);
            e = match tc.rng.below(6) {
                0 => Expr::And(vec![t, leaf_cmp(tc)]),
                1 => Expr::Or(vec![leaf_cmp(tc), t]),
                2 => not(t),
                _ => t,
            };
        }
        let q = Query::root().with(tc.rng.chance(1, 3), vec![Sel::Filter(e)]);
        let text = render::varied(&mut tc.rng, &q);
        let Some(k) = check_eval(tc, &q, &text, &doc) else { return };
        tc.max("filter nesting", n as u64 + 1);
        note_pair(tc, &text, &doc, h, k);
    });

    let mut sizes: Vec<usize> = gen::SIZES.to_vec();
    sizes.extend(gen::BIG_SIZES);
    let sizes2 = sizes.clone();
    let size = sec("sizes", sizes.len() as u64 * 2, move |tc, i| {
        let n = sizes[(i / 2) as usize];
        let salt = tc.rng.next();
        let recs = (0..n).map(|k| {
            let m = mix(salt ^ k as u64);
            let mut o = Map::new();
            if m & 1 == 1 {
                o.insert("a".into(), json!(k));
            }
            if m & 2 == 2 {
                o.insert("b".into(), json!(m & 7));
            }
            Value::Object(o)
        });
        let doc = if i % 2 == 0 {
            Value::Array(recs.collect())
        } else {
            Value::Object(recs.enumerate().map(|(k, v)| (format!("k{k}"), v)).collect())
        };
        for t in [
            "$[?@.a]".to_string(),
            "$[?!@.a]".into(),
            "$[?@.a&&@.b]".into(),
            "$[?@.a||@.b==3]".into(),
            format!("$[?@.a=={}]", n.saturating_sub(1)),
            format!("$[?@.a<{}]", n / 2),
            "$[?@.b>=4&&!(@.a)]".into(),
            "$[?@.a,?@.b]".into(),
            "$[?@==$[0]]".into(),
            "$[?@]".into(),
            "$[?!@]".into(),
        ] {
            let Ok(q) = super::c01::parse_ref(&t) else { harness_bug(t) };
            let Some(k) = check_eval(tc, &q, &t, &doc) else { return };
            note_pair(tc, &t, &json!(format!("{n} records")), mix(n as u64 ^ salt), k);
        }
        tc.max("children filtered", n as u64);
    });
    // chains of n operands where one operand decides
    let chain = sec("long chains", sizes2.len() as u64 * 4, move |tc, i| {
        let n = sizes2[(i / 4) as usize].max(2);
        let all_or = i % 4 < 2;
        let k = match tc.rng.below(4) {
            0 => 0,
            1 => n - 1,
            _ => tc.rng.below(n),
        };
        // && of @.t with one @.f; || of @.f with one @.t
        let (x, y) = if all_or { ("f", "t") } else { ("t", "f") };
        let v: Vec<Expr> = (0..n)
            .map(|j| {
                let e = Expr::Exist(Query::cur().name(if j == k { y } else { x }));
                if i % 2 == 1 && j % 3 == 0 {
                    paren(e)
                } else {
                    e
                }
            })
            .collect();
        let e = if all_or { Expr::Or(v) } else { Expr::And(v) };
        let doc = json!([{"t": 1}, {"f": 1}, {"t": 1, "f": 2}, {}, []]);
        for e in [e.clone(), not(paren(e))] {
            let q = filter(e);
            let text = render::plain(&q);
            let Some(r) = check_eval(tc, &q, &text, &doc) else { return };
            note_pair(tc, &text, &doc, n as u64, r);
        }
        tc.max("operands in a chain", n as u64);
    });
    // deep negation and parentheses
    let negs = sec("deep negation", 120, |tc, i| {
        let n = i as usize + 1;
        for base in [atom(0), Expr::Or(vec![atom(0), atom(1)]), Expr::And(vec![atom(0), atom(1)]), Expr::Cmp(Cmpb::Query(Query::cur().name("a")), Op::Eq, Cmpb::Lit(Lit::Null))] {
            let mut e = base;
            for k in 0..n {
                e = if (mix(i) >> (k % 60)) & 1 == 1 || k % 7 == 0 { not(paren(e)) } else { paren(e) };
            }
            let q = filter(e);
            let text = render::plain(&q);
            let doc = assignments(2, i % 2 == 0);
            let Some(r) = check_eval(tc, &q, &text, &doc) else { return };
            note_pair(tc, &text, &doc, n as u64, r);
        }
    });
    Check {
        rule: "every execution compares the addresses of the children kept by the filter, in order, with those for which the reference evaluates the expression to true (pure truth tables are checked by a second, bit-level evaluator); non-trivial = distinct (query text, document) pair that selects something, or a truth table that is neither empty nor full",
        assumptions: vec!["object members are visited in the iteration order of serde_json's map"],
        sections: vec![probes(), exhaustive, random, exists, filters, nested, size, chain, negs],
        need: vec!["non-empty results", "truth table rows"],
    }
}
fn leaf_cmp(tc: &mut Tc) -> Expr {
    let k = *tc.rng.pick(&["a", "b", "c", "d"]);
    let base = if tc.rng.chance(1, 4) { Query::root() } else { Query::cur() };
    match tc.rng.below(5) {
        0 => Expr::Exist(base.name(k)),
        1 => Expr::Exist(base.with(true, vec![Sel::Name(k.into())])),
        2 => Expr::Cmp(Cmpb::Query(Query::cur()), *tc.rng.pick(&OPS), Cmpb::Lit(Lit::Num(tc.rng.range(-2, 3).to_string()))),
        3 => Expr::Cmp(Cmpb::Query(base.name(k)), *tc.rng.pick(&OPS), Cmpb::Query(Query::root().name(k))),
        _ => Expr::Exist(Query::cur().index(tc.rng.range(-2, 2))),
    }
}
