//! Comparisons.
use super::common::*;
use crate::ast::*;
use crate::gen;
use crate::render;
use crate::reval;
use crate::rng::hash_bytes;
use crate::run::*;
use serde_json::{json, Map, Value};

fn parsed(t: &str) -> Value {
    serde_json::from_str(t).unwrap_or_else(|_| panic!("{t}"))
}
pub fn pool() -> Vec<Value> {
    let mut v: Vec<Value> = [
        "null", "true", "false", "0", "-0", "0.0", "-0.0", "1", "1.0", "1e0", "-1", "-1.0", "2", "1.5", "1.5000000000000002", "10", "1e1", "9", "100", "99",
        "0.1", "0.30000000000000004", "0.3", "9007199254740991", "9007199254740992", "9007199254740993", "-9007199254740991", "9223372036854775807",
        "9223372036854775808", "18446744073709551615", "-9223372036854775808", "1e19", "1.8446744073709552e19", "9.223372036854775807e18", "1e308", "-1e308", "5e-324", "4294967296", "2147483648", "-2147483649", "255", "256",
        "\"\"", "\"a\"", "\"b\"", "\"A\"", "\"aa\"", "\"ab\"", "\"B\"", "\" \"", "\"1\"", "\"true\"", "\"null\"", "\"\u{e9}\"", "\"e\u{301}\"", "\"z\"", "\"\u{ffff}\"", "\"\u{10000}\"", "\"\u{1F600}\"", "\"\u{e000}\"", "\"\u{d7ff}\"", "\"a\\u0000\"", "\"\\u0000\"", "\"\u{80}\"", "\"\u{7f}\"", "\"\u{df}\"", "\"ss\"",
        "[]", "[0]", "[0.0]", "[-0.0]", "[1]", "[1.0]", "[1,2]", "[2,1]", "[1,2,3]", "[null]", "[[]]", "[[1]]", "[[1.0]]", "[{}]", "[\"a\"]", "[false]", "[[],[]]", "[1,[2,[3,[4.0]]]]", "[1.0,[2,[3.0,[4]]]]",
        "{}", "{\"a\":1}", "{\"a\":1.0}", "{\"a\":2}", "{\"b\":1}", "{\"a\":null}", "{\"a\":1,\"b\":2}", "{\"b\":2,\"a\":1}", "{\"b\":2.0,\"a\":1.0}", "{\"a\":2,\"b\":1}", "{\"a\":[1,{\"b\":2}]}", "{\"a\":[1.0,{\"b\":2.0}]}", "{\"a\":{}}", "{\"a\":[]}", "{\"a\":1,\"c\":2}", "{\"\":0}", "{\"a\":{\"b\":{\"c\":1}}}", "{\"a\":{\"b\":{\"c\":1.0}}}", "{\"a\":false}", "{\"a\":0}",
    ]
    .iter()
    .map(|t| parsed(t))
    .collect();
    v.push(Value::Array((0..130).map(|i| json!(i)).collect()));
    v.push(Value::Array((0..130).map(|i| json!(i as f64)).collect()));
    v.push(Value::Array((0..131).map(|i| json!(i)).collect()));
    v
}
/// literal form, if it has one
pub fn literal(v: &Value) -> Option<Lit> {
    Some(match v {
        Value::Null => Lit::Null,
        Value::Bool(b) => Lit::Bool(*b),
        Value::String(s) => Lit::Str(s.clone()),
        Value::Number(n) => Lit::Num(n.to_string().replace("e+", "e")),
        _ => return None,
    })
}
fn one(tc: &mut Tc, a: Cmpb, op: Op, b: Cmpb, doc: &Value, plain: bool) -> bool {
    let q = filter(Expr::Cmp(a, op, b));
    let text = if plain { render::plain(&q) } else { render::varied(&mut tc.rng, &q) };
    let Some(p) = must_parse(tc, &text) else { return false };
    let before = tc.failed();
    if let Some(n) = check_parsed(tc, &q, &p, &text, doc) {
        tc.count(if n > 0 { "comparisons true" } else { "comparisons false" });
        let h = pair(&text, hash_bytes(doc.to_string().as_bytes()));
        tc.nontrivial(h);
        tc.sample(|| json!({"query": clip(text.clone()), "document": show(doc).chars().take(300).collect::<String>(), "true": n > 0}));
    }
    before == tc.failed()
}

/// all ways of having the value as an operand; the child under test holds it in `k`, the root in `k` too
fn forms(v: Option<&Value>, k: &str) -> Vec<Cmpb> {
    let mut o = vec![Cmpb::Query(Query::cur().name(k)), Cmpb::Query(Query::root().name("r").name(k))];
    if let Some(l) = v.and_then(literal) {
        o.push(Cmpb::Lit(l));
    }
    o.push(Cmpb::Query(Query::cur().name(&format!("{k}s")).index(-1)));
    o.push(Cmpb::Query(Query::cur().name(&format!("{k}s")).index(1)));
    o.push(Cmpb::Func(func("value", vec![Arg::Query(Query::cur().with(true, vec![Sel::Name(format!("{k}!"))]))])));
    if cfg!(feature = "functions") {
        o.push(Cmpb::Func(func("idv", vec![Arg::Query(Query::cur().name(k))])));
        o.push(Cmpb::Func(func("values", vec![Arg::Query(Query::cur().name(k))])));
    }
    o
}
fn holder(a: Option<&Value>, b: Option<&Value>) -> Value {
    let mut m = Map::new();
    for (k, v) in [("x", a), ("y", b)] {
        if let Some(v) = v {
            m.insert(k.into(), v.clone());
            m.insert(format!("{k}s"), json!([0, v]));
            m.insert(format!("{k}!"), v.clone());
        }
    }
    let mut r = Map::new();
    r.insert("h".into(), Value::Object(m.clone()));
    r.insert("r".into(), Value::Object(m));
    // the filter runs over the two members of the root, equal to each other
    Value::Object(r)
}

pub fn check(c: &Conf) -> Check {
    let po = pool();
    let n = po.len() as u64 + 1;
    let po2 = po.clone();
    let thorough = c.thorough;
    let pairs = sec("pairs", n * n, move |tc, i| {
        let (i, j) = ((i / n) as usize, (i % n) as usize);
        let (a, b) = (po.get(i), po.get(j));
        let doc = holder(a, b);
        let (fa, fb) = (forms(a, "x"), forms(b, "y"));
        for op in OPS {
            for (k, x) in fa.iter().enumerate() {
                for (l, y) in fb.iter().enumerate() {
                    // every combination of forms in the thorough tier, otherwise a third of them
                    if !thorough && k > 2 && l > 2 && (k + l + i + j) % 4 != 0 {
                        continue;
                    }
                    if !one(tc, x.clone(), op, y.clone(), &doc, true) {
                        return;
                    }
                }
            }
        }
        tc.count("ordered pairs of values");
    });
    // the laws that tie the operators together, judged without the reference
    let laws = sec("laws", n * n, move |tc, i| {
        let (a, b) = (po2.get((i / n) as usize), po2.get((i % n) as usize));
        let doc = holder(a, b);
        let mut r = [false; 6];
        let mut rev = [false; 6];
        for (k, op) in OPS.into_iter().enumerate() {
            for (dst, x, y) in [(&mut r[k], "x", "y"), (&mut rev[k], "y", "x")] {
                let q = filter(Expr::Cmp(Cmpb::Query(Query::cur().name(x)), op, Cmpb::Query(Query::cur().name(y))));
                let text = render::plain(&q);
                let Some(p) = must_parse(tc, &text) else { return };
                tc.ev();
                let g = p.query(&doc);
                if g.len() == 1 {
                    tc.fail(format!("{text} is true for one of two equal children"), json!({"query": text, "document": show(&doc)}));
                    return;
                }
                *dst = g.len() == 2;
            }
        }
        let [eq, ne, lt, le, gt, ge] = r;
        let ok = eq != ne
            && le == (lt || eq)
            && ge == (gt || eq)
            && gt == rev[2]
            && lt == rev[4]
            && eq == rev[0]
            && !(lt && gt)
            && !(eq && (lt || gt))
            && (!(lt || gt) || matches!((a, b), (Some(Value::Number(_)), Some(Value::Number(_))) | (Some(Value::String(_)), Some(Value::String(_)))))
            && (i / n != i % n || eq);
        if !ok {
            // a recorded finding, if the results are exactly what it makes of them
            for m in masks(tc) {
                let want = |x: Option<&Value>, y: Option<&Value>| OPS.map(|op| reval::compare_mask(x, op, y, m).unwrap_or(false));
                if r == want(a, b) && rev == want(b, a) {
                    note_known(tc, m, || json!({"a": a, "b": b, "results": r, "swapped": rev}));
                    return;
                }
            }
            tc.fail(
                format!("the operators contradict each other for {a:?} and {b:?}: ==,!=,<,<=,>,>= give {r:?}, swapped {rev:?}"),
                json!({"a": a, "b": b, "results": r, "swapped": rev}),
            );
        }
    });
    let near = sec("near misses", c.n(50_000, 800_000), |tc, i| {
        let a = if i % 3 == 0 { gen::leaf(&mut tc.rng) } else { gen::small(&mut tc.rng, 3) };
        let mut b = if tc.rng.chance(1, 4) { a.clone() } else { gen::mutate(&mut tc.rng, &a) };
        if tc.rng.chance(1, 4) {
            b = floats(&b);
        }
        let mut b = Some(b);
        let a = Some(a);
        if tc.rng.chance(1, 40) {
            b = None;
        }
        let doc = holder(a.as_ref(), b.as_ref());
        let (fa, fb) = (forms(a.as_ref(), "x"), forms(b.as_ref(), "y"));
        for op in OPS {
            let (x, y) = (tc.rng.pick(&fa).clone(), tc.rng.pick(&fb).clone());
            let ok = if tc.rng.chance(1, 2) { one(tc, x, op, y, &doc, false) } else { one(tc, y, op, x, &doc, false) };
            if !ok {
                return;
            }
        }
    });
    let numbers = sec("numbers", c.n(25_000, 400_000), |tc, _| {
        let a = number(tc);
        let b = if tc.rng.chance(1, 2) { nearby(tc, &a) } else { number(tc) };
        let (la, lb) = (Lit::Num(a), Lit::Num(b));
        let (Ok(va), Ok(vb)) = (reval::lit_value(&la), reval::lit_value(&lb)) else { return };
        let doc = holder(Some(&va), Some(&vb));
        for op in OPS {
            let x = match tc.rng.below(3) {
                0 => Cmpb::Query(Query::cur().name("x")),
                _ => Cmpb::Lit(la.clone()),
            };
            let y = match tc.rng.below(3) {
                0 => Cmpb::Query(Query::cur().name("y")),
                _ => Cmpb::Lit(lb.clone()),
            };
            if !one(tc, x, op, y, &doc, true) {
                return;
            }
        }
    });
    let strings = sec("strings", c.n(25_000, 400_000), |tc, _| {
        let mk = |tc: &mut Tc, n: usize| -> String {
            (0..n)
                .map(|_| match tc.rng.below(3) {
                    0 => *tc.rng.pick(&['a', 'b', 'B', '\u{ff}', '\u{100}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{0}', '~', '\u{80}']),
                    1 => 'a',
                    _ => gen::any_char(&mut tc.rng),
                })
                .collect()
        };
        let n = tc.rng.below(4);
        let m = *tc.rng.pick(&[0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 64, 100, 255, 256, 257]);
        let n = if tc.rng.chance(1, 4) { m } else { n };
        let pre: String = mk(tc, n);
        let (k, l) = (tc.rng.below(3), tc.rng.below(3));
        let a = format!("{pre}{}", mk(tc, k));
        let b = format!("{pre}{}", mk(tc, l));
        let (va, vb) = (json!(a), json!(b));
        let doc = holder(Some(&va), Some(&vb));
        let (fa, fb) = (forms(Some(&va), "x"), forms(Some(&vb), "y"));
        for op in OPS {
            let (x, y) = (tc.rng.pick(&fa).clone(), tc.rng.pick(&fb).clone());
            if !one(tc, x, op, y, &doc, false) {
                return;
            }
        }
    });
    // singular queries of any shape, on documents where they lead somewhere
    let singular = sec("singular queries", c.n(40_000, 600_000), |tc, _| {
        let doc = gen::doc(&mut tc.rng);
        for _ in 0..4 {
            let mut g = gen::Gen { r: &mut tc.rng, root: &doc, o: &gen::FILTERS, budget: 30 };
            let at = match &doc {
                Value::Array(a) => a.first(),
                Value::Object(o) => o.values().next(),
                _ => None,
            };
            let (x, y) = (g.singular(at), g.singular(at));
            let x = Cmpb::Query(x);
            let y = if tc.rng.chance(1, 3) {
                let v = match reval::eval(&Query { abs: true, segs: y.segs.clone() }, &doc) {
                    Ok(n) if n.len() == 1 => literal(n[0].v),
                    _ => None,
                };
                v.map_or(Cmpb::Query(y), Cmpb::Lit)
            } else {
                Cmpb::Query(y)
            };
            let op = *tc.rng.pick(&OPS);
            if !one(tc, x, op, y, &doc, false) {
                return;
            }
        }
    });
    // equality of wide and deep values that differ in one place only
    let mut sizes: Vec<usize> = gen::SIZES.to_vec();
    sizes.extend(gen::BIG_SIZES);
    let size = sec("sizes", sizes.len() as u64 * 4, move |tc, i| {
        let n = sizes[(i / 4) as usize];
        let (a, mk): (Value, &str) = match i % 4 {
            0 => (Value::Array((0..n).map(|k| json!(k)).collect()), "array"),
            1 => (Value::Object((0..n).map(|k| (format!("k{k}"), json!(k))).collect()), "object"),
            2 => (json!("x".repeat(n)), "string"),
            _ => {
                let mut v = json!(1);
                for k in 0..n.min(120) {
                    v = if k % 2 == 0 { json!([v]) } else { json!({ "a": v }) };
                }
                (v, "depth")
            }
        };
        let mut alts = vec![a.clone(), floats(&a)];
        for _ in 0..4 {
            let at = match tc.rng.below(3) {
                0 => 0,
                1 => n.saturating_sub(1),
                _ => tc.rng.below(n.max(1)),
            };
            alts.push(change(&a, at));
        }
        for b in alts {
            let doc = holder(Some(&a), Some(&b));
            for op in OPS {
                if !one(tc, Cmpb::Query(Query::cur().name("x")), op, Cmpb::Query(Query::cur().name("y")), &doc, true) {
                    return;
                }
            }
        }
        tc.max(mk, n as u64);
    });
    Check {
        rule: "every execution is one comparison evaluated by the library for all children of a document and compared node by node with the reference relation; non-trivial = distinct (query text, document) pair",
        assumptions: vec![
            "two integers, or an integer and a double, whose double conversions coincide although their exact values differ compare in an unspecified way (I-JSON range only)",
            "a number literal denotes what serde_json reads from the same text",
        ],
        sections: vec![probes(), pairs, laws, near, numbers, strings, singular, size],
        need: vec!["comparisons true", "comparisons false", "ordered pairs of values"],
    }
}
fn floats(v: &Value) -> Value {
    match v {
        Value::Number(n) => n.as_f64().filter(|f| f.abs() < 9e15).map_or(v.clone(), |f| json!(f)),
        Value::Array(a) => Value::Array(a.iter().map(floats).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), floats(v))).collect()),
        v => v.clone(),
    }
}
fn change(v: &Value, at: usize) -> Value {
    match v {
        Value::Array(a) if a.len() == 1 => json!([change(&a[0], at)]),
        Value::Object(o) if o.len() == 1 => Value::Object(o.iter().map(|(k, v)| (k.clone(), change(v, at))).collect()),
        Value::Array(a) if !a.is_empty() => {
            let mut a = a.clone();
            a[at] = json!(-1);
            Value::Array(a)
        }
        Value::Object(o) if !o.is_empty() => {
            let mut o = o.clone();
            let k = o.keys().nth(at).unwrap().clone();
            if at % 2 == 0 {
                o.insert(k, json!(-1));
            } else {
                let v = o.remove(&k).unwrap();
                o.insert(format!("{k}'"), v);
            }
            Value::Object(o)
        }
        Value::String(s) if !s.is_empty() => {
            let mut b = s.clone().into_bytes();
            b[at] = b'y';
            json!(String::from_utf8(b).unwrap())
        }
        _ => json!(2),
    }
}
pub fn number(tc: &mut Tc) -> String {
    let r = &mut tc.rng;
    let mut s = String::new();
    if r.chance(1, 3) {
        s.push('-');
    }
    match r.below(8) {
        0 => s.push('0'),
        1..=4 => s.push_str(&r.below(30).to_string()),
        5 => s.push_str(r.pick(&["9007199254740991", "9007199254740990", "4503599627370496", "2147483647", "2147483648", "4294967295", "4294967296", "1000000000000000"])),
        _ => s.push_str(&(r.next() >> (11 + r.below(50))).to_string()),
    }
    if r.chance(1, 3) {
        s.push('.');
        for _ in 0..1 + r.below(4) {
            s.push(*r.pick(&['0', '0', '5', '1', '9']));
        }
    }
    if r.chance(1, 4) {
        s.push(*r.pick(&['e', 'E']));
        s.push_str(r.pick(&["", "+", "-"]));
        s.push_str(r.pick(&["0", "1", "2", "00", "01", "5", "12"]));
    }
    s
}
/// another spelling or neighbour of the same number
fn nearby(tc: &mut Tc, a: &str) -> String {
    let r = &mut tc.rng;
    match r.below(6) {
        0 if !a.contains(['.', 'e', 'E']) => format!("{a}.0"),
        1 if !a.contains(['e', 'E']) => format!("{a}e0"),
        2 if !a.contains(['e', 'E', '.']) && a != "0" && a != "-0" => format!("{a}0e-1"),
        3 => match a.parse::<f64>() {
            Ok(f) if f.abs() < 1e15 => format!("{}", f + 1.0),
            _ => a.into(),
        },
        4 => match a.parse::<f64>() {
            Ok(f) if f.abs() < 1e6 && f != 0.0 => format!("{}", f64::from_bits(f.to_bits() + 1)),
            _ => a.into(),
        },
        _ => match a.strip_prefix('-') {
            Some(b) => b.into(),
            None => format!("-{a}"),
        },
    }
}
