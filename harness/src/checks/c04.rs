//! The standard functions.
use super::c03::pool;
use super::common::*;
use crate::ast::*;
use crate::gen::{self, FULL};
use crate::regexp;
use crate::render;
use crate::rng::mix;
use crate::run::*;
use serde_json::{json, Value};

fn num(n: usize) -> Cmpb {
    Cmpb::Lit(Lit::Num(n.to_string()))
}
fn go(tc: &mut Tc, e: Expr, doc: &Value, h: u64, kind: &str) -> bool {
    let q = filter(e);
    let text = if tc.rng.chance(1, 2) { render::plain(&q) } else { render::varied(&mut tc.rng, &q) };
    match check_eval(tc, &q, &text, doc) {
        Some(n) => {
            tc.nontrivial(pair(&text, h));
            tc.count(&format!("{kind}: {}", if n > 0 { "true" } else { "false" }));
            tc.sample(|| json!({"query": clip(text.clone()), "document": show(doc).chars().take(300).collect::<String>(), "nodes": n}));
            true
        }
        None => !tc.failed(),
    }
}
fn strings_of(n: usize) -> Vec<String> {
    let mut v: Vec<String> = ["a", "é", "☺", "\u{1F600}", "e\u{301}", "\u{0}", "\""].iter().map(|c| c.repeat(n)).collect();
    v.push((0..n).map(|i| ['a', 'é', '☺', '\u{1F600}'][i % 4]).collect());
    v
}
fn rx(which: &str, a: Arg, b: Arg) -> Expr {
    Expr::Func(func(which, vec![a, b]))
}

pub fn check(c: &Conf) -> Check {
    let po = pool();
    let np = po.len() as u64;
    let po2 = po.clone();
    // length of every kind of argument, in every form
    let length = sec("length", np + 1, move |tc, i| {
        let v = po.get(i as usize);
        let doc = match v {
            Some(v) => json!([{"x": v, "y": [v], "n": 1}]),
            None => json!([{"n": 1}]),
        };
        let mut args = vec![
            Arg::Query(Query::cur().name("x")),
            Arg::Query(Query::cur().name("y").index(-1)),
            Arg::Query(Query::root().index(0).name("x")),
            Arg::Func(func("value", vec![Arg::Query(Query::cur().with(false, vec![Sel::Name("x".into())]))])),
            Arg::Func(func("value", vec![Arg::Query(Query::cur().with(true, vec![Sel::Name("x".into())]))])),
        ];
        if let Some(l) = v.and_then(super::c03::literal) {
            args.push(Arg::Lit(l));
        }
        for a in args {
            let f = || Cmpb::Func(func("length", vec![a.clone()]));
            for n in [0, 1, 2, 3, 4, 5, 130] {
                for op in [Op::Eq, Op::Lt, Op::Ge] {
                    if !go(tc, Expr::Cmp(f(), op, num(n)), &doc, i, "length") {
                        return;
                    }
                }
            }
            // nothing, exactly when the argument has no length
            let missing = || Cmpb::Query(Query::cur().name("missing"));
            for e in [
                Expr::Cmp(f(), Op::Eq, missing()),
                Expr::Cmp(missing(), Op::Ne, f()),
                Expr::Cmp(f(), Op::Eq, Cmpb::Lit(Lit::Null)),
                Expr::Cmp(Cmpb::Func(func("length", vec![Arg::Func(func("length", vec![a.clone()]))])), Op::Eq, missing()),
            ] {
                if !go(tc, e, &doc, i, "length") {
                    return;
                }
            }
        }
    });
    let mut sizes: Vec<usize> = gen::SIZES.to_vec();
    sizes.extend(gen::BIG_SIZES);
    let sizes2 = sizes.clone();
    let lsize = sec("sizes", sizes.len() as u64, move |tc, i| {
        let n = sizes[i as usize];
        let mut vals: Vec<Value> = strings_of(n).into_iter().map(Value::String).collect();
        vals.push(Value::Array(vec![json!(1); n]));
        vals.push(Value::Array((0..n).map(|k| json!([k])).collect()));
        vals.push(Value::Object((0..n).map(|k| (format!("k{k}"), json!([k]))).collect()));
        for (k, v) in vals.iter().enumerate() {
            let doc = json!([{ "x": v }, { "x": v }]);
            let q = Arg::Query(Query::cur().name("x"));
            let lit = match v {
                Value::String(s) if n < 600 => Arg::Lit(str_lit(s)),
                _ => q.clone(),
            };
            let star = |d: bool| Arg::Query(Query::cur().name("x").with(d, vec![Sel::Wild]));
            for m in [n.saturating_sub(1), n, n + 1] {
                for e in [
                    Expr::Cmp(Cmpb::Func(func("length", vec![q.clone()])), Op::Eq, num(m)),
                    Expr::Cmp(num(m), Op::Eq, Cmpb::Func(func("length", vec![lit.clone()]))),
                    Expr::Cmp(Cmpb::Func(func("count", vec![star(false)])), Op::Eq, num(m)),
                    Expr::Cmp(Cmpb::Func(func("count", vec![star(true)])), Op::Ge, num(m)),
                ] {
                    if !go(tc, e, &doc, mix(n as u64 * 100 + k as u64), "sizes") {
                        return;
                    }
                }
            }
            tc.max("length", n as u64);
        }
    });
    // count and value of the nodelists of random queries
    let nodes = sec("count and value", c.n(60_000, 800_000), |tc, _| {
        let doc = gen::doc(&mut tc.rng);
        let h = hash_doc(&doc);
        for _ in 0..3 {
            let at = match &doc {
                Value::Array(a) => a.first(),
                Value::Object(o) => o.values().next(),
                _ => None,
            };
            let abs = tc.rng.chance(1, 3);
            let mut g = gen::Gen { r: &mut tc.rng, root: &doc, o: &FULL, budget: 20 };
            let n = *g.r.pick(&[0, 1, 1, 2, 2, 3]);
            let q = g.query(abs, if abs { Some(&doc) } else { at }, n, 1);
            // what it has for one of the children, so that the comparison is often true
            let want = {
                let qq = Query { abs: true, segs: q.segs.clone() };
                let base = if abs { Some(&doc) } else { at };
                base.and_then(|b| crate::reval::eval(&qq, b).ok()).map(|v| v.len())
            };
            let k = match want {
                Some(n) if tc.rng.chance(2, 3) => n,
                _ => tc.rng.below(5),
            };
            let op = *tc.rng.pick(&OPS);
            let e = Expr::Cmp(Cmpb::Func(func("count", vec![Arg::Query(q.clone())])), op, num(k));
            if !go(tc, e, &doc, h, "count") {
                return;
            }
            let val = Cmpb::Func(func("value", vec![Arg::Query(q.clone())]));
            let other = match tc.rng.below(4) {
                0 => Cmpb::Query(Query::cur().name("missing!")),
                1 => Cmpb::Query(Query::cur()),
                2 => Cmpb::Func(func("value", vec![Arg::Query(Query::cur().with(false, vec![Sel::Wild]))])),
                _ => Cmpb::Lit(Lit::Null),
            };
            let op = *tc.rng.pick(&OPS);
            if !go(tc, Expr::Cmp(val, op, other), &doc, h, "value") {
                return;
            }
        }
    });
    let mut sections = vec![probes(), length, lsize, nodes];
    if !cfg!(feature = "regex") {
        return done(sections);
    }
    // any two values that are not both strings
    sections.push(sec("match of non-strings", np + 1, move |tc, i| {
        let a = po2.get(i as usize);
        for b in po2.iter().map(Some).chain([None]) {
            let mut m = serde_json::Map::new();
            if let Some(a) = a {
                m.insert("x".into(), a.clone());
            }
            if let Some(b) = b {
                m.insert("y".into(), b.clone());
            }
            let doc = json!([m]);
            let h = hash_doc(&doc);
            let lit = |v: Option<&Value>, k: &str| match v.and_then(super::c03::literal) {
                Some(l) if h & 1 == 0 => Arg::Lit(l),
                _ => Arg::Query(Query::cur().name(k)),
            };
            for w in ["match", "search"] {
                if !go(tc, rx(w, lit(a, "x"), lit(b, "y")), &doc, h, "any values") {
                    return;
                }
                let e = Expr::Not(Box::new(rx(w, Arg::Query(Query::cur().name("x")), Arg::Query(Query::cur().name("y")))));
                if !go(tc, e, &doc, h, "any values") {
                    return;
                }
            }
        }
    }));
    // all short expressions over a small alphabet
    const AL: &[u8] = b"ab.*|()?+[]-&~c\\";
    let len = if c.thorough { 4 } else { 3 };
    let total: u64 = (0..=len).map(|k| (AL.len() as u64).pow(k)).sum();
    let more = c.n(6000, 60_000);
    sections.push(sec("short expressions", total + more, move |tc, i| {
        let mut k = i;
        let mut n = 0;
        if i >= total {
            n = 4 + tc.rng.below(3) as u32;
            k = tc.rng.next() % (AL.len() as u64).pow(n);
        }
        while i < total && k >= (AL.len() as u64).pow(n) {
            k -= (AL.len() as u64).pow(n);
            n += 1;
        }
        let mut r = String::new();
        for _ in 0..n {
            r.push(AL[(k % AL.len() as u64) as usize] as char);
            k /= AL.len() as u64;
        }
        if let Err(regexp::Bad::Unspec) = regexp::parse(&r) {
            tc.count("skipped: not an I-Regexp, unspecified");
            return;
        }
        if regexp::parse(&r).is_err() {
            tc.count("invalid expressions");
        }
        let doc = json!(["", "a", "b", "ab", "ba", "aa", "abb", "c", "-", "&", "~", "aab", "\n", "a\r", "bc", "(", "x", "[", "\\"]);
        let lit = Arg::Lit(str_lit(&r));
        for w in ["match", "search"] {
            if !go(tc, rx(w, Arg::Query(Query::cur()), lit.clone()), &doc, i, "short") {
                return;
            }
        }
    }));
    let regex_doc = |tc: &mut Tc, r: &str| -> Vec<String> {
        let mut v = vec![];
        if let Ok(re) = regexp::parse(r) {
            for k in 0..5 {
                let mut s = String::new();
                gen::subject(&mut tc.rng, &re, &mut s);
                if k > 1 {
                    // near misses, and occurrences inside of a longer text
                    match tc.rng.below(6) {
                        0 => s.push(*tc.rng.pick(&['a', 'b', '\n', '\r', ' '])),
                        1 => s.insert(0, *tc.rng.pick(&['a', 'b', '\n', '\r', ' '])),
                        2 => {
                            s.pop();
                        }
                        3 => s = format!("{}{s}{}", *tc.rng.pick(&["\n", "b", "\r\n", "1"]), *tc.rng.pick(&["\n", "c", "\r", "\r\n"])),
                        4 => s = s.chars().rev().collect(),
                        _ => s = s.chars().flat_map(|c| [c, c]).collect(),
                    }
                }
                v.push(s);
            }
        }
        v.push(String::new());
        v
    };
    sections.push(sec("random expressions", c.n(12_000, 300_000), move |tc, i| {
        let mut r = gen::regex(&mut tc.rng, 2);
        if i % 12 == 0 {
            // damaged
            let mut c: Vec<char> = r.chars().collect();
            if !c.is_empty() {
                let k = tc.rng.below(c.len());
                match tc.rng.below(3) {
                    0 => {
                        c.remove(k);
                    }
                    1 => c.insert(k, *tc.rng.pick(&['(', ')', '[', ']', '*', '?', '\\', '{', '|'])),
                    _ => c.truncate(k),
                }
            }
            r = c.into_iter().collect();
        }
        match regexp::parse(&r) {
            Err(regexp::Bad::Unspec) => {
                tc.count("skipped: not an I-Regexp, unspecified");
                return;
            }
            Err(_) => tc.count("invalid expressions"),
            Ok(_) => tc.count("valid expressions"),
        }
        let subj = regex_doc(tc, &r);
        let doc = json!(subj);
        let h = hash_doc(&doc);
        for w in ["match", "search"] {
            if !go(tc, rx(w, Arg::Query(Query::cur()), Arg::Lit(str_lit(&r))), &doc, h, w) {
                return;
            }
        }
        let recs: Vec<Value> = subj.iter().map(|s| json!({"s": s, "r": r})).collect();
        let doc = Value::Array(recs);
        let w = *tc.rng.pick(&["match", "search"]);
        let pat = match tc.rng.below(3) {
            0 => Arg::Func(func("value", vec![Arg::Query(Query::cur().with(true, vec![Sel::Name("r".into())]))])),
            1 => Arg::Query(Query::root().index(0).name("r")),
            _ => Arg::Query(Query::cur().name("r")),
        };
        let e = rx(w, Arg::Query(Query::cur().name("s")), pat);
        let e = if tc.rng.chance(1, 4) { Expr::Not(Box::new(e)) } else { e };
        go(tc, e, &doc, h, w);
        let s = tc.rng.pick(&subj).clone();
        let e = rx(w, Arg::Lit(str_lit(&s)), Arg::Lit(str_lit(&r)));
        go(tc, e, &json!([1, 2]), mix(h), w);
    }));
    // expressions that differ from node to node, valid and invalid ones interleaved
    sections.push(sec("expression per node", c.n(4_000, 80_000), move |tc, _| {
        let n = 1 + tc.rng.below(24);
        let mut recs = vec![];
        let mut pats: Vec<Value> = vec![];
        for _ in 0..n {
            let p = match tc.rng.below(10) {
                0 => json!("("),
                1 => json!("[a"),
                2 => json!(3),
                3 => Value::Null,
                4 if !pats.is_empty() => tc.rng.pick(&pats).clone(),
                _ => {
                    let r = gen::regex(&mut tc.rng, 1);
                    if let Err(regexp::Bad::Unspec) = regexp::parse(&r) {
                        json!("a")
                    } else {
                        json!(r)
                    }
                }
            };
            let s = match &p {
                Value::String(r) => {
                    let v = regex_doc(tc, r);
                    json!(tc.rng.pick(&v))
                }
                _ => json!("a"),
            };
            pats.push(p.clone());
            recs.push(if tc.rng.chance(1, 20) { json!({ "s": s }) } else { json!({"s": s, "r": p}) });
        }
        let doc = Value::Array(recs);
        let h = hash_doc(&doc);
        let a = || rx("match", Arg::Query(Query::cur().name("s")), Arg::Query(Query::cur().name("r")));
        let b = || rx("search", Arg::Query(Query::cur().name("s")), Arg::Query(Query::cur().name("r")));
        for e in [a(), b(), Expr::And(vec![b(), Expr::Not(Box::new(a()))])] {
            if !go(tc, e, &doc, h, "per node") {
                return;
            }
        }
        // one subject against every expression of the document
        let q = Query::root().with(
            false,
            vec![Sel::Filter(rx("search", Arg::Lit(str_lit("ab1 c")), Arg::Query(Query::cur().name("r"))))],
        );
        let text = render::plain(&q);
        check_eval(tc, &q, &text, &doc);
    }));
    // long subjects and long expressions
    let s2 = sizes2.clone();
    sections.push(sec("long subjects", s2.len() as u64 * 8, move |tc, i| {
        let n = s2[(i / 8) as usize];
        let r = ["a*", "(ab)*", "a*b", ".*", "[^b]*", "(a|b)*c", "a", "b.*a"][(i % 8) as usize];
        let subj: Vec<String> = vec![
            "a".repeat(n),
            "ab".repeat(n),
            format!("{}b", "a".repeat(n)),
            format!("b{}", "a".repeat(n)),
            format!("{}\n", "a".repeat(n)),
            format!("{}c", "ab".repeat(n)),
            format!("{}\u{1F600}a", "é".repeat(n)),
        ];
        let doc = json!(subj);
        for w in ["match", "search"] {
            if !go(tc, rx(w, Arg::Query(Query::cur()), Arg::Lit(str_lit(r))), &doc, mix(n as u64), w) {
                return;
            }
        }
        // an expression of n characters
        if n < 400 {
            let lit: String = (0..n).map(|k| ['a', 'b'][k % 2]).collect();
            let doc = json!([lit, format!("{lit}a"), format!("x{lit}"), lit.get(1..).unwrap_or("")]);
            for w in ["match", "search"] {
                if !go(tc, rx(w, Arg::Query(Query::cur()), Arg::Lit(str_lit(&lit))), &doc, mix(n as u64), w) {
                    return;
                }
            }
        }
        tc.max("subject length", 2 * n as u64);
    }));
    // random filters with functions nested in one another
    sections.push(sec("nested", c.n(30_000, 500_000), |tc, _| {
        let doc = gen::doc(&mut tc.rng);
        let h = hash_doc(&doc);
        for _ in 0..3 {
            let at = match &doc {
                Value::Array(a) => a.first(),
                Value::Object(o) => o.values().next(),
                _ => None,
            };
            let mut g = gen::Gen { r: &mut tc.rng, root: &doc, o: &FULL, budget: 20 };
            let e = if gen::LOGICAL && g.r.chance(1, 2) {
                let f = g.func(crate::funcs::Ty::L, at, 2);
                Expr::Func(f)
            } else {
                let f = g.func(crate::funcs::Ty::V, at, 2);
                let other = g.cmpb(at, 1);
                let op = *g.r.pick(&OPS);
                Expr::Cmp(Cmpb::Func(f), op, other)
            };
            if !go(tc, e, &doc, h, "nested") {
                return;
            }
        }
    }));
    done(sections)
}
fn done(sections: Vec<Section>) -> Check {
    Check {
        rule: "every execution evaluates one function expression in a filter for all children of a document and compares the children kept, by address, with the reference (its own counting, and an I-Regexp matcher that shares nothing with the regex crate); non-trivial = distinct (query text, document) pair",
        assumptions: vec![
            "regular expressions outside of I-Regexp (`^`, `$`, lazy quantifiers, flags, other escapes) and those whose expansion is very large are not judged",
            "membership of general categories is judged for 40 representative characters",
        ],
        sections,
        need: vec!["length: true", "length: false", "count: true", "value: true", "match: true", "match: false", "search: true", "search: false", "invalid expressions", "valid expressions"],
    }
}
