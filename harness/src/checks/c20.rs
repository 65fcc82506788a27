//! The types that functions take and return, as views of what they hold.
use super::common::*;
use crate::ast::Sel;
use crate::gen;
use crate::render;
use crate::rng::{hash_bytes, mix};
use crate::run::*;
use serde_json::{json, Map, Number, Value};
use serde_json_path::functions::{LogicalType, NodesType, ValueType};
use serde_json_path::{ExactlyOneError, JsonPath, NodeList};
use std::borrow::Cow;

fn addrs(v: &[&Value]) -> Vec<usize> {
    v.iter().map(|v| addr(v)).collect()
}
fn at(v: Option<&Value>) -> Option<usize> {
    v.map(addr)
}

/// every view of a nodelist
fn nodes(tc: &mut Tc, what: &str, doc: &Value, exp: &[&Value]) {
    macro_rules! ensure {
        ($n:expr, $c:expr) => {{
            tc.ev();
            if !$c {
                tc.fail(format!("NodesType: {} ({what}, {} nodes)", $n, exp.len()), json!({"document": show(doc), "from": what, "view": $n, "nodes": exp.iter().take(40).map(|v| clip(v.to_string())).collect::<Vec<_>>()}));
                return;
            }
        }};
    }
    let list: NodeList = exp.to_vec().into();
    let forms: [(&str, NodesType); 4] = [("from a vector", exp.to_vec().into()), ("from a NodeList", list.clone().into()), ("cloned", NodesType::from(list.clone()).clone()), ("assigned through DerefMut", {
        let mut n = NodesType::default();
        *n = list.clone();
        n
    })];
    for (f, n) in forms {
        let a = addrs(exp);
        ensure!(format!("{f}: len"), n.len() == a.len());
        ensure!(format!("{f}: is_empty"), n.is_empty() == a.is_empty());
        ensure!(format!("{f}: first"), at(n.first()) == a.first().copied());
        ensure!(format!("{f}: last"), at(n.last()) == a.last().copied());
        for i in [0, 1, a.len() / 2, a.len().wrapping_sub(1), a.len(), a.len() + 1, usize::MAX] {
            ensure!(format!("{f}: get({i})"), at(n.get(i)) == a.get(i).copied());
        }
        ensure!(format!("{f}: iter"), n.iter().map(|v| addr(v)).eq(a.iter().copied()));
        ensure!(format!("{f}: iter backwards"), n.iter().rev().map(|v| addr(v)).eq(a.iter().rev().copied()));
        ensure!(format!("{f}: deref"), *n == list && addrs(&n.iter().copied().collect::<Vec<_>>()) == a);
        match n.at_most_one() {
            Ok(o) => ensure!(format!("{f}: at_most_one"), a.len() <= 1 && at(o) == a.first().copied()),
            Err(e) => ensure!(format!("{f}: at_most_one"), a.len() > 1 && e.0 == a.len()),
        }
        match n.exactly_one() {
            Ok(o) => ensure!(format!("{f}: exactly_one"), a.len() == 1 && addr(o) == a[0]),
            Err(ExactlyOneError::Empty) => ensure!(format!("{f}: exactly_one"), a.is_empty()),
            Err(ExactlyOneError::MoreThanOne(c)) => ensure!(format!("{f}: exactly_one"), a.len() > 1 && c == a.len()),
        }
        ensure!(format!("{f}: =="), n == NodesType::from(list.clone()) && !(n != NodesType::from(exp.to_vec())));
        let mut more = exp.to_vec();
        more.push(doc);
        ensure!(format!("{f}: != a longer one"), n != NodesType::from(more));
        ensure!(format!("{f}: into_iter"), n.clone().into_iter().map(addr).eq(a.iter().copied()));
        ensure!(format!("{f}: into_iter backwards"), n.clone().into_iter().rev().map(addr).eq(a.iter().rev().copied()));
        ensure!(format!("{f}: into_iter is exact"), n.clone().into_iter().len() == a.len());
        ensure!(format!("{f}: all"), addrs(&n.clone().all()) == a);
        ensure!(format!("{f}: there and back"), addrs(&NodesType::from(n.all()).all()) == a);
    }
    ensure!("default", NodesType::default().is_empty() && NodesType::default() == NodesType::from(vec![]));
    tc.count("nodelists viewed");
    tc.max("nodes", exp.len() as u64);
}

/// a value, owned and borrowed
fn value(tc: &mut Tc, v: &Value) {
    macro_rules! ensure {
        ($n:expr, $c:expr) => {{
            tc.ev();
            if !$c {
                tc.fail(format!("ValueType: {}: {}", $n, show(v)), json!({"value": show(v), "view": $n}));
                return;
            }
        }};
    }
    let node = ValueType::Node(v);
    ensure!("the node is lost", at(node.as_value()) == Some(addr(v)));
    ensure!("a clone is of another node", at(node.clone().as_value()) == Some(addr(v)));
    ensure!("a node is nothing", !node.is_nothing());
    ensure!("a clone differs", node.clone() == node);
    let own = ValueType::Value(v.clone());
    ensure!("a value differs from what it was made of", own.as_value() == Some(v));
    ensure!("a value is nothing", !own.is_nothing());
    ensure!("a clone of a value differs", own.clone() == own && own.clone().as_value() == Some(v));
    let from = ValueType::from(v.clone());
    ensure!("converted into another value", from == own && from.as_value() == Some(v) && !from.is_nothing());
    ensure!("equal to nothing", from != ValueType::Nothing && node != ValueType::Nothing);
    ensure!("nothing has a value", ValueType::Nothing.as_value().is_none() && ValueType::Nothing.is_nothing());
    ensure!("the default is not nothing", ValueType::default().is_nothing() && ValueType::default() == ValueType::Nothing);
    tc.count("values viewed");
}
/// whatever converts into a value converts into a ValueType
fn conversions(tc: &mut Tc) {
    macro_rules! conv {
        ($t:ty: $($e:expr),*) => {$({
            let x: $t = $e;
            let want: Value = x.clone().into();
            let got: ValueType = x.clone().into();
            tc.ev();
            tc.count("conversions");
            if got.as_value() != Some(&want) || got.is_nothing() || got != ValueType::Value(want.clone()) {
                tc.fail(format!("{} {:?} converts into {got:?}", stringify!($t), x), json!({"type": stringify!($t), "value": want}));
                return;
            }
        })*};
    }
    let r = &mut tc.rng;
    let (a, b, s) = (r.next(), r.next() as i64, gen::string(r));
    let f = f64::from_bits(r.next());
    let v = gen::small(r, 3);
    let w = gen::leaf(r);
    let m: Map<String, Value> = [(gen::key(r), v.clone())].into_iter().collect();
    conv!(bool: true, false);
    conv!(u8: 0, u8::MAX, a as u8);
    conv!(i8: i8::MIN, b as i8);
    conv!(u16: u16::MAX, a as u16);
    conv!(i16: i16::MIN, b as i16);
    conv!(u32: u32::MAX, a as u32);
    conv!(i32: i32::MIN, b as i32);
    conv!(u64: 0, u64::MAX, 1 << 53, a);
    conv!(i64: 0, i64::MIN, i64::MAX, b);
    conv!(usize: usize::MAX, a as usize);
    conv!(isize: isize::MIN, b as isize);
    conv!(f64: 0.0, -0.0, 1.5, 1e300, f64::MIN_POSITIVE, f64::NAN, f64::INFINITY, f);
    conv!(f32: 0.5, f32::MAX, f as f32);
    conv!(&str: "", "a", "\u{1F600}", "null");
    conv!(String: s.clone());
    conv!(Cow<'static, str>: Cow::Borrowed("x"), Cow::Owned(s.clone()));
    conv!(Vec<Value>: vec![], vec![v.clone(), w.clone()]);
    conv!(Vec<bool>: vec![true, false]);
    conv!(Vec<i64>: vec![b]);
    conv!([u8; 2]: [1, 2]);
    conv!(&[i32]: &[1, 2, 3][..]);
    conv!(Map<String, Value>: Map::new(), m.clone());
    conv!(Number: Number::from(b));
    conv!(Option<bool>: None, Some(false));
    conv!(Option<String>: None, Some(s.clone()));
    conv!(Option<Value>: None, Some(Value::Null), Some(v.clone()));
    conv!((): ());
    conv!(Value: v.clone(), w.clone());
    let key = mix(hash_doc(&v) ^ hash_bytes(s.as_bytes()));
    for x in [&v, &w, &Value::Object(m), &json!(null), &json!(false), &json!(0), &json!(""), &json!([]), &json!({})] {
        value(tc, x);
    }
    for b in [true, false] {
        tc.ev();
        let l = LogicalType::from(b);
        let back: bool = l.clone().into();
        if back != b || l != (if b { LogicalType::True } else { LogicalType::False }) || l == LogicalType::from(!b) || l.clone() != l || LogicalType::default() != LogicalType::False {
            tc.fail(format!("LogicalType of {b} is {l:?}"), Value::Null);
        }
    }
    tc.nontrivial(key);
}

// functions that are written with these types in the way their documentation shows
#[cfg(feature = "functions")]
mod used {
    use super::*;
    #[serde_json_path::function]
    fn v_same(n: NodesType) -> NodesType {
        n
    }
    #[serde_json_path::function]
    fn v_all(n: NodesType) -> NodesType {
        n.all().into()
    }
    #[serde_json_path::function]
    fn v_rev(n: NodesType) -> NodesType {
        n.into_iter().rev().collect::<Vec<_>>().into()
    }
    #[serde_json_path::function]
    fn v_tail(n: NodesType) -> NodesType {
        n.into_iter().skip(1).collect::<Vec<_>>().into()
    }
    #[serde_json_path::function]
    fn v_first(n: NodesType) -> ValueType {
        n.first().map_or(ValueType::Nothing, ValueType::Node)
    }
    #[serde_json_path::function]
    fn v_last(n: NodesType) -> ValueType {
        n.last().cloned().map_or(ValueType::Nothing, ValueType::from)
    }
    #[serde_json_path::function]
    fn v_get<'a>(n: NodesType<'a>, i: ValueType<'a>) -> ValueType<'a> {
        let i = i.as_value().and_then(|v| v.as_u64());
        i.and_then(|i| n.get(i as usize)).map_or(ValueType::Nothing, ValueType::Node)
    }
    #[serde_json_path::function]
    fn v_len(n: NodesType) -> ValueType {
        n.len().into()
    }
    #[serde_json_path::function]
    fn v_one(n: NodesType) -> LogicalType {
        n.exactly_one().is_ok().into()
    }
    #[serde_json_path::function]
    fn v_not(l: LogicalType) -> LogicalType {
        (!bool::from(l)).into()
    }
    #[serde_json_path::function]
    fn v_and(l: LogicalType, m: LogicalType) -> LogicalType {
        (bool::from(l) && bool::from(m)).into()
    }
    #[serde_json_path::function]
    fn v_bool(l: LogicalType) -> ValueType<'static> {
        bool::from(l).into()
    }
    #[serde_json_path::function]
    fn v_is(v: ValueType) -> LogicalType {
        (!v.is_nothing()).into()
    }
    #[serde_json_path::function]
    fn v_copy(v: ValueType) -> ValueType {
        v.as_value().cloned().map_or(ValueType::Nothing, ValueType::Value)
    }
    #[serde_json_path::function]
    fn v_id(v: ValueType) -> ValueType {
        v
    }
}
/// what the functions above make of a nodelist (given by the library's own result of the query) in
/// terms that need no function: the filter, and for each child whether it is kept
#[cfg(feature = "functions")]
fn usage(tc: &mut Tc) {
    let r = &mut tc.rng;
    let doc = match r.below(3) {
        0 => gen::records(r),
        1 => Value::Array((0..1 + r.below(6)).map(|_| gen::small(r, 3)).collect()),
        _ => gen::doc(r),
    };
    let children: Vec<&Value> = match &doc {
        Value::Array(a) => a.iter().collect(),
        Value::Object(m) => m.values().collect(),
        _ => return,
    };
    if children.is_empty() || children.len() > 60 {
        return;
    }
    let c = children[r.below(children.len())];
    let q = gen::gen_query(r, c, &gen::PLAIN);
    if children.iter().any(|c| !affordable(&q, c, 20_000)) {
        tc.count("skipped: more steps than the budget, or not specified");
        return;
    }
    // (a singular query with a negative index as an argument: see `neg-index` of C13)
    if q.is_singular() && q.segs.iter().any(|s| matches!(s.sels[0], Sel::Index(i) if i < 0)) {
        return;
    }
    let text = render::plain(&q);
    let Some(p) = must_parse(tc, &text) else { return };
    let rel = format!("@{}", &text[1..]);
    // comparing results against literals brings in the recorded defects of deep numbers; only simple ones here
    let lists: Vec<Vec<&Value>> = children.iter().map(|c| p.query(c).all()).collect();
    let simple = lists.iter().flatten().find(|v| v.is_string() || v.is_boolean() || v.is_i64()).map(|v| (*v).clone()).unwrap_or(json!("none"));
    let lit = match &simple {
        Value::String(s) => {
            let mut o = String::new();
            render::string(&mut render::Style { rng: None, blanks: false, short: false }, &mut o, s);
            o
        }
        v => v.to_string(),
    };
    let same = |v: Option<&Value>| match v {
        Some(v) if v.is_string() || v.is_boolean() => *v == simple,
        Some(v) if v.is_number() => simple.is_number() && v.as_f64() == simple.as_f64(),
        _ => false,
    };
    let ints_unclear = simple.is_number() && (simple.as_f64().unwrap().abs() > 2f64.powi(53));
    let k = tc.rng.below(4);
    type F<'a> = Box<dyn Fn(&[&Value]) -> bool + 'a>;
    let mut tests: Vec<(String, F)> = vec![
        (format!("v_same({rel})"), Box::new(|l| !l.is_empty())),
        (format!("v_all({rel})"), Box::new(|l| !l.is_empty())),
        (format!("!v_rev({rel})"), Box::new(|l| l.is_empty())),
        (format!("v_tail({rel})"), Box::new(|l| l.len() > 1)),
        (format!("v_tail(v_tail({rel}))"), Box::new(|l| l.len() > 2)),
        (format!("v_one({rel})"), Box::new(|l| l.len() == 1)),
        (format!("v_one(v_tail({rel}))"), Box::new(|l| l.len() == 2)),
        (format!("v_len({rel})=={k}"), Box::new(move |l| l.len() == k)),
        (format!("v_len({rel})==count(v_rev({rel}))"), Box::new(|_| true)),
        (format!("count(v_all(v_tail({rel})))<{k}"), Box::new(move |l| l.len().saturating_sub(1) < k)),
        (format!("v_not({rel})"), Box::new(|l| l.is_empty())),
        (format!("v_not(v_not(v_rev({rel})))"), Box::new(|l| !l.is_empty())),
        (format!("!v_and({rel},v_one({rel}))"), Box::new(|l| l.len() != 1)),
        (format!("v_bool({rel})==true"), Box::new(|l| !l.is_empty())),
        (format!("v_bool(v_not({rel}))!=false"), Box::new(|l| l.is_empty())),
        (format!("v_is(v_first({rel}))"), Box::new(|l| !l.is_empty())),
        (format!("!v_is(v_last({rel}))"), Box::new(|l| l.is_empty())),
        (format!("v_is(value({rel}))"), Box::new(|l| l.len() == 1)),
        (format!("v_is(v_get({rel},{k}))"), Box::new(move |l| l.len() > k)),
        (format!("v_is(v_get(v_rev({rel}),'0'))"), Box::new(|_| false)),
        (format!("v_is(v_get({rel},@.nowhere.at.all))"), Box::new(|_| false)),
        (format!("v_first({rel})==v_last(v_rev({rel}))"), Box::new(|_| true)),
        (format!("v_id(v_first({rel}))==v_copy(v_first({rel}))"), Box::new(|_| true)),
        (format!("v_get({rel},v_len(v_tail({rel})))==v_last({rel})"), Box::new(|_| true)),
    ];
    if !ints_unclear {
        tests.push((format!("v_first({rel})=={lit}"), Box::new(|l| same(l.first().copied()))));
        tests.push((format!("{lit}==v_last({rel})"), Box::new(|l| same(l.last().copied()))));
        tests.push((format!("v_copy(v_get({rel},{k}))=={lit}"), Box::new(move |l| same(l.get(k).copied()))));
        tests.push((format!("v_id(v_first(v_tail({rel})))!={lit}"), Box::new(|l| !same(l.get(1).copied()))));
    }
    // objects and arrays with numbers in them fall under a recorded defect only where representations
    // differ; the same value compared with itself is not affected
    let pick: Vec<usize> = (0..8).map(|_| tc.rng.below(tests.len())).collect();
    for i in pick {
        let (t, f) = &tests[i];
        let text = format!("$[?{t}]");
        let Some(p) = must_parse(tc, &text) else { return };
        let got = addrs(&p.query(&doc).all());
        let want: Vec<usize> = children.iter().zip(&lists).filter(|(_, l)| f(l)).map(|(c, _)| addr(c)).collect();
        tc.ev();
        tc.count("queries with functions that use the views");
        tc.add("children kept", want.len() as u64);
        if got != want {
            tc.fail(
                format!("{} keeps {} children instead of {}", clip(text.clone()), got.len(), want.len()),
                json!({"query": clip(text), "document": show(&doc), "nodelists": lists.iter().take(30).map(|l| l.len()).collect::<Vec<_>>()}),
            );
            return;
        }
        if !want.is_empty() && want.len() < children.len() {
            tc.nontrivial(pair(&text, hash_doc(&doc)));
        }
    }
}

pub fn check(c: &Conf) -> Check {
    let mut sections = vec![];
    sections.push(sec("nodelists", c.n(40_000, 600_000), |tc, i| {
        let doc = gen::doc(&mut tc.rng);
        let q = gen::gen_query(&mut tc.rng, &doc, &gen::PLAIN);
        if !affordable(&q, &doc, 50_000) {
            tc.count("skipped: more steps than the budget, or not specified");
            return;
        }
        let text = render::plain(&q);
        let Some(p) = must_parse(tc, &text) else { return };
        let exp = p.query(&doc).all();
        nodes(tc, &text, &doc, &exp);
        if !exp.is_empty() {
            tc.nontrivial(pair(&text, hash_doc(&doc)));
        }
        // lists of any nodes, also of none of the document
        if i % 4 == 0 {
            let own = [json!(1), json!(1), json!("x"), json!({})];
            let mut v: Vec<&Value> = exp.iter().copied().chain(own.iter()).collect();
            tc.rng.shuffle(&mut v);
            let n = tc.rng.below(v.len() + 1);
            v.truncate(n);
            nodes(tc, "nodes picked at random", &doc, &v);
        }
    }));
    sections.push(sec("values and conversions", c.n(20_000, 300_000), |tc, _| conversions(tc)));
    #[cfg(feature = "functions")]
    sections.push(sec("in functions", c.n(60_000, 800_000), |tc, _| usage(tc)));
    Check {
        rule: "a distinct (query, document) pair whose nodelist (or a set of values whose conversions) was viewed in every way, or a filter by a function that keeps some children and not others",
        assumptions: vec!["equality of ValueType::Value(v) and ValueType::Node(&v) is not specified", "conversions into serde_json values are serde_json's"],
        sections,
        need: vec!["nodelists viewed", "values viewed", "conversions", "queries with functions that use the views"],
    }
}
