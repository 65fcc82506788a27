//! Locations.
use super::common::*;
use crate::ast::*;
use crate::gen;
use crate::render::{self, normalized, El};
use crate::reval::{self, Stop};
use crate::rng::hash_bytes;
use crate::run::*;
use serde_json::{json, Map, Value};
use serde_json_path::{JsonPath, LocatedNode, NormalizedPath, PathElement};
use std::cmp::Ordering;
use std::collections::HashMap;

fn text_of(p: &NormalizedPath) -> String {
    normalized(p.iter().map(|e| match e {
        PathElement::Name(n) => El::Name(n),
        PathElement::Index(i) => El::Idx(*i),
    }))
}
fn follow<'a>(doc: &'a Value, p: &NormalizedPath) -> Option<&'a Value> {
    let mut v = doc;
    for e in p.iter() {
        v = match (e, v) {
            (PathElement::Name(n), Value::Object(o)) => o.get(*n)?,
            (PathElement::Index(i), Value::Array(a)) => a.get(*i)?,
            _ => return None,
        };
    }
    Some(v)
}
/// RFC 6901, independently of serde_json's resolver
fn resolve_pointer<'a>(doc: &'a Value, p: &str) -> Option<&'a Value> {
    if p.is_empty() {
        return Some(doc);
    }
    let mut v = doc;
    for t in p.strip_prefix('/')?.split('/') {
        let mut name = String::new();
        let mut it = t.chars();
        while let Some(c) = it.next() {
            if c == '~' {
                name.push(match it.next()? {
                    '0' => '~',
                    '1' => '/',
                    _ => return None,
                });
            } else {
                name.push(c);
            }
        }
        v = match v {
            Value::Object(o) => o.get(&name)?,
            Value::Array(a) => {
                if name.is_empty() || !name.bytes().all(|b| b.is_ascii_digit()) || (name.len() > 1 && name.starts_with('0')) {
                    return None;
                }
                a.get(name.parse::<usize>().ok()?)?
            }
            _ => return None,
        };
    }
    Some(v)
}

fn location(tc: &mut Tc, text: &str, doc: &Value, n: &LocatedNode) -> bool {
    let p = n.location();
    let shown = p.to_string();
    macro_rules! ensure {
        ($c:expr, $($f:tt)*) => {
            if !$c {
                let m = format!($($f)*);
                tc.fail(
                    format!("{m}: location {} in a result of {}", clip(shown.clone()), clip(text.to_string())),
                    json!({"query": text, "document": show(doc), "location": shown, "problem": m}),
                );
                return false;
            }
        };
    }
    tc.ev();
    let at = follow(doc, p);
    ensure!(at.is_some_and(|v| std::ptr::eq(v, n.node())), "its elements do not lead to the node");
    let want = text_of(p);
    ensure!(shown == want, "its text is not the normalized path {want}");
    // re-query
    let back = JsonPath::parse(&shown);
    ensure!(back.is_ok(), "its text is not a valid query ({})", back.as_ref().err().unwrap());
    let back = back.unwrap();
    let r = back.query(doc);
    ensure!(r.len() == 1 && std::ptr::eq(r.first().unwrap(), n.node()), "its text, as a query, selects {} nodes, or another one", r.len());
    let rl = back.query_located(doc);
    ensure!(rl.len() == 1 && rl.first().unwrap().location() == p && rl.first().unwrap() == n, "its text, as a query, gives another location");
    ensure!(rl.first().unwrap().location().to_string() == shown, "its text, as a query, gives a location with another text");
    // pointer
    let ptr = p.to_json_pointer();
    ensure!(resolve_pointer(doc, &ptr).is_some_and(|v| std::ptr::eq(v, n.node())), "its JSON pointer {ptr:?} does not resolve to the node");
    ensure!(doc.pointer(&ptr).is_some_and(|v| std::ptr::eq(v, n.node())), "its JSON pointer {ptr:?} is not resolved by serde_json");
    // access
    let els: Vec<&PathElement> = p.iter().collect();
    let k = els.len();
    ensure!(p.len() == k && p.is_empty() == (k == 0), "its length is {}, with {k} elements", p.len());
    ensure!(p.first() == els.first().copied() && p.last() == els.last().copied(), "first or last is not the first or last element");
    for (i, e) in els.iter().enumerate() {
        ensure!(p.get(i) == Some(*e), "get({i}) is not element {i}");
        match e {
            PathElement::Name(s) => {
                ensure!(e.is_name() && !e.is_index() && e.as_name() == Some(*s) && e.as_index().is_none(), "the name {s:?} is not a name only");
                ensure!(**e == **s && **e == *s && !(**e == 0usize), "the name {s:?} does not compare equal to itself only");
                ensure!(!(**e == *format!("{s}x")), "the name {s:?} compares equal to another");
                ensure!(serde_json::to_value(e).ok() == Some(json!(s)), "the name {s:?} is serialized as another");
            }
            PathElement::Index(x) => {
                ensure!(!e.is_name() && e.is_index() && e.as_name().is_none() && e.as_index() == Some(*x), "the index {x} is not an index only");
                ensure!(**e == *x && !(**e == x + 1) && !(**e == *x.to_string().as_str()), "the index {x} does not compare equal to itself only");
                ensure!(serde_json::to_value(e).ok() == Some(json!(x)), "the index {x} is serialized as another");
            }
        }
        ensure!(e.partial_cmp(e) == Some(Ordering::Equal), "element {i} is not equal to itself");
    }
    ensure!(p.get(k).is_none() && p.get(..).is_some_and(|s| s.len() == k) && p.get(k..).is_some_and(|s| s.is_empty()) && p.get(k + 1..).is_none(), "ranges of elements are wrong");
    ensure!(p.iter().rev().eq(els.iter().rev().copied()), "iterating backwards differs");
    ensure!(p.clone().into_iter().collect::<Vec<_>>().iter().eq(els.iter().copied()), "iterating by value differs");
    ensure!(p.clone() == *p && p.partial_cmp(p) == Some(Ordering::Equal), "it is not equal to itself");
    ensure!(serde_json::to_value(p).ok() == Some(json!(want)), "it is not serialized as its text");
    let o: NormalizedPath = n.clone().into();
    ensure!(o == *p && n.clone().to_location() == *p, "converting the node gives another location");
    tc.max("elements of a location", k as u64);
    true
}
fn by_elements(a: &NormalizedPath, b: &NormalizedPath) -> Option<Ordering> {
    for (x, y) in a.iter().zip(b.iter()) {
        let o = match (x, y) {
            (PathElement::Name(x), PathElement::Name(y)) => x.cmp(y),
            (PathElement::Index(x), PathElement::Index(y)) => x.cmp(y),
            _ => return None,
        };
        if o != Ordering::Equal {
            return Some(o);
        }
    }
    Some(a.len().cmp(&b.len()))
}

fn locations(tc: &mut Tc, text: &str, doc: &Value) {
    let Some(p) = must_parse(tc, text) else { return };
    let l = p.query_located(doc);
    let n = l.len();
    for x in l.iter().take(400) {
        if !location(tc, text, doc, x) {
            return;
        }
        let loc = x.location();
        tc.nontrivial(hash_bytes(loc.to_string().as_bytes()));
    }
    // pairs
    let sel: Vec<&LocatedNode> = if n <= 40 { l.iter().collect() } else { (0..40).map(|_| l.get(tc.rng.below(n)).unwrap()).collect() };
    for a in &sel {
        for b in &sel {
            let (x, y) = (a.location(), b.location());
            let same = std::ptr::eq(a.node(), b.node());
            let c = x.partial_cmp(y);
            tc.ev();
            if (x == y) != same || (x.to_string() == y.to_string()) != same || (c == Some(Ordering::Equal)) != same || c != by_elements(x, y) || c != y.partial_cmp(x).map(Ordering::reverse) {
                tc.fail(
                    format!("locations {x} and {y} of {} node: equal {}, ordered {c:?}", if same { "the same" } else { "another" }, x == y),
                    json!({"query": text, "document": show(doc), "a": x.to_string(), "b": y.to_string()}),
                );
                return;
            }
            if same {
                tc.count("pairs of equal locations");
            } else {
                tc.count("pairs of different locations");
            }
        }
    }
    // all of them: as many texts as nodes
    let mut by: HashMap<String, usize> = HashMap::new();
    let mut nodes: HashMap<usize, String> = HashMap::new();
    for x in l.iter() {
        let t = x.location().to_string();
        let a = addr(x.node());
        let clash = by.insert(t.clone(), a).is_some_and(|b| b != a) || nodes.insert(a, t.clone()).is_some_and(|u| u != t);
        if clash {
            tc.fail(format!("location {t} stands for two nodes, or a node has two locations: {text}"), json!({"query": text, "document": show(doc), "location": t}));
            return;
        }
    }
    tc.add("locations", n as u64);
    tc.sample(|| json!({"query": clip(text.into()), "locations": l.locations().take(5).map(|x| x.to_string()).collect::<Vec<_>>()}));
}
fn cheap(q: &Query, d: &Value) -> bool {
    affordable(q, d, 400_000)
}

pub fn check(c: &Conf) -> Check {
    let mut sections = vec![];
    // every code point, alone, doubled and among others
    sections.push(sec("code points", 0x110000 / 32, |tc, i| {
        let mut o = Map::new();
        let mut deep = Map::new();
        for u in i * 32..i * 32 + 32 {
            if let Some(ch) = char::from_u32(u as u32) {
                o.insert(ch.to_string(), json!([u]));
                o.insert(format!("{ch}{ch}"), json!({ch.to_string(): u}));
                o.insert(format!("a{ch}b"), json!(null));
                deep.insert(format!("{ch}'"), json!(u));
                deep.insert(format!("\\{ch}"), json!(u));
            }
        }
        if o.is_empty() {
            return;
        }
        o.insert("~".into(), Value::Object(deep));
        let doc = Value::Object(o);
        locations(tc, "$..*", &doc);
    }));
    // pairs and triples of what needs care
    const SP: &[char] = &['\'', '"', '\\', '/', '~', '0', '1', '\u{0}', '\u{8}', '\t', '\n', '\u{b}', '\u{c}', '\r', '\u{1f}', '\u{7f}', ' ', '[', ']', '$', 'u', 'n', '\u{e9}', '\u{1F600}', '.', '*', '-', '@', '?'];
    let k = SP.len() as u64;
    sections.push(sec("special names", k * k, move |tc, i| {
        let (a, b) = (SP[(i % k) as usize], SP[(i / k) as usize]);
        let mut o = Map::new();
        for c in SP {
            o.insert(format!("{a}{b}{c}"), json!([[0]]));
        }
        o.insert(format!("{a}{b}"), json!({format!("{b}{a}"): [1, {format!("{a}"): 0}]}));
        o.insert(String::new(), json!({"": {"": [[]]}}));
        let doc = Value::Object(o);
        locations(tc, "$..*", &doc);
        locations(tc, "$[*]..[?@!=7]", &json!([doc]));
    }));
    sections.push(sec("queries and documents", c.n(120_000, 900_000), |tc, _| {
        let doc = gen::doc(&mut tc.rng);
        let q = gen::gen_query(&mut tc.rng, &doc, &gen::FULL);
        if !cheap(&q, &doc) {
            tc.count("skipped: more steps than the budget, or not specified");
            return;
        }
        let t = render::varied(&mut tc.rng, &q);
        locations(tc, &t, &doc);
    }));
    sections.push(sec("plain queries", c.n(120_000, 900_000), |tc, _| {
        let doc = gen::doc(&mut tc.rng);
        let q = gen::gen_query(&mut tc.rng, &doc, &gen::PLAIN);
        if !cheap(&q, &doc) {
            tc.count("skipped: more steps than the budget, or not specified");
            return;
        }
        let t = render::varied(&mut tc.rng, &q);
        locations(tc, &t, &doc);
    }));
    // every kind of selector leads to a node in its own way
    const WAYS: &[&str] = &[
        "$", "$[*]", "$.*", "$[0]", "$[-1]", "$[1:3]", "$[::-1]", "$[-2::-2]", "$['a']", "$.a", "$..a", "$..[0]", "$..[-1]", "$..[::-2]", "$..*", "$[?@]", "$[?@.a]", "$..[?@]", "$..[?@!=1]", "$[*][*]", "$[*,*]", "$..[0,-1,'a',*]", "$[?@][?@]", "$..[?@..a]", "$[*]['a','b',0,1]", "$[2:0:-1][*]", "$..a..b", "$..a[*]", "$[-1:]", "$..['a']", "$..[?count(@.*)>0]", "$[*]..*", "$..[1:]..[0]", "$.a.b", "$[0][0]", "$['a']['b']", "$.*.*", "$..*..*", "$[?@.*]..[?@]",
    ];
    sections.push(sec("ways to a node", WAYS.len() as u64 * c.n(200, 3000), |tc, i| {
        let t = WAYS[i as usize % WAYS.len()];
        let doc = match tc.rng.below(3) {
            0 => gen::small(&mut tc.rng, 4),
            1 => gen::records(&mut tc.rng),
            _ => json!({"a": gen::small(&mut tc.rng, 3), "b": [gen::small(&mut tc.rng, 2)], "0": {"a": {"b": gen::small(&mut tc.rng, 2)}}}),
        };
        if !matches!(crate::rparse::parse(t), crate::rparse::Verdict::Accept(q) if cheap(&q, &doc)) {
            return;
        }
        locations(tc, t, &doc);
    }));
    let sizes: Vec<usize> = gen::SIZES.iter().chain(gen::BIG_SIZES).copied().chain([9999, 10000, 10001, 65535, 65536, 65537, 100001]).collect();
    sections.push(sec("large indices", sizes.len() as u64, move |tc, i| {
        let n = sizes[i as usize];
        let doc = Value::Array((0..n).map(|i| json!([i])).collect());
        for t in ["$[-1]", "$[-1][0]", "$[-3:]", "$[::-1]", "$[?@[0]>5]", "$..[0]"] {
            locations(tc, t, &doc);
        }
        let m = n.saturating_sub(1);
        locations(tc, &format!("$[{m}]"), &doc);
        locations(tc, &format!("$[{}:{n}]..*", n / 2), &doc);
    }));
    sections.push(sec("depth", 200, |tc, i| {
        let doc = gen::deep(&mut tc.rng, i as usize + 1);
        locations(tc, "$..*", &doc);
        locations(tc, "$..[?@!=1]", &doc);
    }));
    Check {
        rule: "a distinct location text, checked against its node",
        assumptions: vec!["nodes are identified by their addresses in the document", "the order of names among siblings is that of their code points, of indices numeric, and a location precedes those below it (as the type's comparison has it)"],
        sections,
        need: vec!["locations", "pairs of equal locations", "pairs of different locations"],
    }
}
