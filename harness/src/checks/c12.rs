//! Views of result lists.
#![allow(deprecated)]
use super::common::*;
use crate::gen;
use crate::render;
use crate::reval::{self, Stop};
use crate::rng::hash_bytes;
use crate::run::*;
use serde_json::{json, Value};
use serde_json_path::{AtMostOneError, ExactlyOneError, JsonPath, LocatedNode, LocatedNodeList, NodeList};
use std::collections::VecDeque;
use std::iter::FusedIterator;

fn wrong(tc: &mut Tc, what: &str, text: &str, doc: &Value, n: usize) {
    tc.fail(format!("{what} disagrees with the sequence of {n} nodes: {text}"), json!({"view": what, "query": text, "document": show(doc), "length": n}));
}
/// drives an iterator at random against a queue; `same` compares an item with an element
fn drive<I, T: Copy>(tc: &mut Tc, mut it: I, model: &[T], same: impl Fn(&I::Item, T) -> bool) -> Result<(), String>
where
    I: Iterator + DoubleEndedIterator + ExactSizeIterator + FusedIterator,
{
    let mut q: VecDeque<T> = model.iter().copied().collect();
    let mut after = 0;
    let mut trace = String::new();
    loop {
        tc.ev();
        if it.size_hint() != (q.len(), Some(q.len())) || it.len() != q.len() {
            return Err(format!("{trace} size_hint {:?} len {} with {} left", it.size_hint(), it.len(), q.len()));
        }
        let op = tc.rng.below(10);
        let k = tc.rng.below(4);
        let (got, exp, name) = match op {
            0..=3 => (it.next(), q.pop_front(), "next"),
            4..=7 => (it.next_back(), q.pop_back(), "next_back"),
            8 => {
                for _ in 0..k {
                    q.pop_front();
                }
                (it.nth(k), q.pop_front(), "nth")
            }
            _ => {
                for _ in 0..k {
                    q.pop_back();
                }
                (it.nth_back(k), q.pop_back(), "nth_back")
            }
        };
        if trace.len() < 200 {
            trace.push_str(name);
            trace.push(' ');
        }
        match (&got, exp) {
            (None, None) => {
                after += 1;
                if after > 3 {
                    return Ok(());
                }
            }
            (Some(g), Some(e)) if same(g, e) => {}
            _ => return Err(format!("{trace}: {} where the sequence has {}", if got.is_some() { "an item" } else { "None" }, if exp.is_some() { "one (another)" } else { "None" })),
        }
        // the rest at once, sometimes
        if tc.rng.chance(1, 40) {
            let rest: Vec<T> = q.into_iter().collect();
            return match tc.rng.below(5) {
                0 => (it.count() == rest.len()).then_some(()).ok_or("count".into()),
                1 => match (it.last(), rest.last()) {
                    (None, None) => Ok(()),
                    (Some(a), Some(b)) if same(&a, *b) => Ok(()),
                    _ => Err(format!("{trace} last")),
                },
                2 => {
                    let v: Vec<I::Item> = it.rev().collect();
                    (v.len() == rest.len() && v.iter().zip(rest.iter().rev()).all(|(a, b)| same(a, *b))).then_some(()).ok_or(format!("{trace} rev"))
                }
                3 => {
                    let v = it.fold(vec![], |mut v, x| {
                        v.push(x);
                        v
                    });
                    (v.len() == rest.len() && v.iter().zip(rest.iter()).all(|(a, b)| same(a, *b))).then_some(()).ok_or(format!("{trace} fold"))
                }
                _ => {
                    let v = it.rfold(vec![], |mut v, x| {
                        v.push(x);
                        v
                    });
                    (v.len() == rest.len() && v.iter().zip(rest.iter().rev()).all(|(a, b)| same(a, *b))).then_some(()).ok_or(format!("{trace} rfold"))
                }
            };
        }
    }
}
fn p<'a>(v: &'a Value) -> *const Value {
    v as *const Value
}

/// a list of nodes against the vector it must be
fn nodes(tc: &mut Tc, text: &str, doc: &Value, l: &NodeList, m: &[&Value]) -> bool {
    let n = m.len();
    macro_rules! ensure {
        ($c:expr, $w:expr) => {
            tc.ev();
            if !$c {
                wrong(tc, &format!("NodeList: {}", $w), text, doc, n);
                return false;
            }
        };
    }
    let is = |a: Option<&Value>, b: Option<&&Value>| a.map(p) == b.map(|v| p(v));
    ensure!(l.len() == n, "len");
    ensure!(l.is_empty() == (n == 0), "is_empty");
    ensure!(is(l.first(), m.first()), "first");
    ensure!(is(l.last(), m.last()), "last");
    for i in 0..(n + 3).min(70) {
        ensure!(is(l.get(i), m.get(i)), format!("get({i})"));
    }
    if n > 0 {
        ensure!(is(l.get(n - 1), m.last()), "get(len - 1)");
    }
    ensure!(l.get(n).is_none() && l.get(usize::MAX).is_none(), "get past the end");
    ensure!(l.iter().len() == n && l.iter().map(|v| p(v)).eq(m.iter().map(|v| p(v))), "iter");
    ensure!(l.iter().rev().map(|v| p(v)).eq(m.iter().rev().map(|v| p(v))), "iter backwards");
    ensure!(l.clone().into_iter().map(p).eq(m.iter().map(|v| p(v))), "into_iter");
    ensure!(l.clone().all().into_iter().map(p).eq(m.iter().map(|v| p(v))), "all");
    ensure!(*l == l.clone() && l.clone().iter().map(|v| p(v)).eq(m.iter().map(|v| p(v))), "clone");
    let back = NodeList::from(m.to_vec());
    ensure!(back == *l && back.len() == n, "from a vector");
    ensure!(serde_json::to_value(l).ok() == Some(Value::Array(m.iter().map(|v| (*v).clone()).collect())), "serialization");
    match l.at_most_one() {
        Ok(x) => {
            ensure!(n <= 1 && is(x, m.first()), "at_most_one succeeds");
        }
        Err(AtMostOneError(k)) => {
            ensure!(n > 1 && k == n, format!("at_most_one fails with {k}"));
            ensure!(numbers(&AtMostOneError(k).to_string()).contains(&n), "the message of at_most_one");
        }
    }
    match l.exactly_one() {
        Ok(x) => {
            ensure!(n == 1 && p(x) == p(m[0]), "exactly_one succeeds");
        }
        Err(e) => {
            ensure!(n != 1 && exactly(&e, n), format!("exactly_one fails with {e:?}"));
        }
    }
    ensure!(is(l.clone().one(), if n == 1 { m.first() } else { None }), "one");
    let r = drive(tc, l.iter(), m, |a, b| p(a) == p(b));
    ensure!(r.is_ok(), format!("driving iter: {}", r.unwrap_err()));
    let r = drive(tc, l.clone().into_iter(), m, |a, b| p(a) == p(b));
    ensure!(r.is_ok(), format!("driving into_iter: {}", r.unwrap_err()));
    // equality is that of the values, one by one
    let mut other: Vec<&Value> = m.to_vec();
    match tc.rng.below(4) {
        0 => {
            other.pop();
        }
        1 => other.push(doc),
        2 => other.reverse(),
        _ => {
            if n > 0 {
                let i = tc.rng.below(n);
                other[i] = doc;
            }
        }
    }
    let eq = other.len() == n && other.iter().zip(m).all(|(a, b)| **a == **b);
    ensure!((NodeList::from(other.clone()) == *l) == eq, "equality with another list");
    let copies: Vec<Value> = m.iter().map(|v| (*v).clone()).collect();
    ensure!(NodeList::from(copies.iter().collect::<Vec<_>>()) == *l, "equality with equal values elsewhere");
    ensure!((NodeList::default() == *l) == (n == 0), "equality with the empty list");
    true
}
fn numbers(s: &str) -> Vec<usize> {
    s.split(|c: char| !c.is_ascii_digit()).filter_map(|t| t.parse().ok()).collect()
}
fn exactly(e: &ExactlyOneError, n: usize) -> bool {
    match e {
        ExactlyOneError::Empty => n == 0 && e.is_empty() && !e.is_more_than_one() && e.as_more_than_one().is_none() && !e.to_string().is_empty(),
        ExactlyOneError::MoreThanOne(k) => n > 1 && *k == n && !e.is_empty() && e.is_more_than_one() && e.as_more_than_one() == Some(n) && numbers(&e.to_string()).contains(&n),
    }
}

type Loc = (String, *const Value);
fn key(n: &LocatedNode) -> Loc {
    (n.location().to_string(), p(n.node()))
}
/// `m` has been taken from an iteration over another evaluation of the same query
fn located(tc: &mut Tc, text: &str, doc: &Value, l: &LocatedNodeList, m: &[LocatedNode]) -> bool {
    let n = m.len();
    macro_rules! ensure {
        ($c:expr, $w:expr) => {
            tc.ev();
            if !$c {
                wrong(tc, &format!("LocatedNodeList: {}", $w), text, doc, n);
                return false;
            }
        };
    }
    let k: Vec<Loc> = m.iter().map(key).collect();
    let is = |a: Option<&LocatedNode>, b: Option<&Loc>| a.map(key).as_ref() == b;
    ensure!(l.len() == n, "len");
    ensure!(l.is_empty() == (n == 0), "is_empty");
    ensure!(is(l.first(), k.first()), "first");
    ensure!(is(l.last(), k.last()), "last");
    for i in 0..(n + 3).min(40) {
        ensure!(is(l.get(i), k.get(i)), format!("get({i})"));
    }
    ensure!(l.get(n).is_none() && l.get(usize::MAX).is_none(), "get past the end");
    ensure!(l.iter().len() == n && l.iter().map(key).eq(k.iter().cloned()), "iter");
    ensure!(l.clone().into_iter().map(|x| key(&x)).eq(k.iter().cloned()), "into_iter");
    ensure!(l.clone().all().iter().map(key).eq(k.iter().cloned()), "all");
    ensure!(*l == l.clone() && l.clone().iter().map(key).eq(k.iter().cloned()), "clone");
    ensure!(l.locations().map(|x| x.to_string()).eq(k.iter().map(|x| x.0.clone())), "locations");
    ensure!(l.nodes().map(p).eq(k.iter().map(|x| x.1)), "nodes");
    ensure!(LocatedNodeList::from(m.to_vec()) == *l, "from a vector");
    let ser = serde_json::to_value(l).unwrap_or_default();
    ensure!(
        ser.as_array().is_some_and(|a| a.len() == n && a.iter().zip(m).all(|(s, x)| {
            // an entry holds the location's text and the node
            s.as_object().is_some_and(|o| o.len() == 2 && o.values().any(|v| *v == json!(x.location().to_string())) && o.values().any(|v| v == x.node()))
        })),
        "serialization"
    );
    match l.clone().at_most_one() {
        Ok(x) => {
            ensure!(n <= 1 && is(x.as_ref(), k.first()), "at_most_one succeeds");
        }
        Err(AtMostOneError(j)) => {
            ensure!(n > 1 && j == n, format!("at_most_one fails with {j}"));
        }
    }
    match l.clone().exactly_one() {
        Ok(x) => {
            ensure!(n == 1 && is(Some(&x), k.first()), "exactly_one succeeds");
        }
        Err(e) => {
            ensure!(n != 1 && exactly(&e, n), format!("exactly_one fails with {e:?}"));
        }
    }
    let refs: Vec<&LocatedNode> = m.iter().collect();
    let r = drive(tc, l.iter(), &refs, |a, b| p(a.node()) == p(b.node()) && a.location() == b.location());
    ensure!(r.is_ok(), format!("driving iter: {}", r.unwrap_err()));
    let r = drive(tc, l.clone().into_iter(), &refs, |a, b| p(a.node()) == p(b.node()) && a.location() == b.location());
    ensure!(r.is_ok(), format!("driving into_iter: {}", r.unwrap_err()));
    for _ in 0..2 {
        let r = drive(tc, l.locations(), &refs, |a, b| *a == b.location());
        ensure!(r.is_ok(), format!("driving locations: {}", r.unwrap_err()));
        let r = drive(tc, l.nodes(), &refs, |a, b| p(a) == p(b.node()));
        ensure!(r.is_ok(), format!("driving nodes: {}", r.unwrap_err()));
    }
    let mut other = m.to_vec();
    match tc.rng.below(3) {
        0 => {
            other.pop();
        }
        1 => other.reverse(),
        _ => {
            if n > 1 {
                let (i, j) = (tc.rng.below(n), tc.rng.below(n));
                other.swap(i, j);
            }
        }
    }
    let eq = other.len() == n && other.iter().zip(m).all(|(a, b)| a.location() == b.location());
    ensure!((LocatedNodeList::from(other) == *l) == eq, "equality with another list");
    ensure!((LocatedNodeList::default() == *l) == (n == 0), "equality with the empty list");
    true
}
fn views(tc: &mut Tc, text: &str, doc: &Value) {
    let Some(path) = must_parse(tc, text) else { return };
    let l = path.query(doc);
    let m: Vec<&Value> = path.query(doc).into_iter().collect();
    if !nodes(tc, text, doc, &l, &m) {
        return;
    }
    let ll = path.query_located(doc);
    let lm: Vec<LocatedNode> = path.query_located(doc).into_iter().collect();
    if !located(tc, text, doc, &ll, &lm) {
        return;
    }
    tc.max("length of a list", m.len() as u64);
    tc.count(match m.len() {
        0 => "empty lists",
        1 => "lists of one",
        _ => "longer lists",
    });
    if !m.is_empty() {
        tc.nontrivial(pair(text, hash_doc(doc)));
    }
    tc.sample(|| json!({"query": clip(text.into()), "document": show(doc).chars().take(300).collect::<String>(), "nodes": m.len()}));
}

pub fn check(c: &Conf) -> Check {
    let mut sections = vec![];
    sections.push(sec("lengths", 300 * c.n(8, 60), |tc, i| {
        let n = (i % 300) as usize;
        // values that repeat, so that equality and identity differ
        let doc = match tc.rng.below(3) {
            0 => Value::Array((0..n).map(|i| json!(i % 3)).collect()),
            1 => Value::Array((0..n).map(|_| gen::leaf(&mut tc.rng)).collect()),
            _ => Value::Object((0..n).map(|i| (format!("k{i}"), json!({"a": i % 2}))).collect()),
        };
        for t in ["$[*]", "$.*", "$[::-1]", "$[?@!=99]", "$[*,0]", "$..*"] {
            views(tc, t, &doc);
        }
    }));
    // lists that no query made: any order, any repetition
    sections.push(sec("made lists", c.n(100_000, 600_000), |tc, _| {
        let doc = gen::small(&mut tc.rng, 4);
        let mut all = vec![];
        all_nodes(&doc, "$".into(), &mut |_, v| all.push(v));
        let n = tc.rng.below(9);
        let v: Vec<&Value> = (0..n).map(|_| *tc.rng.pick(&all)).collect();
        nodes(tc, "(made)", &doc, &NodeList::from(v.clone()), &v);
        let Ok(pp) = JsonPath::parse("$..*") else {
            tc.fail("$..* does not parse", Value::Null);
            return;
        };
        let ls: Vec<LocatedNode> = pp.query_located(&doc).into_iter().collect();
        if !ls.is_empty() {
            let w: Vec<LocatedNode> = (0..n).map(|_| tc.rng.pick(&ls).clone()).collect();
            located(tc, "(made)", &doc, &LocatedNodeList::from(w.clone()), &w);
        }
        tc.nontrivial(hash_doc(&doc) ^ n as u64 ^ hash_bytes(b"made"));
    }));
    sections.push(sec("queries and documents", c.n(150_000, 1_200_000), |tc, _| {
        let doc = gen::doc(&mut tc.rng);
        let q = gen::gen_query(&mut tc.rng, &doc, if tc.idx % 2 == 0 { &gen::FULL } else { &gen::PLAIN });
        if !affordable(&q, &doc, 200_000) {
            return;
        }
        let t = render::varied(&mut tc.rng, &q);
        views(tc, &t, &doc);
    }));
    Check {
        rule: "a distinct (query, document) pair with a non-empty result whose views were compared with one another",
        assumptions: vec!["by-value iteration gives the sequence that the other views are held against; what the nodes should be is judged by other properties"],
        sections,
        need: vec!["empty lists", "lists of one", "longer lists"],
    }
}
