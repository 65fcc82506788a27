//! Text forms.
use super::{c05, common::*};
use crate::ast::*;
use crate::gen;
use crate::render;
use crate::reval::{self, Stop};
use crate::rng::hash_bytes;
use crate::rparse::{self, Verdict};
use crate::run::*;
use serde::de::value::{BorrowedStrDeserializer, CowStrDeserializer, Error as DeError, StrDeserializer, StringDeserializer};
use serde::de::IntoDeserializer;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use serde_json_path::JsonPath;
use std::fmt::Write;

// ---- edits ---------------------------------------------------------------------------------
fn special(s: &str) -> bool {
    s.chars().any(|c| c == '\'' || c == '\\' || (c as u32) < 0x20)
}
#[derive(Default)]
struct Find {
    special: bool,
    notfunc: bool,
}
impl Edit for Find {
    fn string(&mut self, s: &mut String) {
        self.special |= special(s);
    }
    fn expr(&mut self, e: &mut Expr) {
        self.notfunc |= matches!(e, Expr::Not(x) if matches!(**x, Expr::Func(_)));
    }
}
/// placeholders for the strings that would need escapes
#[derive(Default)]
struct Hide(Vec<String>);
impl Edit for Hide {
    fn string(&mut self, s: &mut String) {
        if special(s) {
            let k = self.0.iter().position(|x| x == s).unwrap_or_else(|| {
                self.0.push(s.clone());
                self.0.len() - 1
            });
            // begins with a digit: never a shorthand name
            *s = format!("0zq{k}qz");
        }
    }
}
struct DropNot;
impl Edit for DropNot {
    fn expr(&mut self, e: &mut Expr) {
        if let Expr::Not(x) = e {
            if let Expr::Func(f) = &mut **x {
                *e = Expr::Func(f.clone());
            }
        }
    }
}
/// numbers that serde_json itself does not read back from the text it writes (it rounds quickly, not
/// correctly, unless built otherwise)
#[derive(Default)]
struct Unstable(bool);
impl Edit for Unstable {
    fn num(&mut self, s: &mut String) {
        match reval::lit_value(&Lit::Num(s.clone())) {
            Ok(v) => self.0 |= serde_json::from_str::<Value>(&v.to_string()).ok() != Some(v),
            Err(_) => self.0 = true,
        }
    }
}
struct Nums;
impl Edit for Nums {
    fn num(&mut self, s: &mut String) {
        if let Ok(v) = reval::lit_value(&Lit::Num(s.clone())) {
            *s = v.to_string();
        }
    }
}
fn edited(q: &Query, e: &mut dyn Edit) -> Query {
    let mut q = q.clone();
    q.edit(e);
    q
}
fn norm(q: &Query) -> String {
    format!("{:?}", edited(q, &mut Nums))
}

// ---- the round trip ---------------------------------------------------------------------------
/// Err: what is wrong with the displayed text `d` of `p`, the query `q`
fn strict(q: &Query, p: &JsonPath, d: &str) -> Result<(), String> {
    let p2 = match JsonPath::parse(d) {
        Ok(p) => p,
        Err(e) => return Err(format!("the displayed text is not a valid query ({e})")),
    };
    let d2 = p2.to_string();
    if d2 != d {
        return Err(format!("the displayed text, parsed and displayed, is {}", clip(d2)));
    }
    if p2 != *p {
        return Err("the displayed text parses to another query".into());
    }
    match rparse::parse(d) {
        Verdict::Accept(a) if norm(&a) == norm(q) => Ok(()),
        Verdict::Unspec(_) => Ok(()),
        Verdict::Accept(_) => Err("the displayed text means another query".into()),
        Verdict::Reject { pos, .. } => Err(format!("the displayed text is not a valid query at {pos}")),
    }
}
fn dots(d: &str) -> Option<String> {
    // outside of quotes; without special strings there are no escapes
    let mut o = String::new();
    let mut quoted = false;
    let mut rest = d;
    let mut any = false;
    while let Some(c) = rest.chars().next() {
        if c == '\'' {
            quoted = !quoted;
        }
        if !quoted && rest.starts_with("...") {
            o.push_str("..");
            rest = &rest[3..];
            any = true;
            continue;
        }
        o.push(c);
        rest = &rest[c.len_utf8()..];
    }
    any.then_some(o)
}
fn round_trip(tc: &mut Tc, q: &Query, r: &dyn Fn(&Query) -> String) -> Option<(JsonPath, String, bool)> {
    let text = r(q);
    let mut u = Unstable::default();
    edited(q, &mut u);
    if u.0 {
        tc.count("skipped: a number that serde_json does not round-trip");
        return None;
    }
    let p = must_parse(tc, &text)?;
    let d = p.to_string();
    tc.evn(3);
    let Err(why) = strict(q, &p, &d) else {
        tc.count("round trips");
        return Some((p, d, true));
    };
    let bad = |tc: &mut Tc, why: String| {
        tc.fail(
            format!("{why}: {} is displayed as {}", clip(text.clone()), clip(d.clone())),
            json!({"query": text, "displayed": d, "problem": why}),
        );
        None
    };
    // only what the recorded defects make of it is let through
    let mut f = Find::default();
    edited(q, &mut f);
    let (mut q2, mut p2, mut d2) = (q.clone(), p.clone(), d.clone());
    let mut met: Vec<&str> = vec![];
    let mut hide = Hide::default();
    if f.special && tc.conf.knows("display-quotes") {
        q2 = edited(&q2, &mut hide);
        met.push("display-quotes");
    }
    if f.notfunc && tc.conf.knows("display-not") {
        q2 = edited(&q2, &mut DropNot);
        met.push("display-not");
    }
    if !met.is_empty() {
        let t2 = r(&q2);
        p2 = must_parse(tc, &t2)?;
        d2 = p2.to_string();
        let mut back = d2.clone();
        for (k, s) in hide.0.iter().enumerate() {
            back = back.replace(&format!("0zq{k}qz"), s);
        }
        if back != d {
            return bad(tc, why);
        }
    }
    if strict(&q2, &p2, &d2).is_err() {
        let Some(fixed) = dots(&d2).filter(|_| tc.conf.knows("display-dots")) else { return bad(tc, why) };
        met.push("display-dots");
        let ok = match (JsonPath::parse(&fixed), rparse::parse(&fixed)) {
            (Ok(x), Verdict::Accept(a)) => x == p2 && x.to_string() == d2 && norm(&a) == norm(&q2),
            _ => false,
        };
        if !ok {
            return bad(tc, why);
        }
    }
    for k in met {
        tc.known(k, || json!({"query": clip(text.clone()), "displayed": clip(d.clone()), "problem": why}));
    }
    tc.count("round trips but for recorded findings");
    Some((p, d, false))
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Holder {
    path: JsonPath,
    more: Option<JsonPath>,
    list: Vec<JsonPath>,
}
struct AsDisplay<'a>(&'a JsonPath);
impl std::fmt::Display for AsDisplay<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        // a formatter is a serializer too
        self.0.serialize(f)
    }
}
/// serializing gives the displayed text; deserializing is parsing
fn serde_forms(tc: &mut Tc, text: &str, p: &JsonPath, d: &str, clean: bool) -> bool {
    let mut bad = vec![];
    let want = json!(d);
    tc.evn(20);
    if serde_json::to_value(p).ok().as_ref() != Some(&want) {
        bad.push("to_value");
    }
    let js = want.to_string();
    if serde_json::to_string(p).ok().as_ref() != Some(&js) {
        bad.push("to_string");
    }
    if serde_json::to_vec(p).ok().as_deref() != Some(js.as_bytes()) {
        bad.push("to_vec");
    }
    if AsDisplay(p).to_string() != d {
        bad.push("serializing to a formatter");
    }
    let mut w = String::new();
    if write!(w, "{p}").is_err() || w != d {
        bad.push("write!");
    }
    let t = json!(text).to_string();
    // every character escaped, and bytes one at a time
    let esc: String = format!("\"{}\"", text.encode_utf16().map(|u| format!("\\u{u:04x}")).collect::<String>());
    struct Slow<'a>(&'a [u8]);
    impl std::io::Read for Slow<'_> {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            if self.0.is_empty() || b.is_empty() {
                return Ok(0);
            }
            b[0] = self.0[0];
            self.0 = &self.0[1..];
            Ok(1)
        }
    }
    let forms: Vec<(&str, Option<JsonPath>)> = vec![
        ("from_str", serde_json::from_str(&t).ok()),
        ("from_str of an escaped string", serde_json::from_str(&esc).ok()),
        ("from_slice", serde_json::from_slice(t.as_bytes()).ok()),
        ("from_reader", serde_json::from_reader(Slow(t.as_bytes())).ok()),
        ("from_value", serde_json::from_value(json!(text)).ok()),
        ("a borrowed value", JsonPath::deserialize(&json!(text)).ok()),
        ("StrDeserializer", JsonPath::deserialize(IntoDeserializer::<DeError>::into_deserializer(text) as StrDeserializer<DeError>).ok()),
        ("StringDeserializer", JsonPath::deserialize(IntoDeserializer::<DeError>::into_deserializer(text.to_string()) as StringDeserializer<DeError>).ok()),
        ("BorrowedStrDeserializer", JsonPath::deserialize(BorrowedStrDeserializer::<DeError>::new(text)).ok()),
        ("CowStrDeserializer", JsonPath::deserialize(CowStrDeserializer::<DeError>::new(text.into())).ok()),
        ("FromStr", text.parse().ok()),
        ("parse", JsonPath::parse(text).ok()),
        ("a field", serde_json::from_value::<Holder>(json!({"path": text, "more": null, "list": []})).ok().map(|h| h.path)),
        ("an optional field", serde_json::from_value::<Holder>(json!({"path": "$", "more": text, "list": [text, text]})).ok().and_then(|h| (h.list[0] == h.list[1]).then_some(h.more).flatten())),
    ];
    for (n, f) in &forms {
        if f.as_ref() != Some(p) {
            bad.push(n);
        }
    }
    if clean {
        let h = Holder { path: p.clone(), more: Some(p.clone()), list: vec![JsonPath::default(), p.clone()] };
        if serde_json::to_value(&h).ok().and_then(|v| serde_json::from_value::<Holder>(v).ok()).as_ref() != Some(&h) {
            bad.push("a structure there and back");
        }
        if serde_json::to_value(p).ok().and_then(|v| serde_json::from_value::<JsonPath>(v).ok()).as_ref() != Some(p) {
            bad.push("there and back");
        }
    }
    let c = p.clone();
    if c != *p || c.to_string() != d || *p != c {
        bad.push("clone");
    }
    if (*p == JsonPath::default()) != (d == "$") {
        bad.push("equality with the default");
    }
    if !bad.is_empty() {
        tc.fail(format!("{} differ: {}", bad.join(", "), clip(text.to_string())), json!({"query": text, "displayed": d, "differ": bad}));
        return false;
    }
    true
}
fn same_meaning(tc: &mut Tc, what: &str, a: &JsonPath, b: &JsonPath, doc: &Value) -> bool {
    let f = |p: &JsonPath| p.query(doc).all().into_iter().map(addr).collect::<Vec<_>>();
    tc.evn(2);
    if f(a) != f(b) {
        tc.fail(format!("{what} select different nodes: {a} and {b}"), json!({"a": a.to_string(), "b": b.to_string(), "document": show(doc)}));
        return false;
    }
    true
}
fn one(tc: &mut Tc, q: &Query, doc: Option<&Value>) {
    let seed = tc.rng.next();
    let mut f = Find::default();
    edited(q, &mut f);
    let mut styles: Vec<Box<dyn Fn(&Query) -> String>> = vec![Box::new(render::plain), Box::new(render::short)];
    // other styles depend on the text's length, so that replacing strings would change them
    if !f.special && !f.notfunc {
        styles.push(Box::new(move |q: &Query| render::varied(&mut crate::rng::Rng::new(seed), q)));
    }
    for r in &styles {
        let Some((p, d, clean)) = round_trip(tc, q, r) else { return };
        let t = r(q);
        if !serde_forms(tc, &t, &p, &d, clean) {
            return;
        }
        tc.nontrivial(hash_bytes(d.as_bytes()));
        if let (Some(doc), true) = (doc, clean) {
            let Ok(p2) = JsonPath::parse(&d) else { return };
            if !same_meaning(tc, "a query and its text form", &p, &p2, doc) {
                return;
            }
        }
        tc.sample(|| json!({"query": clip(t.clone()), "displayed": clip(d.clone())}));
    }
}

/// a query that differs in one place
struct Poke {
    at: usize,
    how: u64,
}
impl Edit for Poke {
    fn string(&mut self, s: &mut String) {
        if self.at == 0 {
            match self.how % 3 {
                0 => s.push('x'),
                1 => {
                    s.pop();
                }
                _ => *s = s.to_uppercase(),
            }
        }
        self.at = self.at.wrapping_sub(1);
    }
    fn num(&mut self, s: &mut String) {
        if self.at == 0 {
            *s = match self.how % 3 {
                0 => "1".into(),
                1 => format!("-{}", s.trim_start_matches('-')),
                _ => "1.0".into(),
            };
        }
        self.at = self.at.wrapping_sub(1);
    }
    fn expr(&mut self, e: &mut Expr) {
        if self.at == 0 {
            match e {
                Expr::Cmp(a, op, b) => match self.how % 3 {
                    0 => *op = OPS[(*op as usize + 1) % 6],
                    1 => std::mem::swap(a, b),
                    _ => *op = OPS[(*op as usize + 3) % 6],
                },
                Expr::Not(x) => *e = (**x).clone(),
                Expr::Exist(q) => q.abs = !q.abs,
                Expr::Or(v) => {
                    if v.iter().all(|x| !matches!(x, Expr::And(_))) {
                        *e = Expr::Paren(Box::new(Expr::And(v.clone())))
                    }
                }
                Expr::And(v) => {
                    v.pop();
                    if v.len() == 1 {
                        *e = v.pop().unwrap();
                    }
                }
                _ => {}
            }
        }
        self.at = self.at.wrapping_sub(1);
    }
}
fn poke(tc: &mut Tc, q: &Query) -> Query {
    let r = &mut tc.rng;
    if r.chance(1, 2) || q.segs.is_empty() {
        return edited(q, &mut Poke { at: r.below(6), how: r.next() });
    }
    let mut q = q.clone();
    let i = r.below(q.segs.len());
    let s = &mut q.segs[i];
    match r.below(6) {
        0 => s.desc = !s.desc,
        1 => s.sels.reverse(),
        2 => {
            let x = s.sels[0].clone();
            s.sels.push(x);
        }
        3 => {
            q.segs.remove(i);
        }
        _ => match &mut s.sels[0] {
            Sel::Index(x) => *x = if *x > 0 { *x - 1 } else { *x + 1 },
            Sel::Slice(a, b, c) => match r.below(4) {
                0 => *a = if a.is_some() { None } else { Some(0) },
                1 => *b = if b.is_some() { None } else { Some(1) },
                2 => *c = if c.is_some() { None } else { Some(1) },
                _ => *c = Some(-1),
            },
            Sel::Name(n) => n.push('a'),
            Sel::Wild => s.sels[0] = Sel::Slice(None, None, None),
            Sel::Filter(_) => s.sels[0] = Sel::Wild,
        },
    }
    q
}

const PROBES: [(&str, &str); 3] = [("display-dots", "$..a"), ("display-not", if cfg!(feature = "regex") { "$[?!match(@,'a')]" } else { "$[?!@]" }), ("display-quotes", "$[\"it's\"]")];

pub fn check(c: &Conf) -> Check {
    let mut sections = vec![];
    sections.push(sec("recorded findings", PROBES.len() as u64, |tc, i| {
        let t = PROBES[i as usize].1;
        let Verdict::Accept(q) = rparse::parse(t) else { harness_bug(t) };
        one(tc, &q, None);
    }));
    sections.push(sec("queries and documents", c.n(100_000, 1_500_000), |tc, i| {
        let doc = gen::small(&mut tc.rng, 3);
        let q = gen::gen_query(&mut tc.rng, &doc, if i % 4 == 0 { &gen::PLAIN } else { &gen::FULL });
        if !affordable(&q, &doc, 200_000) {
            return;
        }
        one(tc, &q, Some(&doc));
        // without what the recorded findings are about
        let q = edited(&edited(&q, &mut Hide::default()), &mut DropNot);
        one(tc, &q, Some(&doc));
    }));
    let seeds: Vec<Query> = c05::gaps().iter().filter_map(|t| if let Verdict::Accept(q) = rparse::parse(t) { Some(q) } else { None }).collect();
    let n = seeds.len() as u64;
    sections.push(sec("constructs", n * n, move |tc, i| {
        // each within each
        let (a, b) = (&seeds[(i % n) as usize], &seeds[(i / n) as usize]);
        let mut q = a.clone();
        q.segs.extend(b.segs.clone());
        one(tc, &q, None);
        let mut inner = b.clone();
        inner.abs = i % 2 == 0;
        let e = Expr::Exist(inner.clone());
        for e in [e.clone(), Expr::Not(Box::new(e.clone())), Expr::Paren(Box::new(e.clone())), Expr::Or(vec![e.clone(), Expr::And(vec![e.clone(), e.clone()])]), Expr::Not(Box::new(Expr::Paren(Box::new(Expr::Or(vec![e.clone(), e.clone()]))))), Expr::Cmp(Cmpb::Func(func("count", vec![Arg::Query(inner.clone())])), Op::Ge, Cmpb::Lit(Lit::Num("2".into())))] {
            one(tc, &filter(e), None);
        }
    }));
    // each character in a name and in a string literal
    sections.push(sec("code points", 0x110000 / 64, |tc, i| {
        for u in i * 64..i * 64 + 64 {
            let Some(ch) = char::from_u32(u as u32) else { continue };
            let s = [format!("{ch}"), format!("a{ch}"), format!("{ch}b{ch}")][u as usize % 3].clone();
            let q = Query::root().name(&s);
            let f = filter(Expr::Cmp(Cmpb::Query(Query::cur().name(&s)), Op::Eq, Cmpb::Lit(Lit::Str(s.clone()))));
            for q in [q, f] {
                if round_trip(tc, &q, &render::plain).is_none() || round_trip(tc, &q, &render::short).is_none() {
                    return;
                }
            }
            tc.nontrivial(u);
        }
    }));
    sections.push(sec("integers and numbers", c.n(60_000, 800_000), |tc, _| {
        let r = &mut tc.rng;
        let mut int = |o: usize| -> Option<i64> {
            if r.below(o) == 0 {
                return None;
            }
            Some(match r.below(4) {
                0 => r.range(-12, 12),
                1 => *r.pick(&[0, 9007199254740991, -9007199254740991, 9007199254740990, 1 << 32, -(1 << 31), 10, 100]),
                2 => r.range(-100_000, 100_000),
                _ => (r.next() as i64) >> (11 + r.below(40)),
            })
        };
        let (a, b, c2) = (int(3), int(3), int(3));
        let x = int(1_000_000).unwrap_or(0).clamp(-9007199254740991, 9007199254740991);
        let cl = |v: Option<i64>| v.map(|v| v.clamp(-9007199254740991, 9007199254740991));
        let q = Query::root().with(false, vec![Sel::Slice(cl(a), cl(b), cl(c2)), Sel::Index(x)]);
        one(tc, &q, None);
        let t = super::c03::number(tc);
        let n = filter(Expr::Cmp(Cmpb::Lit(Lit::Num(t.clone())), Op::Lt, Cmpb::Query(Query::cur().index(x))));
        if matches!(reval::lit_value(&Lit::Num(t.clone())), Ok(_)) {
            one(tc, &n, Some(&json!([[1, 2], [0.5]])));
        }
    }));
    sections.push(sec("near misses", c.n(150_000, 2_000_000), |tc, i| {
        let doc = gen::small(&mut tc.rng, 4);
        let q = gen::gen_query(&mut tc.rng, &doc, if i % 3 == 0 { &gen::PLAIN } else { &gen::FULL });
        let o = poke(tc, &q);
        let small = |q: &Query| affordable(q, &doc, 100_000);
        if !small(&q) || !small(&o) {
            return;
        }
        let (a, b) = (render::plain(&q), render::plain(&o));
        let (Some(pa), Some(pb)) = (must_parse(tc, &a), JsonPath::parse(&b).ok()) else { return };
        tc.ev();
        let again = JsonPath::parse(&a).unwrap();
        if again != pa || pa != again || again.to_string() != pa.to_string() {
            tc.fail(format!("parsing the same text twice gives different queries: {a}"), json!({"query": a}));
            return;
        }
        if (pa == pb) != (pb == pa) {
            tc.fail(format!("equality is not symmetric: {a} and {b}"), json!({"a": a, "b": b}));
            return;
        }
        if pa == pb {
            tc.count("equal queries");
            if !same_meaning(tc, "equal queries", &pa, &pb, &doc) {
                return;
            }
            let (x, y) = (norm(&q), norm(&o));
            if x != y {
                tc.count("equal queries with different texts");
                // by the reference, on this document and others
                for _ in 0..4 {
                    let d = gen::mutate(&mut tc.rng, &doc);
                    let f = |q: &Query| reval::eval(q, &d).map(|n| n.iter().map(|n| addr(n.v)).collect::<Vec<_>>());
                    if let (Ok(m), Ok(n)) = (f(&q), f(&o)) {
                        if m != n {
                            tc.fail(format!("equal queries mean different things: {a} and {b}"), json!({"a": a, "b": b, "document": show(&d)}));
                            return;
                        }
                    }
                }
            }
        } else {
            tc.count("different queries");
            if norm(&q) == norm(&o) && a == b {
                tc.fail(format!("the same text gives different queries: {a}"), json!({"query": a}));
                return;
            }
        }
        tc.nontrivial(hash_bytes(a.as_bytes()) ^ hash_bytes(b.as_bytes()).rotate_left(1));
    }));
    let seeds = c05::gaps();
    sections.push(sec("what is not a query", c.n(100_000, 1_500_000), move |tc, _| {
        let t0 = tc.rng.pick(&seeds).clone();
        let t = c05::mutate_text(&mut tc.rng, &t0, &seeds);
        let ok = JsonPath::parse(&t).is_ok();
        let j = json!(t);
        let js = j.to_string();
        tc.evn(8);
        let forms = [
            ("from_value", serde_json::from_value::<JsonPath>(j.clone()).is_ok()),
            ("from_str", serde_json::from_str::<JsonPath>(&js).is_ok()),
            ("from_reader", serde_json::from_reader::<_, JsonPath>(js.as_bytes()).is_ok()),
            ("a borrowed value", JsonPath::deserialize(&j).is_ok()),
            ("StrDeserializer", JsonPath::deserialize(StrDeserializer::<DeError>::new(&t)).is_ok()),
            ("BorrowedStrDeserializer", JsonPath::deserialize(BorrowedStrDeserializer::<DeError>::new(&t)).is_ok()),
            ("a field", serde_json::from_value::<Holder>(json!({"path": t, "more": null, "list": []})).is_ok()),
        ];
        for (n, x) in forms {
            if x != ok {
                tc.fail(format!("{n} {} where parsing {}: {t}", if x { "succeeds" } else { "fails" }, if ok { "succeeds" } else { "fails" }), json!({"query": t, "form": n}));
                return;
            }
        }
        // the error says why
        if !ok {
            let m = serde_json::from_value::<JsonPath>(j).unwrap_err().to_string();
            let e = JsonPath::parse(&t).unwrap_err().to_string();
            if !m.contains(&e) {
                tc.fail(format!("the error of deserializing, {m}, is not that of parsing, {e}"), json!({"query": t}));
                return;
            }
        }
        tc.nontrivial(hash_bytes(t.as_bytes()));
    }));
    sections.push(sec("what is not a string", 64, |tc, i| {
        let d = gen::small(&mut tc.rng, (i % 4) as usize);
        let d = if d.is_string() { json!([d]) } else { d };
        tc.evn(10);
        let mut ok = serde_json::from_value::<JsonPath>(d.clone()).is_ok() || serde_json::from_str::<JsonPath>(&d.to_string()).is_ok() || JsonPath::deserialize(&d).is_ok();
        ok |= JsonPath::deserialize(IntoDeserializer::<DeError>::into_deserializer(true)).is_ok();
        ok |= JsonPath::deserialize(IntoDeserializer::<DeError>::into_deserializer(36u8)).is_ok();
        ok |= JsonPath::deserialize(IntoDeserializer::<DeError>::into_deserializer(-1i64)).is_ok();
        ok |= JsonPath::deserialize(IntoDeserializer::<DeError>::into_deserializer(1.5f64)).is_ok();
        ok |= JsonPath::deserialize(IntoDeserializer::<DeError>::into_deserializer(())).is_ok();
        ok |= JsonPath::deserialize(serde::de::value::SeqDeserializer::<_, DeError>::new(["$"].into_iter())).is_ok();
        ok |= JsonPath::deserialize(serde::de::value::MapDeserializer::<_, DeError>::new([("$", "$")].into_iter())).is_ok();
        if ok {
            tc.fail(format!("what is not a string was deserialized: {d}"), Value::Null);
        }
        if JsonPath::default() != JsonPath::parse("$").unwrap() || JsonPath::default().to_string() != "$" {
            tc.fail("the default query is not $", Value::Null);
        }
        tc.nontrivial(hash_doc(&d));
    }));
    Check {
        rule: "a distinct displayed text (or damaged text) that went through every form",
        assumptions: vec![
            "an equal query is one that the library's == says is equal; its meaning is judged by the reference parser and by evaluation",
            "queries that meet the recorded findings are held to the text that those produce",
        ],
        sections,
        need: vec!["round trips", "equal queries", "different queries"],
    }
}
