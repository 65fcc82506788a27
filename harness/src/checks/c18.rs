//! What parse errors say.
use super::c05::{gaps, mutate_text};
use super::common::*;
use crate::ast::*;
use crate::funcs::{self, Ty};
use crate::gen;
use crate::render;
use crate::rng::{hash_bytes, Rng};
use crate::rparse::{self, Sem, Verdict};
use crate::run::*;
use serde_json::{json, Value};
use serde_json_path::{JsonPath, ParseError};

/// maximal runs of letters, digits and underscores
fn words(m: &str) -> Vec<&str> {
    m.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|w| !w.is_empty()).collect()
}
/// the words before and from the one that announces what was received
fn halves(m: &str) -> Option<(String, String)> {
    let l = m.to_lowercase();
    let e = l.find("expected")?;
    let r = l.find("received")?;
    if e < r {
        Some((l[e..r].to_string(), l[r..].to_string()))
    } else {
        Some((l[e..].to_string(), l[r..e].to_string()))
    }
}
fn kind(t: Ty) -> &'static str {
    match t {
        Ty::V => "value",
        Ty::L => "logical",
        Ty::N => "nodes",
    }
}
/// None if the message tells of the defect, otherwise what it lacks
fn lacks(m: &str, s: &Sem) -> Option<String> {
    let w = words(m);
    let has = |x: &str| w.contains(&x);
    let l = m.to_lowercase();
    match s {
        Sem::Undefined(n) => {
            if !has(n) {
                return Some(format!("the name {n}"));
            }
            (!["defined", "unknown", "no function", "exist"].iter().any(|x| l.contains(x))).then(|| "that the function is not defined".into())
        }
        Sem::ArgCount { expected, received, .. } => {
            let (e, r) = (expected.to_string(), received.to_string());
            let ok = match halves(m) {
                Some((a, b)) => words(&a).contains(&e.as_str()) && words(&b).contains(&r.as_str()),
                None => has(&e) && has(&r),
            };
            (!ok).then(|| format!("that {e} were expected and {r} received"))
        }
        Sem::ArgKind { name, position, expected, received } => {
            if !has(name) {
                return Some(format!("the name {name}"));
            }
            if !has(&position.to_string()) {
                return Some(format!("the position {position}"));
            }
            let ok = match halves(m) {
                Some((a, b)) => a.contains(kind(*expected)) && b.contains(received),
                None => l.contains(kind(*expected)) && l.contains(received),
            };
            (!ok).then(|| format!("that {} was expected and {received} received", kind(*expected)))
        }
        Sem::ResultKind { .. } => (!["return", "result"].iter().any(|x| l.contains(x))).then(|| "that the result is of a wrong type".into()),
        Sem::IntRange => None,
    }
}
fn sort(s: &Sem) -> &'static str {
    match s {
        Sem::Undefined(_) => "undefined function",
        Sem::ArgCount { .. } => "number of arguments",
        Sem::ArgKind { .. } => "kind of argument",
        Sem::ResultKind { .. } => "kind of result",
        Sem::IntRange => "integer out of range",
    }
}
fn form(tc: &mut Tc, t: &str, e: &ParseError) -> bool {
    let d = e.to_string();
    if d != format!("at position {}, {}", e.position(), e.message()) {
        tc.fail(format!("the error for {} is displayed as {d:?}, position {}, message {:?}", clip(t.to_string()), e.position(), e.message()), json!({"text": t}));
        return false;
    }
    true
}
/// judges one text; false after a failure
fn one(tc: &mut Tc, t: &str, routes: bool) -> bool {
    let (pos, sem) = match rparse::parse(t) {
        Verdict::Reject { pos, sem } => (pos, sem),
        _ => return true,
    };
    let Err(e) = JsonPath::parse(t) else {
        // whether it should be accepted is the matter of another property
        tc.count("skipped: accepted");
        return true;
    };
    tc.ev();
    tc.nontrivial(hash_bytes(t.as_bytes()));
    tc.count("errors");
    let p = e.position();
    if p > t.len() || !t.is_char_boundary(p) || p > pos {
        tc.fail(
            format!("the position of the error for {} is {p}, expected a boundary not after {pos} ({})", clip(t.to_string()), clip(e.message().to_string())),
            json!({"text": t, "position": p, "limit": pos, "message": e.message()}),
        );
        return false;
    }
    if p == pos {
        tc.count("positions at the very place");
    }
    if !form(tc, t, &e) {
        return false;
    }
    if e.message().is_empty() {
        tc.fail(format!("the error for {} has no message", clip(t.to_string())), json!({"text": t}));
        return false;
    }
    if routes {
        tc.evn(4);
        let d = e.to_string();
        let j = serde_json::to_string(t).unwrap();
        let f = t.parse::<JsonPath>().map_err(|e| form(tc, t, &e).then(|| e.to_string()).unwrap_or_default());
        let s = |r: Result<JsonPath, serde_json::Error>| r.map(|_| ()).map_err(|e| e.to_string());
        let others = [
            ("str::parse", f.map(|_| ()), true),
            ("JsonPath::parse, again", JsonPath::parse(t).map(|_| ()).map_err(|e| e.to_string()), true),
            ("deserializing a value", s(serde_json::from_value(Value::String(t.to_string()))), false),
            ("deserializing a text", s(serde_json::from_str(&j)), false),
        ];
        for (how, r, exact) in others {
            let ok = match &r {
                Ok(_) => false,
                Err(x) if exact => *x == d,
                Err(x) => x.contains(&d),
            };
            if !ok {
                tc.fail(format!("{how} of {} gives {r:?}, but JsonPath::parse {d:?}", clip(t.to_string())), json!({"text": t, "how": how}));
                return false;
            }
        }
    }
    if sem.len() == 1 {
        if let Some(s) = rparse::only_defect(t) {
            tc.count(sort(&s));
            if let Some(w) = lacks(e.message(), &s) {
                tc.fail(
                    format!("the only defect of {} is {s:?}, but the message is {:?}: it lacks {w}", clip(t.to_string()), e.message()),
                    json!({"text": t, "defect": format!("{s:?}"), "message": e.message(), "lacks": w}),
                );
                return false;
            }
            tc.sample(|| json!({"text": clip(t.to_string()), "defect": sort(&s), "error": e.to_string()}));
        }
    }
    true
}

/// makes one function call wrong
struct Break {
    at: usize,
    n: usize,
    how: usize,
    seed: u64,
    done: bool,
}
pub const NAMES: &[&str] = &["foo", "nosuch", "lengt", "lengths", "coun", "valu", "value_", "matc", "match1", "searching", "t", "true1", "nul", "false_", "count_1", "a23456789012345678901234567890"];
fn wrong_arg(r: &mut Rng, p: Ty) -> Arg {
    let lit = || Arg::Lit(Lit::Num("1".into()));
    let many = || Arg::Query(Query::cur().with(false, vec![Sel::Wild]));
    let logic = || Arg::Logical(Expr::Cmp(Cmpb::Query(Query::cur().name("a")), Op::Eq, Cmpb::Lit(Lit::Null)));
    let f = |n: &str, a: Vec<Arg>| Arg::Func(func(n, a));
    let mut v: Vec<Arg> = match p {
        Ty::V => vec![many(), logic(), Arg::Query(Query::cur().with(true, vec![Sel::Name("a".into())]))],
        Ty::N => vec![lit(), logic(), f("length", vec![lit()]), Arg::Lit(Lit::Str("@".into())), f("count", vec![many()])],
        Ty::L => vec![lit(), Arg::Lit(Lit::Bool(true)), f("value", vec![many()]), f("length", vec![Arg::Query(Query::cur())])],
    };
    if cfg!(feature = "regex") && p != Ty::L {
        v.push(f("match", vec![lit(), lit()]));
        v.push(f("search", vec![Arg::Query(Query::cur()), lit()]));
    }
    if cfg!(feature = "functions") {
        match p {
            Ty::V => v.extend([f("yes", vec![]), f("none", vec![])]),
            Ty::N => v.extend([f("yes", vec![]), f("nil", vec![])]),
            Ty::L => v.extend([f("nil", vec![]), f("zero0", vec![])]),
        }
    }
    let k = r.below(v.len());
    v.swap_remove(k)
}
/// a call of a function with this result, well-typed
fn call(r: &mut Rng, ret: Ty) -> Option<Func> {
    let all: Vec<_> = funcs::available().into_iter().filter(|s| s.ret == ret).collect();
    if all.is_empty() {
        return None;
    }
    let s = *r.pick(&all);
    let args = s
        .params
        .iter()
        .map(|p| match p {
            Ty::V => Arg::Query(Query::cur().name("a")),
            Ty::N => Arg::Query(Query::cur().with(false, vec![Sel::Wild])),
            Ty::L => Arg::Logical(Expr::Cmp(Cmpb::Query(Query::cur().name("a")), Op::Lt, Cmpb::Lit(Lit::Num("2".into())))),
        })
        .collect();
    Some(func(s.name, args))
}
impl Edit for Break {
    fn func(&mut self, f: &mut Func) {
        let k = self.n;
        self.n += 1;
        if k != self.at || self.how >= 4 || self.done {
            return;
        }
        let mut r = Rng::new(self.seed);
        match self.how {
            0 => f.name = r.pick(NAMES).to_string(),
            1 => {
                if !f.args.is_empty() && r.chance(1, 2) {
                    let i = r.below(f.args.len());
                    f.args.remove(i);
                } else {
                    for _ in 0..1 + r.below(3) {
                        let i = r.below(f.args.len() + 1);
                        f.args.insert(i, Arg::Query(Query::cur().name("b")));
                    }
                }
            }
            _ => {
                let Some(s) = funcs::sig(&f.name) else { return };
                if s.params.is_empty() {
                    return;
                }
                let i = r.below(s.params.len());
                f.args[i] = wrong_arg(&mut r, s.params[i]);
            }
        }
        self.done = true;
    }
    fn expr(&mut self, e: &mut Expr) {
        let k = self.n;
        self.n += 1;
        if k != self.at || self.how < 4 || self.done {
            return;
        }
        let mut r = Rng::new(self.seed);
        let l = if r.chance(1, 2) { Ty::L } else { Ty::N };
        let Some(v) = call(&mut r, Ty::V) else { return };
        let w = call(&mut r, l);
        match e {
            Expr::Cmp(a, _, b) => {
                let Some(w) = w else { return };
                *if r.chance(1, 2) { a } else { b } = Cmpb::Func(w);
            }
            Expr::Not(x) if matches!(**x, Expr::Func(_) | Expr::Exist(_)) => **x = Expr::Func(v),
            Expr::Exist(_) | Expr::Func(_) => *e = Expr::Func(v),
            _ => return,
        }
        self.done = true;
    }
}
/// the parts of a query that the editor looks at
struct Count(usize);
impl Edit for Count {
    fn func(&mut self, _: &mut Func) {
        self.0 += 1;
    }
    fn expr(&mut self, _: &mut Expr) {
        self.0 += 1;
    }
}

/// surroundings of a test (`T`), or of a comparand (`C`)
const TESTS: &[&str] = &[
    "T", "!T", "(T)", "!(T)", "((T))", "@.a&&T", "T&&@.a", "@.a||T", "T||@.a", "@.a==1&&T", "T&&1==1", "!@.a||!T", "(@.a&&(T))", "@[?T]", "@[?@.b[?T]]", "!@[?T]", "@[?T]==1||@", "$..[?T]", "@.a == 1 || ( @.b && T )", "@[0,?T,1]", "@[?T,?@.a]", "T ", " T",
    "count(@[?T])==1", "1<count(@[?T])", "value(@..[?T])!=value(@[?@])", "@.a==count(@[?T])", "length(value(@[?T]))>0", "@.a&&count(@[?T])>=1&&@.b",
];
const CMPS: &[&str] = &[
    "C==1", "1==C", "@.a==C", "C==@.a", "@.a!=C", "@.a<C", "C<=@.a", "@.a>C", "'x'>=C", "null==C", "C==C2", "C2==C", "!(C==1)", "(@.a==C)", "@.a==C&&@.b", "@.b&&@.a==C", "@.b||C==@.a", "@.b||@.a==C", "@[?@.a==C]", "@[?C==@.a]", "@.a == C", "C\t==\n1", "count(@[?@.a==C])==1", "@.x==count(@[?@.a==C])", "(@.b||(@.a==C))", "$.x[-1]['y']==C",
    "length(C)==1", "1==length(C)", "@.a==length(C)", "length(length(C))<2", "@[?@.a==1,?@.b==C]", "value(@..[?C==1])==1",
];
const ARGS1: &[&str] = &["match(@.a,C)", "match(C,'a')", "!search(C,@.b)", "@.b&&search(@.a,C)", "(match(C,C2))"];
const ARGSF: &[&str] = &["idl(T)", "idl(!T)", "idl(@.a&&T)", "both(T,@.a)", "both(@.a,T||@.b)", "!idl((T))", "idl(@.a==C)", "idl(C==1)", "mix3(C,@.a,@.*)==1", "@.x==mix3(1,T,@.*)", "idv(C)==1", "isnothing(C)", "both(idl(T),@.a)", "idl(@.a==C&&@.b)"];

/// calls with one defect: text, and whether it stands for a test
fn defective() -> Vec<(String, bool)> {
    let mut v: Vec<(String, bool)> = vec![];
    fn both(v: &mut Vec<(String, bool)>, s: &str) {
        v.push((s.into(), true));
        v.push((s.into(), false));
    }
    for n in ["foo()", "foo(1)", "foo(@)", "lengths(@.a)", "nosuch(@.a,'x',@.*)", "a_1(@.a==1)", "t(@)", "nulls()", "foo(length(@.a))", "foo(!@.a)"] {
        both(&mut v, n);
    }
    for n in ["length()", "length(1,2)", "length(@.a,@.b,@.c)", "count()", "count(@.*,@.*)", "value()", "value(@,@)", "count(@,1)"] {
        both(&mut v, n);
    }
    for n in ["length(@.*)", "length(@..a)", "length(@.a==1)", "length(@['a','b'])", "count(1)", "count('x')", "count(true)", "count(@.a&&@.b)", "value(null)", "value(1==1)", "value(length(@.a))", "count(count(@.*))", "length(!@.a)", "length((@.a))", "count(!@.*)"] {
        both(&mut v, n);
    }
    if cfg!(feature = "regex") {
        for n in ["match(@.a)", "match()", "search(@.a,'b','c')", "match(@.*,'a')", "match('a',@.*)", "search(@.a,@.a==1)", "match(@.a,match(@.a,'b'))", "search(1==1,'a')"] {
            v.push((n.into(), true));
        }
        v.push(("match(@.a,'b')".into(), false));
        v.push(("search('a','a')".into(), false));
        both(&mut v, "length(match(@.a,'b'))");
        both(&mut v, "count(search(@.a,'b'))");
    }
    for n in ["length(@.a)", "count(@.*)", "value(@.a)", "length('x')"] {
        v.push((n.into(), true));
    }
    if cfg!(feature = "functions") {
        for n in ["yes(1)", "idl()", "both(@.a)", "both(@,@,@)", "idl(1)", "both(@.a,'x')", "both(length(@.a),@.b)", "idn(1)", "idn(yes())", "l2n(@.a,1)", "idn(@.a==1)"] {
            v.push((n.into(), true));
        }
        for n in ["yes()", "idn(@.*)", "none()", "idl(@.a)", "mix3(@.*,@,@)", "mix3(1,1,@)", "mix3(1,@,1)", "six(1,@,@,1,@)", "six(1,@,@,1,1,@)", "six(1,@,@,1,@,nil())", "six(1,@,@,1,@,length(1))", "idv(yes())", "idv(none())", "isnothing(1)"] {
            v.push((n.into(), false));
        }
        for n in ["zero0()", "nil()", "idv(@)", "six(1,@,@,1,@,@)"] {
            v.push((n.into(), true));
        }
    }
    v
}

pub fn check(c: &Conf) -> Check {
    let mut sections = vec![];
    let d = defective();
    let nd = d.len() as u64;
    sections.push(sec("defects in contexts", nd, move |tc, i| {
        let (t, test) = &d[i as usize];
        let mut ctx: Vec<&str> = if *test { TESTS.to_vec() } else { CMPS.to_vec() };
        if !*test && cfg!(feature = "regex") {
            ctx.extend(ARGS1);
        }
        if cfg!(feature = "functions") {
            ctx.extend(ARGSF.iter().filter(|a| a.contains(if *test { 'T' } else { 'C' })));
        }
        let k = if *test { "T" } else { "C" };
        for (n, f) in ctx.iter().enumerate() {
            let inner = f.replace("C2", "length(@.z)").replace(k, t);
            for (m, outer) in ["$[?", "$.a..b[?", "$[0,'x',?", "$[?@.é][?", "$ [ ? "].iter().enumerate() {
                let q = format!("{outer}{inner}]");
                if !one(tc, &q, (n + m) % 4 == 0) {
                    return;
                }
                if m == 0 {
                    // the same, not closed, and followed by other things: only where it is
                    for x in [&q[..q.len() - 1], &format!("{q}.b"), &format!("{q}!"), &format!("{q}[?@.c==é]")] {
                        if !one(tc, x, false) {
                            return;
                        }
                    }
                    // two contexts
                    let g = ctx[(n * 7 + i as usize) % ctx.len()];
                    let two = if *test { g.replace('T', &format!("({inner})")) } else { format!("@.a&&({inner})||@.b==1") };
                    if !one(tc, &format!("$[?{}]", two.replace("C2", "1")), false) {
                        return;
                    }
                }
            }
        }
    }));
    sections.push(sec("one defect in a query", c.n(60_000, 1_000_000), |tc, _| {
        let doc = gen::small(&mut tc.rng, 3);
        let mut q = gen::gen_query(&mut tc.rng, &doc, &gen::FULL);
        let mut n = Count(0);
        q.edit(&mut n);
        if n.0 == 0 {
            return;
        }
        for _ in 0..4 {
            let mut b = Break { at: tc.rng.below(n.0), n: 0, how: tc.rng.below(6), seed: tc.rng.next(), done: false };
            let mut x = q.clone();
            x.edit(&mut b);
            if !b.done {
                continue;
            }
            let t = if tc.rng.chance(1, 2) { render::plain(&x) } else { render::varied(&mut tc.rng, &x) };
            if !one(tc, &t, tc.idx % 8 == 0) {
                return;
            }
        }
    }));
    let seeds = gaps();
    sections.push(sec("cut short", seeds.len() as u64, move |tc, i| {
        let t = &seeds[i as usize];
        for (k, _) in t.char_indices() {
            for x in ["", " ", "é", "\u{1F600}", "]", ")", "\0", "'", "&", "=="] {
                if !one(tc, &format!("{}{x}", &t[..k]), true) || !one(tc, &format!("{}{x}{}", &t[..k], &t[k..]), false) {
                    return;
                }
            }
        }
    }));
    let seeds = gaps();
    sections.push(sec("mutated texts", c.n(150_000, 3_000_000), move |tc, i| {
        let s = if i % 3 == 0 {
            let doc = gen::small(&mut tc.rng, 2);
            let q = gen::gen_query(&mut tc.rng, &doc, &gen::FULL);
            render::varied(&mut tc.rng, &q)
        } else {
            tc.rng.pick(&seeds).clone()
        };
        for _ in 0..3 {
            let mut t = mutate_text(&mut tc.rng, &s, &seeds);
            if tc.rng.chance(1, 4) {
                // wide characters before or at the place of the error
                let k = tc.rng.below(t.chars().count() + 1);
                let at = t.char_indices().nth(k).map_or(t.len(), |x| x.0);
                t.insert(at, *tc.rng.pick(&['é', '\u{1F600}', '\u{7ff}', '\u{ffff}', '\u{10ffff}', '\u{80}']));
            }
            if !one(tc, &t, i % 8 == 0) {
                return;
            }
        }
    }));
    sections.push(sec("random texts", c.n(20_000, 300_000), |tc, i| {
        let n = tc.rng.below(12);
        let mut t = if i % 2 == 0 { "$".to_string() } else { String::new() };
        for _ in 0..n {
            if tc.rng.chance(1, 2) {
                t.push(gen::any_char(&mut tc.rng));
            } else {
                t.push(*tc.rng.pick(&['[', ']', '.', '\'', '"', '\\', 'u', 'd', '8', '0', '?', '@', '$', '(', ')', ',', ':', '-', 'a', ' ', '=', '<', '&', '|', '!']));
            }
        }
        one(tc, &t, true);
    }));
    Check {
        rule: "a distinct rejected text",
        assumptions: vec![
            "how a message is worded is left open but for the names, numbers and kinds it must hold",
            "argument positions are counted from zero",
            "the reference parser knows how far a text can be continued to a well-formed query",
        ],
        sections,
        need: vec!["errors", "undefined function", "number of arguments", "kind of argument", "kind of result", "positions at the very place"],
    }
}
