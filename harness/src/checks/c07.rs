//! Totality.
use super::common::*;
use super::{c05, ops};
use crate::gen;
use crate::render;
use crate::rng::{hash_bytes, Rng};
use crate::run::*;
use serde_json::{json, Value};
use serde_json_path::JsonPath;

/// what a spawned thread has by default: for up to 128 levels
const STACK: usize = 2 << 20;
/// what a main thread has by default: for up to 256 levels
const MAIN: usize = 8 << 20;
fn levels(open: &str) -> usize {
    open.matches(['(', '[']).count().max(1)
}

/// what must still work after whatever came before
fn sentinel(tc: &mut Tc) {
    let d = json!({"a": [{"b": 1}, {"b": 2}, {"c": "x"}]});
    let ok = JsonPath::parse("$.a[?@.b > 1 || match(@.c, 'x')]").map(|p| p.query(&d).all() == vec![&d["a"][1], &d["a"][2]]);
    let bad = JsonPath::parse("$.a[?@.b >]").is_err();
    let good = if cfg!(feature = "regex") { matches!(ok, Ok(true)) } else { ok.is_err() };
    if !good || !bad {
        tc.fail("an operation is affected by the ones before it", json!({"ok": format!("{ok:?}"), "bad": bad}));
    }
    tc.evn(2);
}

fn exercise(tc: &mut Tc, text: &str, docs: &[&Value], all: bool) {
    let p = ops::parse_ops(tc, text, all);
    tc.nontrivial(hash_bytes(text.as_bytes()));
    match p {
        Some(p) => {
            tc.count("texts that parse");
            for d in docs {
                let n = ops::eval_ops(tc, &p, d);
                tc.max("nodes in a result", n as u64);
            }
        }
        None => tc.count("texts that do not parse"),
    }
    tc.sample(|| json!({"text": clip(text.to_string())}));
}

/// what goes around, repeatedly: opening, core, closing
pub const NESTS: &[(&str, &str, &str, &str, &str)] = &[
    // before, opening, core, closing, after
    ("$[?", "(", "@.a", ")", "]"),
    ("$[?", "!(", "@.a", ")", "]"),
    ("$[?", "(", "1==1", ")", "]"),
    ("$[?", "( ", "@.a || 1 < 2", " )", "]"),
    ("$[?", "(1==2||", "@", ")", "]"),
    ("$[?", "(@.a&&", "@", ")", "]"),
    ("$[?", "@[?", "@", "]", "]"),
    ("$[?", "@.a[?", "@.b==1", "]", "]"),
    ("$[?", "$[?", "@", "]", "]"),
    ("$[?", "@..[?", "@", "]", "]"),
    ("$[?", "!@[?", "@", "]", "]"),
    ("$[?", "@[0,?", "@", ",1]", "]"),
    ("$[?", "length(", "@", ")", "==1]"),
    ("$[?", "length(", "'a'", ")", "==1]"),
    ("$[?", "value(@[?", "@", "])==1", "]"),
    ("$[?", "count(@[?", "@", "])>0", "]"),
    ("$[?", "match(@,", "@", ")", "]"),
    ("$[?", "idl(", "@.a==1", ")", "]"),
    ("$[?", "idn(", "@.*", ")", "]"),
    ("$[?", "idv(", "1", ")", "==1]"),
    ("$[?", "both(@,", "@", ")", "]"),
    ("$[?", "both((", "@", "),@)", "]"),
    ("$[?", "idl((", "@", "))", "]"),
    ("$[?", "idl(!(", "@||@", "))", "]"),
    ("$[?", "unknown(", "@", ")", "]"),
    ("$[?", "idv(idl(", "@", "))", "==1]"),
    ("$", "[", "0", "]", ""),
    ("$", ".a", ".b", "", ""),
    ("$", "..*", "", "", ""),
    ("$[?@", "[0]", "", "", "==1]"),
    ("$[?@", ".a", "", "", "]"),
    ("$[?", "!", "@", "", "]"),
    ("$[?", "@.a||", "@", "", "]"),
    ("$[?", "@.a&&", "@", "", "]"),
    ("$[?", "1==", "1", "", "]"),
    ("$[", "0,", "0", "", "]"),
    ("$['", "\\\\", "", "", "']"),
    ("$['", "\\ud83d\\ude00", "", "", "']"),
    ("$[?@=='", "x", "", "", "']"),
    ("$[?@==", "9", "", "", "]"),
    ("$[?@==1e", "9", "", "", "]"),
    ("$[?@==0.", "9", "", "", "]"),
    ("$[", "9", "", "", "]"),
    ("$", " ", ".a", "", ""),
    ("$[?match(@,'", "(", "a", ")", "')]"),
    ("$[?match(@,'", "[", "a", "]", "')]"),
    ("$[?search(@,'", "a{2}", "", "", "')]"),
    ("$[?search(@,'", "(a*)*", "b", "", "')]"),
    ("$[?search(@,'", "(a|", "b", ")", "')]"),
];

pub fn nest(k: usize, n: usize) -> String {
    let (a, o, c, z, b) = NESTS[k];
    format!("{a}{}{c}{}{b}", o.repeat(n), z.repeat(n))
}
fn nested_doc(kind: u64, n: usize) -> Value {
    let mut v = json!("a");
    for i in 0..n {
        v = match kind {
            0 => json!([v]),
            1 => json!({"a": v}),
            2 if i % 2 == 0 => json!([v, 1]),
            2 => json!({"a": v, "b": 2}),
            _ => json!({"a": v, "b": [1, "x"], "~/'\\\u{1}": null}),
        };
    }
    v
}
/// dropping a value recursively would be the harness' own use of stack: serde_json's drop is recursive,
/// but needs little
fn random_text(r: &mut Rng) -> String {
    let n = r.below(40);
    match r.below(4) {
        0 => (0..n).map(|_| gen::any_char(r)).collect(),
        1 => {
            let mut s = String::from("$");
            s.extend((0..n).map(|_| gen::any_char(r)));
            s
        }
        2 => {
            let mut s = String::from("$");
            s.extend((0..n).map(|_| *r.pick(&['[', ']', '?', '@', '.', '*', '(', ')', '\'', '"', '\\', 'u', 'd', '8', '0', '1', '-', ',', ':', '=', '!', '<', '&', '|', 'a', ' ', '$', 'é'])));
            s
        }
        _ => {
            // bytes, as far as they are text
            let b: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
            format!("${}", String::from_utf8_lossy(&b))
        }
    }
}
const INTS: &[i64] = &[
    0, 1, -1, 2, -2, 3, i32::MAX as i64, i32::MIN as i64, u32::MAX as i64, 1 << 52, -(1 << 52), 9007199254740990, -9007199254740990, 9007199254740991, -9007199254740991,
];

pub fn check(c: &Conf) -> Check {
    let mut sections = vec![];
    // before anything else has run in this process
    for (name, lo, hi, stack) in [("nesting", 0, 128u64, STACK), ("deep nesting", 129, 256, MAIN)] {
        let w = hi - lo + 1;
        sections.push(sec(name, NESTS.len() as u64 * w, move |tc, i| {
            let k = (i / w) as usize;
            let depth = (lo + i % w) as usize;
            let (a, o, core, z, b) = NESTS[k];
            if depth % levels(o) != 0 {
                return;
            }
            let n = depth / levels(o);
            let docs = [nested_doc(0, 3), nested_doc(3, 4), json!([[1, "aa"], {"a": [{"b": 1}]}, "b", "aaab"])];
            let docs: Vec<&Value> = docs.iter().collect();
            let t = nest(k, n);
            // the larger ones of those that are costly to evaluate on nothing but small documents
            let tiny = [json!([0])];
            let tiny: Vec<&Value> = tiny.iter().collect();
            exercise(tc, &t, if n <= 6 { &docs } else { &tiny }, n % 8 == 0);
            // without the end, with too much of it, or cut in the middle
            for t in [
                format!("{a}{}{core}", o.repeat(n)),
                format!("{a}{}", o.repeat(n)),
                format!("{a}{}{core}{}{b}", o.repeat(n), z.repeat(n + 1)),
                format!("{a}{}{core}{}{b}", o.repeat(n), z.repeat(n.saturating_sub(1))),
                format!("{a}{}#{core}{}{b}", o.repeat(n), z.repeat(n)),
            ] {
                exercise(tc, &t, &[], false);
            }
            tc.max("nesting", depth as u64);
            tc.max("length of a text", t.len() as u64);
            sentinel(tc);
        }).stack(stack));
    }
    sections.push(sec("mixed nesting", c.n(3_000, 40_000), |tc, _| {
        let n = 1 + tc.rng.below(256);
        let kinds: Vec<usize> = (0..1 + tc.rng.below(4)).map(|_| tc.rng.below(26)).collect();
        let (mut open, mut close) = (String::new(), String::new());
        let mut last = "@";
        let mut have = 0;
        while have < n {
            let k = *tc.rng.pick(&kinds);
            let (_, o, c, z, _) = NESTS[k];
            open.push_str(o);
            close.insert_str(0, z);
            last = c;
            have += levels(o);
        }
        let t = format!("$[?{open}{last}{close}]");
        let d = [json!([0])];
        exercise(tc, &t, &[&d[0]], false);
        let cut = tc.rng.below(t.len());
        exercise(tc, &t[..cut], &[], false);
        sentinel(tc);
    }).stack(MAIN));
    sections.push(sec("nested documents", 4 * 257, |tc, i| {
        let (kind, n) = (i / 257, (i % 257) as usize);
        let d = nested_doc(kind, n);
        for t in ["$", "$.*", "$..*", "$..a", "$..[0]", "$..[?@]", "$..[?@.a]", "$[?@..a]", "$..[-1:]", "$..[?count(@.*)>0]", "$[?length(@)>0]", "$..['a',0]", "$[?@==$]", "$..[?@==@]", "$[?value(@..b)==1]", "$[?@!=$.a]", "$..[?@<$]"] {
            let Ok(p) = JsonPath::parse(t) else {
                tc.fail(format!("does not parse: {t}"), Value::Null);
                return;
            };
            ops::eval_ops(tc, &p, &d);
            tc.nontrivial(hash_bytes(t.as_bytes()) ^ i);
        }
        // all the way down
        let down = format!("$[?@.x||$.y]{}", if kind == 0 { "[0]".repeat(n) } else { ".a".repeat(n) });
        exercise(tc, &down, &[&d], false);
        let down = format!("${}", if kind == 0 { "[0]".repeat(n) } else { "['a']".repeat(n) });
        exercise(tc, &down, &[&d], false);
        let down = format!("$[?$..a=={}]", "1");
        exercise(tc, &down, &[&d], false);
        tc.max("depth of a document", n as u64);
        sentinel(tc);
    }).stack(MAIN));
    let ni = INTS.len() as u64 + 1;
    sections.push(sec("extreme integers", ni * ni * ni, move |tc, i| {
        let f = |k: u64| if k == 0 { String::new() } else { INTS[k as usize - 1].to_string() };
        let (a, b, s) = (f(i % ni), f(i / ni % ni), f(i / ni / ni));
        let docs = [json!([]), json!([0]), json!([0, 1, 2, 3, 4]), json!({"a": [1, 2]}), json!("x")];
        let docs: Vec<&Value> = docs.iter().collect();
        exercise(tc, &format!("$[{a}:{b}:{s}]"), &docs, false);
        exercise(tc, &format!("$..[{a}:{b}:{s}]"), &docs, false);
        if !a.is_empty() {
            exercise(tc, &format!("$[{a}]"), &docs, false);
            exercise(tc, &format!("$[?@[{a}]==$[{a}]]"), &docs, false);
        }
        // one past what is allowed
        for (x, y) in [("9007199254740992", "1"), ("-9007199254740992", "-1"), ("9223372036854775807", "9223372036854775808"), ("-9223372036854775808", "-9223372036854775809"), ("18446744073709551616", "340282366920938463463374607431768211456")] {
            exercise(tc, &format!("$[{a}:{x}:{s}]"), &docs, false);
            exercise(tc, &format!("$[{b}:{s}:{y}]"), &docs, false);
            exercise(tc, &format!("$[?@>{a}{x}&&@<{y}]"), &docs, false);
        }
    }).stack(STACK));
    sections.push(sec("random texts", c.n(400_000, 6_000_000), |tc, i| {
        let t = random_text(&mut tc.rng);
        let d = json!({"a": [1, "x"]});
        exercise(tc, &t, &[&d], i % 4 == 0);
        if i % 64 == 0 {
            sentinel(tc);
        }
    }).stack(STACK));
    let seeds = c05::gaps();
    sections.push(sec("damaged queries", c.n(500_000, 8_000_000), move |tc, i| {
        let doc = gen::small(&mut tc.rng, 3);
        let t = if tc.rng.chance(1, 3) {
            tc.rng.pick(&seeds).clone()
        } else {
            let mut g = gen::Gen { r: &mut tc.rng, root: &doc, o: &gen::FULL, budget: 14 };
            let n = 1 + g.r.below(3);
            let q = g.query(true, Some(&doc), n, 2);
            render::varied(&mut tc.rng, &q)
        };
        let m = c05::mutate_text(&mut tc.rng, &t, &seeds);
        exercise(tc, &m, &[&doc], i % 4 == 0);
        // every prefix of some, for the positions of errors
        if i % 32 == 0 {
            for (k, _) in m.char_indices() {
                exercise(tc, &m[..k], &[], false);
            }
            sentinel(tc);
        }
    }).stack(STACK));
    sections.push(sec("queries and documents", c.n(60_000, 900_000), |tc, i| {
        let doc = gen::doc(&mut tc.rng);
        let q = gen::gen_query(&mut tc.rng, &doc, &gen::FULL);
        let t = render::varied(&mut tc.rng, &q);
        // nothing that blows up by definition
        let other = gen::mutate(&mut tc.rng, &doc);
        if !affordable(&q, &doc, 400_000) || !affordable(&q, &other, 400_000) {
            return;
        }
        exercise(tc, &t, &[&doc, &other], i % 4 == 0);
    }).stack(STACK));
    sections.push(sec("regular expressions", c.n(60_000, 900_000), |tc, _| {
        if !cfg!(feature = "regex") {
            tc.ev();
            return;
        }
        let mut re = gen::regex(&mut tc.rng, 2);
        if tc.rng.chance(1, 2) {
            re = c05::mutate_text(&mut tc.rng, &re, &["(?i)a", "a{1000}", "(?x) #", "\\b", "\\w", "[[:alpha:]]", "a{,3}", "(?P<n>a)", "[a&&b]", "\\x{10FFFF}", "(((((((((a{9}){9}){9}){9}){9}){9}){9}){9}){9})", "\\p{Greek}", "^$"].map(String::from));
        }
        let s = gen::string(&mut tc.rng);
        let doc = json!([{"r": re, "s": s}, {"r": s, "s": re}, {"r": 1, "s": null}]);
        let lit = serde_json::to_string(&re).unwrap();
        exercise(tc, &format!("$[?match(@.s,@.r)||search(@.s,@.r)||match(@.s,{lit})||!search(@.r,{lit})]"), &[&doc], false);
    }).stack(STACK));
    let long = if c.thorough { 200_000 } else { 30_000 };
    sections.push(sec("long texts", 16, move |tc, i| {
        let n = long;
        let t = match i {
            0 => format!("${}", ".a".repeat(n)),
            1 => format!("$[{}0]", "0,".repeat(n)),
            2 => format!("$['{}']", "x".repeat(n)),
            3 => format!("$[?{}@]", "@.a||".repeat(n)),
            4 => format!("$[?{}@]", "@.a&&".repeat(n)),
            5 => format!("$[?@=='{}']", "\\u0041".repeat(n)),
            6 => format!("${}", " ".repeat(n)),
            7 => format!("$[?@{}==1]", "[0]".repeat(n)),
            8 => format!("$[?@=={}]", "1".repeat(n)),
            9 => format!("$[?@==0.{}e{}]", "0".repeat(n), n),
            10 => "$".repeat(n),
            11 => format!("$.{}", "é".repeat(n)),
            12 => format!("$[?{}(@)]", "f".repeat(n)),
            13 => format!("$[?length({}1)==1]", "1,".repeat(n)),
            14 => format!("$[{}", "1".repeat(n)),
            _ => format!("$[?@['{}']==1||{}", "\\n".repeat(n / 2), "@.b==1||".repeat(n / 2)),
        };
        // the number in the ninth is beyond a double or not: either way it returns
        let d = json!({"a": [1]});
        let p = ops::parse_ops(tc, &t, false);
        if let Some(p) = p {
            tc.ev();
            p.query(&d).len();
            p.query_located(&d).len();
        }
        tc.max("length of a text", t.len() as u64);
        tc.nontrivial(i);
        sentinel(tc);
    }).stack(STACK).threads(4));
    let flats = super::c17::flat_families();
    let long = if c.thorough { 200_000 } else { 20_000 };
    sections.push(sec("long repetition", 3 * flats.len() as u64, move |tc, i| {
        let (a, o, core, z, b) = flats[i as usize / 3];
        let t = format!("{a}{}{core}{}", o.repeat(long), z.repeat(long));
        let t = match i % 3 {
            0 => format!("{t}{b}"),
            1 => t,
            _ => format!("{t}#{b}"),
        };
        exercise(tc, &t, &[&json!({"a": [1, {"a": "x"}]})], false);
        tc.max("length of a text", t.len() as u64);
        sentinel(tc);
    }).stack(STACK).threads(4).cpu(60));
    sections.push(sec("not a string", 40, |tc, i| {
        let vals = ["null", "true", "1", "-1.5e3", "[]", "[\"$\"]", "{}", "{\"$\":\"$\"}", "\"\"", "\"\\ud800\"", "\"$", "$", "", "\"$\\u0000\"", "\"$\" x"];
        let t = vals[i as usize % vals.len()];
        tc.ev();
        if serde_json::from_str::<JsonPath>(t).is_ok() {
            tc.fail(format!("deserialized from {t}"), Value::Null);
        }
        if let Ok(v) = serde_json::from_str::<Value>(t) {
            tc.ev();
            if serde_json::from_value::<JsonPath>(v).is_ok() {
                tc.fail(format!("deserialized from the value {t}"), Value::Null);
            }
        }
        tc.ev();
        if serde_json::from_slice::<JsonPath>(&[b'"', b'$', 0xff, 0xc0, b'"']).is_ok() {
            tc.fail("deserialized from what is not UTF-8", Value::Null);
        }
        tc.nontrivial(hash_bytes(t.as_bytes()));
        sentinel(tc);
    }).stack(STACK));
    Check {
        rule: "a distinct text that was handed to every way of parsing, or a distinct query and nested document",
        assumptions: vec![
            "nesting of texts and documents is at most 256 levels on the 8 MiB stack of a main thread, and at most 128 on the 2 MiB of another thread, in an optimised build; much deeper nesting exhausts the stack (see DESIGN.md)",
            "a case that uses 30 s of CPU time alone counts as not terminating; a process that sleeps for 25 s counts as blocked",
            "overflow checks and debug assertions are on in the library while it is observed",
        ],
        sections,
        need: vec!["texts that parse", "texts that do not parse"],
    }
}
