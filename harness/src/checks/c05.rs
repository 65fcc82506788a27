//! Acceptance.
use super::common::*;
use crate::ast::*;
use crate::funcs::{available, Ty};
use crate::gen;
use crate::render;
use crate::rng::hash_bytes;
use crate::rparse::{self, Verdict};
use crate::run::*;
use serde_json::{json, Value};
use serde_json_path::JsonPath;

/// All ways of parsing a text against the reference; `routes`: not only the constructor
pub fn judge(tc: &mut Tc, text: &str, routes: bool) -> Option<bool> {
    let want = match rparse::parse(text) {
        Verdict::Unspec(_) => {
            tc.count("skipped: validity not specified");
            let _ = JsonPath::parse(text);
            return None;
        }
        Verdict::Accept(_) => true,
        Verdict::Reject { .. } => false,
    };
    tc.ev();
    let got = JsonPath::parse(text);
    let mut all = vec![("JsonPath::parse", got.is_ok())];
    if routes {
        tc.evn(5);
        all.push(("str::parse", text.parse::<JsonPath>().is_ok()));
        all.push(("serde_json::from_value", serde_json::from_value::<JsonPath>(Value::String(text.to_string())).is_ok()));
        let j = serde_json::to_string(text).unwrap();
        all.push(("serde_json::from_str", serde_json::from_str::<JsonPath>(&j).is_ok()));
        all.push(("serde_json::from_reader", serde_json::from_reader::<_, JsonPath>(j.as_bytes()).is_ok()));
        all.push(("JsonPath::parse, again", JsonPath::parse(text).is_ok()));
    }
    for (how, ok) in all {
        if ok != want {
            let why = match (&got, rparse::parse(text)) {
                (Err(e), _) => e.to_string(),
                (_, Verdict::Reject { pos, sem }) => format!("not valid at byte {pos} {sem:?}"),
                _ => String::new(),
            };
            tc.fail(
                format!("{how} {} the {} query {} ({why})", if ok { "accepts" } else { "rejects" }, if want { "valid" } else { "invalid" }, clip(text.to_string())),
                json!({"query": text, "valid": want, "accepted": ok, "how": how, "why": why}),
            );
            return None;
        }
    }
    tc.count(if want { "valid texts" } else { "invalid texts" });
    Some(want)
}
/// as above; distinct texts are counted
pub fn text(tc: &mut Tc, t: &str, routes: bool) -> bool {
    match judge(tc, t, routes) {
        Some(v) => {
            tc.nontrivial(hash_bytes(t.as_bytes()));
            tc.sample(|| json!({"text": clip(t.to_string()), "valid": v}));
            true
        }
        None => !tc.failed(),
    }
}

const TOKENS: &[&str] = &[
    "$", "@", ".", "..", "[", "]", "*", "?", "!", "(", ")", ",", ":", "a", "'a'", "0", "-1", "1.5", "==", "<", "&&", "||", " ", "null", "length(", "count(", "match(", "-", "\"", "_1",
];
const FRAMES: &[(&str, &str)] = &[("$", ""), ("$[", "]"), ("$[?", "]"), ("$[?@", "]"), ("$[?count(", ")==1]"), ("$[?match(", ")]"), ("$[?1", "]"), ("", ""), ("$[?@.a ", "]"), ("$[0", "]")];

pub fn gaps() -> Vec<String> {
    let mut v: Vec<String> = [
        "$", "$.a", "$..a", "$['a']", "$[\"a\"]", "$.*", "$..*", "$[*]", "$[0]", "$[-1]", "$[1:2:3]", "$[::]", "$[:]", "$[1:]", "$[:-1]", "$[::-1]", "$[1,'a',*,1:2]", "$..[0]", "$..[*]", "$.a.b['c'][0]..d[*]",
        "$[?@]", "$[?@.a]", "$[?@.a==1]", "$[?@['a']==1]", "$[?1==@.a]", "$[?@.a<=@.b&&@.c||!@.d]", "$[?(@.a)]", "$[?!(@.a||@.b)&&@.c]", "$[?@.a==null]", "$[?'x'!=\"y\"]", "$[?-1.5e+3>@[0]]", "$[?$.a[0]]", "$[?@[?@.a>1]]",
        "$[?length(@.a)==1]", "$[?count(@.*)>=2]", "$[?match(@.a,'b')]", "$[?!search(@.a,\"b\")]", "$[?value(@..a)=='x']", "$[?length(value(@..a))<3]", "$[?@.a==length('abc')]", "$[?true==@,?false!=@]",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    if cfg!(feature = "functions") {
        v.extend(["$[?yes()]", "$[?idl(@.a==1&&@.b)]", "$[?both(!@.a,(@.b||@.c))]", "$[?mix3(1,idl(@),none())==zero0()]", "$[?idn(@.*)]"].iter().map(|s| s.to_string()));
    }
    v
}

pub fn mutate_text(r: &mut crate::rng::Rng, t: &str, others: &[String]) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
        let n = c.len();
        if n == 0 {
            break;
        }
        let i = r.below(n);
        match r.below(11) {
            0 => {
                c.remove(i);
            }
            1 | 2 => {
                let s = *r.pick(TOKENS);
                let mut k = i;
                for x in s.chars() {
                    c.insert(k, x);
                    k += 1;
                }
            }
            3 => c[i] = *r.pick(&['$', '@', '.', '[', ']', '\'', '"', '\\', ' ', '\n', '0', '1', '-', '+', 'e', '?', '!', '(', ')', ',', ':', '*', '=', '<', '&', '|', 'u', 'A', '_', '\u{e9}', '\u{0}', '\u{b}', '\u{a0}']),
            4 => {
                let j = (i + 1 + r.below(6)).min(n);
                let d: Vec<char> = c[i..j].to_vec();
                for (k, x) in d.into_iter().enumerate() {
                    c.insert(i + k, x);
                }
            }
            5 => {
                let j = (i + 1 + r.below(6)).min(n);
                c.drain(i..j);
            }
            6 => c.truncate(i),
            7 if i + 1 < n => c.swap(i, i + 1),
            8 => c.insert(i, *r.pick(&[' ', '\t', '\n', '\r', ' '])),
            9 => c.insert(i, gen::any_char(r)),
            _ => {
                let o: Vec<char> = r.pick(others).chars().collect();
                let k = r.below(o.len().max(1));
                c.truncate(i);
                c.extend(&o[k.min(o.len())..]);
            }
        }
    }
    c.into_iter().collect()
}

/// forms of arguments: (text, a description)
fn arg_forms() -> Vec<&'static str> {
    let mut v = vec![
        "1", "'x'", "null", "true", "@", "$", "@.a", "@[0]", "@['a'][-1]", "$.a[0]", "@.*", "@..a", "@[0,1]", "@[1:2]", "@[?@]", "$..*", "@.a==1", "1<2", "(@.a)", "!@.a", "@.a&&@.b", "@.*||$", "(1==1)", "length(@)", "count(@.*)", "value(@..a)", "!(@.a)", "@.* == 1", "1 && @", "length(@)==1", "length(@)&&@",
    ];
    if cfg!(feature = "regex") {
        v.extend(["match(@,'a')", "!search(@.a,'a')", "match(@,'a')==true"]);
    }
    if cfg!(feature = "functions") {
        v.extend(["idn(@.*)", "none()", "yes()", "nil()", "idl(@)", "!idn(@)", "!nil()", "idv(@)", "unknown(@)", "idv(@.*)", "idn(1)"]);
    }
    v
}
/// where a function can be written
const PLACES: &[(&str, &str)] = &[("$[?", "]"), ("$[?!", "]"), ("$[?", "==1]"), ("$[?1<=", "]"), ("$[?@.a && ", "]"), ("$[?(", ")]"), ("$[?@[?", "]]"), ("$[?", "!=null||@]"), ("$[0,?", "]"), ("$[?", " == length(@)]"), ("$..[?!(", ")]")];

pub fn check(c: &Conf) -> Check {
    let nt = TOKENS.len() as u64;
    let len = if c.thorough { 5 } else { 4 };
    let per: u64 = (0..=len).map(|k| nt.pow(k)).sum();
    let (mut sections, thorough) = (vec![], c.thorough);
    sections.push(sec("short token sequences", per * FRAMES.len() as u64, move |tc, i| {
        let (a, b) = FRAMES[(i % FRAMES.len() as u64) as usize];
        let mut k = i / FRAMES.len() as u64;
        let mut n = 0;
        while k >= nt.pow(n) {
            k -= nt.pow(n);
            n += 1;
        }
        let mut t = a.to_string();
        for _ in 0..n {
            t.push_str(TOKENS[(k % nt) as usize]);
            k /= nt;
        }
        t.push_str(b);
        text(tc, &t, i % 16 == 0);
    }));
    sections.push(sec("longer token sequences", c.n(2_000_000, 20_000_000), move |tc, i| {
        let (a, b) = *tc.rng.pick(FRAMES);
        let n = 4 + tc.rng.below(4);
        let mut t = a.to_string();
        for _ in 0..n {
            t.push_str(*tc.rng.pick(TOKENS));
        }
        t.push_str(b);
        text(tc, &t, i % 16 == 0);
    }));
    // every code point, in every kind of place
    sections.push(sec("code points", 0x110000 / 64, |tc, i| {
        for u in i * 64..i * 64 + 64 {
            let Some(ch) = char::from_u32(u as u32) else { continue };
            for (a, b) in [("$.", ""), ("$.a", ""), ("$..", "x"), ("$['", "']"), ("$[\"", "\"]"), ("$", ".a"), ("$[", "0]"), ("$[?@.a", "==1]"), ("$[?@=='", "']"), ("$['\\", "']"), ("$[\"\\", "\"]"), ("$[1", "]"), ("$[?", "(@)]"), ("$[?l", "(@)==1]"), ("", "$"), ("$[?@ ", "== 1]")] {
                let mut t = String::with_capacity(20);
                t.push_str(a);
                t.push(ch);
                t.push_str(b);
                if judge(tc, &t, false).is_none() && tc.failed() {
                    return;
                }
            }
            tc.nontrivial(u);
        }
    }));
    sections.push(sec("valid queries", c.n(120_000, 1_500_000), |tc, i| {
        let doc = gen::small(&mut tc.rng, 3);
        let q = gen::gen_query(&mut tc.rng, &doc, &gen::FULL);
        let t = render::varied(&mut tc.rng, &q);
        match rparse::parse(&t) {
            Verdict::Accept(a) if norm(&a) == norm(&q) => {}
            Verdict::Unspec(_) => {}
            v => harness_bug(format!("the reference parser does not read back {t}: {v:?}")),
        }
        text(tc, &t, i % 2 == 0);
    }));
    let seeds = gaps();
    sections.push(sec("damaged queries", c.n(2_000_000, 20_000_000), move |tc, i| {
        let t = if tc.rng.chance(1, 3) {
            tc.rng.pick(&seeds).clone()
        } else {
            let doc = gen::small(&mut tc.rng, 2);
            let mut g = gen::Gen { r: &mut tc.rng, root: &doc, o: &gen::FULL, budget: 14 };
            let n = 1 + g.r.below(3);
            let q = g.query(true, Some(&doc), n, 2);
            render::varied(&mut tc.rng, &q)
        };
        let m = mutate_text(&mut tc.rng, &t, &seeds);
        text(tc, &m, i % 4 == 0);
    }));
    // a blank, or what looks like one, in every gap; and everything cut short
    let seeds = gaps();
    sections.push(sec("blanks", seeds.len() as u64, move |tc, i| {
        let s = &seeds[i as usize];
        let at: Vec<usize> = s.char_indices().map(|(k, _)| k).chain([s.len()]).collect();
        for &k in &at {
            for b in [" ", "\t", "\n", "\r", "\r\n ", "\u{b}", "\u{c}", "\u{a0}", "\u{2028}", "\u{feff}", "\u{0}", "  \t\n\r  ", "\u{3000}", "\u{85}", "/**/", "#", ";"] {
                if !text(tc, &format!("{}{b}{}", &s[..k], &s[k..]), true) {
                    return;
                }
            }
            if !text(tc, &s[..k], true) || !text(tc, &s[k..], true) {
                return;
            }
            // two gaps at once
            for &l in at.iter().filter(|l| **l > k) {
                if !text(tc, &format!("{} {}\n{}", &s[..k], &s[k..l], &s[l..]), false) {
                    return;
                }
                // and everything between two gaps left out
                if !text(tc, &format!("{}{}", &s[..k], &s[l..]), false) {
                    return;
                }
            }
        }
    }));
    let mut ints: Vec<String> = vec![];
    for base in ["0", "1", "9", "10", "00", "01", "007", "-0", "-00", "-01", "-1", "--1", "+1", "-", "+", "1-", "1.", "1.0", "1e0", "1E2", ".5", "0x1", "1_000", "9007199254740990", "9007199254740991", "9007199254740992", "9007199254740993", "9007199254740999", "9007199254741000", "9999999999999999", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456", "4294967295", "2147483648", "900719925474099", "90071992547409910", "1 0", "1 ", " 1", "- 1", "\u{661}", "\u{ff11}", "1\u{0}"] {
        ints.push(base.into());
        if !base.starts_with(['-', '+', ' ']) {
            ints.push(format!("-{base}"));
        }
    }
    ints.push("9".repeat(400));
    ints.push(format!("-{}", "1".repeat(4000)));
    ints.push(format!("{}9007199254740991", "0".repeat(3)));
    sections.push(sec("integers", (ints.len() * ints.len()) as u64, move |tc, i| {
        let n = ints.len() as u64;
        let (a, b) = (&ints[(i / n) as usize], &ints[(i % n) as usize]);
        let mut v = vec![format!("$[{a}:{b}]"), format!("$[{a}:{b}:]"), format!("$[{a},{b}]"), format!("$[:{a}:{b}]"), format!("$[{a}::{b}]"), format!("$[{a}:{b}:{a}]")];
        if i % n == 0 {
            for f in ["$[X]", "$[X:]", "$[:X]", "$[::X]", "$..[X]", "$[?@[X]]", "$[?@[X]==1]", "$[?1==$[X].a]", "$[?count(@[X:])==1]", "$[?length(@[X])==1]", "$[?@==X]", "$[?X<@]", "$.X", "$X", "$[X", "$['a',X]", "$[?value(@[::X])==1]", "$[?@[?@[X]]]"] {
                v.push(f.replace('X', a));
            }
        }
        for t in v {
            if !text(tc, &t, i % 7 == 0) {
                return;
            }
        }
    }));
    let dl = if thorough { 6 } else { 5 };
    const NUM: &[u8] = b"019-+.eE";
    let total: u64 = (1..=dl).map(|k| 8u64.pow(k)).sum();
    sections.push(sec("number literals", total, |tc, i| {
        let mut k = i;
        let mut n = 1;
        while k >= 8u64.pow(n) {
            k -= 8u64.pow(n);
            n += 1;
        }
        let mut s = String::new();
        for _ in 0..n {
            s.push(NUM[(k % 8) as usize] as char);
            k /= 8;
        }
        for (a, b) in [("$[?@==", "]"), ("$[?", "<@]"), ("$[?length(", ")==0]")] {
            if !text(tc, &format!("{a}{s}{b}"), false) {
                return;
            }
        }
    }));
    // escapes: every pair of characters behind a backslash, and hexadecimal ones by digit classes
    sections.push(sec("escapes", 2 * 96 * 97, |tc, i| {
        let q = if i % 2 == 0 { '\'' } else { '"' };
        let (x, y) = ((i / 2 / 97) as u8 + 32, (i / 2 % 97) as u8 + 31);
        let y = if y == 31 { String::new() } else { (y as char).to_string() };
        for (a, b) in [("$[", "]"), ("$[?@==", "]")] {
            if !text(tc, &format!("{a}{q}\\{}{y}{q}{b}", x as char), false) {
                return;
            }
        }
    }));
    const HEX: &[&str] = &["0", "7", "8", "9", "a", "B", "b", "C", "c", "D", "d", "E", "f", "g", "G", "", "'", "\\", " ", "\u{660}"];
    let nh = HEX.len() as u64;
    sections.push(sec("unicode escapes", nh.pow(4), move |tc, i| {
        let mut k = i;
        let mut h = String::new();
        for _ in 0..4 {
            h.push_str(HEX[(k % nh) as usize]);
            k /= nh;
        }
        for q in ["'", "\""] {
            for tail in ["", "\\uDC00", "\\udfff", "\\uD800", "\\u0041", "\\n", "\\", "\\u", "\\ud", "\\uDc0", "\\uDC0g", "\\U0041", "x"] {
                if !(tail.is_empty() || h.starts_with(['d', 'D']) || i % 53 == 0) {
                    continue;
                }
                if !text(tc, &format!("$[{q}\\u{h}{tail}{q}]"), false) {
                    return;
                }
            }
        }
        if !text(tc, &format!("$[?'\\u{h}'==@]"), false) || !text(tc, &format!("$[\"\\u{h}"), false) {
            return;
        }
        text(tc, &format!("$['\\U{h}']"), false);
    }));
    // arguments and results of functions
    let forms = arg_forms();
    let fs: Vec<(&str, usize)> = available().iter().map(|s| (s.name, s.params.len())).collect();
    let nf = fs.len() as u64;
    let na = forms.len() as u64;
    let f2 = forms.clone();
    let fs2 = fs.clone();
    sections.push(sec("function types", nf * na * (na + 1), move |tc, i| {
        let (name, _) = fs[(i % nf) as usize];
        let (x, y) = ((i / nf % na) as usize, (i / nf / na) as usize);
        let a = if y == 0 { forms[x].to_string() } else { format!("{},{}", forms[x], forms[y - 1]) };
        let a = if y == 0 && x == 0 && i % 2 == 0 { String::new() } else { a };
        let call = format!("{name}({a})");
        let some = [0, 1, 2, 3 + tc.rng.below(PLACES.len() - 3)];
        for k in some {
            let (p, q) = PLACES[k];
            if !text(tc, &format!("{p}{call}{q}"), i % 32 == 0) {
                return;
            }
        }
    }));
    sections.push(sec("function calls", c.n(400_000, 4_000_000), move |tc, i| {
        let r = &mut tc.rng;
        // mostly well typed, then spoilt in one place
        let (name, k) = *r.pick(&fs2);
        let k = if r.chance(1, 6) { r.below(8) } else { k };
        let sg = crate::funcs::sig(name).unwrap();
        let mut args: Vec<String> = vec![];
        for j in 0..k {
            let ty = sg.params.get(j).copied().unwrap_or(Ty::V);
            args.push(if r.chance(1, 6) {
                r.pick(&f2).to_string()
            } else {
                match ty {
                    Ty::V => r.pick(&["1", "'x'", "@.a", "$", "length(@)", "value(@.*)", "@[-1]"]).to_string(),
                    Ty::N => r.pick(&["@.*", "$..a", "@", "@.a", "@[?@.b]", "@[0]"]).to_string(),
                    Ty::L => r.pick(&["@.a", "@.a==1", "!@", "(@||$)", "1==1&&@", "@.*"]).to_string(),
                }
            });
        }
        let sep = *r.pick(&[",", ", ", " ,\n", ","]);
        let mut call = format!("{name}({})", args.join(sep));
        match r.below(12) {
            0 => call = call.replacen('(', " (", 1),
            1 => call = call.to_uppercase(),
            2 => call = call.replacen('(', "(,", 1),
            3 => call = call.replacen(')', ",)", 1),
            4 => call = format!("{}_x{}", name, &call[name.len()..]),
            5 => call = format!("{}{}", &name[..name.len() - 1], &call[name.len()..]),
            6 => call = format!("{call}.a"),
            _ => {}
        }
        let (p, q) = *r.pick(PLACES);
        text(tc, &format!("{p}{call}{q}"), i % 4 == 0);
    }));
    let names: Vec<String> = {
        let mut v: Vec<String> = ["a", "z", "length", "Length", "lengt", "lengths", "length1", "length_", "_length", "1length", "count", "Count", "value", "val", "match", "Match", "matches", "search", "searc", "true", "false", "null", "nul", "nulll", "true_", "nulls", "falsey", "not", "in", "l-n", "a.b", "\u{e9}", "leng\u{74}\u{301}h", "lengt\u{ff48}", ""].iter().map(|s| s.to_string()).collect();
        for s in available() {
            v.push(s.name.into());
            v.push(s.name[..s.name.len() - 1].into());
            v.push(format!("{}0", s.name));
            v.push(s.name.to_uppercase());
            v.push(s.name.replace('_', ""));
            v.push(format!("{0}{0}", s.name));
        }
        v.sort();
        v.dedup();
        v
    };
    sections.push(sec("function names", names.len() as u64, move |tc, i| {
        let n = &names[i as usize];
        for a in ["", "@", "@.*", "1", "@,@", "@.*,@.*", "'a','b'", "@,@,@", "1,@,@.*", "@.a==1", "1,@.*,@,1,@.*,@"] {
            for (p, q) in PLACES {
                for call in [format!("{n}({a})"), format!("{n} ({a})")] {
                    if !text(tc, &format!("{p}{call}{q}"), true) {
                        return;
                    }
                }
            }
        }
    }));
    sections.push(sec("nesting", 256 * 8, |tc, i| {
        let n = (i / 8 + 1) as usize;
        let (a, m, b, pre, post): (&str, &str, &str, &str, &str) = match i % 8 {
            0 => ("(", "@", ")", "$[?", "]"),
            1 => ("@[?", "@.a", "]", "$[?", "]"),
            2 => ("!(", "1==1", ")", "$[?", "]"),
            3 => ("length(", "@", ")", "$[?", "==1]"),
            4 => ("(1==1&&", "@", ")", "$[?", "]"),
            5 => ("value(@[?", "@", "]==1)", "$[?1==length(", ")]"),
            6 => ("$[?", "$", "]", "", ""),
            _ => ("@.a||(!@.b||", "@[0]", ")", "$[?", "]"),
        };
        let (a, b) = if i % 8 == 5 { ("value(@[?1==", "])") } else { (a, b) };
        let m = if i % 8 == 5 { "value(@)" } else { m };
        for cut in [0, 1] {
            let t = format!("{pre}{}{m}{}{post}", a.repeat(n), b.repeat(n - cut));
            if !text(tc, &t, false) {
                return;
            }
            let t = format!("{pre}{}{m}{}{post}", a.repeat(n - cut), b.repeat(n));
            if !text(tc, &t, false) {
                return;
            }
        }
        tc.max("nesting", n as u64);
    }));
    // long names, long lists
    sections.push(sec("sizes", gen::SIZES.len() as u64, |tc, i| {
        let n = gen::SIZES[i as usize];
        let list = |x: &str| vec![x; n.max(1)].join(",");
        for t in [
            format!("$.{}", "a".repeat(n)),
            format!("$['{}']", "\u{e9}".repeat(n)),
            format!("$[{}]", list("1")),
            format!("$[{}]", list("'a'")),
            format!("$[{}]", list("?@.a==1")),
            format!("${}", ".a".repeat(n)),
            format!("${}", "..a".repeat(n)),
            format!("${}", "[0]".repeat(n)),
            format!("$[?{}]", vec!["@.a"; n.max(1)].join("&&")),
            format!("$[?{}]", vec!["@.a"; n.max(1)].join(" || ")),
            format!("$[?{}==1]", "1".repeat(n.min(300))),
            format!("$[{}0]", " ".repeat(n)),
            format!("${}.a", "\n".repeat(n)),
            format!("$.a{}", " ".repeat(n)),
            format!("$[{},]", list("1")),
            format!("$[?{}&&]", vec!["@.a"; n.max(1)].join("&&")),
            format!("$[?@.a==0.{}1]", "0".repeat(n.min(200))),
        ] {
            if !text(tc, &t, true) {
                return;
            }
        }
        tc.max("size", n as u64);
    }));
    Check {
        rule: "every execution is one parse of a text whose outcome is compared with the reference grammar and typing rules; non-trivial = distinct text (or distinct code point, in all its places)",
        assumptions: vec![
            "not judged: blanks inside the brackets of a query that has to be singular (RFC 9535 grammar and prose differ), and number literals beyond the range of a double",
        ],
        sections,
        need: vec!["valid texts", "invalid texts"],
    }
}
/// without the groupings that only the text has
fn norm(q: &Query) -> String {
    format!("{q:?}")
}
