//! What literals denote.
use super::common::*;
use crate::ast::*;
use crate::gen;
use crate::render;
use crate::reval;
use crate::rng::{hash_bytes, mix};
use crate::run::*;
use serde_json::{json, Map, Value};
use serde_json_path::JsonPath;

fn parse(tc: &mut Tc, t: &str) -> Option<JsonPath> {
    tc.ev();
    match JsonPath::parse(t) {
        Ok(p) => Some(p),
        Err(e) => {
            tc.fail(format!("a valid literal is rejected: {} ({e})", clip(t.into())), json!({"query": t}));
            None
        }
    }
}
/// strings that a careless reading could take for `s`; `src` is how it was spelled
fn near(s: &str, src: &str) -> Vec<String> {
    let mut v = vec![
        format!("{s}a"),
        format!("a{s}"),
        format!(" {s}"),
        format!("{s} "),
        format!("{s}\u{0}"),
        s.to_uppercase(),
        s.to_lowercase(),
        s.trim().to_string(),
        src.to_string(),
        src.replace('\\', ""),
        s.replace('\\', "\\\\"),
        s.replace('\'', "\\'"),
        s.replace('"', "\\\""),
        format!("{s}{s}"),
        format!("'{s}'"),
        s.chars().rev().collect(),
        s.replace('\u{e9}', "e\u{301}"),
        s.replace("e\u{301}", "\u{e9}"),
        s.replace('\u{212b}', "\u{c5}"),
        s.replace("\\u", "u"),
        "\u{fffd}".into(),
        "?".into(),
        String::new(),
        s.split('\u{0}').next().unwrap().to_string(),
        s.replace('\r', "\n"),
        s.replace("\r\n", "\n"),
        s.chars().filter(|c| c.is_ascii()).collect(),
        s.chars().filter(|c| !c.is_control()).collect(),
        format!("\u{feff}{s}"),
    ];
    if let Some((i, c)) = s.char_indices().last() {
        v.push(s[..i].to_string());
        for d in [-1i64, 1, 32, -32, 0x100, 0x10000, -0x10000, 0x400] {
            if let Some(x) = u32::try_from(c as i64 + d).ok().and_then(char::from_u32) {
                v.push(format!("{}{x}", &s[..i]));
            }
        }
        let mut u = [0u16; 2];
        if c.encode_utf16(&mut u).len() == 2 {
            v.push(format!("{}\u{fffd}\u{fffd}", &s[..i]));
            v.extend(char::from_u32(u[0] as u32 & 0x3ff).map(|x| format!("{}{x}", &s[..i])));
            v.extend(char::from_u32(u[1] as u32 & 0x3ff).map(|x| format!("{}{x}", &s[..i])));
        }
    }
    if s.len() > 60 {
        for n in [255, 256, 127, 128, 64, 63, s.len() / 2] {
            if n < s.len() && s.is_char_boundary(n) {
                v.push(s[..n].to_string());
            }
        }
    }
    v.retain(|x| x != s);
    v.sort();
    v.dedup();
    v
}

/// `src`: a quoted string that denotes `s`; short: a shorthand name
fn denotes(tc: &mut Tc, s: &str, src: &str, short: bool) -> bool {
    let near = near(s, if short { src } else { &src[1..src.len() - 1] });
    let mut m = Map::new();
    for (k, x) in near.iter().enumerate() {
        m.insert(x.clone(), json!(k));
    }
    // without the name itself nothing is selected
    let without = Value::Object(m.clone());
    m.insert(s.to_string(), json!("this"));
    let with = Value::Object(m);
    let this = &with[s];
    let texts = if short { vec![format!("$.{src}"), format!("$..{src}")] } else { vec![format!("$[{src}]"), format!("$..[{src}]"), format!("$[ {src} , 5]")] };
    for t in &texts {
        let Some(p) = parse(tc, t) else { return false };
        let got = p.query(&with).all();
        let none = p.query(&without).all();
        if !(got.len() == 1 && std::ptr::eq(got[0], this)) || !none.is_empty() {
            tc.fail(
                format!("{} is to select exactly the member {s:?}, but gives {got:?} on {}; and {none:?} without that member", clip(t.clone()), show(&with)),
                json!({"query": t, "name": s, "document": show(&with), "got": got}),
            );
            return false;
        }
        let loc = p.query_located(&with).all();
        let names: Vec<_> = loc.iter().map(|n| n.location().get(0).and_then(|e| e.as_name()).map(str::to_string)).collect();
        if names != [Some(s.to_string())] {
            tc.fail(format!("{t} is to select the member {s:?}, but reports {names:?}"), json!({"query": t, "name": s}));
            return false;
        }
    }
    if short {
        return true;
    }
    let mut arr: Vec<Value> = near.into_iter().map(Value::String).collect();
    arr.push(json!(s));
    let doc = Value::Array(arr);
    let this = doc.as_array().unwrap().last().unwrap();
    for t in [format!("$[?@=={src}]"), format!("$[?{src}==@]"), format!("$[?!(@!={src})]"), format!("$[?@<={src}&&{src}<=@]"), format!("$[?value(@)=={src}]")] {
        let Some(p) = parse(tc, &t) else { return false };
        let got = p.query(&doc).all();
        if !(got.len() == 1 && std::ptr::eq(got[0], this)) {
            tc.fail(
                format!("{} is to select exactly the string {s:?}, but gives {got:?} on {}", clip(t.clone()), show(&doc)),
                json!({"query": t, "string": s, "document": show(&doc), "got": got}),
            );
            return false;
        }
    }
    spied(tc, src, &json!(s))
}
/// the value that a function gets for the literal
#[cfg(feature = "functions")]
fn spied(tc: &mut Tc, src: &str, want: &Value) -> bool {
    use crate::funcs::custom::SPY;
    let t = format!("$[?spy({src},1==1,@)]");
    let Some(p) = parse(tc, &t) else { return false };
    SPY.with(|s| *s.borrow_mut() = Some(vec![]));
    let doc = json!([0]);
    let n = p.query(&doc).len();
    let got = SPY.with(|s| s.borrow_mut().take()).unwrap();
    let ok = match got.as_slice() {
        [(Some(v), true, _)] if n == 1 => match (v, want) {
            (Value::Number(a), Value::Number(b)) => a == b || reval::num_cmp(a, b) != Ok(std::cmp::Ordering::Less) && reval::num_cmp(a, b) != Ok(std::cmp::Ordering::Greater) && a.as_f64() == b.as_f64(),
            (a, b) => a == b,
        },
        _ => false,
    };
    if !ok {
        tc.fail(format!("the literal {} is to denote {want}, but a function is given {got:?}", clip(src.into())), json!({"query": t, "expected": want}));
    }
    tc.count("literals handed to a function");
    ok
}
#[cfg(not(feature = "functions"))]
fn spied(_: &mut Tc, _: &str, _: &Value) -> bool {
    true
}
fn hex(u: u16, mask: u8) -> String {
    let mut s = String::from("\\u");
    for k in 0..4 {
        let c = char::from_digit((u >> (12 - 4 * k)) as u32 & 15, 16).unwrap();
        s.push(if mask >> k & 1 == 1 { c.to_ascii_uppercase() } else { c });
    }
    s
}
fn quick_name(tc: &mut Tc, s: &str, src: &str) -> bool {
    // a cheaper form of `denotes` for the large enumerations
    let c = s.chars().next().unwrap() as u32;
    let doc = {
        let mut m = Map::new();
        for d in [1u32, 0x20, 0x100, 0x400, 0x10000] {
            for x in [c.checked_sub(d), Some(c + d)].into_iter().flatten().filter_map(char::from_u32) {
                m.insert(x.to_string(), json!(0));
            }
        }
        m.insert("\u{fffd}\u{fffd}".into(), json!(0));
        m.insert(String::new(), json!(0));
        m.insert(s.into(), json!(s));
        Value::Object(m)
    };
    for t in [format!("$[{src}]"), format!("$[?@=={src}]")] {
        let Some(p) = parse(tc, &t) else { return false };
        let got = p.query(&doc).all();
        if !(got.len() == 1 && std::ptr::eq(got[0], &doc[s])) {
            tc.fail(format!("{t} is to select exactly the member or string {s:?}, but gives {got:?}"), json!({"query": t, "string": s, "document": show(&doc)}));
            return false;
        }
    }
    true
}

pub fn check(c: &Conf) -> Check {
    let mut sections = vec![];
    let thorough = true; // cheap enough for both tiers
    sections.push(sec("escaped code units", 65536, move |tc, i| {
        let Some(ch) = char::from_u32(i as u32) else { return };
        let s = ch.to_string();
        for mask in if thorough { 0..16u8 } else { 0..4u8 } {
            let mask = if thorough { mask } else { [0, 15, tc.rng.next() as u8 & 15, tc.rng.next() as u8 & 15][mask as usize] };
            for q in ["'", "\""] {
                if !quick_name(tc, &s, &format!("{q}{}{q}", hex(i as u16, mask))) {
                    return;
                }
            }
        }
        if i < 0x300 || i % 97 == 0 || i > 0xff00 {
            for q in ["'", "\""] {
                if !denotes(tc, &s, &format!("{q}{}{q}", hex(i as u16, i as u8)), false) || !denotes(tc, &format!("a{s}b"), &format!("{q}a{}b{q}", hex(i as u16, !i as u8)), false) {
                    return;
                }
            }
        }
        tc.nontrivial(i);
    }));
    sections.push(sec("surrogate pairs", 0x100000 / 64, move |tc, i| {
        // all pairs in the thorough tier, otherwise one in eight, and the edges
        for k in 0..64u64 {
            let u = 0x10000 + i * 64 + k;
            let lo = u & 0x3ff;
            if !(thorough || (u * 0x9E37_79B9 >> 16) & 7 == 0 || lo == 0 || lo == 0x3ff || u < 0x10400 || u > 0x10fc00) {
                continue;
            }
            let ch = char::from_u32(u as u32).unwrap();
            let mut b = [0u16; 2];
            ch.encode_utf16(&mut b);
            let q = if u & 1 == 0 { '\'' } else { '"' };
            let m = tc.rng.next();
            let src = format!("{q}{}{}{q}", hex(b[0], m as u8), hex(b[1], (m >> 8) as u8));
            if !quick_name(tc, &ch.to_string(), &src) {
                return;
            }
            if k == 5 && !denotes(tc, &format!("{ch}x{ch}"), &format!("{q}{}{}x{ch}{q}", hex(b[0], m as u8), hex(b[1], (m >> 8) as u8)), false) {
                return;
            }
            tc.nontrivial(u);
        }
    }));
    sections.push(sec("unescaped characters", 0x110000 / 64, move |tc, i| {
        for u in i * 64..i * 64 + 64 {
            let Some(ch) = char::from_u32(u as u32) else { continue };
            if u < 0x20 || ch == '\\' {
                continue;
            }
            if !(thorough || u < 0x3000 || (u * 0x9E37_79B9 >> 16) & 3 == 0) {
                continue;
            }
            let s = ch.to_string();
            for q in ['\'', '"'] {
                if q != ch && !quick_name(tc, &s, &format!("{q}{ch}{q}")) {
                    return;
                }
            }
            if render::is_name_first(ch) {
                let doc = {
                    let mut m = Map::new();
                    m.insert(s.to_lowercase(), json!(0));
                    m.insert(s.to_uppercase(), json!(0));
                    m.insert(format!("{s}{s}"), json!(0));
                    m.insert(format!("a{s}"), json!(2));
                    m.insert("a".into(), json!(2));
                    m.insert(s.clone(), json!(1));
                    Value::Object(m)
                };
                for (t, k) in [(format!("$.{ch}"), s.clone()), (format!("$..a{ch}"), format!("a{s}"))] {
                    let Some(p) = parse(tc, &t) else { return };
                    let got = p.query(&doc).all();
                    if !(got.len() == 1 && std::ptr::eq(got[0], &doc[&k])) {
                        tc.fail(format!("{t} is to select exactly the member {k:?}, but gives {got:?}"), json!({"query": t, "document": show(&doc)}));
                        return;
                    }
                }
            }
            tc.nontrivial(u);
        }
    }));
    const SHORT: [(char, &str); 8] = [('b', "\u{8}"), ('f', "\u{c}"), ('n', "\n"), ('r', "\r"), ('t', "\t"), ('/', "/"), ('\\', "\\"), ('q', "")];
    sections.push(sec("short escapes", 8 * 8 * 8 * 2, |tc, i| {
        let q = if i % 2 == 0 { "'" } else { "\"" };
        let (mut s, mut src) = (String::new(), q.to_string());
        for k in [i / 2 % 8, i / 16 % 8, i / 128] {
            let (e, v) = SHORT[k as usize];
            src.push('\\');
            src.push(if e == 'q' { q.chars().next().unwrap() } else { e });
            s.push_str(if e == 'q' { q } else { v });
        }
        src.push_str(q);
        tc.nontrivial_s(&src);
        denotes(tc, &s, &src, false);
        // between other characters
        let other = if q == "'" { "\"" } else { "'" };
        let src = format!("{q}u{}{other}n{q}", &src[1..src.len() - 1]);
        denotes(tc, &format!("u{s}{other}n"), &src, false);
    }));
    sections.push(sec("random strings", c.n(250_000, 3_000_000), |tc, i| {
        let mut s = if tc.rng.chance(1, 3) { gen::key(&mut tc.rng) } else { gen::string(&mut tc.rng) };
        if tc.rng.chance(1, 30) {
            let n = *tc.rng.pick(gen::SIZES);
            s = (0..n).map(|_| gen::any_char(&mut tc.rng)).collect();
        }
        if tc.rng.chance(1, 4) {
            let k = tc.rng.below(3);
            for _ in 0..=k {
                let x = *tc.rng.pick(&["\\", "'", "\"", "\\u0041", "\\n", "\u{e9}", "e\u{301}", "\u{1F600}", "\\'", "/", "\u{0}", "\r\n", "\u{212b}", "\u{fb01}", "\u{130}", "\u{df}", "\u{200b}"]);
                s.push_str(x);
            }
        }
        let mut st = render::Style { rng: Some(&mut tc.rng), blanks: false, short: false };
        let mut src = String::new();
        render::string(&mut st, &mut src, &s);
        tc.nontrivial_s(&src);
        tc.sample(|| json!({"literal": clip(src.clone()), "denotes": clip(s.clone())}));
        if !denotes(tc, &s, &src, false) {
            return;
        }
        tc.max("string length", s.len() as u64);
        let _ = i;
    }));
    sections.push(sec("shorthand names", c.n(250_000, 3_000_000), |tc, _| {
        let n = if tc.rng.chance(1, 20) { (*tc.rng.pick(gen::SIZES)).max(1) } else { 1 + tc.rng.below(6) };
        let mut s = String::new();
        for k in 0..n {
            let ch = loop {
                let x = match tc.rng.below(4) {
                    0 => gen::any_char(&mut tc.rng),
                    1 => *tc.rng.pick(&['_', '\u{80}', '\u{a0}', '\u{d7ff}', '\u{e000}', '\u{10ffff}', '\u{301}', '\u{e9}', '\u{212b}', '\u{200d}', '\u{feff}', '\u{2028}', '\u{ffff}']),
                    2 => *tc.rng.pick(&['0', '9', '5', 'Z', 'z', 'A', 'a']),
                    _ => (b'a' + tc.rng.below(26) as u8) as char,
                };
                if render::is_name_first(x) || k > 0 && x.is_ascii_digit() {
                    break x;
                }
            };
            s.push(ch);
        }
        tc.nontrivial_s(&s);
        denotes(tc, &s, &s, true);
        tc.max("name length", s.len() as u64);
    }));
    sections.push(sec("number literals", c.n(400_000, 6_000_000), |tc, i| {
        let t = if i % 5 == 0 {
            // random digits anywhere
            let r = &mut tc.rng;
            let mut s = if r.chance(1, 2) { "-".to_string() } else { String::new() };
            let n = 1 + r.below(20);
            s.push((b'1' + r.below(9) as u8) as char);
            for _ in 1..n {
                s.push((b'0' + r.below(10) as u8) as char);
            }
            if r.chance(1, 2) {
                s.push('.');
                for _ in 0..1 + r.below(20) {
                    s.push((b'0' + r.below(10) as u8) as char);
                }
            }
            if r.chance(1, 2) {
                s.push_str(&format!("e{}", r.range(-320, 300 - n as i64)));
            }
            s
        } else {
            super::c03::number(tc)
        };
        let Ok(v) = serde_json::from_str::<Value>(&t) else { return };
        tc.nontrivial_s(&t);
        tc.sample(|| json!({"literal": t, "denotes": v}));
        if !spied(tc, &t, &v) {
            return;
        }
        let Some(f) = v.as_f64() else { return };
        let mut cand = vec![v.clone(), json!(f), json!(f64::from_bits(f.to_bits().wrapping_add(1))), json!(f64::from_bits(f.to_bits().wrapping_sub(1))), json!(-f), json!(f.trunc()), json!(t.clone())];
        if let Some(k) = v.as_i64() {
            cand.extend([json!(k.wrapping_add(1)), json!(k.wrapping_sub(1)), json!(k as i32), json!(k as u32)]);
        }
        let doc = Value::Array(cand);
        for op in [Op::Eq, Op::Lt, Op::Ge] {
            let q = filter(Expr::Cmp(Cmpb::Query(Query::cur()), op, Cmpb::Lit(Lit::Num(t.clone()))));
            if check_eval(tc, &q, &render::plain(&q), &doc).is_none() && tc.failed() {
                return;
            }
        }
    }));
    // the same literal in all its places at once: names, comparisons, function arguments
    sections.push(sec("places", c.n(100_000, 1_000_000), |tc, _| {
        let s = gen::string(&mut tc.rng);
        let mut src = || {
            let mut o = String::new();
            render::string(&mut render::Style { rng: Some(&mut tc.rng), blanks: false, short: false }, &mut o, &s);
            o
        };
        let t = format!("$[{}][?@[{}]=={}&&length({})=={}]", src(), src(), src(), src(), s.chars().count());
        let doc = {
            let mut m = Map::new();
            m.insert(s.clone(), json!([{ &s: s }, { &s: format!("{s}.") }, { format!("{s}."): s }]));
            m.insert(format!("{s}."), json!([{ &s: s }]));
            Value::Object(m)
        };
        let Some(p) = parse(tc, &t) else { return };
        let got = p.query(&doc).all();
        if !(got.len() == 1 && std::ptr::eq(got[0], &doc[&s][0])) {
            tc.fail(format!("{t} gives {got:?} on {}", show(&doc)), json!({"query": t, "document": show(&doc)}));
            return;
        }
        tc.nontrivial(mix(hash_bytes(t.as_bytes())));
    }));
    Check {
        rule: "every execution is one parse and evaluation of a query with a literal against a document made of the exact value and of values that a wrong reading would yield; non-trivial = distinct literal text or code point",
        assumptions: vec!["a number literal denotes what serde_json reads from the same text"],
        sections,
        need: if cfg!(feature = "functions") { vec!["literals handed to a function"] } else { vec![] },
    }
}
