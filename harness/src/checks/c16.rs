//! The integer type against arithmetic on 128 bits.
use super::common::clip;
use crate::rng::{mix, Rng};
use crate::run::*;
use serde_json::json;
use serde_json_path::JsonPath;
use serde_json_path_core::spec::integer::Integer;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

const TOP: i128 = (1 << 53) - 1;

/// The value a number has, found out without its own conversion to text: by comparison
fn value(x: Integer) -> i128 {
    let (mut lo, mut hi) = (i64::MIN as i128, i64::MAX as i128);
    while lo < hi {
        let m = (lo + hi + 1).div_euclid(2);
        if x >= m as i64 {
            lo = m
        } else {
            hi = m - 1
        }
    }
    lo
}
fn fail(tc: &mut Tc, what: &str, a: impl Debug, b: impl Debug, got: impl Debug, want: impl Debug) {
    tc.fail(
        format!("{what} of {a:?} {b:?}: {got:?}, expected {want:?}"),
        json!({"what": what, "a": format!("{a:?}"), "b": format!("{b:?}"), "got": format!("{got:?}"), "expected": format!("{want:?}")}),
    )
}
/// Some(x) holding v exactly when v is in range
fn expect(tc: &mut Tc, what: &str, v: i128, got: Option<Integer>) {
    tc.ev();
    let want = (-TOP..=TOP).contains(&v).then_some(v);
    // the derived comparisons and the text must tell the same
    let g = got.map(|x| (x == v as i64 && v == v as i64 as i128, x.to_string()));
    let w = want.map(|v| (true, v.to_string()));
    if g != w {
        fail(tc, what, v, "", &got, want);
    }
    tc.count(if want.is_some() { "conversions in range" } else { "conversions out of range" });
}
fn to<T: TryFrom<i128>>(v: i128) -> Option<T> {
    T::try_from(v).ok()
}
fn int(v: i128) -> Integer {
    // deliberately not through the conversions alone
    Integer::try_from(v as i64).unwrap_or_else(|e| panic!("{v} is in range, but rejected: {e}"))
}

/// all conversions of one value
fn conversions(tc: &mut Tc, v: i128) {
    expect(tc, "TryFrom<i128>", v, Integer::try_from(v).ok());
    if let Some(x) = to::<i64>(v) {
        expect(tc, "TryFrom<i64>", v, Integer::try_from(x).ok());
        let r = guarded(|| Integer::from_i64_unchecked(x));
        expect(tc, "from_i64_unchecked", v, r.ok());
    }
    if let Some(x) = to::<u64>(v) {
        expect(tc, "TryFrom<u64>", v, Integer::try_from(x).ok());
    }
    if let Some(x) = to::<u128>(v) {
        expect(tc, "TryFrom<u128>", v, Integer::try_from(x).ok());
    }
    if let Some(x) = to::<usize>(v) {
        expect(tc, "TryFrom<usize>", v, Integer::try_from(x).ok());
    }
    if let Some(x) = to::<isize>(v) {
        expect(tc, "TryFrom<isize>", v, Integer::try_from(x).ok());
    }
    macro_rules! small {
        ($($t:ty)*) => {$(
            if let Some(x) = to::<$t>(v) {
                expect(tc, concat!("From<", stringify!($t), ">"), v, Some(Integer::from(x)));
            }
        )*};
    }
    small!(i8 i16 i32 u8 u16 u32);
    expect(tc, "FromStr", v, v.to_string().parse::<Integer>().ok());
    if tc.failed() {
        return;
    }
    if !(-TOP..=TOP).contains(&v) {
        return;
    }
    let x = int(v);
    tc.nontrivial(mix(v as u64));
    if value(x) != v {
        fail(tc, "value", v, "", value(x), v);
    }
    if usize::try_from(x).ok() != usize::try_from(v).ok() {
        fail(tc, "TryFrom<Integer> for usize", v, "", usize::try_from(x).ok(), usize::try_from(v).ok());
    }
    if value(x.abs()) != v.abs() || x.abs().to_string() != v.abs().to_string() {
        fail(tc, "abs", v, "", x.abs(), v.abs());
    }
    // texts of the same value: whoever accepts them must get it right
    for t in [format!("{:+}", v), format!("{v:030}"), format!("{v:05}")] {
        if let Ok(y) = t.parse::<Integer>() {
            if y != x {
                fail(tc, "FromStr", &t, "", y, v);
            }
        }
    }
    for (l, r) in [(format!("{x:>20}|{x:<20}|{x:^9}"), 50), (format!("{x:?}"), 0)] {
        tc.ev();
        let digits: String = l.chars().filter(|c| c.is_ascii_digit()).collect();
        let d = v.abs().to_string();
        if digits != d.repeat(if r == 0 { 1 } else { 3 }) {
            fail(tc, "formatting", v, "", l, v);
        }
    }
}
fn hash(x: Integer) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn pair(tc: &mut Tc, a: i128, b: i128) {
    let (x, y) = (int(a), int(b));
    for (what, got, want) in [
        ("sum", x.checked_add(y), a + b),
        ("difference", x.checked_sub(y), a - b),
        ("product", x.checked_mul(y), a * b),
    ] {
        tc.ev();
        let w = (want.abs() <= TOP).then_some(want);
        tc.count(if w.is_some() { "operations with a result" } else { "operations out of range" });
        if let (Some(g), Some(w)) = (got, w) {
            if value(g) == w {
                continue;
            }
        } else if got.is_none() && w.is_none() {
            continue;
        }
        fail(tc, what, a, b, got, w);
    }
    tc.evn(4);
    let bad = x.cmp(&y) != a.cmp(&b)
        || x.partial_cmp(&y) != Some(a.cmp(&b))
        || (x == y) != (a == b)
        || (x < y, x <= y, x > y, x >= y) != (a < b, a <= b, a > b, a >= b)
        || x.max(y) != int(a.max(b))
        || x.min(y) != int(a.min(b))
        || (a == b && hash(x) != hash(y));
    if bad {
        fail(tc, "comparison", a, b, x.cmp(&y), a.cmp(&b));
    }
    with_i64(tc, a, b as i64);
    tc.nontrivial(mix(a as u64 ^ mix(b as u64)));
}
fn with_i64(tc: &mut Tc, a: i128, b: i64) {
    tc.ev();
    let x = int(a);
    let w = a.cmp(&(b as i128));
    if x.partial_cmp(&b) != Some(w)
        || (x == b) != (w == Ordering::Equal)
        || (x < b, x <= b, x > b, x >= b) != (w.is_lt(), w.is_le(), w.is_gt(), w.is_ge())
    {
        fail(tc, "comparison with i64", a, b, x.partial_cmp(&b), w);
    }
}

/// values at and around everything that could be a boundary
fn pool() -> Vec<i128> {
    let mut v = vec![];
    let mut add = |x: i128| {
        for d in -2..=2 {
            v.push(x + d);
            v.push(-x + d);
        }
    };
    add(0);
    for k in 0..=127u32 {
        if let Some(x) = 1i128.checked_shl(k).filter(|x| *x > 0 && *x < i128::MAX / 2) {
            add(x);
            add(x + x / 2);
        }
    }
    for k in 0..38u32 {
        add(10i128.pow(k));
    }
    // TOP = 6361 * 69431 * 20394401
    for f in [6361, 69431, 20394401, 6361 * 69431, 6361 * 20394401, 69431 * 20394401, TOP, TOP / 2, TOP / 3, 94906265, 94906266, 67108864] {
        add(f);
    }
    v.extend([i128::MAX, i128::MIN, i64::MAX as i128 - TOP, (1 << 64) + 5, (1 << 64) + TOP, -(1 << 64) - 5, (1i128 << 64) * 3 + 1]);
    v.sort();
    v.dedup();
    v
}
fn small_pool() -> Vec<i128> {
    pool().into_iter().filter(|v| (-TOP..=TOP).contains(v)).collect()
}
fn any(r: &mut Rng) -> i128 {
    let s = 1u32 << r.below(54).min(53) as u32 % 31;
    let v = match r.below(6) {
        0 => TOP - r.below(1000) as i128,
        1 => r.below(2000) as i128,
        2 => (1i128 << r.below(53)) + r.below(5) as i128 - 2,
        3 => ((TOP as f64).sqrt() as i128) + r.below(s as usize) as i128 - s as i128 / 2,
        4 => TOP / (1 + r.below(10000) as i128) + r.below(3) as i128 - 1,
        _ => (r.next() as i128) & TOP,
    }
    .clamp(-TOP, TOP);
    if r.chance(1, 2) {
        -v
    } else {
        v
    }
}
/// partner that brings the result of an operation close to the edge
fn partner(r: &mut Rng, a: i128) -> i128 {
    let e = if r.chance(1, 2) { TOP } else { -TOP } + r.below(7) as i128 - 3;
    let b = match r.below(4) {
        0 => e - a,
        1 => a - e,
        2 if a != 0 => e / a + r.below(3) as i128 - 1,
        _ => return any(r),
    };
    b.clamp(-TOP, TOP)
}

/// a text of any kind, and what it denotes if it is an integer in decimal notation
fn texts(tc: &mut Tc, t: &str) {
    tc.ev();
    let body = t.strip_prefix(['-', '+']).unwrap_or(t);
    let decimal = !body.is_empty() && body.bytes().all(|b| b.is_ascii_digit());
    let canonical = decimal && !t.starts_with('+') && (body == "0" || !body.starts_with('0')) && t != "-0";
    let digits = body.trim_start_matches('0');
    let v: Option<i128> = if !decimal || digits.len() > 30 {
        None
    } else {
        let m: i128 = if digits.is_empty() { 0 } else { digits.parse().unwrap() };
        Some(if t.starts_with('-') { -m } else { m })
    };
    let v = v.filter(|v| (-TOP..=TOP).contains(v));
    let got = t.parse::<Integer>();
    match (&got, v) {
        (Ok(x), Some(v)) if value(*x) == v => {
            tc.count("texts accepted");
            tc.nontrivial_s(t);
        }
        (Ok(x), _) => fail(tc, "FromStr", clip(t.to_string()), "", x, v),
        // other spellings of an integer may be refused
        (Err(_), Some(v)) if canonical => fail(tc, "FromStr", clip(t.to_string()), "", "an error", v),
        (Err(e), _) => {
            tc.count("texts rejected");
            if e.to_string().is_empty() {
                fail(tc, "error", t, "", "", "a message");
            }
        }
    }
}

/// indices and slices in queries go through the same type
fn queries(tc: &mut Tc, v: i128) {
    let ok = (-TOP..=TOP).contains(&v);
    let doc = json!([0, 1, 2, 3, 4]);
    let n = 5i128;
    let idx = |i: i128| {
        let j = if i < 0 { i + n } else { i };
        (0..n).contains(&j).then_some(j)
    };
    let clamp = |i: i128, lo: i128, hi: i128| (if i < 0 { i + n } else { i }).clamp(lo, hi);
    let all: Vec<(String, Vec<i128>)> = vec![
        (format!("$[{v}]"), idx(v).into_iter().collect()),
        (format!("$[{v}:]"), (clamp(v, 0, n)..n).collect()),
        (format!("$[:{v}]"), (0..clamp(v, 0, n)).collect()),
        (format!("$[{v}::-1]"), (0..=clamp(v, -1, n - 1)).rev().collect()),
        (format!("$[:{v}:-1]"), (clamp(v, -1, n - 1) + 1..n).rev().collect()),
        (format!("$[::{v}]"), if v > 0 { (0..n).step_by(v.min(1000) as usize).collect() } else if v < 0 { (0..n).rev().step_by((-v).min(1000) as usize).collect() } else { vec![] }),
        (format!("$[{v}:{v}:{v}]"), vec![]),
    ];
    for (t, want) in all {
        tc.ev();
        match (JsonPath::parse(&t), ok) {
            (Err(_), false) => tc.count("queries rejected"),
            (Ok(p), true) => {
                tc.count("queries accepted");
                let got: Vec<i128> = p.query(&doc).iter().map(|v| v.as_i64().unwrap() as i128).collect();
                if got != want {
                    fail(tc, "query", &t, &doc, got, want);
                }
            }
            (r, _) => fail(tc, "query", &t, "", r.map_err(|e| e.to_string()), if ok { "accepted" } else { "rejected" }),
        }
    }
}

pub fn check(c: &Conf) -> Check {
    let all = pool();
    let small = small_pool();
    let (np, ns) = (all.len() as u64, small.len() as u64);
    let p1 = all.clone();
    let p2: Vec<i128> = all.iter().copied().filter(|v| v.unsigned_abs() < 1 << 120).collect();
    let nq = p2.len() as u64;
    let mut sections = vec![];
    sections.push(sec("boundaries", np, move |tc, i| conversions(tc, p1[i as usize])));
    sections.push(sec("pairs of boundaries", ns, move |tc, i| {
        for b in &small {
            pair(tc, small[i as usize], *b);
        }
        for b in [i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1, TOP as i64 + 1, -TOP as i64 - 1] {
            with_i64(tc, small[i as usize], b);
        }
    }));
    sections.push(sec("small pairs", 401, |tc, i| {
        for b in -200..=200 {
            pair(tc, i as i128 - 200, b);
        }
    }));
    sections.push(sec("all narrow values", 1 << 9, |tc, i| {
        for k in 0..256 {
            let v = (i * 256 + k) as i128 - (1 << 16);
            if v >= i16::MIN as i128 && v <= u16::MAX as i128 {
                conversions(tc, v);
            }
        }
    }));
    sections.push(sec("around the limits", 400, |tc, i| {
        for k in 0..100 {
            let d = (i / 4 * 100 + k) as i128 - 5000;
            let v = match i % 4 {
                0 => TOP + d,
                1 => -TOP + d,
                2 => i64::MAX as i128 + d,
                _ => u64::MAX as i128 + d,
            };
            conversions(tc, v);
        }
    }));
    sections.push(sec("pairs", c.n(20_000, 400_000), |tc, _| {
        for _ in 0..100 {
            let a = any(&mut tc.rng);
            let b = partner(&mut tc.rng, a);
            pair(tc, a, b);
            pair(tc, b, a);
        }
    }));
    sections.push(sec("chains", c.n(20_000, 400_000), |tc, _| {
        // no sequence of operations leaves the range or the exact value
        let mut v = any(&mut tc.rng);
        let mut x = int(v);
        for _ in 0..60 {
            let b = partner(&mut tc.rng, v);
            let y = int(b);
            let (w, g, n) = match tc.rng.below(4) {
                0 => (v + b, x.checked_add(y), "sum"),
                1 => (v - b, x.checked_sub(y), "difference"),
                2 => (v * b, x.checked_mul(y), "product"),
                _ => (v.abs(), Some(x.abs()), "absolute value"),
            };
            tc.ev();
            match g {
                Some(g) if w.abs() <= TOP && value(g) == w => (x, v) = (g, w),
                None if w.abs() > TOP => tc.count("chained operations out of range"),
                g => return fail(tc, n, v, b, g, w),
            }
        }
        tc.nontrivial(mix(v as u64 ^ 77));
    }));
    sections.push(sec("wide values", c.n(20_000, 400_000), |tc, _| {
        for _ in 0..20 {
            let k = tc.rng.below(128) as u32;
            let w = ((tc.rng.next() as u128) << 64 | tc.rng.next() as u128) >> k;
            expect_u128(tc, w);
            conversions(tc, w as i128);
            conversions(tc, (w as i128).wrapping_neg());
            // equal in the low bits to something small
            let low = any(&mut tc.rng);
            let s = 54 + tc.rng.below(60);
            conversions(tc, (1i128 << s) + low);
        }
    }));
    sections.push(sec("texts", c.n(20_000, 400_000), |tc, i| {
        const FIX: &[&str] = &[
            "", "-", "+", "--1", "+-1", "-+1", " 1", "1 ", "1\n", "\t1", "0x10", "1e3", "1.0", "1_000", "1,000", "١", "１", "−1", "0b1", "NaN", "-0",
            "+0", "00", "9007199254740991", "9007199254740992", "-9007199254740991", "-9007199254740992", "9223372036854775807", "9223372036854775808",
            "-9223372036854775808", "-9223372036854775809", "18446744073709551617", "340282366920938463463374607431768211457", "1\0", "0 ", "-9007199254740991 ",
        ];
        if let Some(t) = FIX.get(i as usize) {
            return texts(tc, t);
        }
        for _ in 0..30 {
            let r = &mut tc.rng;
            let mut t: String = match r.below(3) {
                0 => any(r).to_string(),
                1 => (0..r.below(25)).map(|_| *r.pick(&['0', '1', '9', '7', '5'])).collect(),
                _ => format!("{}{}", *r.pick(&["-", "+", "", "0", "-0"]), any(r).abs()),
            };
            if r.chance(1, 3) {
                let k = r.below(t.len() + 1);
                t.insert(k, *r.pick(&['-', '+', ' ', '0', '9', '.', 'e', '_', '²', '٣', '\0']));
            }
            texts(tc, &t);
        }
    }));
    sections.push(sec("queries", nq, move |tc, i| queries(tc, p2[i as usize])));
    sections.push(sec("more queries", c.n(4000, 60_000), |tc, _| {
        for _ in 0..10 {
            let v = any(&mut tc.rng);
            queries(tc, v);
            queries(tc, v + if v > 0 { 8 } else { -8 });
            let k = tc.rng.below(20);
            queries(tc, k as i128 - 10);
        }
    }));
    Check {
        rule: "a value or a pair of values with an in-range value, accepted text or evaluated query",
        assumptions: vec!["arithmetic on i128 in the harness is exact", "a leading `+` and leading zeros in a text may be refused, but must not change the value"],
        sections,
        need: vec!["conversions in range", "conversions out of range", "operations with a result", "operations out of range", "texts accepted", "texts rejected", "queries accepted", "queries rejected", "chained operations out of range"],
    }
}
fn expect_u128(tc: &mut Tc, w: u128) {
    tc.ev();
    let got = Integer::try_from(w).ok();
    let want = (w <= TOP as u128).then_some(w as i128);
    if got.map(value) != want {
        fail(tc, "TryFrom<u128>", w, "", got, want);
    }
}
