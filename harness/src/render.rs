//! Syntax tree → text, with free choice of blanks, quotes, escapes and short forms.
use crate::ast::*;
use crate::rng::Rng;

/// How freely to render: 0 = canonical bracket notation, without blanks; 1 = varied
pub struct Style<'r> {
    pub rng: Option<&'r mut Rng>,
    pub blanks: bool,
    /// shorthand notation wherever there is one
    pub short: bool,
}

pub fn plain(q: &Query) -> String {
    let mut s = Style { rng: None, blanks: false, short: false };
    let mut out = String::new();
    query(&mut s, &mut out, q);
    out
}
/// shorthand wherever possible, without blanks
pub fn short(q: &Query) -> String {
    let mut s = Style { rng: None, blanks: false, short: true };
    let mut out = String::new();
    query(&mut s, &mut out, q);
    out
}
pub fn varied(r: &mut Rng, q: &Query) -> String {
    let blanks = r.chance(1, 3);
    let mut s = Style { rng: Some(r), blanks, short: false };
    let mut out = String::new();
    query(&mut s, &mut out, q);
    out
}

fn ws(s: &mut Style, out: &mut String) {
    if !s.blanks {
        return;
    }
    if let Some(r) = s.rng.as_deref_mut() {
        if r.chance(1, 3) {
            for _ in 0..1 + r.below(2) {
                out.push(*r.pick(&[' ', ' ', '\t', '\n', '\r']));
            }
        }
    }
}
fn flip(s: &mut Style, n: usize, d: usize) -> bool {
    s.rng.as_deref_mut().map_or(false, |r| r.chance(n, d))
}

pub fn is_name_first(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '_' || c as u32 >= 0x80
}
pub fn is_shorthand(n: &str) -> bool {
    let mut it = n.chars();
    match it.next() {
        Some(c) if is_name_first(c) => it.all(|c| is_name_first(c) || c.is_ascii_digit()),
        _ => false,
    }
}

pub fn query(s: &mut Style, out: &mut String, q: &Query) {
    out.push(if q.abs { '$' } else { '@' });
    for seg in &q.segs {
        segment(s, out, seg, true);
    }
}
/// a singular query where blanks inside the brackets are left out
fn singular(s: &mut Style, out: &mut String, q: &Query) {
    out.push(if q.abs { '$' } else { '@' });
    for seg in &q.segs {
        segment(s, out, seg, false);
    }
}
fn segment(s: &mut Style, out: &mut String, seg: &Seg, inner_ws: bool) {
    ws(s, out);
    if seg.desc {
        out.push_str("..");
    }
    if seg.sels.len() == 1 {
        match &seg.sels[0] {
            Sel::Wild if s.short || flip(s, 1, 2) => {
                if !seg.desc {
                    out.push('.');
                }
                out.push('*');
                return;
            }
            Sel::Name(n) if is_shorthand(n) && (s.short || flip(s, 1, 2)) => {
                if !seg.desc {
                    out.push('.');
                }
                out.push_str(n);
                return;
            }
            _ => {}
        }
    }
    out.push('[');
    if inner_ws {
        ws(s, out);
    }
    for (i, sel) in seg.sels.iter().enumerate() {
        if i > 0 {
            ws(s, out);
            out.push(',');
            ws(s, out);
        }
        selector(s, out, sel);
    }
    if inner_ws {
        ws(s, out);
    }
    out.push(']');
}
fn selector(s: &mut Style, out: &mut String, sel: &Sel) {
    match sel {
        Sel::Name(n) => string(s, out, n),
        Sel::Wild => out.push('*'),
        Sel::Index(i) => out.push_str(&i.to_string()),
        Sel::Slice(a, b, c) => {
            if let Some(a) = a {
                out.push_str(&a.to_string());
                ws(s, out);
            }
            out.push(':');
            ws(s, out);
            if let Some(b) = b {
                out.push_str(&b.to_string());
                ws(s, out);
            }
            if let Some(c) = c {
                out.push(':');
                ws(s, out);
                out.push_str(&c.to_string());
            } else if flip(s, 1, 4) {
                out.push(':');
            }
        }
        Sel::Filter(e) => {
            out.push('?');
            ws(s, out);
            expr(s, out, e);
        }
    }
}
/// e must be well formed: Or's children are not Or, And's children neither Or nor And,
/// Not's child is Paren, Exist or Func
pub fn expr(s: &mut Style, out: &mut String, e: &Expr) {
    match e {
        Expr::Or(v) | Expr::And(v) => {
            let op = if matches!(e, Expr::Or(_)) { "||" } else { "&&" };
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    ws(s, out);
                    out.push_str(op);
                    ws(s, out);
                }
                expr(s, out, x);
            }
        }
        Expr::Not(x) => {
            out.push('!');
            ws(s, out);
            expr(s, out, x);
        }
        Expr::Paren(x) => {
            out.push('(');
            ws(s, out);
            expr(s, out, x);
            ws(s, out);
            out.push(')');
        }
        Expr::Cmp(a, op, b) => {
            cmpb(s, out, a);
            ws(s, out);
            out.push_str(op.text());
            ws(s, out);
            cmpb(s, out, b);
        }
        Expr::Exist(q) => query(s, out, q),
        Expr::Func(f) => func(s, out, f),
    }
}
fn cmpb(s: &mut Style, out: &mut String, c: &Cmpb) {
    match c {
        Cmpb::Lit(l) => lit(s, out, l),
        Cmpb::Query(q) => singular(s, out, q),
        Cmpb::Func(f) => func(s, out, f),
    }
}
fn lit(s: &mut Style, out: &mut String, l: &Lit) {
    match l {
        Lit::Null => out.push_str("null"),
        Lit::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        Lit::Num(n) => out.push_str(n),
        Lit::Str(x) => string(s, out, x),
    }
}
pub fn func(s: &mut Style, out: &mut String, f: &Func) {
    out.push_str(&f.name);
    out.push('(');
    ws(s, out);
    for (i, a) in f.args.iter().enumerate() {
        if i > 0 {
            ws(s, out);
            out.push(',');
            ws(s, out);
        }
        match a {
            Arg::Lit(l) => lit(s, out, l),
            Arg::Query(q) if q.is_singular() => singular(s, out, q),
            Arg::Query(q) => query(s, out, q),
            Arg::Logical(e) => expr(s, out, e),
            Arg::Func(f) => func(s, out, f),
        }
    }
    ws(s, out);
    out.push(')');
}

pub fn string(s: &mut Style, out: &mut String, x: &str) {
    let dq = flip(s, 1, 2);
    let q = if dq { '"' } else { '\'' };
    let esc_all = flip(s, 1, 12);
    out.push(q);
    for c in x.chars() {
        let wild = esc_all || flip(s, 1, 25);
        let must = (c as u32) < 0x20 || c == '\\' || c == q;
        if !must && !wild {
            out.push(c);
            continue;
        }
        let short = match c {
            '\u{8}' => Some('b'),
            '\u{c}' => Some('f'),
            '\n' => Some('n'),
            '\r' => Some('r'),
            '\t' => Some('t'),
            '/' => Some('/'),
            '\\' => Some('\\'),
            c if c == q => Some(c),
            _ => None,
        };
        match short {
            Some(e) if !flip(s, 1, 3) => {
                out.push('\\');
                out.push(e);
            }
            _ => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    out.push_str("\\u");
                    for k in [12, 8, 4, 0] {
                        let d = (*u >> k & 15) as u32;
                        let mut ch = char::from_digit(d, 16).unwrap();
                        if flip(s, 1, 2) {
                            ch = ch.to_ascii_uppercase();
                        }
                        out.push(ch);
                    }
                }
            }
        }
    }
    out.push(q);
}

/// The RFC 9535 section 2.7 normalized path of a location
pub enum El<'a> {
    Name(&'a str),
    Idx(usize),
}
pub fn normalized<'a>(els: impl Iterator<Item = El<'a>>) -> String {
    let mut o = String::from("$");
    for e in els {
        match e {
            El::Idx(i) => {
                o.push('[');
                o.push_str(&i.to_string());
                o.push(']');
            }
            El::Name(n) => {
                o.push_str("['");
                for c in n.chars() {
                    match c as u32 {
                        0x08 => o.push_str("\\b"),
                        0x09 => o.push_str("\\t"),
                        0x0a => o.push_str("\\n"),
                        0x0c => o.push_str("\\f"),
                        0x0d => o.push_str("\\r"),
                        0x27 => o.push_str("\\'"),
                        0x5c => o.push_str("\\\\"),
                        u if u < 0x20 => {
                            o.push_str("\\u00");
                            o.push(char::from_digit(u >> 4, 16).unwrap());
                            o.push(char::from_digit(u & 15, 16).unwrap());
                        }
                        _ => o.push(c),
                    }
                }
                o.push_str("']");
            }
        }
    }
    o
}
