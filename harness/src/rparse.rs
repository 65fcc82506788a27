//! Reference parser: RFC 9535 grammar and validity, written from the RFC.
use crate::ast::*;
use crate::funcs::{sig, Ty};

#[derive(Clone, Debug, PartialEq)]
pub enum Sem {
    IntRange,
    Undefined(String),
    ArgCount { name: String, expected: usize, received: usize },
    ArgKind { name: String, position: usize, expected: Ty, received: &'static str },
    ResultKind { name: String },
}

#[derive(Clone, Debug)]
pub enum Verdict {
    Accept(Query),
    /// `pos`: first point at which the text can not be continued to a query any more (for
    /// validity errors: the end of the offending construct)
    Reject { pos: usize, sem: Vec<Sem> },
    Unspec(&'static str),
}

struct P<'a> {
    s: &'a [u8],
    t: &'a str,
    pos: usize,
    far: usize,
    unspec: Option<&'static str>,
    sem: Vec<Sem>,
    sem_pos: usize,
}
type R<T> = Result<T, ()>;

enum Basic {
    E(Expr),
    Lit(Lit),
    ValueFunc(Func),
}

pub const MAX_INT: i64 = 9_007_199_254_740_991;

pub fn parse(t: &str) -> Verdict {
    let mut p = P { s: t.as_bytes(), t, pos: 0, far: 0, unspec: None, sem: vec![], sem_pos: 0 };
    let r = p.main();
    match r {
        Err(()) => Verdict::Reject { pos: p.far, sem: vec![] },
        Ok(q) => {
            if !p.sem.is_empty() {
                Verdict::Reject { pos: p.sem_pos, sem: p.sem }
            } else if let Some(u) = p.unspec {
                Verdict::Unspec(u)
            } else {
                Verdict::Accept(q)
            }
        }
    }
}

/// what is wrong with a text that is well-formed and has exactly one defect
pub fn only_defect(t: &str) -> Option<Sem> {
    let mut p = P { s: t.as_bytes(), t, pos: 0, far: 0, unspec: None, sem: vec![], sem_pos: 0 };
    match p.main() {
        Ok(_) if p.unspec.is_none() && p.sem.len() == 1 => p.sem.pop(),
        _ => None,
    }
}

impl<'a> P<'a> {
    fn fail<T>(&mut self) -> R<T> {
        self.note();
        Err(())
    }
    fn note(&mut self) {
        self.far = self.far.max(self.pos);
    }
    fn peek(&self) -> Option<u8> {
        self.s.get(self.pos).copied()
    }
    fn at(&self, k: usize) -> Option<u8> {
        self.s.get(self.pos + k).copied()
    }
    fn chr(&self) -> Option<char> {
        self.t[self.pos..].chars().next()
    }
    fn eat(&mut self, b: u8) -> R<()> {
        if self.peek() == Some(b) {
            self.pos += 1;
            Ok(())
        } else {
            self.fail()
        }
    }
    fn ws(&mut self) -> bool {
        let p = self.pos;
        while matches!(self.peek(), Some(b' ' | b'\t' | b'\n' | b'\r')) {
            self.pos += 1;
        }
        self.pos != p
    }
    fn sem(&mut self, e: Sem) {
        if self.sem.is_empty() {
            self.sem_pos = self.pos;
        }
        self.sem.push(e);
    }
    fn main(&mut self) -> R<Query> {
        self.eat(b'$')?;
        let (segs, _) = self.segs()?;
        if self.pos != self.s.len() {
            return self.fail();
        }
        Ok(Query { abs: true, segs })
    }
    fn segs(&mut self) -> R<(Vec<Seg>, bool)> {
        let mut v = vec![];
        let mut inner = false;
        loop {
            let save = self.pos;
            self.ws();
            match self.peek() {
                Some(b'[') => {
                    let (sels, w) = self.bracketed()?;
                    inner |= w;
                    v.push(Seg { desc: false, sels });
                }
                Some(b'.') => {
                    self.pos += 1;
                    if self.peek() == Some(b'.') {
                        self.pos += 1;
                        let sels = match self.peek() {
                            Some(b'[') => self.bracketed()?.0,
                            _ => vec![self.dot_sel()?],
                        };
                        v.push(Seg { desc: true, sels });
                    } else {
                        let s = self.dot_sel()?;
                        v.push(Seg { desc: false, sels: vec![s] });
                    }
                }
                _ => {
                    self.note();
                    self.pos = save;
                    return Ok((v, inner));
                }
            }
        }
    }
    fn dot_sel(&mut self) -> R<Sel> {
        if self.peek() == Some(b'*') {
            self.pos += 1;
            return Ok(Sel::Wild);
        }
        let start = self.pos;
        match self.chr() {
            Some(c) if c.is_ascii_alphabetic() || c == '_' || c >= '\u{80}' => {
                self.pos += c.len_utf8()
            }
            _ => return self.fail(),
        }
        while let Some(c) = self.chr() {
            if c.is_ascii_alphanumeric() || c == '_' || c >= '\u{80}' {
                self.pos += c.len_utf8();
            } else {
                break;
            }
        }
        self.note();
        Ok(Sel::Name(self.t[start..self.pos].to_string()))
    }
    fn bracketed(&mut self) -> R<(Vec<Sel>, bool)> {
        self.eat(b'[')?;
        let mut inner = self.ws();
        let mut sels = vec![self.selector()?];
        loop {
            inner |= self.ws();
            match self.peek() {
                Some(b',') => {
                    self.pos += 1;
                    self.ws();
                    let s = self.selector()?;
                    sels.push(s);
                }
                Some(b']') => {
                    self.pos += 1;
                    return Ok((sels, inner));
                }
                _ => return self.fail(),
            }
        }
    }
    fn int(&mut self) -> R<i64> {
        let start = self.pos;
        if self.peek() == Some(b'0') {
            self.pos += 1;
            return Ok(0);
        }
        if self.peek() == Some(b'-') {
            self.pos += 1;
        }
        match self.peek() {
            Some(b'1'..=b'9') => self.pos += 1,
            _ => return self.fail(),
        }
        while matches!(self.peek(), Some(b'0'..=b'9')) {
            self.pos += 1;
        }
        match self.t[start..self.pos].parse::<i64>() {
            Ok(i) if (-MAX_INT..=MAX_INT).contains(&i) => Ok(i),
            _ => {
                self.sem(Sem::IntRange);
                Ok(0)
            }
        }
    }
    fn selector(&mut self) -> R<Sel> {
        match self.peek() {
            Some(b'\'' | b'"') => Ok(Sel::Name(self.string()?)),
            Some(b'*') => {
                self.pos += 1;
                Ok(Sel::Wild)
            }
            Some(b'?') => {
                self.pos += 1;
                self.ws();
                Ok(Sel::Filter(self.logical()?))
            }
            Some(b'-' | b'0'..=b'9' | b':') => {
                let mut start = None;
                if self.peek() != Some(b':') {
                    let i = self.int()?;
                    let save = self.pos;
                    self.ws();
                    if self.peek() != Some(b':') {
                        self.note();
                        self.pos = save;
                        return Ok(Sel::Index(i));
                    }
                    start = Some(i);
                }
                self.eat(b':')?;
                let mut save = self.pos;
                self.ws();
                let mut end = None;
                if matches!(self.peek(), Some(b'-' | b'0'..=b'9')) {
                    end = Some(self.int()?);
                    save = self.pos;
                    self.ws();
                }
                if self.peek() != Some(b':') {
                    self.note();
                    self.pos = save;
                    return Ok(Sel::Slice(start, end, None));
                }
                self.pos += 1;
                let save = self.pos;
                self.ws();
                let mut step = None;
                if matches!(self.peek(), Some(b'-' | b'0'..=b'9')) {
                    step = Some(self.int()?);
                } else {
                    self.note();
                    self.pos = save;
                }
                Ok(Sel::Slice(start, end, step))
            }
            _ => self.fail(),
        }
    }
    fn hex4(&mut self) -> R<u32> {
        let mut v = 0;
        for _ in 0..4 {
            match self.peek().and_then(|b| (b as char).to_digit(16)) {
                Some(d) => {
                    v = v * 16 + d;
                    // a lone low surrogate is never allowed here: handled by the caller
                    self.pos += 1;
                }
                None => return self.fail(),
            }
        }
        Ok(v)
    }
    fn string(&mut self) -> R<String> {
        let q = self.peek().unwrap() as char;
        self.pos += 1;
        let mut o = String::new();
        loop {
            let Some(c) = self.chr() else { return self.fail() };
            if c == q {
                self.pos += 1;
                return Ok(o);
            }
            if c == '\\' {
                self.pos += 1;
                let Some(e) = self.chr() else { return self.fail() };
                let d = match e {
                    'b' => '\u{8}',
                    'f' => '\u{c}',
                    'n' => '\n',
                    'r' => '\r',
                    't' => '\t',
                    '/' => '/',
                    '\\' => '\\',
                    e if e == q => q,
                    'u' => {
                        self.pos += 1;
                        let h = self.hex4()?;
                        if (0xdc00..0xe000).contains(&h) {
                            return self.fail();
                        }
                        if (0xd800..0xdc00).contains(&h) {
                            self.eat(b'\\')?;
                            self.eat(b'u')?;
                            let l = self.hex4()?;
                            if !(0xdc00..0xe000).contains(&l) {
                                return self.fail();
                            }
                            o.push(
                                char::from_u32(0x10000 + ((h - 0xd800) << 10) + (l - 0xdc00))
                                    .unwrap(),
                            );
                        } else {
                            o.push(char::from_u32(h).unwrap());
                        }
                        continue;
                    }
                    _ => return self.fail(),
                };
                self.pos += 1;
                o.push(d);
                continue;
            }
            if (c as u32) < 0x20 {
                return self.fail();
            }
            o.push(c);
            self.pos += c.len_utf8();
        }
    }
    fn number(&mut self) -> R<Lit> {
        let start = self.pos;
        if self.peek() == Some(b'-') {
            self.pos += 1;
        }
        match self.peek() {
            Some(b'0') => self.pos += 1,
            Some(b'1'..=b'9') => {
                while matches!(self.peek(), Some(b'0'..=b'9')) {
                    self.pos += 1;
                }
            }
            _ => return self.fail(),
        }
        if self.peek() == Some(b'.') {
            self.pos += 1;
            if !matches!(self.peek(), Some(b'0'..=b'9')) {
                return self.fail();
            }
            while matches!(self.peek(), Some(b'0'..=b'9')) {
                self.pos += 1;
            }
        }
        if matches!(self.peek(), Some(b'e' | b'E')) {
            self.pos += 1;
            if matches!(self.peek(), Some(b'-' | b'+')) {
                self.pos += 1;
            }
            if !matches!(self.peek(), Some(b'0'..=b'9')) {
                return self.fail();
            }
            while matches!(self.peek(), Some(b'0'..=b'9')) {
                self.pos += 1;
            }
        }
        self.note();
        let t = &self.t[start..self.pos];
        if !t.parse::<f64>().map_or(false, f64::is_finite) {
            self.unspec = Some("number overflows a double");
        }
        Ok(Lit::Num(t.to_string()))
    }
    fn op(&mut self) -> Option<Op> {
        let o = match (self.peek(), self.at(1)) {
            (Some(b'='), Some(b'=')) => (Op::Eq, 2),
            (Some(b'!'), Some(b'=')) => (Op::Ne, 2),
            (Some(b'<'), Some(b'=')) => (Op::Le, 2),
            (Some(b'>'), Some(b'=')) => (Op::Ge, 2),
            (Some(b'<'), _) => (Op::Lt, 1),
            (Some(b'>'), _) => (Op::Gt, 1),
            _ => {
                self.note();
                // a single `=` or `!` may be the beginning of an operator
                if matches!(self.peek(), Some(b'=' | b'!')) {
                    self.far = self.far.max(self.pos + 1);
                }
                return None;
            }
        };
        self.pos += o.1;
        Some(o.0)
    }
    fn logical(&mut self) -> R<Expr> {
        match self.or_expr(false)? {
            Basic::E(e) => Ok(e),
            _ => self.fail(),
        }
    }
    fn or_expr(&mut self, bare: bool) -> R<Basic> {
        let first = self.chain(bare)?;
        let mut v = match first {
            Basic::E(e) => vec![e],
            b => {
                // a bare value can not be an operand
                let save = self.pos;
                self.ws();
                self.note();
                if self.peek() == Some(b'|') && self.at(1) == Some(b'|') {
                    return Err(());
                }
                self.pos = save;
                return Ok(b);
            }
        };
        loop {
            let save = self.pos;
            self.ws();
            if self.peek() == Some(b'|') {
                self.pos += 1;
                self.eat(b'|')?;
                self.ws();
                match self.chain(false)? {
                    Basic::E(e) => v.push(e),
                    _ => return self.fail(),
                }
            } else {
                self.note();
                self.pos = save;
                break;
            }
        }
        Ok(Basic::E(if v.len() == 1 { v.pop().unwrap() } else { Expr::Or(v) }))
    }
    fn chain(&mut self, bare: bool) -> R<Basic> {
        let first = self.basic(bare)?;
        let mut v = match first {
            Basic::E(e) => vec![e],
            b => {
                let save = self.pos;
                self.ws();
                self.note();
                if self.peek() == Some(b'&') && self.at(1) == Some(b'&') {
                    return Err(());
                }
                self.pos = save;
                return Ok(b);
            }
        };
        loop {
            let save = self.pos;
            self.ws();
            if self.peek() == Some(b'&') {
                self.pos += 1;
                self.eat(b'&')?;
                self.ws();
                match self.basic(false)? {
                    Basic::E(e) => v.push(e),
                    _ => return self.fail(),
                }
            } else {
                self.note();
                self.pos = save;
                break;
            }
        }
        Ok(Basic::E(if v.len() == 1 { v.pop().unwrap() } else { Expr::And(v) }))
    }
    fn paren(&mut self) -> R<Expr> {
        self.eat(b'(')?;
        self.ws();
        let e = self.logical()?;
        self.ws();
        self.eat(b')')?;
        Ok(Expr::Paren(Box::new(e)))
    }
    fn query(&mut self) -> R<(Query, bool)> {
        let abs = self.peek() == Some(b'$');
        self.pos += 1;
        let (segs, inner) = self.segs()?;
        Ok((Query { abs, segs }, inner))
    }
    fn ident(&mut self) -> R<String> {
        let start = self.pos;
        match self.peek() {
            Some(b'a'..=b'z') => self.pos += 1,
            _ => return self.fail(),
        }
        while matches!(self.peek(), Some(b'a'..=b'z' | b'0'..=b'9' | b'_')) {
            self.pos += 1;
        }
        self.note();
        Ok(self.t[start..self.pos].to_string())
    }
    fn func(&mut self, name: String) -> R<(Func, Option<Ty>)> {
        self.eat(b'(')?;
        self.ws();
        let mut args = vec![];
        let mut inners = vec![];
        let mut rets = vec![];
        if self.peek() != Some(b')') {
            loop {
                let (a, inner, ret) = self.arg()?;
                args.push(a);
                inners.push(inner);
                rets.push(ret);
                self.ws();
                if self.peek() == Some(b',') {
                    self.pos += 1;
                    self.ws();
                } else {
                    break;
                }
            }
        }
        self.ws();
        self.eat(b')')?;
        let Some(sg) = sig(&name) else {
            self.sem(Sem::Undefined(name.clone()));
            return Ok((Func { name, args }, None));
        };
        if sg.params.len() != args.len() {
            self.sem(Sem::ArgCount {
                name: name.clone(),
                expected: sg.params.len(),
                received: args.len(),
            });
            return Ok((Func { name, args }, Some(sg.ret)));
        }
        for (i, ((a, p), (inner, ret))) in
            args.iter().zip(sg.params).zip(inners.iter().zip(&rets)).enumerate()
        {
            let ok = match (a, p) {
                (Arg::Lit(_), Ty::V) => true,
                (Arg::Lit(_), _) => false,
                (Arg::Query(q), Ty::V) => {
                    if q.is_singular() && *inner {
                        self.unspec = Some("blank inside a singular query");
                    }
                    q.is_singular()
                }
                (Arg::Query(_), _) => true,
                (Arg::Logical(_), Ty::L) => true,
                (Arg::Logical(_), _) => false,
                (Arg::Func(_), p) => match (ret, p) {
                    (None, _) => true, // reported already
                    (Some(Ty::V), Ty::V) | (Some(Ty::L), Ty::L) | (Some(Ty::N), Ty::N | Ty::L) => {
                        true
                    }
                    _ => false,
                },
            };
            if !ok {
                let received = match (a, ret) {
                    (Arg::Lit(_), _) => "literal",
                    (Arg::Logical(_), _) => "logical",
                    (Arg::Query(_), _) => "nodes",
                    (_, Some(Ty::V)) => "value",
                    (_, Some(Ty::L)) => "logical",
                    (_, _) => "nodes",
                };
                self.sem(Sem::ArgKind { name: name.clone(), position: i, expected: *p, received });
            }
        }
        Ok((Func { name, args }, Some(sg.ret)))
    }
    fn arg(&mut self) -> R<(Arg, bool, Option<Ty>)> {
        // to know the blanks of a bare query, and the result of a bare function
        let start = self.pos;
        Ok(match self.or_expr(true)? {
            Basic::Lit(l) => (Arg::Lit(l), false, None),
            Basic::ValueFunc(f) => (Arg::Func(f), false, Some(Ty::V)),
            Basic::E(Expr::Exist(q)) => {
                let inner = blank_in_brackets(&self.t[start..self.pos]);
                (Arg::Query(q), inner, None)
            }
            Basic::E(Expr::Func(f)) => {
                let ret = sig(&f.name).map(|s| s.ret);
                (Arg::Func(f), false, ret)
            }
            Basic::E(e) => (Arg::Logical(e), false, None),
        })
    }
    fn basic(&mut self, bare: bool) -> R<Basic> {
        match self.peek() {
            Some(b'!') => {
                self.pos += 1;
                self.ws();
                let e = match self.peek() {
                    Some(b'(') => self.paren()?,
                    Some(b'@' | b'$') => Expr::Exist(self.query()?.0),
                    Some(b'a'..=b'z') => {
                        let n = self.ident()?;
                        let (f, ret) = self.func(n)?;
                        if ret == Some(Ty::V) {
                            self.sem(Sem::ResultKind { name: f.name.clone() });
                        }
                        Expr::Func(f)
                    }
                    _ => return self.fail(),
                };
                Ok(Basic::E(Expr::Not(Box::new(e))))
            }
            Some(b'(') => Ok(Basic::E(self.paren()?)),
            Some(b'@' | b'$') => {
                let (q, inner) = self.query()?;
                let save = self.pos;
                self.ws();
                let singular = q.is_singular();
                match self.op() {
                    None => {
                        self.pos = save;
                        Ok(Basic::E(Expr::Exist(q)))
                    }
                    Some(op) => {
                        if !singular {
                            return Err(());
                        }
                        if inner {
                            self.unspec = Some("blank inside a singular query");
                        }
                        self.ws();
                        let r = self.comparable()?;
                        Ok(Basic::E(Expr::Cmp(Cmpb::Query(q), op, r)))
                    }
                }
            }
            Some(b'\'' | b'"' | b'-' | b'0'..=b'9') => {
                let l = if matches!(self.peek(), Some(b'\'' | b'"')) {
                    Lit::Str(self.string()?)
                } else {
                    self.number()?
                };
                self.after_lit(l, bare)
            }
            Some(b'a'..=b'z') => {
                let n = self.ident()?;
                if self.peek() != Some(b'(') {
                    if let Some(l) = keyword(&n) {
                        return self.after_lit(l, bare);
                    }
                }
                let (f, ret) = self.func(n)?;
                let save = self.pos;
                self.ws();
                match self.op() {
                    Some(op) => {
                        if matches!(ret, Some(Ty::L | Ty::N)) {
                            self.sem(Sem::ResultKind { name: f.name.clone() });
                        }
                        self.ws();
                        let r = self.comparable()?;
                        Ok(Basic::E(Expr::Cmp(Cmpb::Func(f), op, r)))
                    }
                    None => {
                        self.pos = save;
                        if ret == Some(Ty::V) {
                            if bare {
                                return Ok(Basic::ValueFunc(f));
                            }
                            self.sem(Sem::ResultKind { name: f.name.clone() });
                        }
                        Ok(Basic::E(Expr::Func(f)))
                    }
                }
            }
            _ => self.fail(),
        }
    }
    fn after_lit(&mut self, l: Lit, bare: bool) -> R<Basic> {
        let save = self.pos;
        self.ws();
        match self.op() {
            Some(op) => {
                self.ws();
                let r = self.comparable()?;
                Ok(Basic::E(Expr::Cmp(Cmpb::Lit(l), op, r)))
            }
            None if bare => {
                self.pos = save;
                Ok(Basic::Lit(l))
            }
            None => Err(()),
        }
    }
    fn comparable(&mut self) -> R<Cmpb> {
        match self.peek() {
            Some(b'@' | b'$') => {
                let (q, inner) = self.query()?;
                if !q.is_singular() {
                    self.note();
                    return Err(());
                }
                if inner {
                    self.unspec = Some("blank inside a singular query");
                }
                Ok(Cmpb::Query(q))
            }
            Some(b'\'' | b'"') => Ok(Cmpb::Lit(Lit::Str(self.string()?))),
            Some(b'-' | b'0'..=b'9') => Ok(Cmpb::Lit(self.number()?)),
            Some(b'a'..=b'z') => {
                let n = self.ident()?;
                if self.peek() != Some(b'(') {
                    if let Some(l) = keyword(&n) {
                        return Ok(Cmpb::Lit(l));
                    }
                }
                let (f, ret) = self.func(n)?;
                if matches!(ret, Some(Ty::L | Ty::N)) {
                    self.sem(Sem::ResultKind { name: f.name.clone() });
                }
                Ok(Cmpb::Func(f))
            }
            _ => self.fail(),
        }
    }
}

fn keyword(n: &str) -> Option<Lit> {
    match n {
        "true" => Some(Lit::Bool(true)),
        "false" => Some(Lit::Bool(false)),
        "null" => Some(Lit::Null),
        _ => None,
    }
}

/// whether a (well formed) query text has a blank next to one of its own brackets
fn blank_in_brackets(t: &str) -> bool {
    let b = t.as_bytes();
    let mut i = 0;
    let is_ws = |x: u8| matches!(x, b' ' | b'\t' | b'\n' | b'\r');
    while i < b.len() {
        match b[i] {
            q @ (b'\'' | b'"') => {
                i += 1;
                while i < b.len() && b[i] != q {
                    if b[i] == b'\\' {
                        i += 1;
                    }
                    i += 1;
                }
            }
            b'[' if i + 1 < b.len() && is_ws(b[i + 1]) => return true,
            b']' if i > 0 && is_ws(b[i - 1]) => return true,
            _ => {}
        }
        i += 1;
    }
    false
}
