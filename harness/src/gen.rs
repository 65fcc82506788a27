//! Documents and queries.
use crate::ast::*;
use crate::funcs::{available, Sig, Ty};
use crate::rng::Rng;
use serde_json::{json, Map, Number, Value};

pub const KEYS: &[&str] = &[
    "a", "b", "c", "d", "e", "", "0", "1", "-1", "a.b", "a b", "'", "\"", "\\", "/", "~", "~1", "\n",
    "\u{1}", "é", "e\u{301}", "☺", "\u{1F600}", "A", "aa", "length", "$", "@", "*", "[0]", "null",
    "true", "\u{7f}", "\u{80}", "\u{2028}", "\u{ffff}", "it's", "say \"hi\"", "\\n", "\u{1f}", "\t",
    "\u{8}", "\u{c}", "\r", "k0", "k1", "k2", "k3", "_x", "a1", "ab", "abc", "count", "b'", "'b", "日本",
    "\u{10ffff}", "\u{0}", "..", "a]", "['a']", "\\'", "\\\\", "a/b", "a~b", "\u{e000}", "ß", "SS",
];
pub const SIZES: &[usize] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 19, 20, 23, 24, 31, 32, 33, 48, 63, 64, 65, 99, 100, 101,
    127, 128, 129, 199, 200, 255, 256, 257, 300,
];
pub const BIG_SIZES: &[usize] = &[
    399, 400, 499, 500, 511, 512, 513, 767, 768, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4095, 4096, 4097, 5000,
];

pub fn key(r: &mut Rng) -> String {
    match r.below(10) {
        0..=5 => KEYS[r.below(5)].to_string(),
        6..=8 => r.pick(KEYS).to_string(),
        _ => string(r),
    }
}
pub fn any_char(r: &mut Rng) -> char {
    loop {
        let c = match r.below(8) {
            0 => r.below(0x20) as u32,
            1..=3 => 0x20 + r.below(0x5f) as u32,
            4 => 0x7f + r.below(0x181) as u32,
            5 => r.below(0x10000) as u32,
            6 => 0x10000 + r.below(0x100000) as u32,
            _ => *r.pick(&[0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x27, 0x22, 0x5c, 0x2f]),
        };
        if let Some(c) = char::from_u32(c) {
            return c;
        }
    }
}
pub fn string(r: &mut Rng) -> String {
    let n = match r.below(40) {
        0..=30 => r.below(5),
        31..=38 => r.below(20),
        _ => *r.pick(SIZES),
    };
    let ascii = r.chance(1, 2);
    (0..n).map(|_| if ascii { *r.pick(&['a', 'b', 'c', 'A', '1', ' ']) } else { any_char(r) }).collect()
}
pub fn number(r: &mut Rng) -> Value {
    match r.below(16) {
        0..=6 => json!(r.range(-3, 5)),
        7 => json!(r.range(-1000, 1000)),
        8 => json!(r.range(-3, 5) as f64),
        9 => json!(r.range(-30, 50) as f64 / 10.0),
        10 => json!(*r.pick(&[i64::MAX, i64::MIN, 9007199254740991, -9007199254740991, 9007199254740992, i32::MAX as i64, i32::MIN as i64])),
        11 => json!(*r.pick(&[u64::MAX, 1 << 63, (1 << 63) - 1])),
        12 => json!(*r.pick(&[0.0, -0.0, 1e308, -1e308, 5e-324, 1e-7, 1e21, 0.1, 0.30000000000000004, 1.5e300, 9007199254740993.0])),
        _ => json!(r.range(0, 1)),
    }
}
pub fn leaf(r: &mut Rng) -> Value {
    match r.below(12) {
        0 => Value::Null,
        1 => json!(true),
        2 => json!(false),
        3..=6 => number(r),
        7 => json!(""),
        8 => json!(r.pick(KEYS).to_string()),
        9 => json!(KEYS[r.below(5)]),
        10 => json!([]),
        _ => json!(string(r)),
    }
}
pub fn small(r: &mut Rng, depth: usize) -> Value {
    if depth == 0 || r.chance(1, 5) {
        return leaf(r);
    }
    let n = r.below(6);
    if r.chance(1, 2) {
        Value::Array((0..n).map(|_| small(r, depth - 1)).collect())
    } else {
        let mut m = Map::new();
        for _ in 0..n {
            m.insert(key(r), small(r, depth - 1));
        }
        Value::Object(m)
    }
}
/// records with the same fields: what filters are used on
pub fn records(r: &mut Rng) -> Value {
    let n = r.below(9);
    let fields: Vec<String> = (0..1 + r.below(4)).map(|_| key(r)).collect();
    let recs: Vec<Value> = (0..n)
        .map(|_| {
            let mut m = Map::new();
            for f in &fields {
                if r.chance(4, 5) {
                    m.insert(f.clone(), if r.chance(1, 4) { small(r, 2) } else { leaf(r) });
                }
            }
            Value::Object(m)
        })
        .collect();
    match r.below(3) {
        0 => Value::Array(recs),
        1 => {
            let mut m = Map::new();
            for (i, x) in recs.into_iter().enumerate() {
                m.insert(if r.chance(1, 2) { key(r) } else { format!("r{i}") }, x);
            }
            Value::Object(m)
        }
        _ => json!({"a": recs, "b": leaf(r), "c": small(r, 2)}),
    }
}
pub fn wide(r: &mut Rng, n: usize) -> Value {
    if r.chance(1, 2) {
        Value::Array((0..n).map(|i| if r.chance(1, 10) { leaf(r) } else { json!(i) }).collect())
    } else {
        let mut m = Map::new();
        for i in 0..n {
            m.insert(if r.chance(1, 20) { key(r) } else { format!("k{i}") }, json!(i));
        }
        Value::Object(m)
    }
}
pub fn deep(r: &mut Rng, n: usize) -> Value {
    let mut v = small(r, 1);
    for _ in 0..n {
        v = match r.below(6) {
            0 | 1 => json!([v]),
            2 => json!({"a": v}),
            3 => json!([leaf(r), v]),
            4 => {
                let mut m = Map::new();
                m.insert(key(r), leaf(r));
                m.insert(key(r), v);
                Value::Object(m)
            }
            _ => json!({ "b": v }),
        };
    }
    v
}
pub fn doc(r: &mut Rng) -> Value {
    match r.below(40) {
        0 => leaf(r),
        1..=9 => records(r),
        10..=25 => small(r, 4),
        26..=33 => small(r, 3),
        34 | 35 => small(r, 6),
        36 => {
            let n = *r.pick(SIZES);
            wide(r, n)
        }
        37 => {
            let n = 1 + r.below(40);
            deep(r, n)
        }
        38 => {
            let n = *r.pick(&SIZES[..24]);
            let mut m = Map::new();
            m.insert("a".into(), wide(r, n));
            m.insert("b".into(), records(r));
            Value::Object(m)
        }
        _ => {
            // the same sub-document in several places
            let s = small(r, 2);
            json!([s, { "a": s, "b": [s, s] }, s])
        }
    }
}
/// a copy that differs a little: for near misses
pub fn mutate(r: &mut Rng, v: &Value) -> Value {
    match v {
        Value::Array(a) if !a.is_empty() && r.chance(3, 4) => {
            let mut a = a.clone();
            let i = r.below(a.len());
            match r.below(6) {
                0 => {
                    a.remove(i);
                }
                1 => a.insert(i, leaf(r)),
                2 => {
                    let j = r.below(a.len());
                    a.swap(i, j);
                }
                _ => a[i] = mutate(r, &a[i]),
            }
            Value::Array(a)
        }
        Value::Object(o) if !o.is_empty() && r.chance(3, 4) => {
            let mut o = o.clone();
            let k = o.keys().nth(r.below(o.len())).unwrap().clone();
            match r.below(6) {
                0 => {
                    o.remove(&k);
                }
                1 => {
                    o.insert(key(r), leaf(r));
                }
                2 => {
                    let x = o.remove(&k).unwrap();
                    o.insert(key(r), x);
                }
                3 => {
                    // another insertion order, same members
                    let mut v: Vec<_> = o.into_iter().collect();
                    r.shuffle(&mut v);
                    o = v.into_iter().collect();
                }
                _ => {
                    let x = mutate(r, &o[&k]);
                    o.insert(k, x);
                }
            }
            Value::Object(o)
        }
        Value::Number(n) => match r.below(4) {
            0 => n.as_f64().map_or(json!(0), |f| json!(f)),
            1 => n.as_i64().map_or(json!(1), |i| json!(i.wrapping_add(1))),
            2 => n.as_f64().map_or(json!(0), |f| json!(f + 0.5)),
            _ => json!(n.to_string()),
        },
        Value::String(s) => {
            let mut c: Vec<char> = s.chars().collect();
            match r.below(3) {
                0 => {
                    c.pop();
                }
                1 => c.push(any_char(r)),
                _ => {
                    if !c.is_empty() {
                        let i = r.below(c.len());
                        c[i] = any_char(r);
                    }
                }
            }
            Value::String(c.into_iter().collect())
        }
        _ => leaf(r),
    }
}

pub struct Opts {
    pub filters: bool,
    pub funcs: bool,
    pub max_segs: usize,
    pub depth: usize,
    /// with the generated functions
    pub sigs: bool,
}
/// as FULL, mostly with the functions that record their arguments
pub const SIGS: Opts = Opts { filters: true, funcs: true, max_segs: 3, depth: 3, sigs: true };
pub const PLAIN: Opts = Opts { filters: false, funcs: false, max_segs: 5, depth: 0, sigs: false };
pub const FULL: Opts = Opts { filters: true, funcs: true, max_segs: 4, depth: 3, sigs: false };
pub const FILTERS: Opts = Opts { filters: true, funcs: false, max_segs: 4, depth: 3, sigs: false };

pub struct Gen<'r, 'd> {
    pub r: &'r mut Rng,
    pub root: &'d Value,
    pub o: &'r Opts,
    pub budget: i32,
}

pub fn gen_query(r: &mut Rng, root: &Value, o: &Opts) -> Query {
    let mut g = Gen { r, root, o, budget: 60 };
    let n = match g.r.below(20) {
        0 => 0,
        1 => o.max_segs + g.r.below(6),
        _ => 1 + g.r.below(o.max_segs),
    };
    g.query(true, Some(root), n, o.depth)
}

fn kids(v: &Value) -> usize {
    match v {
        Value::Array(a) => a.len(),
        Value::Object(o) => o.len(),
        _ => 0,
    }
}
fn kid<'d>(v: &'d Value, i: usize) -> &'d Value {
    match v {
        Value::Array(a) => &a[i],
        Value::Object(o) => o.values().nth(i).unwrap(),
        _ => unreachable!(),
    }
}

impl<'r, 'd> Gen<'r, 'd> {
    fn walk(&mut self, v: &'d Value, n: usize) -> &'d Value {
        let mut v = v;
        for _ in 0..n {
            let k = kids(v);
            if k == 0 {
                break;
            }
            v = kid(v, self.r.below(k));
        }
        v
    }
    pub fn query(&mut self, abs: bool, at: Option<&'d Value>, n: usize, depth: usize) -> Query {
        let mut cur = at;
        let mut segs = vec![];
        for _ in 0..n {
            self.budget -= 1;
            if self.budget < 0 {
                break;
            }
            let desc = self.r.chance(1, 7);
            if desc {
                if let Some(c) = cur {
                    let k = self.r.below(4);
                    cur = Some(self.walk(c, k));
                }
            }
            let ns = match self.r.below(12) {
                0..=8 => 1,
                9 | 10 => 2,
                _ => 2 + self.r.below(4),
            };
            let mut sels: Vec<Sel> = vec![];
            for k in 0..ns {
                // the same again now and then
                let s = if k > 0 && self.r.chance(1, 4) { sels[self.r.below(k)].clone() } else { self.selector(cur, depth) };
                sels.push(s);
            }
            // follow the first selector
            cur = match (cur, &sels[0]) {
                (Some(Value::Object(o)), Sel::Name(k)) => o.get(k),
                (Some(Value::Array(a)), Sel::Index(i)) => {
                    let k = if *i < 0 { a.len() as i64 + i } else { *i };
                    usize::try_from(k).ok().and_then(|k| a.get(k))
                }
                (Some(v), Sel::Wild | Sel::Slice(..) | Sel::Filter(_)) => {
                    let k = kids(v);
                    if k > 0 {
                        Some(kid(v, self.r.below(k)))
                    } else {
                        None
                    }
                }
                _ => None,
            };
            segs.push(Seg { desc, sels });
        }
        Query { abs, segs }
    }
    fn int(&mut self, len: usize) -> i64 {
        match self.r.below(12) {
            0..=7 => {
                let l = len as i64;
                self.r.range(-l - 2, l + 2)
            }
            8 | 9 => self.r.range(-3, 3),
            10 => *self.r.pick(&[9007199254740991, -9007199254740991, 9007199254740990, -9007199254740990, i32::MAX as i64, i32::MIN as i64, u32::MAX as i64, 65536, 1 << 32, -(1 << 32), 255, 256]),
            _ => self.r.range(-100, 100),
        }
    }
    pub fn selector(&mut self, at: Option<&'d Value>, depth: usize) -> Sel {
        let kind = match self.r.below(10) {
            0..=6 => match at {
                Some(Value::Object(_)) => *self.r.pick(&[0, 0, 0, 1, 4]),
                Some(Value::Array(_)) => *self.r.pick(&[2, 2, 3, 1, 4]),
                _ => self.r.below(5),
            },
            _ => self.r.below(5),
        };
        match kind {
            0 => Sel::Name(match at {
                Some(Value::Object(o)) if !o.is_empty() && self.r.chance(5, 6) => {
                    o.keys().nth(self.r.below(o.len())).unwrap().clone()
                }
                _ => key(self.r),
            }),
            1 => Sel::Wild,
            2 => {
                let len = at.map_or(3, kids);
                Sel::Index(self.int(len))
            }
            3 => {
                let len = at.map_or(4, kids);
                let a = if self.r.chance(1, 2) { Some(self.int(len)) } else { None };
                let b = if self.r.chance(1, 2) { Some(self.int(len)) } else { None };
                let c = match self.r.below(6) {
                    0 | 1 => None,
                    2 => Some(1),
                    3 => Some(-1),
                    4 => Some(self.r.range(-4, 4)),
                    _ => Some(self.int(len)),
                };
                Sel::Slice(a, b, c)
            }
            _ => {
                if !self.o.filters || depth == 0 || self.budget < 0 {
                    return Sel::Wild;
                }
                let c = at.and_then(|v| {
                    let k = kids(v);
                    if k > 0 {
                        Some(kid(v, self.r.below(k)))
                    } else {
                        None
                    }
                });
                Sel::Filter(self.or(c, depth - 1))
            }
        }
    }
    pub fn or(&mut self, at: Option<&'d Value>, depth: usize) -> Expr {
        let n = *self.r.pick(&[1, 1, 1, 1, 2, 2, 3]);
        let mut v: Vec<Expr> = (0..n).map(|_| self.and(at, depth)).collect();
        self.again(&mut v);
        if v.len() == 1 {
            v.pop().unwrap()
        } else {
            Expr::Or(v)
        }
    }
    fn and(&mut self, at: Option<&'d Value>, depth: usize) -> Expr {
        let n = *self.r.pick(&[1, 1, 1, 1, 2, 2, 3]);
        let mut v: Vec<Expr> = (0..n).map(|_| self.basic(at, depth)).collect();
        self.again(&mut v);
        if v.len() == 1 {
            v.pop().unwrap()
        } else {
            Expr::And(v)
        }
    }
    /// the same operand again
    fn again(&mut self, v: &mut [Expr]) {
        if v.len() > 1 && self.r.chance(1, 8) {
            let (a, b) = (self.r.below(v.len()), self.r.below(v.len()));
            v[a] = v[b].clone();
        }
    }
    pub fn basic(&mut self, at: Option<&'d Value>, depth: usize) -> Expr {
        self.budget -= 1;
        match self.r.below(14) {
            0 | 1 if self.budget > 0 => Expr::Paren(Box::new(self.or(at, depth))),
            2 if self.budget > 0 => {
                Expr::Not(Box::new(Expr::Paren(Box::new(self.or(at, depth)))))
            }
            3 => Expr::Not(Box::new(Expr::Exist(self.test_query(at, depth)))),
            4 if self.o.funcs && LOGICAL => Expr::Not(Box::new(Expr::Func(self.test_func(at, depth)))),
            5 | 6 if self.o.funcs && LOGICAL => Expr::Func(self.test_func(at, depth)),
            7..=9 => Expr::Exist(self.test_query(at, depth)),
            _ => {
                let op = *self.r.pick(&OPS);
                let a = self.cmpb(at, depth);
                let b = if self.r.chance(1, 16) { a.clone() } else { self.cmpb(at, depth) };
                // often against a value that is there
                let b = match (&a, at) {
                    (Cmpb::Query(q), Some(c)) if self.r.chance(1, 2) => {
                        match self.resolve(q, c) {
                            Some(v) => match self.lit_of(v) {
                                Some(l) => Cmpb::Lit(l),
                                None => b,
                            },
                            None => b,
                        }
                    }
                    _ => b,
                };
                if self.r.chance(1, 4) {
                    Expr::Cmp(b, op, a)
                } else {
                    Expr::Cmp(a, op, b)
                }
            }
        }
    }
    fn test_func(&mut self, at: Option<&'d Value>, depth: usize) -> Func {
        let ty = if self.r.chance(2, 3) { Ty::L } else { Ty::N };
        self.func(ty, at, depth)
    }
    fn resolve(&self, q: &Query, c: &'d Value) -> Option<&'d Value> {
        let mut v = if q.abs { self.root } else { c };
        for s in &q.segs {
            v = match &s.sels[0] {
                Sel::Name(n) => v.as_object()?.get(n)?,
                Sel::Index(i) => {
                    let a = v.as_array()?;
                    let k = if *i < 0 { a.len() as i64 + i } else { *i };
                    a.get(usize::try_from(k).ok()?)?
                }
                _ => return None,
            };
        }
        Some(v)
    }
    fn lit_of(&mut self, v: &Value) -> Option<Lit> {
        Some(match v {
            Value::Null => Lit::Null,
            Value::Bool(b) => Lit::Bool(*b),
            Value::String(s) => Lit::Str(s.clone()),
            Value::Number(n) => Lit::Num(self.num_text(n)),
            _ => return None,
        })
    }
    fn num_text(&mut self, n: &Number) -> String {
        let t = n.to_string();
        if let Some(i) = n.as_i64() {
            match self.r.below(8) {
                0 => return format!("{i}.0"),
                1 => return format!("{i}e0"),
                2 if i != 0 => return format!("{i}0E-1"),
                _ => {}
            }
        }
        t
    }
    pub fn literal(&mut self) -> Lit {
        match self.r.below(10) {
            0 => Lit::Null,
            1 => Lit::Bool(true),
            2 => Lit::Bool(false),
            3..=6 => {
                if self.r.chance(1, 2) {
                    Lit::Num(
                        self.r
                            .pick(&["0", "-0", "1", "1.0", "1e0", "10E-1", "-1", "2", "3.5", "0.1", "1e2", "100", "1E+2", "-0.0", "0e5", "9007199254740991", "-9007199254740991", "1e-7", "123456789012"])
                            .to_string(),
                    )
                } else if let Value::Number(n) = number(self.r) {
                    Lit::Num(self.num_text(&n))
                } else {
                    Lit::Null
                }
            }
            7 => Lit::Str(key(self.r)),
            8 => Lit::Str(KEYS[self.r.below(5)].to_string()),
            _ => Lit::Str(string(self.r)),
        }
    }
    fn test_query(&mut self, at: Option<&'d Value>, depth: usize) -> Query {
        let abs = self.r.chance(1, 6);
        let n = *self.r.pick(&[0, 1, 1, 1, 1, 2, 2, 3]);
        self.query(abs, if abs { Some(self.root) } else { at }, n, depth)
    }
    pub fn singular(&mut self, at: Option<&'d Value>) -> Query {
        let abs = self.r.chance(1, 6);
        let mut cur = if abs { Some(self.root) } else { at };
        let n = *self.r.pick(&[0, 1, 1, 1, 1, 2, 2, 3]);
        let mut segs = vec![];
        for _ in 0..n {
            let s = match cur {
                Some(Value::Object(o)) if !o.is_empty() && self.r.chance(6, 7) => {
                    Sel::Name(o.keys().nth(self.r.below(o.len())).unwrap().clone())
                }
                Some(Value::Array(a)) if self.r.chance(6, 7) => Sel::Index(self.int(a.len())),
                _ => {
                    if self.r.chance(2, 3) {
                        Sel::Name(key(self.r))
                    } else {
                        Sel::Index(self.int(2))
                    }
                }
            };
            segs.push(Seg { desc: false, sels: vec![s] });
            let q = Query { abs: true, segs: vec![segs.last().unwrap().clone()] };
            cur = cur.and_then(|c| {
                let sub = Gen { r: &mut *self.r, root: c, o: self.o, budget: 0 };
                sub.resolve(&q, c)
            });
        }
        Query { abs, segs }
    }
    pub fn cmpb(&mut self, at: Option<&'d Value>, depth: usize) -> Cmpb {
        match self.r.below(10) {
            0..=3 => Cmpb::Lit(self.literal()),
            4 | 5 if self.o.funcs && self.budget > 0 => Cmpb::Func(self.func(Ty::V, at, depth)),
            _ => Cmpb::Query(self.singular(at)),
        }
    }
    pub fn func(&mut self, ret: Ty, at: Option<&'d Value>, depth: usize) -> Func {
        self.budget -= 1;
        let av = available();
        let leafy = self.budget < 0;
        let c: Vec<&Sig> = av
            .into_iter()
            .filter(|s| s.ret == ret && !matches!(s.name, "reenter" | "boom" | "spy"))
            .collect();
        // the standard functions more often
        let std: Vec<&Sig> = c
            .iter()
            .copied()
            .filter(|s| matches!(s.name, "length" | "count" | "value" | "match" | "search"))
            .collect();
        let s = if self.o.sigs && !leafy && self.r.chance(5, 6) {
            let v: Vec<&Sig> = crate::funcs::GEN.iter().filter(|s| s.ret == ret && s.params.len() < 7).collect();
            v[self.r.below(v.len())]
        } else if !std.is_empty() && (self.r.chance(1, 2) || leafy) {
            std[self.r.below(std.len())]
        } else if c.is_empty() {
            // without custom functions nothing yields nodes
            return self.func(Ty::L, at, depth);
        } else {
            c[self.r.below(c.len())]
        };
        let mut args = vec![];
        for (i, p) in s.params.iter().enumerate() {
            if matches!(s.name, "match" | "search") && i == 1 && self.r.chance(5, 6) {
                args.push(Arg::Lit(Lit::Str(regex(self.r, 2))));
                continue;
            }
            // the same argument again
            if i > 0 && s.params[i - 1] == *p && self.r.chance(1, 8) {
                args.push(Arg::clone(&args[i - 1]));
                continue;
            }
            args.push(self.arg(*p, at, depth));
        }
        Func { name: s.name.to_string(), args }
    }
    pub fn arg(&mut self, ty: Ty, at: Option<&'d Value>, depth: usize) -> Arg {
        let deep = self.budget > 0;
        let cf = cfg!(feature = "functions");
        match ty {
            Ty::V => match self.r.below(8) {
                0..=2 => Arg::Lit(self.literal()),
                3 if deep => Arg::Func(self.func(Ty::V, at, depth)),
                _ => Arg::Query(self.singular(at)),
            },
            Ty::N => match self.r.below(8) {
                0 if deep && cf => Arg::Func(self.func(Ty::N, at, depth)),
                _ => Arg::Query(self.test_query(at, depth)),
            },
            Ty::L => match self.r.below(8) {
                0 if deep && LOGICAL => Arg::Func(self.func(Ty::L, at, depth)),
                1 if deep && cf => Arg::Func(self.func(Ty::N, at, depth)),
                2 | 3 => Arg::Query(self.test_query(at, depth)),
                _ => match self.or(at, depth) {
                    Expr::Exist(q) => Arg::Query(q),
                    Expr::Func(f) => Arg::Func(f),
                    e => Arg::Logical(e),
                },
            },
        }
    }
}

/// are there functions that can stand alone as a test?
pub const LOGICAL: bool = cfg!(feature = "functions") || cfg!(feature = "regex");

/// a text in the language of I-Regexp
pub fn regex(r: &mut Rng, depth: usize) -> String {
    let mut o = String::new();
    let nb = *r.pick(&[1, 1, 1, 1, 2, 3]);
    for i in 0..nb {
        if i > 0 {
            o.push('|');
        }
        for _ in 0..*r.pick(&[0, 1, 1, 2, 2, 3, 4]) {
            piece(r, depth, &mut o);
        }
    }
    o
}
fn esc(r: &mut Rng, o: &mut String) {
    o.push('\\');
    o.push(*r.pick(&['(', ')', '*', '+', '-', '.', '?', '[', '\\', ']', '^', 'n', 'r', 't', '{', '|', '}']));
}
fn cat(r: &mut Rng, o: &mut String) {
    o.push_str(r.pick(&["\\p{", "\\P{"]));
    o.push_str(r.pick(crate::regexp::CATNAMES));
    o.push('}');
}
fn piece(r: &mut Rng, depth: usize, o: &mut String) {
    match r.below(14) {
        0..=5 => o.push(*r.pick(&['a', 'a', 'b', 'b', 'c', 'A', '1', ' ', 'é', '☺', '/', '"', '\'', '-', ',', '&', '~', '#', '=', '!', '<', '\u{1F600}'])),
        6 | 7 => o.push('.'),
        8 => esc(r, o),
        9 => cat(r, o),
        10 | 11 => {
            o.push('[');
            if r.chance(1, 3) {
                o.push('^');
            }
            if r.chance(1, 8) {
                o.push('-');
            }
            for _ in 0..1 + r.below(3) {
                match r.below(7) {
                    0 | 1 => {
                        let (a, b) = *r.pick(&[('a', 'c'), ('A', 'Z'), ('0', '9'), ('a', 'a'), (' ', '~'), ('\u{80}', '\u{10ffff}'), ('b', 'y')]);
                        if a == ' ' {
                            o.push_str(" -,")
                        } else {
                            o.push(a);
                            o.push('-');
                            o.push(b);
                        }
                    }
                    2 => esc(r, o),
                    3 => cat(r, o),
                    _ => o.push(*r.pick(&['a', 'b', 'c', '1', '.', '*', '(', ')', '|', '$', '+', '?', '{', '}', '&', '~', 'é', ',', '/', '#', ' '])),
                }
            }
            if r.chance(1, 8) {
                o.push('-');
            }
            o.push(']');
        }
        _ if depth > 0 => {
            o.push('(');
            o.push_str(&regex(r, depth - 1));
            o.push(')');
        }
        _ => o.push('a'),
    }
    match r.below(12) {
        0 => o.push('*'),
        1 => o.push('+'),
        2 => o.push('?'),
        3 => {
            let a = r.below(4);
            match r.below(3) {
                0 => o.push_str(&format!("{{{a}}}")),
                1 => o.push_str(&format!("{{{a},}}")),
                _ => o.push_str(&format!("{{{a},{}}}", a + r.below(3))),
            }
        }
        _ => {}
    }
}
/// a string that a regular expression is likely to match (or nearly)
pub fn subject(r: &mut Rng, re: &crate::regexp::Re, o: &mut String) {
    use crate::regexp::{Item, Re, CATS};
    if o.len() > 60 {
        return;
    }
    match re {
        Re::Char(c) => o.push(*c),
        Re::Dot => o.push(CATS[r.below(CATS.len())].0),
        Re::Class(neg, items) => {
            if *neg || r.chance(1, 10) {
                o.push(CATS[r.below(CATS.len())].0);
            } else {
                match &items[r.below(items.len())] {
                    Item::C(c) => o.push(*c),
                    Item::R(a, b) => {
                        let x = *a as u32 + r.below((*b as u32 - *a as u32 + 1) as usize) as u32;
                        o.push(char::from_u32(x).unwrap_or(*a));
                    }
                    Item::P(n, name) => {
                        let f: Vec<_> =
                            CATS.iter().filter(|x| x.1.starts_with(name.as_str()) != *n).collect();
                        o.push(f[r.below(f.len())].0);
                    }
                }
            }
        }
        Re::Cat(v) => v.iter().for_each(|x| subject(r, x, o)),
        Re::Alt(v) => {
            let k = r.below(v.len());
            subject(r, &v[k], o)
        }
        Re::Rep(x, lo, hi) => {
            let h = hi.unwrap_or(lo + 3).min(lo + 3);
            let n = *lo + r.below((h - lo + 1) as usize) as u32;
            for _ in 0..n {
                subject(r, x, o);
            }
        }
    }
}
