//! Reference evaluator: RFC 9535 semantics, written from the RFC.
use crate::ast::*;
use crate::funcs::{ref_call, RVal};
use crate::render::El;
use serde_json::{Number, Value};
use std::borrow::Cow;
use std::cell::Cell;
use std::cmp::Ordering;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Stop {
    Budget,
    Unspec,
}
pub type Path<'a> = Option<Rc<PNode<'a>>>;
pub struct PNode<'a> {
    pub parent: Path<'a>,
    pub el: Step<'a>,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Step<'a> {
    Name(&'a str),
    Idx(usize),
}
#[derive(Clone)]
pub struct Node<'a> {
    pub v: &'a Value,
    pub path: Path<'a>,
}
pub fn steps<'a>(p: &Path<'a>) -> Vec<Step<'a>> {
    let mut v = vec![];
    let mut c = p;
    while let Some(n) = c {
        v.push(n.el);
        c = &n.parent;
    }
    v.reverse();
    v
}
pub fn npath(p: &[Step]) -> String {
    crate::render::normalized(p.iter().map(|s| match s {
        Step::Name(n) => El::Name(n),
        Step::Idx(i) => El::Idx(*i),
    }))
}

/// Defects of the library that are recorded as known findings; with one of these set, the
/// evaluator behaves as the library does, to tell the finding from any other difference.
pub const NEG_INDEX: u8 = 1;
pub const ORDER: u8 = 2;
pub const DEEP_NUM: u8 = 4;
pub const DEFECTS: [(u8, &str); 3] =
    [(NEG_INDEX, "neg-index"), (ORDER, "ordering"), (DEEP_NUM, "deep-num")];

pub struct Ctx<'a> {
    root: &'a Value,
    budget: u64,
    pub mask: u8,
    pub steps: Cell<u64>,
    paths: bool,
    /// what regular expressions contributed to the steps
    pub re: Cell<u64>,
    /// calls of the generated functions; when these are recorded, all operands are evaluated
    pub calls: Option<std::cell::RefCell<std::collections::HashSet<String>>>,
}

pub fn eval<'a>(q: &Query, doc: &'a Value) -> Result<Vec<Node<'a>>, Stop> {
    eval_n(q, doc, 400_000).0
}
/// also gives the number of elementary steps
pub fn eval_n<'a>(q: &Query, doc: &'a Value, budget: u64) -> (Result<Vec<Node<'a>>, Stop>, u64) {
    let c = ctx(doc, budget, true);
    let r = c.query(q, &Node { v: doc, path: None }, true);
    (r, c.steps.get())
}
pub fn eval_mask<'a>(q: &Query, doc: &'a Value, mask: u8) -> Result<Vec<Node<'a>>, Stop> {
    // the correct result may come from a shortcut that this one can not take
    let mut c = ctx(doc, 8_000_000, true);
    c.mask = mask;
    c.query(q, &Node { v: doc, path: None }, true)
}
pub fn ctx(doc: &Value, budget: u64, paths: bool) -> Ctx<'_> {
    Ctx { root: doc, budget, mask: 0, steps: Cell::new(0), paths, re: Cell::new(0), calls: None }
}

impl<'a> Ctx<'a> {
    fn tick(&self, n: u64) -> Result<(), Stop> {
        self.steps.set(self.steps.get() + n);
        if self.steps.get() > self.budget {
            Err(Stop::Budget)
        } else {
            Ok(())
        }
    }
    fn child(&self, n: &Node<'a>, el: Step<'a>, v: &'a Value, paths: bool) -> Node<'a> {
        Node {
            v,
            path: if paths {
                Some(Rc::new(PNode { parent: n.path.clone(), el }))
            } else {
                None
            },
        }
    }
    fn children(&self, n: &Node<'a>, paths: bool) -> Vec<Node<'a>> {
        match n.v {
            Value::Array(a) => {
                a.iter().enumerate().map(|(i, v)| self.child(n, Step::Idx(i), v, paths)).collect()
            }
            Value::Object(o) => {
                o.iter().map(|(k, v)| self.child(n, Step::Name(k), v, paths)).collect()
            }
            _ => vec![],
        }
    }
    pub fn query(&self, q: &Query, cur: &Node<'a>, paths: bool) -> Result<Vec<Node<'a>>, Stop> {
        let paths = paths && self.paths;
        let mut nodes =
            vec![if q.abs { Node { v: self.root, path: None } } else { cur.clone() }];
        for s in &q.segs {
            let mut out = vec![];
            for n in &nodes {
                if s.desc {
                    self.descend(&s.sels, n, &mut out, paths)?;
                } else {
                    self.sels(&s.sels, n, &mut out, paths)?;
                }
            }
            nodes = out;
        }
        Ok(nodes)
    }
    fn descend(
        &self,
        sels: &[Sel],
        n: &Node<'a>,
        out: &mut Vec<Node<'a>>,
        paths: bool,
    ) -> Result<(), Stop> {
        self.tick(1)?;
        self.sels(sels, n, out, paths)?;
        for c in self.children(n, paths) {
            self.descend(sels, &c, out, paths)?;
        }
        Ok(())
    }
    fn sels(
        &self,
        sels: &[Sel],
        n: &Node<'a>,
        out: &mut Vec<Node<'a>>,
        paths: bool,
    ) -> Result<(), Stop> {
        for s in sels {
            self.tick(1)?;
            match s {
                Sel::Name(k) => {
                    if let Value::Object(o) = n.v {
                        // by scanning, so as not to rely on the map's own lookup
                        if o.len() <= 64 {
                            for (kk, v) in o {
                                if kk == k {
                                    out.push(self.child(n, Step::Name(kk), v, paths));
                                }
                            }
                        } else if let Some((kk, v)) = o.get_key_value(k) {
                            out.push(self.child(n, Step::Name(kk), v, paths));
                        }
                    }
                }
                Sel::Wild => {
                    let c = self.children(n, paths);
                    self.tick(c.len() as u64)?;
                    out.extend(c);
                }
                Sel::Index(i) => {
                    if let Value::Array(a) = n.v {
                        let len = a.len() as i128;
                        let i = *i as i128;
                        let k = if i < 0 { len + i } else { i };
                        if k >= 0 && k < len {
                            let k = k as usize;
                            out.push(self.child(n, Step::Idx(k), &a[k], paths));
                        }
                    }
                }
                Sel::Slice(a, b, c) => {
                    if let Value::Array(arr) = n.v {
                        for k in slice_indices(arr.len(), *a, *b, *c) {
                            self.tick(1)?;
                            out.push(self.child(n, Step::Idx(k), &arr[k], paths));
                        }
                    }
                }
                Sel::Filter(e) => {
                    for c in self.children(n, paths) {
                        self.tick(1)?;
                        if self.expr(e, &c)? {
                            out.push(c);
                        }
                    }
                }
            }
        }
        Ok(())
    }
    pub fn expr(&self, e: &Expr, cur: &Node<'a>) -> Result<bool, Stop> {
        self.tick(1)?;
        if let (Some(_), Expr::Or(v) | Expr::And(v)) = (&self.calls, e) {
            let mut all = vec![];
            for x in v {
                all.push(self.expr(x, cur)?);
            }
            return Ok(match e {
                Expr::Or(_) => all.contains(&true),
                _ => !all.contains(&false),
            });
        }
        Ok(match e {
            Expr::Or(v) => {
                // an unspecified operand does not matter if another one decides
                let mut stop = None;
                for x in v {
                    match self.expr(x, cur) {
                        Ok(true) => return Ok(true),
                        Ok(false) => {}
                        Err(Stop::Unspec) => stop = Some(Stop::Unspec),
                        Err(s) => return Err(s),
                    }
                }
                match stop {
                    Some(s) => return Err(s),
                    None => false,
                }
            }
            Expr::And(v) => {
                let mut stop = None;
                for x in v {
                    match self.expr(x, cur) {
                        Ok(false) => return Ok(false),
                        Ok(true) => {}
                        Err(Stop::Unspec) => stop = Some(Stop::Unspec),
                        Err(s) => return Err(s),
                    }
                }
                match stop {
                    Some(s) => return Err(s),
                    None => true,
                }
            }
            Expr::Not(x) => !self.expr(x, cur)?,
            Expr::Paren(x) => self.expr(x, cur)?,
            Expr::Exist(q) => !self.query(q, cur, false)?.is_empty(),
            Expr::Func(f) => match self.call(f, cur)? {
                RVal::Logical(b) => b,
                RVal::Nodes(n) => !n.is_empty(),
                _ => unreachable!("ill-typed test"),
            },
            Expr::Cmp(a, op, b) => {
                let (a, b) = (self.cmpb(a, cur)?, self.cmpb(b, cur)?);
                compare_mask(a.as_deref(), *op, b.as_deref(), self.mask)?
            }
        })
    }
    /// a query in a place where the library has a type of its own for singular ones
    fn squery(&self, q: &Query, cur: &Node<'a>) -> Result<Vec<Node<'a>>, Stop> {
        if self.mask & NEG_INDEX != 0
            && q.is_singular()
            && q.segs.iter().any(|s| matches!(s.sels[0], Sel::Index(i) if i < 0))
        {
            return Ok(vec![]);
        }
        self.query(q, cur, false)
    }
    fn cmpb(&self, c: &Cmpb, cur: &Node<'a>) -> Result<Option<Cow<'a, Value>>, Stop> {
        Ok(match c {
            Cmpb::Lit(l) => Some(Cow::Owned(lit_value(l)?)),
            Cmpb::Query(q) => {
                let n = self.squery(q, cur)?;
                assert!(n.len() < 2);
                n.first().map(|n| Cow::Borrowed(n.v))
            }
            Cmpb::Func(f) => match self.call(f, cur)? {
                RVal::Nothing => None,
                RVal::Val(v) => Some(v),
                _ => unreachable!("ill-typed comparison"),
            },
        })
    }
    fn call(&self, f: &Func, cur: &Node<'a>) -> Result<RVal<'a>, Stop> {
        let sg = crate::funcs::sig(&f.name).expect("known function");
        let mut a = vec![];
        for (x, ty) in f.args.iter().zip(sg.params) {
            use crate::funcs::Ty::*;
            a.push(match (x, ty) {
                (Arg::Lit(l), _) => RVal::own(lit_value(l)?),
                (Arg::Query(q), V) => {
                    let n = self.squery(q, cur)?;
                    assert!(n.len() < 2);
                    n.first().map_or(RVal::Nothing, |n| RVal::Val(Cow::Borrowed(n.v)))
                }
                (Arg::Query(q), N) => {
                    RVal::Nodes(self.squery(q, cur)?.iter().map(|n| n.v).collect())
                }
                (Arg::Query(q), L) => RVal::Logical(!self.squery(q, cur)?.is_empty()),
                (Arg::Logical(e), _) => RVal::Logical(self.expr(e, cur)?),
                (Arg::Func(f), L) => RVal::Logical(match self.call(f, cur)? {
                    RVal::Logical(b) => b,
                    RVal::Nodes(n) => !n.is_empty(),
                    _ => unreachable!(),
                }),
                (Arg::Func(f), _) => self.call(f, cur)?,
            });
        }
        self.tick(1)?;
        if let ("match" | "search", [RVal::Val(s), RVal::Val(r)]) = (&f.name[..], &a[..]) {
            // the library compiles the expression for every call
            if let (Value::String(s), Value::String(r)) = (&**s, &**r) {
                let n = crate::regexp::cost(r) + s.len() as u64;
                self.re.set(self.re.get() + n);
                self.tick(n)?;
            }
        }
        if let Some(c) = &self.calls {
            if crate::funcs::generated(&f.name).is_some() {
                c.borrow_mut().insert(crate::funcs::call_key(&f.name, &crate::funcs::ref_args(sg, &a)));
            }
        }
        ref_call(&f.name, &a).map_err(|()| Stop::Unspec)
    }
}

/// RFC 9535 section 2.3.4.2.2, in arithmetic that can not overflow
pub fn slice_indices(len: usize, start: Option<i64>, end: Option<i64>, step: Option<i64>) -> Vec<usize> {
    let len = len as i128;
    let step = step.unwrap_or(1) as i128;
    if step == 0 {
        return vec![];
    }
    let (ds, de) = if step > 0 { (0, len) } else { (len - 1, -len - 1) };
    let norm = |i: i128| if i >= 0 { i } else { len + i };
    let s = norm(start.map_or(ds, |x| x as i128));
    let e = norm(end.map_or(de, |x| x as i128));
    let mut out = vec![];
    if step > 0 {
        let lower = s.max(0).min(len);
        let upper = e.max(0).min(len);
        let mut i = lower;
        while i < upper {
            out.push(i as usize);
            i += step;
        }
    } else {
        let upper = s.max(-1).min(len - 1);
        let lower = e.max(-1).min(len - 1);
        let mut i = upper;
        while lower < i {
            out.push(i as usize);
            i += step;
        }
    }
    out
}

pub fn lit_value(l: &Lit) -> Result<Value, Stop> {
    Ok(match l {
        Lit::Null => Value::Null,
        Lit::Bool(b) => Value::Bool(*b),
        Lit::Str(s) => Value::String(s.clone()),
        Lit::Num(t) => match serde_json::from_str::<Value>(t) {
            Ok(v) => v,
            Err(_) => return Err(Stop::Unspec),
        },
    })
}

enum Num {
    I(i128),
    F(f64),
}
fn num(n: &Number) -> Num {
    if let Some(i) = n.as_i64() {
        Num::I(i as i128)
    } else if let Some(u) = n.as_u64() {
        Num::I(u as i128)
    } else {
        Num::F(n.as_f64().unwrap())
    }
}
/// exact order of two numbers; Unspec if doubles can not tell
pub fn num_cmp(a: &Number, b: &Number) -> Result<Ordering, Stop> {
    fn i_f(i: i128, f: f64) -> Ordering {
        if f >= 1e30 {
            Ordering::Less
        } else if f <= -1e30 {
            Ordering::Greater
        } else {
            let fl = f.floor();
            match i.cmp(&(fl as i128)) {
                Ordering::Equal if f > fl => Ordering::Less,
                o => o,
            }
        }
    }
    let exact = match (num(a), num(b)) {
        (Num::I(x), Num::I(y)) => x.cmp(&y),
        (Num::F(x), Num::F(y)) => x.partial_cmp(&y).unwrap(),
        (Num::I(x), Num::F(y)) => i_f(x, y),
        (Num::F(x), Num::I(y)) => i_f(y, x).reverse(),
    };
    let approx = a.as_f64().unwrap().partial_cmp(&b.as_f64().unwrap()).unwrap();
    if exact == approx {
        Ok(exact)
    } else {
        Err(Stop::Unspec)
    }
}
/// None: unspecified
fn eq3(a: &Value, b: &Value) -> Option<bool> {
    match (a, b) {
        (Value::Null, Value::Null) => Some(true),
        (Value::Bool(x), Value::Bool(y)) => Some(x == y),
        (Value::String(x), Value::String(y)) => Some(x == y),
        (Value::Number(x), Value::Number(y)) => num_cmp(x, y).ok().map(|o| o == Ordering::Equal),
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() {
                return Some(false);
            }
            let mut r = Some(true);
            for (p, q) in x.iter().zip(y) {
                match eq3(p, q) {
                    Some(false) => return Some(false),
                    None => r = None,
                    _ => {}
                }
            }
            r
        }
        (Value::Object(x), Value::Object(y)) => {
            if x.len() != y.len() {
                return Some(false);
            }
            let mut r = Some(true);
            for (k, p) in x {
                match y.get(k).map(|q| eq3(p, q)) {
                    None | Some(Some(false)) => return Some(false),
                    Some(None) => r = None,
                    _ => {}
                }
            }
            r
        }
        _ => Some(false),
    }
}
pub fn compare(a: Option<&Value>, op: Op, b: Option<&Value>) -> Result<bool, Stop> {
    compare_mask(a, op, b, 0)
}
pub fn compare_mask(a: Option<&Value>, op: Op, b: Option<&Value>, mask: u8) -> Result<bool, Stop> {
    let eq = || match (a, b) {
        (None, None) => Ok(true),
        (Some(x @ (Value::Array(_) | Value::Object(_))), Some(y)) if mask & DEEP_NUM != 0 => Ok(x == y),
        (Some(x), Some(y)) => eq3(x, y).ok_or(Stop::Unspec),
        _ => Ok(false),
    };
    let lt = |a: Option<&Value>, b: Option<&Value>| match (a, b) {
        (Some(Value::Number(x)), Some(Value::Number(y))) => {
            num_cmp(x, y).map(|o| o == Ordering::Less)
        }
        (Some(Value::String(x)), Some(Value::String(y))) => Ok(x.chars().lt(y.chars())),
        _ => Ok(false),
    };
    if mask & ORDER != 0 && !matches!(op, Op::Eq | Op::Ne) {
        let same = match (a, b) {
            (Some(x), Some(y)) => std::mem::discriminant(x) == std::mem::discriminant(y),
            _ => false,
        };
        return Ok(same
            && match op {
                Op::Lt => lt(a, b)?,
                Op::Gt => !lt(a, b)? && !eq()?,
                Op::Le => lt(a, b)? || eq()?,
                _ => !lt(a, b)?,
            });
    }
    Ok(match op {
        Op::Eq => eq()?,
        Op::Ne => !eq()?,
        Op::Lt => lt(a, b)?,
        Op::Gt => lt(b, a)?,
        Op::Le => lt(a, b)? || eq()?,
        Op::Ge => lt(b, a)? || eq()?,
    })
}
