//! The reference syntax tree: independent of the library's own.
#[derive(Clone, Debug, PartialEq)]
pub struct Query {
    pub abs: bool,
    pub segs: Vec<Seg>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Seg {
    pub desc: bool,
    pub sels: Vec<Sel>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Sel {
    Name(String),
    Wild,
    Index(i64),
    Slice(Option<i64>, Option<i64>, Option<i64>),
    Filter(Expr),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Expr {
    Or(Vec<Expr>),
    And(Vec<Expr>),
    /// negation of a test or of a parenthesised expression
    Not(Box<Expr>),
    Paren(Box<Expr>),
    Cmp(Cmpb, Op, Cmpb),
    Exist(Query),
    Func(Func),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
}
pub const OPS: [Op; 6] = [Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge];
impl Op {
    pub fn text(self) -> &'static str {
        match self {
            Op::Eq => "==",
            Op::Ne => "!=",
            Op::Lt => "<",
            Op::Le => "<=",
            Op::Gt => ">",
            Op::Ge => ">=",
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Cmpb {
    Lit(Lit),
    Query(Query),
    Func(Func),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Lit {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Func {
    pub name: String,
    pub args: Vec<Arg>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Arg {
    Lit(Lit),
    Query(Query),
    Logical(Expr),
    Func(Func),
}

impl Query {
    pub fn root() -> Self {
        Query { abs: true, segs: vec![] }
    }
    pub fn cur() -> Self {
        Query { abs: false, segs: vec![] }
    }
    pub fn is_singular(&self) -> bool {
        self.segs.iter().all(|s| {
            !s.desc && s.sels.len() == 1 && matches!(s.sels[0], Sel::Name(_) | Sel::Index(_))
        })
    }
    pub fn with(mut self, desc: bool, sels: Vec<Sel>) -> Self {
        self.segs.push(Seg { desc, sels });
        self
    }
    pub fn name(self, n: &str) -> Self {
        self.with(false, vec![Sel::Name(n.to_string())])
    }
    pub fn index(self, n: i64) -> Self {
        self.with(false, vec![Sel::Index(n)])
    }
    pub fn size(&self) -> usize {
        1 + self.segs.iter().map(|s| s.sels.iter().map(Sel::size).sum::<usize>()).sum::<usize>()
    }
    pub fn has_filter(&self) -> bool {
        self.segs.iter().any(|s| s.sels.iter().any(|x| matches!(x, Sel::Filter(_))))
    }
}
impl Sel {
    pub fn size(&self) -> usize {
        match self {
            Sel::Filter(e) => 1 + e.size(),
            _ => 1,
        }
    }
}
impl Expr {
    pub fn size(&self) -> usize {
        match self {
            Expr::Or(v) | Expr::And(v) => v.iter().map(Expr::size).sum(),
            Expr::Not(e) | Expr::Paren(e) => 1 + e.size(),
            Expr::Cmp(a, _, b) => 1 + a.size() + b.size(),
            Expr::Exist(q) => q.size(),
            Expr::Func(f) => f.size(),
        }
    }
}
impl Cmpb {
    pub fn size(&self) -> usize {
        match self {
            Cmpb::Lit(_) => 1,
            Cmpb::Query(q) => q.size(),
            Cmpb::Func(f) => f.size(),
        }
    }
}
impl Func {
    pub fn size(&self) -> usize {
        1 + self
            .args
            .iter()
            .map(|a| match a {
                Arg::Lit(_) => 1,
                Arg::Query(q) => q.size(),
                Arg::Logical(e) => e.size(),
                Arg::Func(f) => f.size(),
            })
            .sum::<usize>()
    }
}

/// what can be replaced inside a query
pub trait Edit {
    /// a member name or the value of a string literal
    fn string(&mut self, _s: &mut String) {}
    fn num(&mut self, _s: &mut String) {}
    fn expr(&mut self, _e: &mut Expr) {}
    fn func(&mut self, _f: &mut Func) {}
}
impl Query {
    pub fn edit(&mut self, v: &mut dyn Edit) {
        for s in self.segs.iter_mut().flat_map(|s| s.sels.iter_mut()) {
            match s {
                Sel::Name(n) => v.string(n),
                Sel::Filter(e) => e.edit(v),
                _ => {}
            }
        }
    }
}
impl Lit {
    fn edit(&mut self, v: &mut dyn Edit) {
        match self {
            Lit::Str(s) => v.string(s),
            Lit::Num(s) => v.num(s),
            _ => {}
        }
    }
}
impl Func {
    fn edit(&mut self, v: &mut dyn Edit) {
        for a in &mut self.args {
            match a {
                Arg::Lit(l) => l.edit(v),
                Arg::Query(q) => q.edit(v),
                Arg::Logical(e) => e.edit(v),
                Arg::Func(f) => f.edit(v),
            }
            // as it would be parsed
            match a {
                Arg::Logical(Expr::Func(f)) => *a = Arg::Func(f.clone()),
                Arg::Logical(Expr::Exist(q)) => *a = Arg::Query(q.clone()),
                _ => {}
            }
        }
        v.func(self);
    }
}
impl Expr {
    pub fn edit(&mut self, v: &mut dyn Edit) {
        match self {
            Expr::Or(x) | Expr::And(x) => x.iter_mut().for_each(|e| e.edit(v)),
            Expr::Not(e) | Expr::Paren(e) => e.edit(v),
            Expr::Cmp(a, _, b) => {
                for c in [a, b] {
                    match c {
                        Cmpb::Lit(l) => l.edit(v),
                        Cmpb::Query(q) => q.edit(v),
                        Cmpb::Func(f) => f.edit(v),
                    }
                }
            }
            Expr::Exist(q) => q.edit(v),
            Expr::Func(f) => f.edit(v),
        }
        v.expr(self);
    }
}
