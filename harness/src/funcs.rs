//! Signatures and reference semantics of the standard functions and of the custom functions that
//! this harness registers with the library; and those custom functions themselves.
use crate::regexp;
use serde_json::{json, Value};
use std::borrow::Cow;
use std::collections::HashMap;
use std::sync::LazyLock;

#[path = "sigs.rs"]
mod sigs;
pub use sigs::GEN;
static GEN_MAP: LazyLock<HashMap<&'static str, &'static Sig>> = LazyLock::new(|| GEN.iter().map(|s| (s.name, s)).collect());

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    V,
    L,
    N,
}
pub struct Sig {
    pub name: &'static str,
    pub params: &'static [Ty],
    pub ret: Ty,
}
use Ty::*;
const fn sg(name: &'static str, params: &'static [Ty], ret: Ty) -> Sig {
    Sig { name, params, ret }
}
pub const N_STD: usize = 5;
pub static SIGS: &[Sig] = &[
    sg("length", &[V], V),
    sg("count", &[N], V),
    sg("value", &[N], V),
    sg("match", &[V, V], L),
    sg("search", &[V, V], L),
    // custom
    sg("zero0", &[], V),
    sg("yes", &[], L),
    sg("no", &[], L),
    sg("nil", &[], V),
    sg("none", &[], N),
    sg("q", &[V], V),
    sg("z", &[], L),
    sg("idv", &[V], V),
    sg("idl", &[L], L),
    sg("idn", &[N], N),
    sg("v2", &[V, V], V),
    sg("mix3", &[V, L, N], V),
    sg("six", &[V, N, L, V, N, L], V),
    sg("isnothing", &[V], L),
    sg("rev", &[N], N),
    sg("head", &[N], V),
    sg("l2n", &[L, N], N),
    sg("both", &[L, L], L),
    sg("nonempty", &[N], L),
    sg("trueish", &[V], L),
    sg("true_1", &[L], L),
    sg("false_1", &[L], L),
    sg("null_or", &[V, V], V),
    sg("nullx", &[N], V),
    sg("r_1x", &[V], V),
    sg("match_all", &[N], L),
    sg("lengthy", &[V], V),
    sg("counter9", &[N], V),
    sg("values", &[V], V),
    sg("searc", &[V, V], L),
    sg("a_rather_long_function_name_with_1234567890_digits_and_underscores__", &[V], V),
    sg("spy", &[V, L, N], L),
    sg("reenter", &[V], V),
    sg("boom", &[V], L),
];

pub fn sig(name: &str) -> Option<&'static Sig> {
    let all = if cfg!(feature = "functions") { SIGS } else { &SIGS[..N_STD] };
    if !cfg!(feature = "regex") && matches!(name, "match" | "search") {
        return None;
    }
    all.iter().find(|s| s.name == name).or_else(|| generated(name))
}
/// one of the functions that record their arguments
pub fn generated(name: &str) -> Option<&'static Sig> {
    if cfg!(feature = "functions") {
        GEN_MAP.get(name).copied()
    } else {
        None
    }
}
pub fn available() -> Vec<&'static Sig> {
    SIGS.iter().filter(|s| sig(s.name).is_some()).collect()
}

#[derive(Clone, Debug)]
pub enum RVal<'a> {
    Nothing,
    Val(Cow<'a, Value>),
    Logical(bool),
    Nodes(Vec<&'a Value>),
}
impl<'a> RVal<'a> {
    pub fn own(v: Value) -> Self {
        RVal::Val(Cow::Owned(v))
    }
    fn v(&self) -> Option<&Value> {
        match self {
            RVal::Val(v) => Some(v),
            RVal::Nothing => None,
            _ => unreachable!("ill-typed reference call"),
        }
    }
    fn l(&self) -> bool {
        match self {
            RVal::Logical(b) => *b,
            RVal::Nodes(n) => !n.is_empty(),
            _ => unreachable!("ill-typed reference call"),
        }
    }
    fn n(&self) -> &[&'a Value] {
        match self {
            RVal::Nodes(n) => n,
            _ => unreachable!("ill-typed reference call"),
        }
    }
}

// ---- the generated functions: what they return is a function of all of their arguments

/// an argument, as seen by a function or by the reference
pub enum RA<'a> {
    V(Option<Cow<'a, Value>>),
    L(bool),
    N(Vec<&'a Value>),
}
/// tells values apart, but not different ways of writing the same number
fn canon(v: &Value, o: &mut String) {
    match v {
        Value::Number(n) => {
            let f = n.as_f64().unwrap();
            o.push_str(&format!("{:?}", if f == 0.0 { 0.0 } else { f }))
        }
        Value::Array(a) => {
            o.push('[');
            for x in a {
                canon(x, o);
                o.push(',');
            }
            o.push(']');
        }
        Value::Object(m) => {
            let mut k: Vec<&String> = m.keys().collect();
            k.sort();
            o.push('{');
            for k in k {
                o.push_str(&format!("{k:?}:"));
                canon(&m[k], o);
                o.push(',');
            }
            o.push('}');
        }
        v => o.push_str(&v.to_string()),
    }
}
/// the call, with nodes told apart by address
pub fn call_key(name: &str, args: &[RA]) -> String {
    let mut o = String::from(name);
    for a in args {
        o.push_str(" | ");
        match a {
            RA::V(None) => o.push_str("nothing"),
            RA::V(Some(v)) => canon(v, &mut o),
            RA::L(b) => o.push_str(if *b { "true()" } else { "false()" }),
            RA::N(n) => n.iter().for_each(|v| o.push_str(&format!("@{:x} ", *v as *const Value as usize))),
        }
    }
    o
}
fn summary(args: &[RA]) -> u64 {
    let mut o = String::new();
    for a in args {
        match a {
            RA::V(None) => o.push('?'),
            RA::V(Some(v)) => canon(v, &mut o),
            RA::L(b) => o.push(if *b { 't' } else { 'f' }),
            RA::N(n) => n.iter().for_each(|v| {
                o.push('@');
                canon(v, &mut o)
            }),
        }
        o.push(';');
    }
    crate::rng::mix(crate::rng::hash_bytes(o.as_bytes()))
}
pub fn outcome<'a>(ret: Ty, mut args: Vec<RA<'a>>) -> RVal<'a> {
    let s = summary(&args);
    match ret {
        V => match s % 5 {
            0 => RVal::Nothing,
            1 => RVal::own(json!(s / 5 % 3)),
            2 => match args.iter().find_map(|a| if let RA::N(n) = a { n.first() } else { None }) {
                Some(n) => RVal::Val(Cow::Borrowed(*n)),
                None => RVal::own(json!(true)),
            },
            3 => match args.iter_mut().find_map(|a| if let RA::V(v) = a { Some(v.take()) } else { None }) {
                Some(Some(v)) => RVal::Val(v),
                Some(None) => RVal::Nothing,
                None => RVal::own(json!("x")),
            },
            _ => RVal::own(json!(s / 5 % 97)),
        },
        L => RVal::Logical(s >> 7 & 1 == 1),
        N => {
            let mut v: Vec<&Value> = args.iter().flat_map(|a| if let RA::N(n) = a { n.clone() } else { vec![] }).collect();
            if s >> 9 & 1 == 1 {
                v.reverse();
            }
            RVal::Nodes(v)
        }
    }
}
/// the arguments of a call in the reference
pub fn ref_args<'a>(sg: &Sig, a: &[RVal<'a>]) -> Vec<RA<'a>> {
    a.iter()
        .zip(sg.params)
        .map(|(a, p)| match p {
            V => RA::V(match a {
                RVal::Val(v) => Some(v.clone()),
                RVal::Nothing => None,
                _ => unreachable!(),
            }),
            L => RA::L(a.l()),
            N => RA::N(a.n().to_vec()),
        })
        .collect()
}

pub const REENTER_DOC: &str = r#"{"a":[1,2,{"a":3,"b":"x"}],"b":{"a":null}}"#;

pub fn show_opt(v: Option<&Value>) -> Value {
    match v {
        Some(v) => json!(["some", v]),
        None => json!(["nothing"]),
    }
}

/// Err: outside of what is specified
pub fn ref_call<'a>(name: &str, a: &[RVal<'a>]) -> Result<RVal<'a>, ()> {
    Ok(match name {
        "length" => match a[0].v() {
            Some(Value::String(s)) => RVal::own(json!(s.chars().count())),
            Some(Value::Array(s)) => RVal::own(json!(s.len())),
            Some(Value::Object(s)) => RVal::own(json!(s.len())),
            _ => RVal::Nothing,
        },
        "count" => RVal::own(json!(a[0].n().len())),
        "value" => match a[0].n() {
            [x] => RVal::Val(Cow::Borrowed(*x)),
            _ => RVal::Nothing,
        },
        "match" | "search" => match (a[0].v(), a[1].v()) {
            (Some(Value::String(s)), Some(Value::String(r))) => {
                match regexp::matches(r, s, name == "match") {
                    regexp::Out::Is(b) => RVal::Logical(b),
                    regexp::Out::Invalid => RVal::Logical(false),
                    regexp::Out::Unspec => return Err(()),
                }
            }
            _ => RVal::Logical(false),
        },
        "zero0" => RVal::own(json!(7)),
        "yes" | "z" => RVal::Logical(true),
        "no" => RVal::Logical(false),
        "nil" => RVal::Nothing,
        "none" => RVal::Nodes(vec![]),
        "q" => RVal::own(json!([a[0].v()])),
        "idv" | "r_1x" | "values"
        | "a_rather_long_function_name_with_1234567890_digits_and_underscores__" => a[0].clone(),
        "idl" | "true_1" => RVal::Logical(a[0].l()),
        "false_1" => RVal::Logical(!a[0].l()),
        "idn" => RVal::Nodes(a[0].n().to_vec()),
        "v2" => RVal::own(json!([show_opt(a[0].v()), show_opt(a[1].v())])),
        "mix3" => RVal::own(json!([show_opt(a[0].v()), a[1].l(), a[2].n()])),
        "six" => RVal::own(json!([
            show_opt(a[0].v()),
            a[1].n(),
            a[2].l(),
            show_opt(a[3].v()),
            a[4].n(),
            a[5].l()
        ])),
        "isnothing" => RVal::Logical(a[0].v().is_none()),
        "rev" => RVal::Nodes(a[0].n().iter().rev().copied().collect()),
        "head" | "nullx" => match a[0].n().first() {
            Some(x) => RVal::Val(Cow::Borrowed(*x)),
            None => RVal::Nothing,
        },
        "l2n" => RVal::Nodes(if a[0].l() { a[1].n().to_vec() } else { vec![] }),
        "both" => RVal::Logical(a[0].l() && a[1].l()),
        "nonempty" => RVal::Logical(!a[0].n().is_empty()),
        "trueish" => RVal::Logical(a[0].v() == Some(&Value::Bool(true))),
        "null_or" => match a[0].v() {
            None | Some(Value::Null) => a[1].clone(),
            _ => a[0].clone(),
        },
        "match_all" => RVal::Logical(a[0].n().iter().all(|v| v.is_string())),
        "lengthy" => RVal::own(json!(a[0].v().map(|v| v.to_string().len()))),
        "counter9" => RVal::own(json!(a[0].n().len() + 9)),
        "searc" => RVal::Logical(match (a[0].v(), a[1].v()) {
            (Some(Value::String(x)), Some(Value::String(y))) => x.contains(y.as_str()),
            _ => false,
        }),
        "spy" => RVal::Logical(true),
        // queries inside queries and panics are driven by checks of their own
        "reenter" | "boom" => return Err(()),
        _ => match generated(name) {
            Some(s) => outcome(s.ret, ref_args(s, a)),
            None => unreachable!("no reference for {name}"),
        },
    })
}

#[cfg(feature = "functions")]
pub mod custom {
    use super::*;
    use serde_json_path::functions::{LogicalType, NodesType, ValueType};
    use serde_json_path::JsonPath;
    use std::cell::RefCell;

    fn b(x: bool) -> LogicalType {
        if x {
            LogicalType::True
        } else {
            LogicalType::False
        }
    }
    fn l(x: &LogicalType) -> bool {
        matches!(x, LogicalType::True)
    }
    #[serde_json_path::function]
    fn zero0() -> ValueType<'static> {
        ValueType::Value(json!(7))
    }
    #[serde_json_path::function]
    fn yes() -> LogicalType {
        LogicalType::True
    }
    #[serde_json_path::function]
    fn no() -> LogicalType {
        LogicalType::False
    }
    #[serde_json_path::function]
    fn nil() -> ValueType<'static> {
        ValueType::Nothing
    }
    #[serde_json_path::function]
    fn none() -> NodesType<'static> {
        NodesType::from(Vec::new())
    }
    #[serde_json_path::function]
    fn q(v: ValueType) -> ValueType {
        ValueType::Value(json!([v.as_value()]))
    }
    #[serde_json_path::function]
    fn z() -> LogicalType {
        LogicalType::True
    }
    #[serde_json_path::function]
    fn idv<'a>(v: ValueType<'a>) -> ValueType<'a> {
        v
    }
    #[serde_json_path::function]
    fn idl(x: LogicalType) -> LogicalType {
        x
    }
    #[serde_json_path::function]
    fn idn<'a>(x: NodesType<'a>) -> NodesType<'a> {
        x
    }
    #[serde_json_path::function]
    fn v2(x: ValueType, y: ValueType) -> ValueType<'static> {
        ValueType::Value(json!([show_opt(x.as_value()), show_opt(y.as_value())]))
    }
    #[serde_json_path::function]
    fn mix3(x: ValueType, y: LogicalType, z: NodesType) -> ValueType<'static> {
        ValueType::Value(json!([show_opt(x.as_value()), l(&y), z.all()]))
    }
    #[serde_json_path::function]
    fn six(
        a: ValueType,
        b: NodesType,
        c: LogicalType,
        d: ValueType,
        e: NodesType,
        f: LogicalType,
    ) -> ValueType<'static> {
        ValueType::Value(json!([
            show_opt(a.as_value()),
            b.all(),
            l(&c),
            show_opt(d.as_value()),
            e.all(),
            l(&f)
        ]))
    }
    #[serde_json_path::function]
    fn isnothing(v: ValueType) -> LogicalType {
        b(v.is_nothing())
    }
    #[serde_json_path::function]
    fn rev<'a>(x: NodesType<'a>) -> NodesType<'a> {
        let mut v = x.all();
        v.reverse();
        NodesType::from(v)
    }
    #[serde_json_path::function]
    fn head<'a>(x: NodesType<'a>) -> ValueType<'a> {
        match x.first() {
            Some(v) => ValueType::Node(v),
            None => ValueType::Nothing,
        }
    }
    #[serde_json_path::function]
    fn l2n<'a>(x: LogicalType, y: NodesType<'a>) -> NodesType<'a> {
        if l(&x) {
            y
        } else {
            NodesType::from(Vec::new())
        }
    }
    #[serde_json_path::function]
    fn both(x: LogicalType, y: LogicalType) -> LogicalType {
        b(bool::from(x) && bool::from(y))
    }
    #[serde_json_path::function]
    fn nonempty(x: NodesType) -> LogicalType {
        LogicalType::from(!x.is_empty())
    }
    #[serde_json_path::function]
    fn trueish(v: ValueType) -> LogicalType {
        b(v.as_value() == Some(&Value::Bool(true)))
    }
    #[serde_json_path::function]
    fn true_1(v: LogicalType) -> LogicalType {
        v
    }
    #[serde_json_path::function]
    fn false_1(v: LogicalType) -> LogicalType {
        b(!l(&v))
    }
    #[serde_json_path::function]
    fn null_or<'a>(x: ValueType<'a>, y: ValueType<'a>) -> ValueType<'a> {
        match x.as_value() {
            None | Some(Value::Null) => y,
            _ => x,
        }
    }
    #[serde_json_path::function]
    fn nullx<'a>(x: NodesType<'a>) -> ValueType<'a> {
        match x.first() {
            Some(v) => ValueType::Node(v),
            None => ValueType::Nothing,
        }
    }
    #[serde_json_path::function(name = "r_1x")]
    fn some_rust_name<'a>(v: ValueType<'a>) -> ValueType<'a> {
        v
    }
    #[serde_json_path::function]
    fn match_all(x: NodesType) -> LogicalType {
        b(x.iter().all(|v| v.is_string()))
    }
    #[serde_json_path::function]
    fn lengthy(v: ValueType) -> ValueType<'static> {
        ValueType::Value(json!(v.as_value().map(|v| v.to_string().len())))
    }
    #[serde_json_path::function]
    fn counter9(x: NodesType) -> ValueType<'static> {
        ValueType::Value(json!(x.len() + 9))
    }
    #[serde_json_path::function]
    fn values<'a>(v: ValueType<'a>) -> ValueType<'a> {
        match v {
            ValueType::Node(v) => ValueType::Value(v.clone()),
            v => v,
        }
    }
    #[serde_json_path::function]
    fn searc(x: ValueType, y: ValueType) -> LogicalType {
        b(match (x.as_value(), y.as_value()) {
            (Some(Value::String(x)), Some(Value::String(y))) => x.contains(y.as_str()),
            _ => false,
        })
    }
    #[serde_json_path::function]
    fn a_rather_long_function_name_with_1234567890_digits_and_underscores__<'a>(
        v: ValueType<'a>,
    ) -> ValueType<'a> {
        v
    }

    /// What `spy` was called with: value, truth, addresses of the nodes
    pub type SpyRec = (Option<Value>, bool, Vec<usize>);
    thread_local! {
        pub static SPY: RefCell<Option<Vec<SpyRec>>> = const { RefCell::new(None) };
    }
    #[serde_json_path::function]
    fn spy(x: ValueType, y: LogicalType, z: NodesType) -> LogicalType {
        SPY.with(|s| {
            if let Some(v) = s.borrow_mut().as_mut() {
                v.push((
                    x.as_value().cloned(),
                    l(&y),
                    z.iter().map(|v| *v as *const Value as usize).collect(),
                ));
            }
        });
        LogicalType::True
    }
    /// runs the query given as its argument
    #[serde_json_path::function]
    fn reenter(x: ValueType) -> ValueType<'static> {
        let Some(Value::String(s)) = x.as_value() else { return ValueType::Nothing };
        match JsonPath::parse(s) {
            Ok(p) => {
                let d: Value = serde_json::from_str(REENTER_DOC).unwrap();
                let n = p.query(&d).len();
                assert_eq!(n, p.query_located(&d).len());
                ValueType::Value(json!(n))
            }
            Err(e) => ValueType::Value(json!(e.to_string().is_empty())),
        }
    }
    #[serde_json_path::function]
    fn boom(x: ValueType) -> LogicalType {
        if x.as_value() == Some(&json!("boom")) {
            std::panic::panic_any(Boom);
        }
        LogicalType::True
    }
    pub struct Boom;

    // ---- generated functions

    thread_local! {
        /// the calls, and how many there were
        pub static CALLS: RefCell<Option<(std::collections::HashSet<String>, u64)>> = const { RefCell::new(None) };
    }
    pub enum A<'a> {
        V(ValueType<'a>),
        L(LogicalType),
        N(NodesType<'a>),
    }
    fn call<'a>(name: &str, ret: Ty, a: Vec<A<'a>>) -> RVal<'a> {
        let args: Vec<RA> = a
            .into_iter()
            .map(|a| match a {
                A::V(ValueType::Nothing) => RA::V(None),
                A::V(ValueType::Value(v)) => RA::V(Some(Cow::Owned(v))),
                A::V(ValueType::Node(v)) => RA::V(Some(Cow::Borrowed(v))),
                A::L(x) => RA::L(l(&x)),
                A::N(n) => RA::N(n.all()),
            })
            .collect();
        CALLS.with(|c| {
            if let Some((s, n)) = c.borrow_mut().as_mut() {
                s.insert(call_key(name, &args));
                *n += 1;
            }
        });
        outcome(ret, args)
    }
    impl<'a> A<'a> {
        pub fn v(name: &str, a: Vec<A<'a>>) -> ValueType<'a> {
            match call(name, Ty::V, a) {
                RVal::Nothing => ValueType::Nothing,
                RVal::Val(Cow::Owned(v)) => ValueType::Value(v),
                RVal::Val(Cow::Borrowed(v)) => ValueType::Node(v),
                _ => unreachable!(),
            }
        }
        pub fn l(name: &str, a: Vec<A<'a>>) -> LogicalType {
            match call(name, Ty::L, a) {
                RVal::Logical(x) => b(x),
                _ => unreachable!(),
            }
        }
        pub fn n(name: &str, a: Vec<A<'a>>) -> NodesType<'a> {
            match call(name, Ty::N, a) {
                RVal::Nodes(x) => NodesType::from(x),
                _ => unreachable!(),
            }
        }
    }
}
