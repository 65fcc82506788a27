//! Ways of writing functions that the macro has to cope with.
#![allow(unused)]
use serde_json::{json, Value};
use serde_json_path::functions::{LogicalType, NodesType, ValueType};
use serde_json_path::{function, JsonPath};

// parameters and functions named like anything that the expansion could use
#[function]
fn names1(v: ValueType, a: ValueType, f: LogicalType, value: NodesType) -> LogicalType {
    (v.as_value() == Some(&json!(1)) && a.is_nothing() && f == LogicalType::True && value.len() == 2).into()
}
#[function]
fn names2(args: NodesType, name: NodesType, ret: NodesType, r: LogicalType, t: LogicalType, e: ValueType, tk: ValueType, err: ValueType) -> LogicalType {
    (args.len() == 0 && name.len() == 1 && ret.len() == 2 && r == LogicalType::True && t == LogicalType::False && e.as_value() == Some(&json!("e")) && tk.as_value() == Some(&json!("tk")) && err.is_nothing()).into()
}
#[function]
fn v(x: NodesType) -> ValueType<'static> {
    x.len().into()
}
#[function]
fn same(same: NodesType) -> ValueType<'static> {
    same.len().into()
}
#[function]
fn arg_0(arg_1: ValueType, arg_0: ValueType) -> LogicalType {
    (arg_1.as_value() == Some(&json!(1)) && arg_0.as_value() == Some(&json!(0))).into()
}
#[function]
fn mutable(mut x: NodesType, _unused: LogicalType) -> ValueType<'static> {
    x = NodesType::from(x.all().into_iter().skip(1).collect::<Vec<_>>());
    x.len().into()
}
#[function]
fn early(x: ValueType) -> LogicalType {
    if x.is_nothing() {
        return LogicalType::False;
    }
    let Some(v) = x.as_value() else { return LogicalType::False };
    for _ in 0..1 {
        return LogicalType::True;
    }
    LogicalType::False
}
#[function]
/// documented
#[allow(clippy::all)]
#[inline]
pub(crate) fn attributes<'a>(x: NodesType<'a>) -> NodesType<'a> {
    x
}
#[function(name = "renamed")]
fn not_this_name<'b>(x: serde_json_path::functions::ValueType<'b>) -> serde_json_path::functions::ValueType<'b> {
    x
}
mod one {
    use super::*;
    #[function(name = "mod_one")]
    fn f() -> ValueType<'static> {
        1.into()
    }
    #[function]
    pub fn helper() -> LogicalType {
        LogicalType::True
    }
}
mod two {
    use serde_json_path::functions::*;
    #[serde_json_path::function(name = "mod_two")]
    fn f() -> ValueType<'static> {
        2.into()
    }
    pub mod inner {
        type T = usize;
        #[serde_json_path::function]
        fn inner_1(x: serde_json_path::functions::LogicalType,) -> serde_json_path::functions::LogicalType {
            let _: T = 1;
            x
        }
    }
}
fn scoped() {
    #[function]
    fn in_a_body(x: ValueType<'_>) -> ValueType<'_> {
        x
    }
}
const LIMIT: usize = 2;
static CALLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
#[function]
fn uses_items(x: NodesType) -> LogicalType {
    CALLS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    fn local(n: usize) -> bool {
        n > LIMIT
    }
    local(x.len()).into()
}

fn main() {
    let doc = json!([{"a": 1, "b": [1, 2, 3], "c": {"x": 0, "y": 1}}]);
    let mut bad = 0;
    let mut n = 0;
    let mut expect = |q: &str, want: Option<usize>| {
        n += 1;
        let got = JsonPath::parse(q).ok().map(|p| p.query(&doc).len());
        if got != want {
            bad += 1;
            println!("BAD {q}: {got:?}, expected {want:?}");
        }
    };
    expect("$[?names1(@.a, @.zz, @.a==1, @.c.*)]", Some(1));
    expect("$[?names1(@.zz, @.a, @.a==1, @.c.*)]", Some(0));
    expect("$[?names2(@.zz, @.a, @.c.*, @.a, @.zz, 'e', 'tk', @.zz)]", Some(1));
    expect("$[?names2(@.zz, @.a, @.c.*, @.zz, @.a, 'e', 'tk', @.zz)]", Some(0));
    expect("$[?names2(@.zz, @.a, @.c.*, @.a, @.zz, 'tk', 'e', @.zz)]", Some(0));
    expect("$[?v(@.b[*])==3]", Some(1));
    expect("$[?same(@.b[*])==3]", Some(1));
    expect("$[?arg_0(1,0)]", Some(1));
    expect("$[?arg_0(0,1)]", Some(0));
    expect("$[?mutable(@.b[*],@.a)==2]", Some(1));
    expect("$[?early(@.a)]", Some(1));
    expect("$[?early(@.zz)]", Some(0));
    expect("$[?attributes(@.b)]", Some(1));
    expect("$[?renamed(@.a)==1]", Some(1));
    expect("$[?not_this_name(@.a)==1]", None);
    expect("$[?mod_one()==1]", Some(1));
    expect("$[?mod_two()==2]", Some(1));
    expect("$[?f()==2]", None);
    expect("$[?helper()]", Some(1));
    expect("$[?inner_1(@.a)]", Some(1));
    expect("$[?in_a_body(@.a)==1]", Some(1));
    expect("$[?uses_items(@.b[*])]", Some(1));
    expect("$[?uses_items(@.c[*])]", Some(0));
    expect("$[?attributes(@.b)==1]", None);
    expect("$[?v(@.b[*])]", None);
    expect("$[?names1(@.*, @.zz, @.a==1, @.c.*)]", None);
    expect("$[?names1(1, 2, 3, @.c.*)]", None);
    println!("RAN {n} BAD {bad}");
    std::process::exit((bad > 0) as i32);
}
