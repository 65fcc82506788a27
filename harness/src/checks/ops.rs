//! Every public operation on a text and on some documents. Nothing is compared here beyond what an
//! operation says about itself: the point is that all of them return.
use crate::run::Tc;
use serde_json::Value;
use serde_json_path::{JsonPath, JsonPathExt};
use std::fmt::Write;

/// fails after so many bytes
pub struct Short(pub usize);
impl Write for Short {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.0 {
            return Err(std::fmt::Error);
        }
        self.0 -= s.len();
        Ok(())
    }
}
pub struct ShortIo(pub usize);
impl std::io::Write for ShortIo {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.len() > self.0 {
            return Err(std::io::Error::other("full"));
        }
        self.0 -= b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn fmt_all<T: std::fmt::Display + std::fmt::Debug>(tc: &mut Tc, x: &T, cut: usize) -> usize {
    let s = x.to_string();
    let d = format!("{x:?}");
    // pretty printing goes through one adapter per level: cubic in the nesting, by std's design
    let p = if d.len() < 3000 { format!("{x:#?}") } else { String::new() };
    let _ = format!("{x:>40}{x:<3.2}{x:^5}");
    let _ = write!(Short(cut), "{x}");
    let _ = write!(Short(cut), "{x:?}");
    tc.evn(6);
    s.len() + d.len() + p.len()
}

/// true if the text parses
pub fn parse_ops(tc: &mut Tc, text: &str, all: bool) -> Option<JsonPath> {
    let cut = text.len() / 2;
    tc.ev();
    let r = JsonPath::parse(text);
    if all {
        let _ = text.parse::<JsonPath>();
        let _ = serde_json::from_value::<JsonPath>(Value::String(text.to_string()));
        let j = serde_json::to_string(text).unwrap();
        let _ = serde_json::from_str::<JsonPath>(&j);
        let _ = serde_json::from_reader::<_, JsonPath>(j.as_bytes());
        // cut anywhere: never valid JSON
        let _ = serde_json::from_slice::<JsonPath>(&j.as_bytes()[..j.len() / 2]);
        tc.evn(5);
    }
    match r {
        Ok(p) => {
            fmt_all(tc, &p, cut);
            let c = p.clone();
            let _ = c == p;
            let _ = c != JsonPath::default();
            drop(c);
            let _ = serde_json::to_value(&p);
            let _ = serde_json::to_writer(ShortIo(cut), &p);
            tc.evn(5);
            Some(p)
        }
        Err(e) => {
            fmt_all(tc, &e, 3);
            let _ = (e.position(), e.message().len());
            let b: Box<dyn std::error::Error + Send + Sync> = Box::new(e);
            let _ = (b.source().map(|s| s.to_string()), b.to_string());
            tc.evn(4);
            None
        }
    }
}

pub fn eval_ops(tc: &mut Tc, p: &JsonPath, doc: &Value) -> usize {
    let n = p.query(doc);
    let len = n.len();
    let m = len.saturating_sub(1);
    if let Err(e) = n.at_most_one() {
        let _ = (e.to_string(), format!("{e:?}"));
    }
    if let Err(e) = n.exactly_one() {
        let _ = (e.to_string(), format!("{e:?}"), e.is_empty(), e.is_more_than_one(), e.as_more_than_one());
    }
    let _ = (n.first(), n.last(), n.get(0), n.get(m), n.get(len), n.get(usize::MAX), n.is_empty(), n.iter().len());
    let _ = n.clone() == n;
    if len <= 300 {
        let _ = format!("{n:?}");
        let _ = serde_json::to_string(&n);
        let _ = serde_json::to_writer(ShortIo(7), &n);
    }
    let _ = n.clone().into_iter().rev().count();
    let _ = n.all();
    let _ = doc.json_path(p).len();
    let l = p.query_located(doc);
    let _ = (l.first(), l.last(), l.get(0), l.get(m), l.get(len), l.get(usize::MAX), l.is_empty());
    for (i, x) in l.iter().enumerate() {
        let q = x.location();
        if i < 40 {
            fmt_all(tc, q, 2);
            let _ = serde_json::to_string(q);
            let _ = serde_json::to_string(x);
            for e in q.iter() {
                let _ = (e.to_string(), e.as_name(), e.as_index(), e == "a", *e == 1usize, format!("{e:?}"), serde_json::to_value(e).ok());
                let _ = e.partial_cmp(q.first().unwrap());
            }
        }
        let ptr = q.to_json_pointer();
        let _ = doc.pointer(&ptr);
        let _ = (q.len(), q.is_empty(), q.first(), q.last(), q.get(0), q.get(1..), q.get(..q.len()), q.get(q.len()..), q.get(usize::MAX));
        let _ = q.partial_cmp(l.first().unwrap().location());
    }
    let _ = l.locations().rev().count() + l.nodes().rev().count() + l.locations().len() + l.nodes().len();
    if len <= 300 {
        let _ = format!("{l:?}");
        let _ = serde_json::to_string(&l);
    }
    let _ = l.clone().at_most_one().map_err(|e| e.to_string());
    let _ = l.clone().exactly_one().map_err(|e| e.to_string());
    let d = l.clone().dedup();
    let mut e = l.clone();
    e.dedup_in_place();
    e.dedup_in_place();
    let _ = d == e;
    for x in l.into_iter().take(5) {
        let _ = x.clone().to_location().into_iter().count();
        let _: serde_json_path::NormalizedPath = x.into();
    }
    tc.evn(30);
    len
}
