mod ast;
mod checks;
mod funcs;
mod gen;
mod regexp;
mod render;
mod reval;
mod rng;
mod rparse;
mod run;
#[cfg(feature = "trace")]
mod trace;

use run::*;
use serde_json::{Map, Value};

/// something a check does besides its sections (other builds, other tools)
pub type Extra = fn(&Conf) -> Result<(Map<String, Value>, Vec<Value>), String>;

#[global_allocator]
static ALLOC: checks::alloc::Counting = checks::alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let id = a.get(1).cloned().unwrap_or_default();
    let tier = get("--tier").unwrap_or_else(|| "quick".into());
    let mut conf = Conf {
        id: id.clone(),
        thorough: tier == "thorough",
        tier,
        seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        verif: get("--verif").unwrap_or_else(|| "/verif".into()),
        scale: get("--scale").and_then(|s| s.parse().ok()).unwrap_or(100),
        deadline: 0,
        slice: get("--slice").and_then(|s| s.parse().ok()),
        known: vec![],
    };
    #[cfg(feature = "trace")]
    trace::install();
    conf.known = Known::load(&conf.verif).keys(&conf.id);
    conf.deadline = get("--deadline")
        .and_then(|s| s.parse().ok())
        .unwrap_or(if conf.thorough { 700 } else { 240 });
    if id == "aux" {
        std::process::exit(checks::aux(&a[2..]));
    }
    let Some((check, extra)) = checks::get(&conf) else {
        eprintln!("unknown check {id}");
        std::process::exit(2);
    };
    if let Some(i) = a.iter().position(|x| x == "--worker") {
        let crumbs = Crumbs::open(&a[i + 2], false).ok();
        worker(&conf, &check, &a[i + 1], crumbs);
        return;
    }
    if let Some(i) = a.iter().position(|x| x == "--one") {
        let r = single(&conf, &check, a[i + 1].parse().unwrap(), a[i + 2].parse().unwrap());
        std::process::exit(r);
    }
    if let Some(i) = a.iter().position(|x| x == "--replay") {
        let si = check.sections.iter().position(|s| s.name == a[i + 1]).expect("section");
        let r = single(&conf, &check, si, a[i + 2].parse().unwrap());
        std::process::exit(if r == 7 { 1 } else { r });
    }
    std::process::exit(main_check(&conf, &check, extra));
}
