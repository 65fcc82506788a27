pub mod alloc;
pub mod common;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c11;
mod c12;
mod c10;
#[cfg(feature = "functions")]
mod c13;
mod c14;
mod c15;
mod c17;
mod c18;
#[cfg(feature = "functions")]
mod c19;
#[cfg(feature = "functions")]
mod c20;
mod c21;
#[cfg(feature = "integer")]
mod c16;
mod ops;

use crate::run::{Check, Conf};
use crate::Extra;

pub fn get(conf: &Conf) -> Option<(Check, Option<Extra>)> {
    Some(match conf.id.as_str() {
        "C01" => (c01::check(conf), None),
        "C02" => (c02::check(conf), None),
        "C03" => (c03::check(conf), None),
        "C04" => (c04::check(conf), None),
        "C05" => (c05::check(conf), None),
        "C06" => (c06::check(conf), None),
        "C07" => (c07::check(conf), None),
        "C08" => (c08::check(conf), None),
        "C09" => (c09::check(conf), None),
        "C11" => (c11::check(conf), None),
        "C12" => (c12::check(conf), None),
        "C10" => (c10::check(conf), None),
        #[cfg(feature = "functions")]
        "C13" => (c13::check(conf), Some(c13::extra as Extra)),
        "C17" => (c17::check(conf), None),
        "C18" => (c18::check(conf), None),
        #[cfg(feature = "functions")]
        "C19" => (c19::check(conf), None),
        #[cfg(feature = "functions")]
        "C20" => (c20::check(conf), None),
        "C21" => (c21::check(conf), Some(c21::extra as Extra)),
        "C15" => (c15::check(conf), Some(c15::extra as Extra)),
        "C14" => (c14::check(conf), Some(c14::extra as Extra)),
        #[cfg(feature = "integer")]
        "C16" => (c16::check(conf), None),
        _ => return None,
    })
}

pub fn aux(a: &[String]) -> i32 {
    match a.first().map(|s| s.as_str()) {
        Some("alone") => c14::alone_server(),
        Some("transcript") => c15::transcript(),
        Some("stampede") => c14::stampede(),
        Some("race") => c14::race_process(),
        _ => 2,
    }
}
