pub mod config;
pub mod errors;
pub mod faults;
pub mod globals;
pub mod line;
pub mod npm;
pub mod pool;
pub mod robust;
pub mod says;
pub mod schemas;
pub mod stable;
pub mod types;
use crate::report::Report;

pub fn run(id: &str, thorough: bool) -> Option<i32> {
    let f: fn(&Report) = match id {
        "C01" => pool::c01,
        "C02" => pool::c02,
        "C03" => stable::c03,
        "E01" => errors::e01,
        "E02" => robust::e02,
        "E03" => errors::e03,
        "E04" => errors::e04,
        "E06" => says::e06,
        "E05" => schemas::e05,
        "F01" => faults::f01,
        "F02" => faults::f02,
        "F03" => faults::f03,
        "G01" => config::g01,
        "G02" => config::g02,
        "G04" => line::g04,
        "G03" => config::g03,
        "N01" => npm::n01,
        "N02" => npm::n02,
        "N03" => npm::n03,
        "N04" => npm::n04,
        "T01" => types::t01,
        "T02" => types::t02,
        "T03" => types::t03,
        "T04" => globals::t04,
        "T07" => globals::t07,
        "T08" => globals::t08,
        "T05" => types::t05,
        "T06" => types::t06,
        _ => return None,
    };
    let level = match id {
        "F01" | "F02" | "N01" | "N02" => "fault_enumeration",
        _ => "model_checking",
    };
    let r = Report::new(id, thorough, level);
    f(&r);
    Some(r.finish())
}
