//! The scenarios of each property.
pub mod evidence;
pub mod geom;
pub mod search;
pub mod sphere;
pub mod tree;
pub mod types;
pub mod util;
use crate::run::Scen;
use serde_json::Value;

pub fn ids() -> Vec<&'static str> {
    vec!["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20", "P21", "P22", "P23", "P24", "P25", "P26", "P27"]
}
pub fn scenarios(id: &str) -> Vec<Scen> {
    match id {
        "P01" => tree::p01(),
        "P02" => tree::p02(),
        "P03" => tree::p03(),
        "P04" => tree::p04(),
        "P05" => tree::p05(),
        "P06" => tree::p06(),
        "P07" => search::p07(),
        "P08" => search::p08(),
        "P09" => search::p09(),
        "P10" => search::p10(),
        "P11" => search::p11(),
        "P12" => search::p12(),
        "P13" => geom::p13(),
        "P14" => geom::p14(),
        "P15" => sphere::p15(),
        "P16" => sphere::p16(),
        "P17" => sphere::p17(),
        "P18" => sphere::p18(),
        "P19" => sphere::p19(),
        "P20" => sphere::p20(),
        "P21" => geom::p21(),
        "P22" => geom::p22(),
        "P23" => tree::p23(),
        "P24" => tree::p24(),
        "P25" => sphere::p25(),
        "P26" => tree::p26(),
        "P27" => types::p27(),
        _ => vec![],
    }
}
pub fn assumptions(id: &str) -> Vec<&'static str> {
    let mut v = vec![
        "coordinates behave as exact reals, except in scenarios marked Round (any monotone rounding, no underflow or overflow) and Int (32-bit integers)",
        "geo, rstar and the Rust standard library are executed as compiled; Hilbert or hash orders are not involved",
        "bounds of every scenario are listed with it; nothing is claimed outside them",
    ];
    if matches!(id, "P15" | "P16" | "P17" | "P18" | "P19" | "P20" | "P25") {
        v.push("sin, cos, asin, acos, atan2, sqrt are described to the solver by the axioms in sx/src/trig.rs (true facts about the real functions)");
    }
    v
}
pub fn evidence(id: &str, t: &Value) -> Value {
    evidence::evidence(id, t, &assumptions(id))
}
