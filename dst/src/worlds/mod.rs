use crate::rng::Rng;
use crate::sim::Ctx;
use serde_json::Value;

pub mod addr;
pub mod backends;
#[cfg(feature = "contracts")]
pub mod chain;
pub mod damage;
pub mod deal;
pub mod expand;
pub mod import;
pub mod session;
pub mod storage;
pub mod stream;
pub mod threads;

pub struct World {
    pub name: &'static str,
    pub gen: fn(&mut Rng, &str, bool) -> Value,
    pub run: fn(&mut Ctx, &str, &Value),
    pub valid: fn(&Value) -> bool,
    pub after: Option<fn()>,
    pub quick_runs: u64,
    pub thorough_runs: u64,
    /// How many runs the determinism self-check repeats at most.
    pub recheck: u64,
    pub cpu_s: u64,
    pub rule: &'static str,
    pub time_unit: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

pub fn world_for(prop: &str) -> World {
    match prop {
        "C01" | "C02" | "C03" | "C04" => session::world(prop),
        "C05" => storage::world("C05"),
        "C06" => storage::world("C06"),
        "C07" => storage::world("C07"),
        "C08" => damage::world(),
        "C09" => import::world(),
        "C10" => addr::world(),
        "C11" => stream::world(),
        "C12" | "C13" => expand::world(prop),
        "C14" => threads::world(),
        "C15" => backends::world(),
        #[cfg(feature = "contracts")]
        "C16" | "C22" | "C25" => chain::world(prop),
        _ => panic!("no world for {}", prop),
    }
}
