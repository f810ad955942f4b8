#[cfg(feature = "contracts")]
mod contracts;
mod curve;
mod damage;
mod model;
mod rng;
mod runner;
mod seams;
mod sim;
#[cfg(feature = "contracts")]
mod vm;
mod worlds;

fn main() {
    seams::shm_init();
    sim::quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => runner::check(&a[2]),
        Some("worker") => {
            let n = |i: usize| a[i].parse::<u64>().expect("number");
            runner::worker(&a[2], n(3), n(4), n(5), n(6), n(7), a[8] == "1", &a[9]);
            0
        }
        Some("replay") => runner::replay(&a[2]),
        Some("one") => runner::one(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap()),
        _ => {
            eprintln!("usage: dst check <property> | replay <file> | one <property> <seed> <run>");
            2
        }
    };
    std::process::exit(code);
}
