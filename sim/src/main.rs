//! Deterministic simulation of programs that use yaml-peg. See DESIGN.md.
//!
//! ypsim check <property>       run the check (VERIF_SEED, VERIF_TIER)
//! ypsim replay <file>          run a replay file, print its trace
//! ypsim one <property> <index> run one seed, print its trace
//! ypsim worker ...             internal
mod driver;
mod fault;
mod gen;
mod minimise;
mod props;

fn main() {
    rt::run::fix_layout();
    rt::shm::init();
    rt::quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(String::as_str) {
        Some("check") => driver::check(&a[2]),
        Some("worker") => driver::worker(&a[2..]),
        Some("replay") => driver::replay(&a[2]),
        Some("one") => driver::one(&a[2], a[3].parse().unwrap()),
        _ => {
            eprintln!("usage: ypsim check|replay|one ...");
            2
        }
    };
    std::process::exit(code);
}
