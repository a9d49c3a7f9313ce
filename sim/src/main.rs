mod driver;
mod scen;
mod util;

pub struct Property {
    pub id: &'static str,
    pub run: fn() -> Result<(), rt::Viol>,
    pub quick: u64,
    pub thorough: u64,
    pub how: &'static str,
    pub nontrivial: &'static str,
    pub assumptions: &'static [&'static str],
}
pub use scen::PROPERTIES;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(String::as_str).collect();
    let code = match a.as_slice() {
        ["check", id] => driver::check(id),
        ["replay", f] => driver::replay(f),
        ["determinism", n] => driver::determinism(n.parse().unwrap_or(100), None),
        ["determinism", n, id] => driver::determinism(n.parse().unwrap_or(100), Some(id)),
        ["one", id, seed, index] => {
            rt::shared::attach(rt::shared::new_region());
            let p = PROPERTIES.iter().find(|p| p.id == *id).expect("property");
            let o = driver::run_index(p, seed.parse().unwrap(), index.parse().unwrap(), true);
            let s = rt::sh();
            rt::sys::write_fd(1, &s.trace[..s.trace_len]);
            println!("verdict {} {} {} hash {:016x} steps {} switches {} events {} choices {:?}", o.verdict, o.class, o.msg, o.hash, s.steps, s.switches, s.ev_count, s.out_len);
            (o.verdict != 1) as i32
        }
        _ => {
            eprintln!("usage: icalsim check <property> | replay <file> | determinism <n> [property] | one <property> <seed> <index>");
            2
        }
    };
    std::process::exit(code);
}
