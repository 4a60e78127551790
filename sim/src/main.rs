//! orcsim: deterministic simulation of the ORC writer. See /verif/DESIGN.md.
mod checks;
mod driver;
mod exec;
mod gen;
mod giant;
mod limits;
mod host;
mod meta;
mod model;
mod oracle;
mod orc;
mod probe;
mod rng;
mod scenario;
mod shrink;
mod sink;

#[global_allocator]
static ALLOC: host::Counting = host::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    let code = match s.get(1..).unwrap_or(&[]) {
        ["check", prop, tier, rest @ ..] => driver::check(prop, tier, rest),
        ["worker", prop, vseed, from, to, tier] => driver::worker(prop, vseed.parse().unwrap(), from.parse().unwrap(), to.parse().unwrap(), tier),
        ["one", file] => driver::one(file),
        ["replay", file] => driver::replay(file),
        ["shrink", file, out] => driver::shrink_file(file, out),
        ["bench", prop, n, tier] => driver::bench(prop, n.parse().unwrap(), tier),
        ["show", prop, vseed, i] => driver::show(prop, vseed.parse().unwrap(), i.parse().unwrap()),
        _ => {
            eprintln!("usage: orcsim check PROP quick|thorough [--runs N] [--dir VERIF] | replay FILE | bench PROP N | show PROP SEED INDEX");
            3
        }
    };
    std::process::exit(code);
}
 
