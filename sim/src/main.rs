//! `check`: the supervisor. Splits the seeds among worker processes of both builds, minimises what
//! they find and writes the evidence. `replay`: runs a replay file. See ../../DESIGN.md.

mod checks;
mod churn;
mod coro;
mod diff;
mod engine;
mod exec;
mod gen;
mod halt;
mod minimise;
mod oracle;
mod os;
mod rng;
mod scan;
mod scen;
mod supervise;
mod types;
mod unsync;
mod worker;

#[global_allocator]
static ALLOC: churn::Counting = churn::Counting;

/// Which of the two builds this is.
pub fn build() -> &'static str {
    if cfg!(debug_assertions) {
        "simdbg"
    } else {
        "simrel"
    }
}

/// The scenario and scheduling seed of a run: all there is to it.
pub fn case(prop: &str, seed: u64, index: u64) -> (scen::Scenario, u64) {
    let p = prop.bytes().fold(0u64, |a, b| a << 8 | b as u64);
    let mut r = rng::Rng::new(rng::mix(&[seed, p, index]));
    let s = gen::generate(prop, &mut r);
    (s, r.next())
}

fn main() {
    exec::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let rest: Vec<&str> = args.iter().skip(1).map(|s| s.as_str()).collect();
    let code = match (args.first().map(|s| s.as_str()), rest.as_slice()) {
        (Some("check"), _) => supervise::check(&rest),
        (Some("worker"), _) => worker::worker(&rest),
        (Some("minimise"), [prop, seed, index, class, budget, out]) => {
            minimise::command(prop, seed.parse().unwrap(), index.parse().unwrap(), class, budget.parse().unwrap(), out)
        }
        (Some("fingerprints"), [prop, seed, from, n, step]) => {
            worker::fingerprints(prop, seed.parse().unwrap(), from.parse().unwrap(), n.parse().unwrap(), step.parse().unwrap())
        }
        (Some("replay"), [file]) => minimise::replay(file),
        (Some("build"), []) => {
            println!("{}", build());
            0
        }
        (Some("find"), [prop, seed, n]) => worker::find(prop, seed.parse().unwrap(), n.parse().unwrap()),
        (Some("show"), [prop, seed, index]) => {
            print!("{}", case(prop, seed.parse().unwrap(), index.parse().unwrap()).0.text());
            0
        }
        _ => {
            eprintln!("check|worker|minimise|fingerprints|replay|find|show");
            2
        }
    };
    std::process::exit(code);
}
