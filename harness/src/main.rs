mod alloc;
mod bulk;
mod checks_a;
mod checks_b;
mod checks_c;
mod checks_d;
mod checks_e;
mod checks_f;
mod conv;
mod ctx;
mod dec;
mod dict;
mod edit;
mod enc;
#[path = "gen.rs"]
mod gen_;
mod io;
mod miri;
mod model;
mod mutate;
mod rng;
mod run;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    ctx::install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("run") => run::parent(&args[1]),
        Some("worker") => run::worker(&args[1..]),
        Some("one") => run::one(&args[1..]),
        Some("pack") => checks_c::pack(&args[1..]),
        Some("job") => checks_c::job(&args[1..]),
        Some("replay") => run::replay(&args[1]),
        Some("baseline") => {
            println!("{}", dict::dump_baseline());
            0
        }
        _ => {
            eprintln!("usage: vmon run PROP | replay FILE | one PROP SEED IDX TIER | baseline");
            2
        }
    };
    std::process::exit(code);
}
