//! Deterministic simulation of toon: the command-line program under a simulated operating system, and
//! the library under a simulated executor, thread scheduler, allocator and event sources.

mod alloc;
mod case;
mod ctx;
mod dec;
mod docs;
mod driver;
mod enc;
mod exec;
mod os;
mod props;
mod sched;
mod tape;
mod val;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let arg = |i: usize| a.get(i).map_or("", String::as_str);
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or(0);
    if arg(0) == "replay" {
        std::process::exit(driver::replay(arg(1)));
    }
    if arg(0) == "list" {
        for p in props::PROPS {
            println!("{}", p.id);
        }
        return;
    }
    let Some(p) = props::find(arg(1)) else {
        eprintln!("usage: toonsim check PROPERTY quick|thorough | replay FILE | digests PROPERTY SEED FROM TO");
        std::process::exit(2);
    };
    let thorough = arg(2) == "thorough";
    match arg(0) {
        "check" => {
            os::verify_layout();
            let seed = std::env::var("VERIF_SEED").ok().and_then(|v| v.trim().parse().ok()).unwrap_or(1u64);
            std::process::exit(driver::check(p, thorough, seed));
        }
        "worker" => driver::worker(p, thorough, num(3), num(4), num(5), num(6), num(7)),
        "serve" => driver::serve(p, thorough),
        "record" => driver::record(p, thorough, num(3), num(4)),
        "digests" => driver::digests(p, num(2), num(3), num(4)),
        _ => std::process::exit(2),
    }
}
