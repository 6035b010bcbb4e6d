//! Contracts for scarlet's public functions.
//!
//! One source, two builds:
//!  * `--cfg scarlet_verif`: the library runs on the symbolic scalar
//!    (scarlet::verif::Sym); `dump` explores every path of every contract and
//!    writes the proof obligations (nodes, assumptions, goals) as JSON.
//!  * without it: the library is the ordinary one (f32/f64); `replay` runs a
//!    contract on given inputs and `search` on random ones, to confirm that a
//!    failed obligation has a failing input on the real code.
#![allow(unexpected_cfgs)]
#![allow(clippy::all)]

mod contracts;
mod ctx;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    std::panic::set_hook(Box::new(|_| {}));
    match cmd {
        "list" => {
            for c in contracts::all_contracts() {
                println!("{} {} {:?} {}", c.prop, c.name, c.mode, c.covers.join(","));
            }
        }
        #[cfg(scarlet_verif)]
        "dump" => ctx::dump(&args[2], &args[3]),
        #[cfg(not(scarlet_verif))]
        "replay" | "replay-close" => ctx::replay(&args[2], &args[3..], cmd == "replay-close"),
        #[cfg(not(scarlet_verif))]
        "search" | "search-close" => {
            let num = |i: usize, d: f64| args.get(i).and_then(|s| s.parse::<f64>().ok()).unwrap_or(d);
            ctx::search(&args[2], num(3, 1.0) as u64, num(4, 1000.0) as u64, num(5, 1e9), num(6, 1.0) as usize, args.get(7..).unwrap_or(&[]), cmd == "search-close")
        }
        _ => {
            eprintln!("usage: contracts list | dump PROP DIR | replay CONTRACT k=v.. | search CONTRACT SEED N");
            std::process::exit(2);
        }
    }
}
