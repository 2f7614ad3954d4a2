//! Concrete companion of the deductive checks: searches for (and replays) inputs on which
//! the real svgdom breaks a property.  It never decides that a property is proved.

mod util;
mod tree;
mod names_table;
mod tables;
mod gen;
mod refdom;
mod xml;

use std::time::{Duration, Instant};
use util::*;

#[global_allocator]
static A: util::CountAlloc = util::CountAlloc;

fn usage() -> ! {
    eprintln!("usage: harness run PROP SEED MILLIS REPLAY_OUT | harness replay FILE");
    std::process::exit(2)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 { usage(); }
    install_quiet_hook();
    // Deep recursion in the code under test must not depend on the main thread's stack.
    let code = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        match args[1].as_str() {
            "run" if args.len() >= 6 => run(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap(), &args[5]),
            "replay" => replay(&args[2]),
            _ => usage(),
        }
    }).unwrap().join().unwrap_or(3);
    std::process::exit(code);
}

fn run(prop: &str, seed: u64, millis: u64, out: &str) -> i32 {
    let mut ctx = Ctx::new(prop, seed, Instant::now() + Duration::from_millis(millis), out);
    start_watchdog();
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C09" | "C10"
        | "C11" | "C12" => tree::run(&mut ctx),
        "C13" | "C14" | "C15" | "C16" => tables::run(&mut ctx),
        _ => {}
    }
    if ctx.failure.is_none() {
        match prop {
            "C07" | "C17" | "C18" | "C19" | "C20" | "C21" | "C22" | "C23" => xml::run(&mut ctx),
            _ => {}
        }
    }
    ctx.finish()
}

fn replay(file: &str) -> i32 {
    let text = std::fs::read_to_string(file).expect("replay file");
    start_watchdog();
    let (prop, kind, body) = match parse_replay(&text) {
        Some(v) => v,
        None => {
            println!("replay file carries no concrete input");
            return 2;
        }
    };
    let res = match kind.as_str() {
        "tree" => check_caught(&tree::TreeCase::decode(&body), &prop),
        "xml" => check_caught(&xml::XmlCase::decode(&body), &prop),
        "table" => check_caught(&tables::TableCase::decode(&body), &prop),
        _ => { println!("unknown kind {}", kind); return 2; }
    };
    match res {
        Ok(()) => { println!("replay: property {} holds on this input", prop); 0 }
        Err(e) => { println!("replay: property {} violated: {}", prop, e); 1 }
    }
}
