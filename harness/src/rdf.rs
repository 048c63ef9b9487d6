#![allow(dead_code)]
mod alloc;
mod cli;
mod dirty;
mod fl;
mod float;
mod heap;
mod kinds;
mod life;
mod log;
mod mem;
mod probe;
mod refeval;
mod sess_f;
mod session;
mod util;
pub use cli::{tool_error, Args};

#[global_allocator]
static METER: alloc::Meter = alloc::Meter;

fn main() {
    let (cmd, args) = cli::parse();
    match cmd.as_str() {
        "phase" => float::phase(&args),
        "acc" => float::acc(&args),
        "windows" => float::windows(&args),
        "scratch" => dirty::scratch(&args),
        "alloc" => dirty::alloc(&args),
        "memo" => dirty::memo(&args),
        "life" => life::run(&args),
        "session" => {
            if args.str("t", "f64") == "f32" {
                session::run::<f32>(&args)
            } else {
                session::run::<f64>(&args)
            }
        }
        "heap" => {
            if args.str("t", "f64") == "f32" {
                heap::run::<f32>(&args)
            } else {
                heap::run::<f64>(&args)
            }
        }
        "defs" => float::defs(&args),
        "mem" => mem::run(&args),
        c => tool_error(&format!("unknown command {c}")),
    }
}
