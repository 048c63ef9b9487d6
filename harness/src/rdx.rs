#![allow(dead_code)]
mod alloc;
mod cli;
mod contract;
mod cost;
mod dirty;
mod exact;
mod fl;
mod gf;
mod heap;
mod kinds;
mod log;
mod mem;
mod probe;
mod refeval;
mod sched;
mod sess_x;
mod session;
mod stages;
mod util;
pub use cli::{tool_error, Args};

#[global_allocator]
static METER: alloc::Meter = alloc::Meter;

fn main() {
    let (cmd, args) = cli::parse();
    match cmd.as_str() {
        "stages" => stages::run(&args),
        "exact" => exact::run(&args),
        "reject" => contract::reject(&args),
        "cost" => cost::run(&args),
        "session" => session::run::<gf::Gf>(&args),
        "sched" => sched::run(&args),
        "heap" => heap::run::<probe::Probe>(&args),
        "mem" => mem::run(&args),
        "ctor" => contract::ctor(&args),
        c => tool_error(&format!("unknown command {c}")),
    }
}
