//! The deterministic simulator for the json crate: see /verif/DESIGN.md.
#![allow(static_mut_refs)]
#![feature(alloc_error_hook)]
#[macro_export]
macro_rules! ck { ($c:expr, $class:expr, $($fmt:tt)*) => { if !$c { $crate::rt::viol($class, format!($($fmt)*)); return None; } } }

mod rt;
mod sched;
mod seams;
mod model;
mod refjson;
mod world;
mod stream;
mod damage;
mod history;
mod threads;
mod depth;
mod macros;
mod shown;
mod work;
mod refused;
mod lane;
mod check;

#[global_allocator]
static GLOBAL: rt::SimAlloc = rt::SimAlloc;

/// The same addresses in every process, where the system allows it.
fn fixed_addresses() {
    use std::os::unix::process::CommandExt;
    if std::env::var_os("JSONSIM_FIXED").is_some() { return; }
    let p = unsafe { rt::personality(0xffff_ffff) };
    if p < 0 || p & 0x40000 != 0 || unsafe { rt::personality(p as u64 | 0x40000) } < 0 { return; }
    let Ok(exe) = std::env::current_exe() else { return };
    let _ = std::process::Command::new(exe).args(std::env::args_os().skip(1)).env("JSONSIM_FIXED", "1").exec();
}
fn main() {
    fixed_addresses();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => check::check(&args[1..]),
        Some("lane") => check::lane_main(&args[1..]),
        Some("shrink") => check::shrink_main(&args[1..]),
        Some("replay") => check::replay_main(&args[1..]),
        Some("trace") => check::trace_main(&args[1..]),
        _ => { eprintln!("usage: jsonsim check|lane|shrink|replay|trace ..."); 2 }
    };
    // thread-locals and the like are of no interest
    unsafe { rt::_exit(code) }
}
