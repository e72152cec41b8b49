//! lcmon: runtime monitors for lolcode_ast.
mod alloc;
mod case;
mod cmpc;
mod dict;
mod fuzz;
mod gen;
mod kinds;
mod layout;
mod lexc;
mod metac;
mod parsec;
mod refparse;
mod reflex;
mod rng;
mod run;
mod sut;
mod sysc;
mod tree;

#[cfg(not(lcmon_plain))]
#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    std::process::exit(run::main(&args));
}
