mod alloc;
mod core;
mod dbg;
mod gcomp;
mod gddl;
mod gdml;
mod gen;
mod gexpr;
mod gselect;
mod lex;
mod mutate;
mod n;
mod obs;
mod props;
mod render;
mod rng;
mod run;
mod words;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    std::process::exit(run::main(&a));
}
