//! vmon: runtime monitors for tomllib.  See ../../DESIGN.md.
mod rng; mod refp; mod sem; mod gen; mod libx; mod cx; mod driver; mod props;

#[global_allocator]
static A: cx::Counting = cx::Counting;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(driver::main(&a));
}
