mod alloc;
mod attrs;
mod common;
mod contexts;
mod dates;
#[macro_use]
mod engine;
mod gen;
mod html;
mod htmlmodel;
mod links;
mod model;
mod probe;
mod props;
mod textmodel;
mod treegen;

#[global_allocator]
static ALLOCATOR: alloc::Counting = alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("show") {
        probe::show(&args[2..]);
        return;
    }
    if args.get(1).map(|s| s.as_str()) == Some("outputs") {
        probe::outputs(&args[2..]);
        return;
    }
    std::process::exit(engine::main(props::ALL));
}
