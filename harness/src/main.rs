//! Property-based checks for rtbvh.  See /verif/DESIGN.md.
mod alloc;
mod case;
mod engine;
mod ffi;
mod gen;
mod oracle;
mod props;
mod scene;
mod shrink;
mod util;

#[global_allocator]
static ALLOC: alloc::Alloc = alloc::Alloc;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => engine::run(&args[2]),
        Some("worker") => engine::worker(&args[2..]),
        Some("exec") => engine::exec(&args[2], &args[3]),
        Some("replay") => engine::replay(&args[2]),
        Some("list") => {
            for p in props::all() {
                println!("{} {} {}", p.id, p.quick, p.thorough);
            }
            0
        }
        Some("case") => {
            let p = props::find(&args[2]);
            let idx: u64 = args[3].parse().unwrap();
            println!("{}", engine::gen_case(&p, engine::seed(), idx).to_json());
            0
        }
        // generates the cases FROM..TO without running them
        Some("generate") => {
            let p = props::find(&args[2]);
            let (from, to): (u64, u64) = (args[3].parse().unwrap(), args[4].parse().unwrap());
            for idx in from..to {
                engine::gen_case(&p, engine::seed(), idx);
            }
            0
        }
        _ => {
            eprintln!("usage: harness run|replay|list ...");
            2
        }
    };
    std::process::exit(code);
}
