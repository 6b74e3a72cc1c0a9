mod child;
mod core;
mod efence;
mod engine;
mod hk;
mod lane;
mod odd;
mod plan;
mod props;
mod sched;

#[global_allocator]
static ALLOC: efence::Ef = efence::Ef;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let p = props::get(&a[2]);
            let thorough = a.get(3).map(|s| s == "thorough").unwrap_or(false);
            engine::run(&p, thorough, 0.0)
        }
        Some("replay") => engine::replay(&props::get(&a[2]), &a[3]),
        Some("cases") => {
            let c = (props::get(&a[2]).cases)(a.get(3).map(|s| s == "thorough").unwrap_or(false));
            for x in c {
                println!("{x}");
            }
            0
        }
        _ => {
            eprintln!("usage: mc run|replay|cases ...");
            2
        }
    };
    std::process::exit(code);
}
