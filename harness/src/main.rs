//! Monitors for html5-fuser: see DESIGN.md.

mod alloc;
mod choice;
mod gen;
mod h;
mod prog;
mod progen;
mod props;
mod real;
mod refparse;
mod run;
mod tree;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    run::install_hook();
    let args: Vec<String> = std::env::args().collect();
    let code = run::big_stack(move || dispatch(&args));
    std::process::exit(code);
}

fn dispatch(args: &[String]) -> i32 {
    let arg = |i: usize| args.get(i).map(|s| &s[..]).unwrap_or("");
    let env = |n: &str| std::env::var(n).unwrap_or_default();
    match arg(1) {
        "check" => {
            let Some(p) = props::find(arg(2)) else {
                eprintln!("no such property: {}", arg(2));
                return 3;
            };
            let seed = env("VERIF_SEED").trim().parse().unwrap_or(1);
            run::check(&p, seed, env("VERIF_TIER") == "thorough")
        }
        "worker" => {
            let Some(p) = props::find(arg(2)) else { return 3 };
            run::worker(
                &p,
                run::WorkerArgs {
                    number: arg(3).parse().unwrap_or(0),
                    of: arg(4).parse().unwrap_or(1),
                    seed: arg(5).parse().unwrap_or(1),
                    thorough: arg(6) == "thorough",
                    dir: arg(7).into(),
                    from: (0, 0),
                },
            )
        }
        "miri" => props::safety::inside_miri(
            arg(2).parse().unwrap_or(1),
            arg(3).parse().unwrap_or(10),
            arg(4).parse().unwrap_or(10),
        ),
        "grow" => props::growth::under_callgrind(
            arg(2),
            arg(3).parse().unwrap_or(1),
            arg(4).parse().unwrap_or(0),
            arg(5).parse().unwrap_or(1),
            arg(6).parse().unwrap_or(10),
            arg(7) == "thorough",
        ),
        "again" => run::again(&props::find, std::path::Path::new(arg(2))),
        "replay" => run::replay(&props::find, std::path::Path::new(arg(2))),
        _ => {
            eprintln!("usage: monitor check|replay ...");
            3
        }
    }
}
