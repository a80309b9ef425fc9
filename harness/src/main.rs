mod data;
mod engine;
mod fmt;
mod oracle;
mod props;
mod pyref;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or_else(|| usage());
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or_else(|_| usage());
    let props = props::all();
    let find = |id: &str| match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2);
        }
    };
    let verif = std::env::var("GV_VERIF").unwrap_or_else(|_| "/verif".into());
    let code = match arg(1) {
        "run" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let tier = if tier == "thorough" { "thorough" } else { "quick" };
            engine::parent(find(arg(2)), seed, tier, &verif)
        }
        "replay" => {
            std::env::set_var("RAYON_NUM_THREADS", "1");
            engine::install_panic_hook();
            engine::replay(&props, arg(2))
        }
        "worker" => {
            engine::install_panic_hook();
            engine::worker(find(arg(2)), num(3), num(4), num(5), arg(6), num(7), arg(8))
        }
        "exec" => {
            engine::install_panic_hook();
            engine::exec_server(find(arg(2)), num(3) as usize);
            0
        }
        "pyref" => {
            std::env::set_var("RAYON_NUM_THREADS", "1");
            engine::install_panic_hook();
            pyref::serve();
            0
        }
        "list" => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        _ => usage(),
    };
    std::process::exit(code);
}

fn usage() -> ! {
    eprintln!("usage: granne-verif run <property> | replay <file> | list");
    std::process::exit(2)
}
