#![feature(allocator_api, portable_simd, alloc_error_hook)]
mod bigint;
mod driver;
mod geo;
mod props;
mod src;

use driver::*;

fn main() {
    // fixed address layout makes address-dependent hash seeds repeatable; best effort
    if std::env::var_os("VH_NOASLR").is_none() {
        unsafe {
            std::env::set_var("VH_NOASLR", "1");
            let cur = libc::personality(0xffffffff);
            if cur >= 0 && libc::personality((cur as u64) | 0x0040000) >= 0 {
                use std::os::unix::process::CommandExt;
                let me = std::env::current_exe().unwrap();
                let _ = std::process::Command::new(me).args(std::env::args_os().skip(1)).exec();
            }
        }
    }
    // settle what is fixed once per process before the workers are forked
    // (the hash seeds of hashbrown; not through the library, which may be broken)
    let mut warm = hashbrown::HashMap::new();
    warm.insert(1usize, 1usize);
    install_hooks();
    let args: Vec<String> = std::env::args().collect();
    let all = props::all();
    if args.len() < 2 {
        for p in &all {
            println!("{}", p.id);
        }
        return;
    }
    let mut o = Opts {
        root: std::env::var("VH_ROOT").unwrap_or_else(|_| "/verif".into()),
        thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        cases: None,
        keep_going: false,
    };
    let mut rep = None;
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "quick" => o.thorough = false,
            "thorough" => o.thorough = true,
            "--seed" => {
                i += 1;
                o.seed = args[i].parse().unwrap();
            }
            "--cases" => {
                i += 1;
                o.cases = Some(args[i].parse().unwrap());
            }
            "--keep-going" => o.keep_going = true,
            "--replay" => {
                i += 1;
                rep = Some(args[i].clone());
            }
            x => {
                println!("ERROR unknown argument {x}");
                std::process::exit(2);
            }
        }
        i += 1;
    }
    let Some(p) = all.iter().find(|p| p.id == args[1]) else {
        println!("ERROR unknown property {}", args[1]);
        std::process::exit(2);
    };
    let code = match rep {
        Some(path) => replay(p, &path, &o),
        None => run_prop(p, &o),
    };
    std::process::exit(code);
}
