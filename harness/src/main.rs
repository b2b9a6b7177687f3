mod c07;
mod c10;
mod c11;
#[cfg(feature = "ast")]
mod c12;
mod c13;
mod c14;
mod c15;
mod cases;
mod exec;
mod exec_check;
mod findings;
mod gen;
mod glue;
mod grid;
mod inflate;
mod model;
mod print;
mod report;
mod shrink;
mod sup;
mod tape;
mod wire;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    exec::quiet_panics();
    let code = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || real_main(&args))
        .unwrap()
        .join()
        .unwrap_or(3);
    std::process::exit(code);
}

fn real_main(args: &[String]) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => sup::supervise(&args[2], &tier, seed),
        Some("check-inner") => {
            sup::attach();
            let p = args[2].as_str();
            match p {
                "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C08" | "C09" => exec_check::run(p, &tier, seed),
                "C07" => c07::run(&tier, seed),
                "C10" => c10::run(&tier, seed),
                "C11" => c11::run(&tier, seed),
                "C14" => c14::run(&tier, seed),
                "C15" => c15::run(&tier, seed),
                #[cfg(feature = "ast")]
                "C12" => c12::run(&tier, seed),
                "C13" => c13::run(&tier, seed),
                _ => {
                    eprintln!("unknown property {}", p);
                    2
                }
            }
        }
        Some("c14-worker") => c14::worker(),
        Some("gen-worker") => c11::worker(args),
        Some("replay") => {
            let txt = std::fs::read_to_string(&args[2]).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&txt).expect("replay file");
            let p = v["property"].as_str().unwrap().to_string();
            match v["case"]["kind"].as_str() {
                Some("inflight") => sup::replay(&v["case"]),
                Some("exec") => exec_check::replay(&p, &v["case"]),
                Some("c07") => c07::replay(&v["case"]),
                Some("c10") => c10::replay(&v["case"]),
                Some("c11") => c11::replay(&v["case"]),
                Some("c14") => c14::replay(&v["case"]),
                Some("c15") => c15::replay(&v["case"]),
                #[cfg(feature = "ast")]
                Some("c12") => c12::replay(&v["case"]),
                Some("c13") => c13::replay(&v["case"]),
                _ => 2,
            }
        }
        _ => {
            eprintln!("usage: vharness check <ID> | replay <file>");
            2
        }
    }
}
