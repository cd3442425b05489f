use std::path::PathBuf;

use bsv::{
    engine::{self, Opts},
    props::*,
};

macro_rules! registry {
    ($($m:ident :: $t:ident),* $(,)?) => {
        const IDS: &[&str] = &[$(stringify!($t)),*];
        fn run(id: &str, o: &Opts) -> Option<i32> {
            match id { $(stringify!($t) => Some(engine::run::<$m::$t>(o)),)* _ => None }
        }
        fn replay(id: &str, v: &serde_json::Value) -> Option<i32> {
            match id { $(stringify!($t) => Some(engine::replay::<$m::$t>(v)),)* _ => None }
        }
    };
}
bsv::all_props!(registry);

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let code = match args.iter().map(|s| s.as_str()).collect::<Vec<_>>()[..] {
        ["list"] => {
            IDS.iter().for_each(|i| println!("{i}"));
            0
        }
        ["replay", file] => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).expect("read")).expect("json");
            replay(v["property"].as_str().expect("property"), &v).expect("known property")
        }
        [id, tier] => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let scale = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
            let o = Opts { tier: tier.into(), seed, root, scale };
            run(id, &o).unwrap_or_else(|| {
                eprintln!("unknown property {id}");
                2
            })
        }
        _ => {
            eprintln!("usage: bsv <property> quick|thorough | bsv replay <file> | bsv list");
            2
        }
    };
    std::process::exit(code);
}
