mod engine;
mod js;
mod known;
mod layout;
mod oracle;
mod pretty;
mod props;
mod reflex;
mod src;
mod text;
mod unicode;

use engine::*;

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| {
        std::env::current_dir().unwrap().to_string_lossy().into_owned()
    })
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let props = props::all();
    if args.is_empty() || args[0] == "list" {
        for p in props.iter() {
            println!("{}", p.id);
        }
        return;
    }
    if args[0] == "ast" {
        // For development: the tree of a text.
        let module = args[1] == "-m";
        let text = args.last().unwrap();
        let r = if module { fajt_parser::parse_module(text) } else { fajt_parser::parse_script(text) };
        match r {
            Ok(p) => println!("{}", serde_json::to_string(&p).unwrap()),
            Err(e) => println!("{e:?}"),
        }
        return;
    }
    let id = args[0].clone();
    let prop = props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no property {id}");
        std::process::exit(2)
    });
    let prop: &'static Property = prop;
    let val = |name: &str| {
        args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
    };
    let has = |name: &str| args.iter().any(|a| a == name);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
        || has("--thorough");
    let opt = Options {
        seed,
        thorough,
        cases: val("--cases").and_then(|v| v.parse().ok()),
        offset: val("--offset").and_then(|v| v.parse().ok()).unwrap_or(0),
        stats: has("--stats"),
    };
    install_hook();
    let code = if let Some(state) = val("--worker") {
        worker(prop, &opt, &state)
    } else if let Some(case) = val("--single") {
        single(prop, seed, case.parse().expect("case"))
    } else if let Some(path) = val("--replay") {
        replay(prop, &path)
    } else if has("--direct") {
        worker(prop, &opt, "/tmp/fajt-verif-state")
    } else {
        supervise(prop, &opt, &args)
    };
    std::process::exit(code);
}
