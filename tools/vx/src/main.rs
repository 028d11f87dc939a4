mod contracts;
mod gen;
mod gram;
mod inline;
mod lalr;
mod printer;
mod re;
mod units;
mod xf;

use std::path::PathBuf;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() != 6 {
        eprintln!("usage: vx UNIT REPO CONTRACTS_DIR OUT.rs OUT.json");
        std::process::exit(2);
    }
    let (unit, repo, cdir, out, map) = (&args[1], PathBuf::from(&args[2]), PathBuf::from(&args[3]), &args[4], &args[5]);
    let r = std::panic::catch_unwind(|| units::run(unit, &repo, &cdir)).unwrap_or_else(|_| Err("internal error of the extractor".into()));
    match r {
        Ok(o) => {
            std::fs::write(out, &o.text).unwrap();
            let fns: Vec<serde_json::Value> = o
                .fns
                .iter()
                .map(|f| serde_json::json!({"key": f.key, "file": f.file, "src_line": f.src_line, "first": f.first, "last": f.last, "contracted": f.contracted, "props": f.props}))
                .collect();
            let j = serde_json::json!({"fns": fns, "problems": o.problems, "inlined": o.inlined});
            std::fs::write(map, serde_json::to_string_pretty(&j).unwrap()).unwrap();
        }
        Err(e) => {
            let j = serde_json::json!({"fns": [], "problems": [format!("extract: {}", e)]});
            std::fs::write(map, serde_json::to_string_pretty(&j).unwrap()).unwrap();
            eprintln!("vx: {}", e);
            std::process::exit(3);
        }
    }
}
