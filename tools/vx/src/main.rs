//! vx: mechanical extractor. Copies functions and types of /repo verbatim (by source span) into a
//! Verus file laid out by a template, inserting the template's contracts and loop invariants, and
//! applying only the fixed desugarings of `rewrite.rs`. See DESIGN.md for the list of rules.
mod repo;
mod rewrite;
mod template;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        eprintln!("usage: vx TEMPLATE REPO OUT.rs META.json");
        std::process::exit(2);
    }
    match template::run(&args[1], &args[2]) {
        Ok((text, meta)) => {
            std::fs::write(&args[3], text).unwrap();
            std::fs::write(&args[4], serde_json::to_string_pretty(&meta).unwrap()).unwrap();
        }
        Err(e) => {
            eprintln!("vx: {e}");
            std::process::exit(3);
        }
    }
}
