mod cparse;
mod rt;
mod util;
mod p_types;
mod p_cfg;
mod p_names;
mod p_conf;
mod p_out;
mod p_repr;
mod p_deps;
mod p_ops;
mod p_tags;
mod p_rename;
mod p_sel;
mod p_docs;
mod p_dep;
mod p_const;
mod p_items;
mod p_writer;

use std::path::PathBuf;
use std::sync::atomic::AtomicU64;
use std::sync::Mutex;
use util::*;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// vh ID quick|thorough SEED OUTDIR SCRATCH KNOWN,KNOWN,...
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let id = a[1].clone();
    let out = PathBuf::from(&a[4]);
    let ctx = Ctx {
        id: id.clone(),
        thorough: a[2] == "thorough",
        seed: a[3].parse().unwrap_or(1),
        scratch: PathBuf::from(&a[5]),
        cases: AtomicU64::new(0),
        nontrivial: AtomicU64::new(0),
        fails: Mutex::new(vec![]),
        known: Mutex::new(vec![]),
        known_enabled: a.get(6).map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default(),
        bounds: Mutex::new(vec![]),
    };
    if std::env::var("VH_TRACE").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    std::fs::create_dir_all(&ctx.scratch).unwrap();
    let ok = match id.as_str() {
        "C01" => p_types::c01(&ctx),
        "C02" => p_types::c02(&ctx),
        "C03" => p_types::c03(&ctx),
        "C04" => p_types::c04(&ctx),
        "C05" => p_types::c05(&ctx),
        "C06" => p_cfg::c06(&ctx),
        "C07" => p_names::c07(&ctx),
        "C17" => p_conf::c17(&ctx),
        "C08" => p_deps::c08(&ctx),
        "C11" => p_rename::c11(&ctx),
        "C12" => p_tags::c12(&ctx),
        "C15" => p_const::c15(&ctx),
        "C09" => p_items::run_all(&ctx),
        "C13" => p_writer::run_all(&ctx),
        "C16" => p_ops::c16(&ctx),
        "C19" => p_sel::c19(&ctx),
        "C22" => p_dep::c22(&ctx),
        "C23" => p_docs::c23(&ctx),
        "C10" => p_out::c10(&ctx),
        "C14" => p_repr::c14(&ctx),
        "C18" => p_out::c18(&ctx),
        _ => {
            println!("{{\"error\": \"unknown property\"}}");
            std::process::exit(3);
        }
    };
    let () = ok;
    let mut fails = ctx.fails.into_inner().unwrap();
    fails.sort_by_key(|f| f.input.len());
    let mut files = vec![];
    for (i, f) in fails.iter().take(3).enumerate() {
        let p = out.join(format!("{id}-{i}.txt"));
        let _ = std::fs::create_dir_all(&out);
        let _ = std::fs::write(
            &p,
            format!(
                "property {id}: {}\n\nInput (source file given to cbindgen, with this cbindgen.toml):\n{}\nWhat cbindgen produced:\n{}\n",
                f.what, f.input, f.output
            ),
        );
        files.push(p);
    }
    let known = ctx.known.into_inner().unwrap();
    let bounds = ctx.bounds.into_inner().unwrap();
    println!(
        "{{\"cases\": {}, \"nontrivial\": {}, \"failures\": {}, \"what\": [{}], \"replays\": [{}], \"known\": [{}], \"bounds\": [{}]}}",
        ctx.cases.into_inner(),
        ctx.nontrivial.into_inner(),
        fails.len(),
        fails.iter().take(3).map(|f| js(&f.what)).collect::<Vec<_>>().join(", "),
        files.iter().map(|f| js(&f.display().to_string())).collect::<Vec<_>>().join(", "),
        known.iter().map(|f| js(f)).collect::<Vec<_>>().join(", "),
        bounds.iter().map(|f| js(f)).collect::<Vec<_>>().join(", "),
    );
    std::process::exit(if fails.is_empty() { 0 } else { 1 });
}
