//! C10 (writing a header file) and C18 (the list of linkable symbols).
use crate::util::*;
use cbindgen::Bindings;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::time::{Duration, SystemTime};

fn demand(ctx: &Ctx, inp: &Input) -> Result<Bindings, Fail> {
    bindings(ctx, inp).map_err(|e| {
        let t = match e {
            Gen::Err(e) => format!("cbindgen rejected a valid input: {e}"),
            Gen::Panic(e) => format!("cbindgen panicked: {e}"),
            Gen::Ok(_) => String::new(),
        };
        fail(inp, "", t)
    })
}

fn some_input(rng: &mut Rng) -> Input {
    let mut src = String::new();
    for k in 0..rng.below(4) {
        src += &format!("/// doc {}\n#[no_mangle] pub extern \"C\" fn f{k}(a: {}) {{}}\n", rng.pick(&["é", "x", "漢字"]), rng.pick(&["u8", "*const u16", "Foo"]));
    }
    if rng.chance(1, 2) {
        src += "#[repr(C)] pub struct Foo { a: u8 }\n";
    }
    let lang = *rng.pick(&["C", "C++", "Cython"]);
    let toml = format!(
        "language = {lang:?}\nline_endings = {:?}\nheader = \"// é {}\"\n{}",
        rng.pick(&["LF", "CRLF", "CR"]),
        rng.below(1000),
        if rng.chance(1, 2) { "trailer = \"// end\"\n" } else { "" }
    );
    Input { src, toml }
}

fn bytes(b: &Bindings) -> Vec<u8> {
    let mut v = vec![];
    b.write(&mut v);
    v
}

fn stamp(p: &Path) -> Option<SystemTime> {
    std::fs::metadata(p).ok().and_then(|m| m.modified().ok())
}

/// set an old modification time, so that any write is visible
fn age(p: &Path) -> SystemTime {
    let t = SystemTime::UNIX_EPOCH + Duration::from_secs(1_000_000_000);
    std::fs::OpenOptions::new().append(true).open(p).unwrap().set_modified(t).unwrap();
    t
}

fn vary(rng: &mut Rng, new: &[u8]) -> Vec<u8> {
    let mut v = new.to_vec();
    match rng.below(12) {
        0 => v.clear(),
        1 => {
            v.pop();
        }
        2 => v.push(b'\n'),
        3 => v.extend_from_slice(b" "),
        4 if !v.is_empty() => {
            let i = rng.below(v.len());
            v[i] ^= 1 << rng.below(7);
        }
        5 if !v.is_empty() => {
            let i = rng.below(v.len());
            v[i] = 0xff;
        }
        6 => {
            let mut w = new.to_vec();
            w.extend_from_slice(&v);
            v = w;
        }
        7 => v = String::from_utf8_lossy(&v).replace('\n', "\r\n").into_bytes(),
        8 => v = String::from_utf8_lossy(&v).replace("\r\n", "\n").into_bytes(),
        9 => v = String::from_utf8_lossy(&v).trim().as_bytes().to_vec(),
        10 => v = v.to_ascii_uppercase(),
        _ => {
            let n = v.len();
            v.truncate(rng.below(n + 1));
        }
    }
    v
}

fn write_to(b: &Bindings, p: &Path) -> Result<bool, String> {
    catch_unwind(AssertUnwindSafe(|| b.write_to_file(p))).map_err(|p| panic_text(&p))
}

fn c10_case(ctx: &Ctx, i: usize, rng: &mut Rng) -> Result<(), Fail> {
    let inp = some_input(rng);
    let b = demand(ctx, &inp)?;
    let new = bytes(&b);
    let dir = ctx.tdir().join(format!("w{i}"));
    std::fs::create_dir_all(&dir).unwrap();
    let r = (|| -> Result<(), Fail> {
        let mut p: PathBuf = dir.join("out.h");
        if rng.chance(1, 4) {
            p = dir.join("a/b").join("out.h");
        }
        let other = dir.join("other.h");
        std::fs::write(&other, b"other").unwrap();
        let t_other = age(&other);
        let mut log = String::new();
        let bad = |log: &str, what: String| fail(&inp, &format!("history:\n{log}"), what);
        for step in 0..2 + rng.below(4) {
            // the state of the file before the call
            let kind = rng.below(4);
            match kind {
                0 => {
                    let _ = std::fs::remove_file(&p);
                    log += "file removed\n";
                }
                1 => {
                    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                    std::fs::write(&p, &new).unwrap();
                    log += "file set to exactly the generated bytes\n";
                }
                2 => {
                    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                    let v = vary(rng, &new);
                    log += &format!("file set to {:?}\n", String::from_utf8_lossy(&v));
                    std::fs::write(&p, v).unwrap();
                }
                _ => log += "file left as it is\n",
            }
            let before = std::fs::read(&p).ok();
            let t0 = before.as_ref().map(|_| age(&p));
            let ino = |p: &Path| {
                use std::os::unix::fs::MetadataExt;
                std::fs::metadata(p).ok().map(|m| m.ino())
            };
            let i0 = ino(&p);
            let got = match write_to(&b, &p) {
                Ok(g) => g,
                Err(e) => return Err(bad(&log, format!("write_to_file panicked: {e}"))),
            };
            log += &format!("write_to_file -> {got}\n");
            ctx.interesting();
            let want = before.as_deref() != Some(&new[..]);
            if got != want {
                return Err(bad(&log, format!("step {step}: write_to_file returned {got}, but the file {} before", if want { "was missing or different" } else { "already held the bytes" })));
            }
            if std::fs::read(&p).ok().as_deref() != Some(&new[..]) {
                return Err(bad(&log, format!("step {step}: after write_to_file the file holds {:?}, not the generated bytes {:?}", std::fs::read(&p).map(|x| String::from_utf8_lossy(&x).into_owned()), String::from_utf8_lossy(&new))));
            }
            if !want && (stamp(&p) != t0 || ino(&p) != i0) {
                return Err(bad(&log, format!("step {step}: the contents were already equal, but the file was opened for writing")));
            }
            if stamp(&other) != Some(t_other) || std::fs::read(&other).ok().as_deref() != Some(b"other") {
                return Err(bad(&log, format!("step {step}: another file was changed")));
            }
            let mut names: Vec<PathBuf> = ls(&dir);
            names.extend(ls(&dir.join("a")));
            names.extend(ls(&dir.join("a/b")));
            names.retain(|x| *x != p && *x != other && *x != dir.join("a") && *x != dir.join("a/b"));
            if !names.is_empty() {
                return Err(bad(&log, format!("step {step}: left other files behind: {names:?}")));
            }
        }
        Ok(())
    })();
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn c10_noop(ctx: &Ctx) {
    // one process, no other threads: the environment variable is process-wide
    for k in 0..6 {
        ctx.count();
        ctx.interesting();
        let mut rng = Rng::new(ctx.seed, 77 + k);
        let inp = some_input(&mut rng);
        let dir = ctx.tdir().join(format!("n{k}"));
        std::fs::create_dir_all(&dir).unwrap();
        let p = dir.join("out.h");
        let sym = dir.join("out.syms");
        let sub = dir.join("sub/out.h");
        let exists = k % 2 == 0;
        let mut t0 = None;
        if exists {
            std::fs::write(&p, b"old contents").unwrap();
            std::fs::write(&sym, b"old symbols").unwrap();
            t0 = Some((age(&p), age(&sym)));
        }
        std::env::set_var("_CBINDGEN_IS_RUNNING", ["1", "", "0"][k as usize % 3]);
        let b = bindings(ctx, &inp);
        let mut problem = None;
        match b {
            Ok(b) => {
                match write_to(&b, &p) {
                    Ok(false) => {}
                    x => problem = Some(format!("write_to_file gives {x:?} in a recursive invocation")),
                }
                if let Ok(true) = write_to(&b, &sub) {
                    problem = Some("write_to_file reports a write in a recursive invocation".into());
                }
                if !bytes(&b).is_empty() {
                    problem = Some("a recursive invocation writes a header".into());
                }
                let _ = catch_unwind(AssertUnwindSafe(|| b.generate_symfile(&sym)));
                let dp = dir.join("out.d");
                let _ = catch_unwind(AssertUnwindSafe(|| b.generate_depfile(&p, &dp)));
            }
            Err(_) => problem = Some("bindings of a recursive invocation fail".into()),
        }
        std::env::remove_var("_CBINDGEN_IS_RUNNING");
        let names = ls(&dir);
        let want = if exists { vec![p.clone(), sym.clone()] } else { vec![] };
        if names != want {
            problem = Some(format!("a recursive invocation leaves {names:?} where there was {want:?}"));
        }
        if exists && (stamp(&p), stamp(&sym)) != (t0.map(|x| x.0), t0.map(|x| x.1)) {
            problem = Some("a recursive invocation opens existing files for writing".into());
        }
        let _ = std::fs::remove_dir_all(&dir);
        if let Some(w) = problem {
            ctx.fail(fail(&inp, "with _CBINDGEN_IS_RUNNING set", w));
        }
    }
}

pub fn c10(ctx: &Ctx) {
    ctx.bound("600 (quick) or 6000 histories of up to five writes over files that are missing, equal, or one edit away from the generated bytes, in C, C++ and Cython; a file counts as opened for writing when its modification time or inode changes; six recursive invocations");
    c10_noop(ctx);
    ctx.par("histories", ctx.n(600, 6000), c10_case);
}

fn c18_case(ctx: &Ctx, i: usize, rng: &mut Rng) -> Result<(), Fail> {
    let lang = ["C", "C++", "Cython"][i % 3];
    let mut src = String::from("#[repr(C)] pub struct Gen<T> { a: T }\n#[repr(C)] pub struct Host { a: u8 }\n");
    // (name, exported)
    let mut fns: Vec<(String, bool)> = vec![];
    let mut globs: Vec<(String, bool)> = vec![];
    let mut rename = vec![];
    let mut exclude: Vec<String> = vec![];
    let n = 1 + rng.below(9);
    let mut ids: Vec<usize> = (10..40).collect();
    rng.shuffle(&mut ids);
    let mut mods = 0;
    for k in 0..n {
        let glob = rng.chance(2, 5);
        let stem = *rng.pick(&["zed", "Alpha", "beta", "_low", "Q"]);
        let name = format!("{stem}{}", ids[k]);
        let mut a = String::new();
        let mut exported = true;
        match rng.below(9) {
            0 => {
                a = "/// cbindgen:no-export\n".into();
                exported = false;
            }
            1 => {
                a = "/// cbindgen:no-export=true\n".into();
                exported = false;
            }
            2 => a = "/// cbindgen:no-export=false\n".into(),
            3 => a = "/// cbindgen:noexport=true\n/// no-export\n".into(),
            4 => a = "/// cbindgen:no-export=maybe\n".into(),
            5 => a = "/// cbindgen:no-export=[true]\n".into(),
            6 => a = "/// cbindgen:postfix=NOEXPORT\n".into(),
            _ => {}
        }
        if rng.chance(1, 6) {
            rename.push(format!("{name:?} = \"Renamed{k}\"\n"));
        }
        let drop = rng.chance(1, 8);
        if drop {
            exclude.push(name.clone());
        }
        if glob {
            let ty = *rng.pick(&["u8", "*const Gen<u8>", "[u16; 3]", "Host"]);
            let m = if rng.chance(1, 3) { "mut " } else { "" };
            src += &format!("{a}#[no_mangle] pub static {m}{name}: {ty} = todo!();\n");
            if !drop {
                globs.push((name, exported));
            }
        } else {
            let args = *rng.pick(&["", "a: u8", "a: *mut Gen<u16>, b: Host", "f: extern \"C\" fn(u8) -> u8"]);
            match rng.below(6) {
                5 => src += &format!("extern \"C\" {{\n{a}pub fn {name}({args});\n}}\n"),
                0 => src += &format!("{a}#[export_name = \"{name}\"] pub extern \"C\" fn inner{k}({args}) {{}}\n"),
                1 => src += &format!("{a}#[unsafe(no_mangle)] pub unsafe extern \"C\" fn {name}({args}) {{}}\n"),
                2 => {
                    mods += 1;
                    src += &format!("pub mod m{mods} {{ use super::*;\n{a}#[no_mangle] pub extern \"C\" fn {name}({args}) {{}}\n}}\n");
                }
                3 => src += &format!("impl Host {{\n{a}#[export_name = \"{name}\"] pub extern \"C\" fn meth{k}({args}) {{}}\n}}\n"),
                _ => src += &format!("{a}#[no_mangle] pub extern \"C\" fn {name}({args}) {{}}\n"),
            }
            if !drop {
                fns.push((name, exported));
            }
        }
    }
    // things that are not symbols
    src += "pub const KONST: u8 = 3;\npub fn plain() {}\npub extern \"C\" fn not_exported() {}\n";
    let mut toml = format!("language = {lang:?}\n");
    let (mut sf, mut sg) = (false, false);
    match rng.below(4) {
        0 => {
            toml += "sort_by = \"Name\"\n";
            sf = true;
            sg = true;
        }
        1 => toml += "sort_by = \"None\"\n",
        _ => {}
    }
    let (mut has_f, mut has_g) = (true, true);
    toml += "[export]\n";
    match rng.below(6) {
        0 => {
            toml += "item_types = [\"functions\", \"structs\"]\n";
            has_g = false;
        }
        1 => {
            toml += "item_types = [\"globals\", \"structs\", \"constants\"]\n";
            has_f = false;
        }
        _ => {}
    }
    if rng.chance(1, 3) {
        toml += "prefix = \"Pre\"\n";
    }
    toml += &format!("exclude = {exclude:?}\n");
    if !rename.is_empty() {
        toml += &format!("[export.rename]\n{}", rename.concat());
    }
    if rng.chance(1, 4) {
        toml += "[fn]\nsort_by = \"Name\"\n";
        sf = true;
    }
    if rng.chance(1, 4) {
        toml += "[const]\nsort_by = \"None\"\n";
        sg = false;
    }
    if sf {
        fns.sort();
    }
    if sg {
        globs.sort();
    }
    if !has_f {
        fns.clear();
    }
    if !has_g {
        globs.clear();
    }
    let inp = Input { src, toml };
    let b = demand(ctx, &inp)?;
    let got: Vec<String> = b.dynamic_symbols_names().map(|x| x.to_string()).collect();
    let h = write_bindings(&b).map_err(|_| fail(&inp, "", "cbindgen panicked while writing"))?;
    let toks = crate::p_cfg::toks(&h);
    if !sf {
        // in the order of the header
        fns.sort_by_key(|x| toks.iter().position(|t| *t == x.0));
    }
    if !sg {
        globs.sort_by_key(|x| toks.iter().position(|t| *t == x.0));
    }
    let want: Vec<String> = fns.iter().chain(globs.iter()).filter(|x| x.1).map(|x| x.0.clone()).collect();
    if got != want {
        return Err(fail(&inp, &format!("symbols: {got:?}\n\n{h}"), format!("the symbols are {got:?}, but the exported functions and globals are {want:?}")));
    }
    if !want.is_empty() {
        ctx.interesting();
    }
    // the header declares exactly the same names, each once
    for (x, e) in fns.iter().chain(globs.iter()) {
        let c = toks.iter().filter(|t| *t == x).count();
        if c != *e as usize {
            return Err(fail(&inp, &h, format!("{x} is {}, but declared {c} times in the header", if *e { "exported" } else { "marked no-export" })));
        }
    }
    let p = ctx.tdir().join(format!("s{i}")).join("x.syms");
    if catch_unwind(AssertUnwindSafe(|| b.generate_symfile(&p))).is_err() {
        return Err(fail(&inp, &h, "generate_symfile panicked"));
    }
    let text = std::fs::read_to_string(&p).unwrap_or_default();
    let _ = std::fs::remove_dir_all(p.parent().unwrap());
    let wt = format!("{{\n{}}};", want.iter().map(|x| format!("{x};\n")).collect::<String>());
    if text.trim_end() != wt {
        return Err(fail(&inp, &text, format!("the symbol file should read {wt:?}")));
    }
    Ok(())
}

pub fn c18(ctx: &Ctx) {
    ctx.bound("crates of up to nine functions and statics (free, in modules, methods, in extern blocks, with export names), with annotations that do and do not mean no-export, renames, prefixes, exclusions, sorting and item kind filters, in C, C++ and Cython");
    ctx.par("symbols", ctx.n(1500, 15000), c18_case);
}
