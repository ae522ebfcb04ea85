//! C19: which functions, statics and constants of a crate are bound, and under which name.
use crate::util::*;
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;

/// What the header must declare: symbol -> mark, for functions and statics.
#[derive(Default)]
pub struct Want {
    pub fns: Vec<(String, usize)>,
    pub statics: Vec<String>,
    /// constants by (name, value)
    pub consts: Vec<(String, usize)>,
}
pub struct Gen19 {
    pub n: usize,
    pub want: Want,
    pub files: Vec<(PathBuf, String)>,
    /// those that are parsed
    pub read: Vec<PathBuf>,
    /// the parser keeps functions, statics and constants of this crate
    pub top: bool,
}

fn skip_attr(r: &mut Rng) -> (&'static str, bool) {
    match r.below(16) {
        0 => ("#[cfg(test)] ", true),
        1 => ("#[test] ", true),
        2 => ("/// cbindgen:ignore\n", true),
        3 => ("///   cbindgen:ignore   \n", true),
        4 => ("#[doc = \"cbindgen:ignore\"] ", true),
        5 => ("#[cfg(not(test))] ", false),
        6 => ("#[cfg(any(test, unix))] ", false),
        7 => ("/// not cbindgen:ignore\n", false),
        8 => ("#[allow(test)] ", false),
        9 => ("#[inline] ", false),
        _ => ("", false),
    }
}
fn skip_one(r: &mut Rng) -> (String, bool) {
    let (a, x) = skip_attr(r);
    if r.chance(1, 3) {
        let (b, y) = skip_attr(r);
        (format!("{a}{b}"), x || y)
    } else {
        (a.to_string(), x)
    }
}
/// symbol attributes: text and the symbol they give an item called `ident`
fn sym_attr(r: &mut Rng, ident: &str, alt: &str) -> (String, Option<String>) {
    let plain = ident.trim_start_matches("r#").to_string();
    let mut parts: Vec<String> = vec![];
    let mut sym: Option<String> = None;
    match r.below(12) {
        0 | 1 => { parts.push("#[no_mangle]".into()); sym = Some(plain); }
        2 | 3 => { parts.push("#[unsafe(no_mangle)]".into()); sym = Some(plain); }
        4 | 5 => { parts.push(format!("#[export_name = \"{alt}\"]")); sym = Some(alt.into()); }
        6 | 7 => { parts.push(format!("#[unsafe(export_name = \"{alt}\")]")); sym = Some(alt.into()); }
        8 => { parts.push("#[no_mangle]".into()); parts.push(format!("#[export_name = \"{alt}\"]")); sym = Some(alt.into()); }
        9 => { parts.push("#[unsafe(no_mangle)]".into()); parts.push(format!("#[unsafe(export_name = \"{alt}\")]")); sym = Some(alt.into()); }
        10 => parts.push(["#[no_mangles]", "#[unsafe(link_section = \"x\")]", "#[link_name = \"zz\"]", "#[allow(no_mangle)]", "#[doc = \"no_mangle\"]", "#[cfg_attr(windows, inline)]"][r.below(6)].into()),
        _ => {}
    }
    if r.chance(1, 4) { parts.push(["#[must_use]", "#[inline(never)]", "/// Documentation.\n", "#[unsafe(link_section = \".x\")]", "#[deprecated]"][r.below(5)].into()); }
    r.shuffle(&mut parts);
    (parts.concat(), sym)
}
fn abi(r: &mut Rng) -> (&'static str, bool) {
    match r.below(14) {
        0 => ("", false),
        1 => ("extern \"system\" ", false),
        2 => ("extern \"Rust\" ", false),
        3 => ("extern \"stdcall\" ", false),
        4 => ("extern \"C-unwind\" ", true),
        5 => ("extern ", true),
        6 => ("extern \"cmse-nonsecure-entry\" ", true),
        7 => ("extern \"c\" ", false),
        8 => ("extern \"system-unwind\" ", false),
        _ => ("extern \"C\" ", true),
    }
}
fn vis(r: &mut Rng) -> &'static str {
    ["pub ", "pub ", "pub ", "", "pub(crate) "][r.below(5)]
}

impl Gen19 {
    fn id(&mut self) -> usize {
        self.n += 1;
        self.n
    }
    fn ident(&mut self, r: &mut Rng, k: usize) -> String {
        if r.chance(1, 8) { format!("r#name{k}") } else { format!("name{k}") }
    }
    fn function(&mut self, r: &mut Rng, live: bool, out: &mut String) {
        let k = self.id();
        let ident = self.ident(r, k);
        let (sk, skipped) = skip_one(r);
        let (sa, sym) = sym_attr(r, &ident, &format!("exported{k}"));
        let (ab, c) = abi(r);
        let uns = if r.chance(1, 3) { "unsafe " } else { "" };
        let good = r.chance(9, 10);
        let arg = if good { "u8" } else { "(u8, u8)" };
        let _ = writeln!(out, "{sk}{sa} {}{uns}{ab}fn {ident}(m{k}: {arg}) {{ #[no_mangle] extern \"C\" fn inner{k}(m0: u8) {{}} }}", vis(r));
        if live && self.top && !skipped && c && good {
            if let Some(s) = sym {
                self.want.fns.push((s, k));
            }
        }
    }
    fn stat(&mut self, r: &mut Rng, live: bool, out: &mut String) {
        let k = self.id();
        let ident = self.ident(r, k);
        let (sk, skipped) = skip_one(r);
        let (sa, sym) = sym_attr(r, &ident, &format!("exported{k}"));
        let good = r.chance(9, 10);
        let _ = writeln!(out, "{sk}{sa} {}static {}{ident}: {} = x;", vis(r), if r.chance(1, 2) { "mut " } else { "" }, if good { "u8" } else { "(u8, u8)" });
        if live && self.top && !skipped && good {
            if let Some(s) = sym {
                self.want.statics.push(s);
            }
        }
    }
    fn constant(&mut self, r: &mut Rng, live: bool, out: &mut String) {
        let k = self.id();
        let ident = self.ident(r, k);
        let (sk, skipped) = skip_one(r);
        let v = vis(r);
        let _ = writeln!(out, "{sk}{v}const {ident}: u32 = {};", 1000 + k);
        if live && self.top && !skipped && v == "pub " {
            self.want.consts.push((format!("name{k}"), 1000 + k));
        }
    }
    fn foreign(&mut self, r: &mut Rng, live: bool, out: &mut String) {
        let (sk, skipped) = skip_one(r);
        let (ab, c) = [("extern \"C\"", true), ("extern", true), ("unsafe extern \"C\"", true), ("extern \"C-unwind\"", true), ("extern \"system\"", false), ("extern \"Rust\"", false)][r.below(6)];
        let _ = writeln!(out, "{sk}{ab} {{");
        for _ in 0..r.below(4) {
            if r.chance(1, 4) {
                let k = self.id();
                let _ = writeln!(out, "  pub static name{k}: u8;");
                continue;
            }
            let k = self.id();
            let ident = self.ident(r, k);
            let (sk1, skipped1) = skip_one(r);
            let good = r.chance(9, 10);
            let _ = writeln!(out, "  {sk1}{}fn {ident}(m{k}: {});", vis(r), if good { "u8" } else { "(u8, u8)" });
            if live && self.top && !skipped && !skipped1 && c && good {
                self.want.fns.push((format!("name{k}"), k));
            }
        }
        out.push_str("}\n");
    }
    fn implb(&mut self, r: &mut Rng, live: bool, out: &mut String) {
        let k = self.id();
        let (sk, skipped) = skip_one(r);
        // an opaque type of another name: associated constants become plain ones
        let (ty, simple, rooted) = match r.below(5) {
            0 => (format!("a::Ty{k}"), false, true),
            1 => (format!("Ty{k}<u8>"), false, true),
            2 => ("(u8, u8)".to_string(), false, false),
            _ => (format!("Ty{k}"), true, true),
        };
        let tr = if r.chance(1, 5) { "Tr for " } else { "" };
        let _ = writeln!(out, "{sk}impl {tr}{ty} {{");
        for _ in 0..r.below(5) {
            if r.chance(1, 2) {
                self.function(r, live && !skipped && simple, out);
            } else {
                let k1 = self.id();
                let (sk1, skipped1) = skip_one(r);
                let v = vis(r);
                let _ = writeln!(out, "{sk1}{v}const name{k1}: u32 = {};", 1000 + k1);
                if live && !skipped && !skipped1 && rooted && v == "pub " {
                    self.want.consts.push((format!("Ty{k}_name{k1}"), 1000 + k1));
                }
            }
        }
        out.push_str("}\n");
    }
    fn noise(&mut self, r: &mut Rng, out: &mut String) {
        let k = self.id();
        let t = match r.below(12) {
            0 => format!("pub struct N{k}<T = (u32, u32)> {{ t: T }}"),
            1 => format!("pub enum N{k}<T = dyn Fn(u8)> {{ A(T) }}"),
            2 => format!("pub union N{k}<T: Copy = [u8; f!()]> {{ a: T }}"),
            3 => format!("pub type N{k}<T = (u8, u8)> = Vec<(T, u8)>;"),
            4 => format!("macro_rules! n{k} {{ () => {{ #[no_mangle] pub extern \"C\" fn no{k}(m0: u8) {{}} }} }}"),
            5 => format!("pub trait N{k} {{ #[no_mangle] extern \"C\" fn no{k}(m0: u8) {{}} const no{k}: u32 = 9; }}"),
            6 => format!("use a::b{k};"),
            7 => format!("extern crate c{k};"),
            8 => format!("n{k}! {{ #[no_mangle] pub extern \"C\" fn no{k}(m0: u8) {{}} }}"),
            9 => format!("#[repr(C)] pub struct N{k}<const A: (u8, u8)> {{ a: [u8; 3] }}"),
            10 => format!("fn no{k}() {{ #[no_mangle] pub extern \"C\" fn no{k}(m0: u8) {{}} }}"),
            _ => format!("pub type N{k} = dyn Fn(u8);"),
        };
        let _ = writeln!(out, "{t}");
    }
    pub fn items(&mut self, r: &mut Rng, depth: usize, live: bool, dir: &Dir, out: &mut String) {
        for _ in 0..1 + r.below(6) {
            match r.below(14) {
                0..=4 => self.function(r, live, out),
                5 | 6 => self.stat(r, live, out),
                7 => self.constant(r, live, out),
                8 => self.foreign(r, live, out),
                9 | 10 => self.implb(r, live, out),
                11 => self.noise(r, out),
                _ if depth < 3 => self.module(r, depth + 1, live, dir, out),
                _ => self.function(r, live, out),
            }
        }
    }
    fn module(&mut self, r: &mut Rng, depth: usize, live: bool, dir: &Dir, out: &mut String) {
        let k = self.id();
        let (sk, skipped) = skip_one(r);
        let live = live && !skipped;
        let raw = r.chance(1, 8);
        let name = format!("md{k}");
        let shown = if raw { format!("r#{name}") } else { name.clone() };
        let mut body = String::new();
        match r.below(4) {
            0 => {
                let (at, sub) = if r.chance(1, 4) {
                    let d = dir.base.join(format!("dir{k}"));
                    (format!("#[path = \"dir{k}\"] "), Dir { base: d.clone(), sub: d })
                } else {
                    (String::new(), Dir { base: dir.sub.join(&name), sub: dir.sub.join(&name) })
                };
                self.items(r, depth, live, &sub, &mut body);
                let _ = writeln!(out, "{sk}{at}{}mod {shown} {{\n{body}}}", vis(r));
            }
            1 => {
                let sub = Dir { base: dir.sub.clone(), sub: dir.sub.join(&name) };
                self.items(r, depth, live, &sub, &mut body);
                let _ = writeln!(out, "{sk}{}mod {shown};", vis(r));
                let f = dir.sub.join(format!("{name}.rs"));
                if live {
                    self.read.push(f.clone());
                }
                self.files.push((f, body));
            }
            2 => {
                let sub = Dir { base: dir.sub.join(&name), sub: dir.sub.join(&name) };
                self.items(r, depth, live, &sub, &mut body);
                let _ = writeln!(out, "{sk}{}mod {shown};", vis(r));
                let f = dir.sub.join(&name).join("mod.rs");
                if live {
                    self.read.push(f.clone());
                }
                self.files.push((f, body));
            }
            _ => {
                // such a file is like a mod.rs: its modules lie next to it
                let sub = Dir { base: dir.base.join("other"), sub: dir.base.join("other") };
                self.items(r, depth, live, &sub, &mut body);
                if r.chance(1, 3) {
                    // a file in the default place is not the module
                    self.files.push((dir.sub.join(format!("{name}.rs")), format!("#[no_mangle] pub extern \"C\" fn decoy{k}(m{k}: u8) {{}}\n")));
                }
                let _ = writeln!(out, "{sk}#[path = \"other/x{k}.rs\"] {}mod {shown};", vis(r));
                let f = dir.base.join(format!("other/x{k}.rs"));
                if live {
                    self.read.push(f.clone());
                }
                self.files.push((f, body));
            }
        }
    }
}
pub struct Dir {
    /// directory #[path] is relative to
    pub base: PathBuf,
    /// directory of the modules declared here
    pub sub: PathBuf,
}

/// (name, mark) of every declaration with an argument `uint8_t mK`
fn declared(h: &str) -> Vec<(String, usize)> {
    let mut out = vec![];
    for (i, _) in h.match_indices("(uint8_t m") {
        let name: String = h[..i].chars().rev().take_while(|c| c.is_alphanumeric() || *c == '_').collect::<String>().chars().rev().collect();
        let mark: String = h[i + 10..].chars().take_while(|c| c.is_ascii_digit()).collect();
        out.push((name, mark.parse().unwrap_or(0)));
    }
    out.sort();
    out
}
fn globals(h: &str) -> Vec<String> {
    let mut out: Vec<String> = h
        .lines()
        .filter_map(|l| l.trim().strip_prefix("extern ").and_then(|l| l.strip_suffix(';')))
        .filter(|l| !l.contains('('))
        .filter_map(|l| l.split_whitespace().last().map(|x| x.to_string()))
        .collect();
    out.sort();
    out
}
fn defines(h: &str) -> Vec<(String, usize)> {
    let mut out: Vec<(String, usize)> = h
        .lines()
        .filter_map(|l| l.trim().strip_prefix("#define "))
        .filter_map(|l| l.split_once(' '))
        .filter_map(|(n, v)| v.trim().parse().ok().map(|v| (n.to_string(), v)))
        .collect();
    out.sort();
    out
}
fn compare(inp: &Input, h: &str, mut w: Want) -> Result<(), Fail> {
    w.fns.sort();
    w.statics.sort();
    w.consts.sort();
    let got = declared(h);
    if got != w.fns {
        return Err(fail(inp, h, format!("functions declared: {got:?}; exported by the crate: {:?}", w.fns)));
    }
    let got = globals(h);
    if got != w.statics {
        return Err(fail(inp, h, format!("statics declared: {got:?}; exported by the crate: {:?}", w.statics)));
    }
    let got = defines(h);
    if got != w.consts {
        return Err(fail(inp, h, format!("constants defined: {got:?}; public in the crate: {:?}", w.consts)));
    }
    Ok(())
}

fn one(ctx: &Ctx, _i: usize, r: &mut Rng) -> Result<(), Fail> {
    let mut g = Gen19 { n: 0, want: Want::default(), files: vec![], read: vec![], top: true };
    let mut src = String::new();
    let root = Dir { base: PathBuf::new(), sub: PathBuf::new() };
    g.items(r, 0, true, &root, &mut src);
    if r.chance(1, 2) {
        g.items(r, 0, true, &root, &mut src);
    }
    let toml = "language = \"C\"\nno_includes = true\n".to_string();
    let d = ctx.tdir().join("sel");
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    let mut text = src.clone();
    for (p, t) in &g.files {
        let p1 = d.join(p);
        std::fs::create_dir_all(p1.parent().unwrap()).unwrap();
        std::fs::write(&p1, t).unwrap();
        let _ = write!(text, "// ---- file {}\n{t}", p.display());
    }
    std::fs::write(d.join("lib.rs"), &src).unwrap();
    std::fs::write(d.join("cbindgen.toml"), &toml).unwrap();
    let inp = Input { src: text, toml };
    if g.want.fns.len() + g.want.statics.len() + g.want.consts.len() > 0 {
        ctx.interesting();
    }
    let res = catch_unwind(AssertUnwindSafe(|| {
        let cfg = cbindgen::Config::from_file(d.join("cbindgen.toml")).map_err(|e| format!("config: {e}"))?;
        let b = cbindgen::Builder::new().with_config(cfg).with_src(d.join("lib.rs")).generate().map_err(|e| format!("generate: {e}"))?;
        let mut v = Vec::new();
        b.write(&mut v);
        Ok::<_, String>(String::from_utf8_lossy(&v).into_owned())
    }));
    let h = match res {
        Ok(Ok(h)) => h,
        Ok(Err(e)) => return Err(fail(&inp, "", format!("cbindgen rejected a valid input: {e}"))),
        Err(p) => return Err(fail(&inp, "", format!("cbindgen panicked: {}", panic_text(&p)))),
    };
    compare(&inp, &h, g.want)
}

/// a crate with two dependencies, of which some are parsed and some are bound
fn crates(ctx: &Ctx, _i: usize, r: &mut Rng) -> Result<(), Fail> {
    let d = ctx.tdir().join("ws");
    let _ = std::fs::remove_dir_all(&d);
    // names close to those of the crates of std, and to each other
    let pool = ["dep-a", "dep_b", "core-x", "alloc_y", "std-sys", "my-core", "proc_macro2", "dep", "collections-z", "stdx"];
    let a = r.below(pool.len());
    let b = (a + 1 + r.below(pool.len() - 1)) % pool.len();
    let names = ["main", pool[a], pool[b]];
    let parse_deps = r.chance(4, 5);
    let inc: Vec<&str> = names[1..].iter().copied().filter(|_| r.chance(2, 3)).collect();
    let exc: Vec<&str> = names[1..].iter().copied().filter(|_| r.chance(1, 6)).collect();
    let ext: Vec<&str> = names[1..].iter().copied().filter(|_| r.chance(1, 2)).collect();
    let use_inc = r.chance(2, 3);
    let mut g = Gen19 { n: 0, want: Want::default(), files: vec![], read: vec![], top: true };
    let mut text = String::new();
    for (k, n) in names.iter().enumerate() {
        let parsed = k == 0 || (parse_deps && !exc.contains(n) && (!use_inc || inc.contains(n)));
        g.top = k == 0 || ext.contains(n);
        let mut src = String::new();
        for _ in 0..2 + r.below(4) {
            match r.below(4) {
                0 | 1 => g.function(r, parsed, &mut src),
                2 => g.stat(r, parsed, &mut src),
                _ => g.constant(r, parsed, &mut src),
            }
        }
        let deps = if k == 0 { names[1..].iter().map(|n| format!("{n} = {{ path = \"../{n}\" }}\n")).collect() } else { String::new() };
        let uses = if k == 0 { names[1..].iter().map(|n| format!("extern crate {};\n", n.replace('-', "_"))).collect() } else { String::new() };
        let c = d.join(n);
        std::fs::create_dir_all(c.join("src")).unwrap();
        std::fs::write(c.join("Cargo.toml"), format!("[package]\nname = \"{n}\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[dependencies]\n{deps}[workspace]\n")).unwrap();
        std::fs::write(c.join("src/lib.rs"), format!("{uses}{src}")).unwrap();
        let _ = write!(text, "// ---- crate {n}\n{uses}{src}");
    }
    let list = |v: &[&str]| v.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join(", ");
    let mut toml = format!("language = \"C\"\nno_includes = true\n[parse]\nparse_deps = {parse_deps}\nexclude = [{}]\nextra_bindings = [{}]\n", list(&exc), list(&ext));
    if use_inc {
        let _ = writeln!(toml, "include = [{}]", list(&inc));
    }
    std::fs::write(d.join("main/cbindgen.toml"), &toml).unwrap();
    let inp = Input { src: text, toml };
    let res = catch_unwind(AssertUnwindSafe(|| {
        let cfg = cbindgen::Config::from_file(d.join("main/cbindgen.toml")).map_err(|e| format!("config: {e}"))?;
        let b = cbindgen::Builder::new().with_config(cfg).with_crate(d.join("main")).generate().map_err(|e| format!("generate: {e}"))?;
        let mut v = Vec::new();
        b.write(&mut v);
        Ok::<_, String>(String::from_utf8_lossy(&v).into_owned())
    }));
    let h = match res {
        Ok(Ok(h)) => h,
        Ok(Err(e)) => return Err(fail(&inp, "", format!("cbindgen rejected a valid input: {e}"))),
        Err(p) => return Err(fail(&inp, "", format!("cbindgen panicked: {}", panic_text(&p)))),
    };
    if !g.want.fns.is_empty() {
        ctx.interesting();
    }
    compare(&inp, &h, g.want)
}

pub fn c19(ctx: &Ctx) {
    let n = ctx.n(6000, 100000);
    ctx.bound(format!("{n} random crates with functions, statics, constants, extern blocks, impl blocks and unrelated items over all combinations of ABI, no_mangle, export_name (plain and unsafe), ignored items and visibility, in inline modules, module files, mod.rs and #[path] files up to 3 deep: exactly the exported ones are declared, each once, under its symbol"));
    ctx.par("select", n, one);
    let n = ctx.n(64, 600);
    ctx.bound(format!("{n} random crates with two path dependencies and random parse.parse_deps, include, exclude and extra_bindings"));
    ctx.par("crates", n, crates);
}
