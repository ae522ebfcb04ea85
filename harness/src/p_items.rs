//! C09: which of several items of one name are kept, in which order, through merging, exclusion
//! and the selection of item kinds.
use crate::util::*;
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Enum,
    Struct,
    Union,
    Typedef,
    Const,
    Static,
}
use K::*;
/// in the order in which a type name is looked up
const TYPES: &[K] = &[Enum, Struct, Union, Typedef];

#[derive(Clone, Debug)]
struct It {
    name: String,
    cfg: bool,
    mark: usize,
}
#[derive(Default, Clone)]
struct Table(Vec<(String, Vec<It>)>);
impl Table {
    fn insert(&mut self, x: &It) {
        match self.0.iter_mut().find(|(n, _)| *n == x.name) {
            Some((_, g)) => {
                if g[0].cfg && x.cfg {
                    g.push(x.clone());
                }
            }
            None => self.0.push((x.name.clone(), vec![x.clone()])),
        }
    }
    fn all(&self) -> Vec<It> {
        self.0.iter().flat_map(|(_, g)| g.clone()).collect()
    }
    fn get(&self, n: &str) -> Vec<It> {
        self.0.iter().find(|(m, _)| m == n).map(|(_, g)| g.clone()).unwrap_or_default()
    }
}
#[derive(Default, Clone)]
struct Tables([Table; 6]);
impl Tables {
    fn at(&mut self, k: K) -> &mut Table {
        &mut self.0[k as usize]
    }
}

const SPLIT: &str = "// ---- next file\n";

fn generate(ctx: &Ctx, inp: &Input) -> Result<String, Fail> {
    let d = ctx.tdir();
    let cp = d.join("cbindgen.toml");
    std::fs::write(&cp, &inp.toml).unwrap();
    let mut files = vec![];
    for (i, t) in inp.src.split(SPLIT).enumerate() {
        let p = d.join(format!("part{i}.rs"));
        std::fs::write(&p, t).unwrap();
        files.push(p);
    }
    let r = catch_unwind(AssertUnwindSafe(|| {
        let cfg = cbindgen::Config::from_file(&cp).map_err(|e| format!("config: {e}"))?;
        let mut b = cbindgen::Builder::new().with_config(cfg);
        for f in &files {
            b = b.with_src(f);
        }
        let b = b.generate().map_err(|e| format!("generate: {e}"))?;
        let mut v = Vec::new();
        b.write(&mut v);
        Ok::<_, String>(String::from_utf8_lossy(&v).into_owned())
    }));
    match r {
        Ok(Ok(h)) => Ok(h),
        Ok(Err(e)) => Err(fail(inp, "", format!("cbindgen rejected a valid input: {e}"))),
        Err(p) => Err(fail(inp, "", format!("cbindgen panicked: {}", panic_text(&p)))),
    }
}

fn def(k: K, x: &It) -> String {
    let c = if x.cfg { "#[cfg(feature = \"a\")] " } else { "" };
    let (n, m) = (&x.name, x.mark);
    match k {
        Enum => format!("{c}#[repr(u8)] pub enum {n} {{ Mark{m}_ }}\n"),
        Struct => format!("{c}#[repr(C)] pub struct {n} {{ pub Mark{m}_: u8 }}\n"),
        Union => format!("{c}#[repr(C)] pub union {n} {{ pub Mark{m}_: u8 }}\n"),
        Typedef => format!("{c}pub type {n} = extern \"C\" fn(Mark{m}_: u8);\n"),
        Const => format!("{c}pub const {n}: u32 = Mark{m}_;\n"),
        Static => format!("{c}#[no_mangle] pub static {n}: extern \"C\" fn(Mark{m}_: u8) = x;\n"),
    }
}

/// marks of a header in the order of their first appearance
fn marks(h: &str) -> Vec<usize> {
    let mut out: Vec<usize> = vec![];
    for p in h.split("Mark").skip(1) {
        if let Some((n, _)) = p.split_once('_') {
            if let Ok(n) = n.parse() {
                if !out.contains(&n) {
                    out.push(n);
                }
            }
        }
    }
    out
}

pub fn run_all(ctx: &Ctx) {
    let n = ctx.n(6000, 120000);
    ctx.bound(format!("{n} random crates of 1 to 3 files with up to 40 enums, structs, unions, type aliases, constants, statics and functions over few names, with and without cfg, random export.exclude, export.item_types and sort keys, in C and C++: exactly the items kept by the rule appear, constants, statics and items of one name in the order of the table"));
    ctx.par("items", n, one);
    let n = ctx.n(1500, 20000);
    ctx.bound(format!("{n} random C++ crates with 1 to 4 alternatives of a struct or union under cfg, a prefix and an annotated alias: every alternative is renamed and gets the annotation"));
    ctx.par("visit", n, visit);
}

/// passes that change items reach every item kept under a name
fn visit(ctx: &Ctx, _i: usize, rng: &mut Rng) -> Result<(), Fail> {
    let k = 1 + rng.below(4);
    let mut src = String::new();
    let other = rng.chance(1, 2);
    let first = rng.chance(1, 2);
    let alias = "/// cbindgen:field-names=[left, right]\npub type Alias = Ty;\n";
    if first {
        src.push_str(alias);
    }
    let un = rng.chance(1, 4);
    for i in 0..k {
        let c = if k > 1 || rng.chance(1, 2) { "#[cfg(feature = \"a\")] " } else { "" };
        if un {
            let _ = writeln!(src, "{c}#[repr(C)] pub union Ty {{ pub a: u8, pub b: [u8; {}] }}", 100 + i);
        } else {
            let _ = writeln!(src, "{c}#[repr(C)] pub struct Ty {{ pub a: u8, pub b: [u8; {}] }}", 100 + i);
        }
        if other {
            let _ = writeln!(src, "#[cfg(feature = \"a\")] #[repr(C)] pub struct Other {{ pub o: [u8; {}] }}", 200 + i);
        }
    }
    if !first {
        src.push_str(alias);
    }
    src.push_str("#[no_mangle] pub extern \"C\" fn user(a: *const Alias");
    src.push_str(if other { ", b: *const Other) {}\n" } else { ") {}\n" });
    let inp = Input { src, toml: format!("language = \"{}\"\n[export]\nprefix = \"pre_\"\n", rng.pick(&["C", "C++"])) };
    let h = generate(ctx, &inp)?;
    ctx.interesting();
    for i in 0..k {
        for (m, on) in [(format!("uint8_t right[{}];", 100 + i), true), (format!("uint8_t o[{}];", 200 + i), other)] {
            if on && h.matches(&m).count() != 1 {
                return Err(fail(&inp, &h, format!("`{m}` must appear once")));
            }
        }
    }
    let kw = if un { "union" } else { "struct" };
    for (n, kw) in [("Ty", kw), ("Other", "struct")] {
        let want = if n == "Ty" || other { k } else { 0 };
        let got = h.matches(&format!("{kw} pre_{n} {{")).count();
        if got != want || h.contains(&format!("{kw} {n} {{")) {
            return Err(fail(&inp, &h, format!("pre_{n} is defined {got} times, expected {want}")));
        }
    }
    Ok(())
}

fn one(ctx: &Ctx, _i: usize, rng: &mut Rng) -> Result<(), Fail> {
    let mut toml = format!("language = \"{}\"\n", rng.pick(&["C", "C++"]));
    let mut toml2 = String::from("[export]\n");
    let by_name = rng.chance(1, 3);
    let mut exclude: Vec<String> = vec![];
    let tn = ["Ta", "Tb", "Tc", "Td"];
    let (cn, gn, fnn) = (["Cb", "Ca", "Cc"], ["Gc", "Ga", "Gb"], ["fa", "fb", "fc"]);
    if rng.chance(1, 2) {
        for n in tn.iter().chain(&cn).chain(&gn).chain(&fnn) {
            if rng.chance(1, 5) {
                exclude.push(n.to_string());
            }
        }
        // names that must not be mistaken for others
        exclude.push("T".into());
        exclude.push("Taa".into());
        for n in tn.iter().chain(&cn).chain(&gn).chain(&fnn) {
            if rng.chance(1, 6) {
                // letter case, blanks and paths make another name
                let o = match rng.below(5) {
                    0 => n.to_uppercase(),
                    1 => n.to_lowercase(),
                    2 => format!("crate::{n}"),
                    3 => format!(" {n}"),
                    _ => format!("{n}*"),
                };
                if !tn.iter().chain(&cn).chain(&gn).chain(&fnn).any(|x| *x == o) {
                    exclude.push(o);
                }
            }
        }
    }
    let _ = writeln!(toml2, "exclude = {exclude:?}");
    let kinds = ["constants", "globals", "enums", "structs", "unions", "typedefs", "opaque", "functions"];
    let mut on: Vec<&str> = vec![];
    if rng.chance(1, 2) {
        on = kinds.iter().copied().filter(|_| rng.chance(2, 3)).collect();
    }
    let _ = writeln!(toml2, "item_types = {on:?}");
    let enabled = |k: &str| on.is_empty() || on.contains(&k);
    let _ = writeln!(toml2, "[const]\nsort_by = \"{}\"", if by_name { "Name" } else { "None" });
    toml.push_str(&toml2);

    let mut total = Tables::default();
    let mut fns: Vec<&str> = vec![];
    let mut src = String::new();
    let mut mark = 0;
    let files = 1 + rng.below(3);
    for f in 0..files {
        if f > 0 {
            src.push_str(SPLIT);
        }
        let mut t = Tables::default();
        let mut cur: Vec<&str> = vec![];
        for _ in 0..rng.below(16) {
            let k = *rng.pick(&[Enum, Struct, Union, Typedef, Struct, Const, Const, Static]);
            let name = match k {
                Const => *rng.pick(&cn),
                Static => *rng.pick(&gn),
                _ => *rng.pick(&tn),
            };
            let x = It { name: name.into(), cfg: rng.chance(3, 5), mark };
            mark += 1;
            src.push_str(&def(k, &x));
            t.at(k).insert(&x);
        }
        for n in fnn {
            if rng.chance(1, 4) && !fns.contains(&n) {
                let _ = writeln!(src, "#[no_mangle] pub extern \"C\" fn {n}() {{}}");
                cur.push(n);
            }
        }
        fns.extend(cur);
        if f == files - 1 {
            let _ = writeln!(src, "#[no_mangle] pub extern \"C\" fn user(a: *const Ta, b: *const Tb, c: *const Tc, d: *const Td) {{}}");
        }
        for k in [Enum, Struct, Union, Typedef, Const, Static] {
            for x in t.at(k).all() {
                total.at(k).insert(&x);
            }
        }
    }
    // expectation
    let live = |x: &It| !exclude.contains(&x.name);
    let mut want_types: Vec<(String, Vec<usize>)> = vec![];
    for n in tn {
        let mut got = vec![];
        for &k in TYPES {
            let key = match k {
                Enum => "enums",
                Struct => "structs",
                Union => "unions",
                _ => "typedefs",
            };
            if enabled(key) {
                got = total.at(k).get(n).into_iter().filter(&live).map(|x| x.mark).collect();
                if !got.is_empty() {
                    break;
                }
            }
        }
        want_types.push((n.into(), got));
    }
    let seq = |t: &Table, on: bool| -> Vec<usize> {
        let mut v: Vec<It> = if on { t.all().into_iter().filter(&live).collect() } else { vec![] };
        if by_name {
            v.sort_by(|a, b| a.name.cmp(&b.name));
        }
        v.into_iter().map(|x| x.mark).collect()
    };
    let want_c = seq(total.at(Const), enabled("constants"));
    let want_g = seq(total.at(Static), enabled("globals"));

    let inp = Input { src, toml };
    let h = generate(ctx, &inp)?;
    ctx.interesting();
    let got = marks(&h);
    let mut all: Vec<usize> = want_types.iter().flat_map(|(_, v)| v.clone()).chain(want_c.clone()).chain(want_g.clone()).collect();
    all.sort();
    let mut g2 = got.clone();
    g2.sort();
    if g2 != all {
        return Err(fail(&inp, &h, format!("the header has the items {g2:?}, the rule keeps {all:?}")));
    }
    for (what, w) in want_types.iter().map(|(n, v)| (n.as_str(), v)).chain([("the constants", &want_c), ("the statics", &want_g)]) {
        let g: Vec<usize> = got.iter().copied().filter(|m| w.contains(m)).collect();
        if g != *w {
            return Err(fail(&inp, &h, format!("{what} appear in the order {g:?}, the table has {w:?}")));
        }
    }
    let has = |n: &str| h.contains(&format!(" {n}(void);")) || h.contains(&format!(" {n}();"));
    for n in fnn {
        let want = fns.contains(&n) && enabled("functions") && !exclude.iter().any(|x| x == n);
        if has(n) != want {
            return Err(fail(&inp, &h, format!("function {n}: in the header {}, expected {want}", has(n))));
        }
    }
    Ok(())
}
