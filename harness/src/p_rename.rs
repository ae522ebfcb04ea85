//! C11: one output name per item, at its definition and at every use.
use crate::p_cfg::toks;
use crate::p_names::{apply, names, Kind, RULES};
use crate::util::*;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Struct,
    Tuple,
    Transparent,
    Union,
    Enum,
    SizedEnum,
    DataC,
    DataSized,
    Typedef,
    Opaque,
    Generic,
    GenericAlias,
    GenericUnion,
    ConstGeneric,
}
use K::*;

struct G {
    names: Vec<(K, String)>,
    consts: Vec<String>,
}
impl G {
    fn named(&self, rng: &mut Rng, ps: &[&str], upto: usize, d: usize) -> String {
        let upto = upto.min(self.names.len());
        if upto == 0 || !ps.is_empty() && rng.chance(1, 4) {
            return if ps.is_empty() { "u8".into() } else { rng.pick(ps).to_string() };
        }
        let (k, n) = &self.names[rng.below(upto)];
        match k {
            Generic | GenericUnion | GenericAlias if d > 3 => "i16".into(),
            ConstGeneric => {
                let v = match rng.below(3) {
                    0 if !self.consts.is_empty() => rng.pick(&self.consts).clone(),
                    _ => format!("{}", 2 + rng.below(3)),
                };
                format!("{n}<{v}>")
            }
            Generic | GenericUnion | GenericAlias => format!("{n}<{}>", self.ty(rng, ps, upto, d + 2)),
            _ => n.clone(),
        }
    }
    /// a type that names only items below `upto` (by value or not)
    fn ty(&self, rng: &mut Rng, ps: &[&str], upto: usize, d: usize) -> String {
        if d > 3 {
            return self.named(rng, ps, upto, d);
        }
        match rng.below(12) {
            0 | 1 => format!("*const {}", self.named(rng, ps, upto, d)),
            2 => format!("*mut *const {}", self.named(rng, ps, upto, d)),
            3 => format!("Option<&'static {}>", self.named(rng, ps, upto, d)),
            4 => {
                let l = if self.consts.is_empty() || rng.chance(1, 2) { "3".to_string() } else { rng.pick(&self.consts).clone() };
                format!("[{}; {l}]", self.named(rng, ps, upto, d))
            }
            5 | 6 => {
                let n = rng.below(3);
                let a: Vec<String> = (0..n).map(|i| format!("{}{}", if rng.chance(1, 2) { format!("n{i}: ") } else { String::new() }, self.arg(rng, ps, upto, d + 1))).collect();
                let r = if rng.chance(1, 2) { format!(" -> {}", self.arg(rng, ps, upto, d + 2)) } else { String::new() };
                let f = format!("extern \"C\" fn({}){r}", a.join(", "));
                if rng.chance(1, 2) {
                    format!("Option<{f}>")
                } else {
                    f
                }
            }
            7 => format!("Box<{}>", self.named(rng, ps, upto, d)),
            8 => (*rng.pick(&["u8", "i32", "f64", "bool", "*const u8"])).to_string(),
            _ => self.named(rng, ps, upto, d),
        }
    }
    fn arg(&self, rng: &mut Rng, ps: &[&str], upto: usize, d: usize) -> String {
        let t = self.ty(rng, ps, upto, d);
        if t.starts_with('[') {
            format!("*mut {t}")
        } else {
            t
        }
    }
}

const KINDS: &[K] = &[Struct, Struct, Tuple, Transparent, Union, Enum, SizedEnum, DataC, DataSized, Typedef, Opaque, Generic, GenericAlias, GenericUnion, ConstGeneric];

fn one(ctx: &Ctx, _i: usize, rng: &mut Rng) -> Result<(), Fail> {
    let lang = *rng.pick(&["C", "C++", "C++", "C", "Cython"]);
    let style = if lang == "Cython" { *rng.pick(&["tag", "type"]) } else { *rng.pick(&["both", "tag", "type"]) };
    let m = 1 + rng.below(9);
    let mut g = G { names: vec![], consts: vec![] };
    let mut items: Vec<String> = vec![]; // names that are renamed
    let mut consts = String::new();
    let mut texts = vec![];
    // integer constants, some made from others
    let nk = rng.below(4);
    for i in 0..nk {
        let n = format!("KON{i}");
        let v = match (rng.below(4), i) {
            (0, _) | (_, 0) => format!("{}", 1 + rng.below(9)),
            (1, _) => format!("{} + {}", g.consts[rng.below(i)], g.consts[rng.below(i)]),
            (2, _) => format!("({} * 2) as usize", g.consts[rng.below(i)]),
            _ => format!("(1 << {}) | {}", g.consts[rng.below(i)], g.consts[rng.below(i)]),
        };
        consts.push_str(&format!("pub const {n}: usize = {v};\n"));
        g.consts.push(n);
    }
    let mut variants: Vec<(String, String)> = vec![]; // enum, variant
    let mut bodies: Vec<(String, String, bool)> = vec![]; // enum, variant with a body, inline tag
    let mut assoc: Vec<(String, String)> = vec![];
    let mut plain_structs: Vec<(String, usize)> = vec![];
    for c in 0..m {
        let k = *rng.pick(KINDS);
        let n = format!("It{}", (b'a' + c as u8) as char);
        let fs = |rng: &mut Rng, g: &G, ps: &[&str]| {
            let q = 1 + rng.below(3);
            (0..q).map(|i| format!("pub f{i}: {}", g.ty(rng, ps, c, 0))).collect::<Vec<_>>().join(", ")
        };
        let s = match k {
            Struct => {
                if rng.chance(1, 3) {
                    let q = 1 + rng.below(3);
                    plain_structs.push((n.clone(), q));
                    format!("#[repr(C)] pub struct {n} {{ {} }}\n", (0..q).map(|i| format!("pub f{i}: usize")).collect::<Vec<_>>().join(", "))
                } else {
                    format!("#[repr(C)] pub struct {n} {{ {} }}\n", fs(rng, &g, &[]))
                }
            }
            Tuple => format!("#[repr(C)] pub struct {n}(pub {}, pub {});\n", g.ty(rng, &[], c, 0), g.ty(rng, &[], c, 0)),
            Transparent => format!("#[repr(transparent)] pub struct {n} {{ f: {} }}\n", g.ty(rng, &[], c, 0)),
            Union => format!("#[repr(C)] pub union {n} {{ {} }}\n", fs(rng, &g, &[])),
            Enum | SizedEnum => {
                let q = 1 + rng.below(3);
                let mut vs = vec![];
                for i in 0..q {
                    let v = format!("Va{}{i}", (b'a' + c as u8) as char);
                    vs.push(match (rng.below(5), g.consts.is_empty()) {
                        (0, false) => format!("{v} = {} as isize", rng.pick(&g.consts)),
                        (1, _) => format!("{v} = {}", 10 + i),
                        _ => v.clone(),
                    });
                    variants.push((n.clone(), v));
                }
                let r = if k == Enum { "C".to_string() } else { rng.pick(&["u8", "i32", "C, u16"]).to_string() };
                format!("#[repr({r})] pub enum {n} {{ {} }}\n", vs.join(", "))
            }
            DataC | DataSized => {
                let l = (b'a' + c as u8) as char;
                let r = if k == DataC { rng.pick(&["C", "C, u8"]).to_string() } else { "u8".to_string() };
                let mut vs = vec![];
                let q = 1 + rng.below(3);
                for i in 0..q {
                    let v = format!("Vb{l}{i}");
                    vs.push(match rng.below(4) {
                        0 => v.clone(),
                        1 => {
                            bodies.push((n.clone(), v.clone(), k == DataSized));
                            format!("{v} {{ q: {}, r: {} }}", g.ty(rng, &[], c, 0), g.ty(rng, &[], c, 0))
                        }
                        2 => {
                            bodies.push((n.clone(), v.clone(), k == DataSized));
                            format!("{v}({}, {})", g.ty(rng, &[], c, 0), g.ty(rng, &[], c, 0))
                        }
                        _ => {
                            bodies.push((n.clone(), v.clone(), k == DataSized));
                            format!("{v}({})", g.ty(rng, &[], c, 0))
                        }
                    });
                    variants.push((n.clone(), v));
                }
                vs.push(format!("Vz{l}({})", g.ty(rng, &[], c, 1)));
                variants.push((n.clone(), format!("Vz{l}")));
                bodies.push((n.clone(), format!("Vz{l}"), k == DataSized));
                format!("#[repr({r})] pub enum {n} {{ {} }}\n", vs.join(", "))
            }
            Typedef => format!("pub type {n} = {};\n", g.ty(rng, &[], c, 0)),
            Opaque => format!("pub struct {n} {{ hidden: u8 }}\n"),
            Generic => format!("#[repr(C)] pub struct {n}<T> {{ pub t: T, {} }}\n", fs(rng, &g, &["T"])),
            GenericUnion => format!("#[repr(C)] pub union {n}<T: Copy> {{ pub t: T, {} }}\n", fs(rng, &g, &["T"])),
            ConstGeneric => format!("#[repr(C)] pub struct {n}<const N: usize> {{ pub t: [u8; N], {} }}\n", fs(rng, &g, &[])),
            GenericAlias => format!("pub type {n}<T> = {};\n", g.ty(rng, &["T"], c, 0)),
        };
        texts.push(s);
        if matches!(k, Struct | Union | Opaque) && k == Struct && rng.chance(1, 3) {
            let q = format!("ASC{c}");
            let v = match rng.below(3) {
                0 if !g.consts.is_empty() => format!("{} as u32", rng.pick(&g.consts)),
                1 if !assoc.is_empty() => {
                    let (t, a): &(String, String) = rng.pick(&assoc);
                    format!("{t}::{a} + 1")
                }
                _ => format!("{}", 1 + rng.below(9)),
            };
            texts.push(format!("impl {n} {{ pub const {q}: u32 = {v}; }}\n"));
            assoc.push((n.clone(), q));
        }
        g.names.push((k, n.clone()));
        items.push(n);
    }
    // constants of structure type, with references
    let mut refk = 0;
    let mut intval = |rng: &mut Rng| -> String {
        match rng.below(4) {
            0 if !g.consts.is_empty() => rng.pick(&g.consts).clone(),
            1 if !assoc.is_empty() => {
                let (t, a) = rng.pick(&assoc);
                format!("{t}::{a} as usize")
            }
            2 if !g.consts.is_empty() => format!("{} - 1", rng.pick(&g.consts)),
            _ => "7".into(),
        }
    };
    let mut late = vec![];
    for (s, q) in &plain_structs {
        if rng.chance(2, 3) {
            let f: Vec<String> = (0..*q).map(|i| format!("f{i}: {}", intval(rng))).collect();
            consts.push_str(&format!("pub const KST{refk}: {s} = {s} {{ {} }};\n", f.join(", ")));
            late.push(format!("KST{refk}"));
            refk += 1;
        }
    }
    for _ in 0..rng.below(3) {
        let v = intval(rng);
        consts.push_str(&format!("pub const KIN{refk}: usize = {v};\n"));
        late.push(format!("KIN{refk}"));
        refk += 1;
    }
    let simple: Vec<&(String, String)> = variants.iter().filter(|(e, _)| g.names.iter().any(|(k, n)| n == e && matches!(k, Enum | SizedEnum))).collect();
    if !simple.is_empty() && rng.chance(1, 2) && lang != "Cython" {
        let (e, v) = rng.pick(&simple);
        consts.push_str(&format!("pub const KEN{refk}: {e} = {e}::{v};\n"));
        late.push(format!("KEN{refk}"));
        refk += 1;
    }
    let _ = refk;
    for (i, _) in (0..1 + rng.below(3)).enumerate() {
        let a: Vec<String> = (0..rng.below(4)).map(|j| format!("a{j}: {}", g.arg(rng, &[], m, 0))).collect();
        let r = if rng.chance(1, 2) { format!(" -> {}", g.arg(rng, &[], m, 0)) } else { String::new() };
        texts.push(format!("#[no_mangle] pub extern \"C\" fn fun{i}({}){r} {{ loop {{}} }}\n", a.join(", ")));
    }
    if rng.chance(1, 2) {
        texts.push(format!("#[no_mangle] pub static mut GLOB: {} = 0;\n", g.ty(rng, &[], m, 0)));
    }
    let src = texts.concat() + &consts;
    // settings
    let pwn = rng.chance(1, 3);
    let base = format!(
        "language = {lang:?}\nstyle = {style:?}\n[export]\ninclude = {:?}\n",
        g.names.iter().filter(|(k, _)| lang == "C++" || !matches!(k, Generic | GenericAlias | GenericUnion | ConstGeneric)).map(|(_, n)| n.clone()).collect::<Vec<_>>()
    );
    let mut tail = format!("[enum]\nprefix_with_name = {pwn}\n");
    for o in ["derive_helper_methods", "derive_const_casts", "derive_mut_casts", "derive_tagged_enum_destructor", "derive_tagged_enum_copy_constructor"] {
        if rng.chance(1, 4) {
            tail.push_str(&format!("{o} = true\n"));
        }
    }
    tail.push_str("[struct]\n");
    for o in ["derive_eq", "derive_neq", "derive_constructor", "associated_constants_in_body", "derive_lt"] {
        if rng.chance(1, 4) {
            tail.push_str(&format!("{o} = true\n"));
        }
    }
    let in_body = tail.contains("associated_constants_in_body");
    tail.push_str(&format!("[const]\nallow_static_const = {}\nallow_constexpr = {}\n", rng.chance(1, 2), rng.chance(1, 2)));
    let h1 = header(ctx, &Input { src: src.clone(), toml: format!("{base}{tail}") })?;
    let t1 = toks(&h1);

    // what to rename
    let mut table: BTreeMap<String, String> = BTreeMap::new();
    let mut all: Vec<String> = items.iter().cloned().chain(g.consts.iter().cloned()).chain(late.iter().cloned()).collect();
    let mono: Vec<String> = t1.iter().filter(|t| items.iter().any(|n| t.starts_with(&format!("{n}_")) && g.names.iter().any(|(k, x)| x == n && matches!(k, Generic | GenericAlias | GenericUnion | ConstGeneric)))).cloned().collect();
    all.extend(mono.iter().cloned());
    rng.shuffle(&mut all);
    let mut fresh = 0;
    for n in all.iter().take(rng.below(6)) {
        fresh += 1;
        table.insert(n.clone(), if rng.chance(1, 4) { n.clone() } else { format!("Ren{fresh}") });
    }
    // a swap of two types
    if items.len() > 1 && rng.chance(1, 4) {
        let (a, b) = (items[0].clone(), items[1].clone());
        table.insert(a.clone(), b.clone());
        table.insert(b, a);
    }
    // names that are not items' names
    for n in ["T", "N", "f0", "fun0", "GLOB", "a0", "t", "u8", "uint8_t", "q"] {
        if rng.chance(1, 6) {
            table.insert(n.into(), "WRONG".into());
        }
    }
    if let Some((_, v)) = variants.first() {
        if rng.chance(1, 6) {
            table.insert(v.clone(), "WRONG".into());
        }
    }
    let prefix = if rng.chance(1, 2) { Some(*rng.pick(&["pfx_", "P", "ns"])) } else { None };
    let over = rng.chance(1, 2);
    let mut ex = String::new();
    if let Some(p) = prefix {
        ex.push_str(&format!("prefix = {p:?}\n"));
    }
    ex.push_str(&format!("renaming_overrides_prefixing = {over}\n[export.rename]\n"));
    for (a, b) in &table {
        ex.push_str(&format!("{a} = {b:?}\n"));
    }
    let inp = Input { src, toml: format!("{base}{ex}{tail}") };
    let h2 = header(ctx, &inp)?;

    // the expected header: one name for another
    let out = |n: &str| -> String {
        match table.get(n) {
            Some(r) if over || prefix.is_none() => r.clone(),
            r => format!("{}{}", prefix.unwrap_or(""), r.map(|s| s.as_str()).unwrap_or(n)),
        }
    };
    let mut map: BTreeMap<String, String> = BTreeMap::new();
    for n in items.iter().chain(&g.consts).chain(&late).chain(&mono) {
        map.insert(n.clone(), out(n));
    }
    for n in ["Box", "Option"] {
        map.insert(n.into(), out(n));
    }
    for (k, n) in &g.names {
        if lang != "C++" && matches!(k, DataC | DataSized) {
            map.insert(format!("{n}_Tag"), format!("{}_Tag", out(n)));
        }
    }
    for (t, a) in &assoc {
        map.insert(format!("{t}_{a}"), format!("{}_{a}", out(t)));
    }
    for (e, v) in &variants {
        if pwn {
            for h in ["", "Is", "As"] {
                map.insert(format!("{h}{e}_{v}"), format!("{h}{}_{v}", out(e)));
            }
        }
    }
    for (e, v, inline) in &bodies {
        let b = format!("{v}_Body");
        let o = if *inline && lang == "C++" { b.clone() } else { out(&b) };
        if pwn {
            map.insert(format!("{e}_{b}"), format!("{}_{o}", out(e)));
        }
        map.insert(b, o);
    }
    let _ = in_body;
    let want: Vec<String> = t1.iter().map(|t| map.get(t).cloned().unwrap_or_else(|| t.clone())).collect();
    let got = toks(&h2);
    if want != got {
        let i = (0..want.len().max(got.len())).find(|i| want.get(*i) != got.get(*i)).unwrap();
        return Err(fail(
            &inp,
            &format!("{h2}\n--- without renaming:\n{h1}"),
            format!("after renaming, token {i} is {:?} where the name map gives {:?} (near `{}`)", got.get(i), want.get(i), got[i.saturating_sub(6)..(i + 4).min(got.len())].join(" ")),
        ));
    }
    if map.iter().any(|(a, b)| a != b) {
        ctx.interesting();
    }
    Ok(())
}

/// references from constants to renamed fields and variants
fn refs(ctx: &Ctx, _i: usize, rng: &mut Rng) -> Result<(), Fail> {
    let lang = *rng.pick(&["C", "C++", "C"]);
    let nf = 1 + rng.below(4);
    let mut fields = vec!["alpha_one", "betaTwo", "gam", "delta_3x"];
    rng.shuffle(&mut fields);
    fields.truncate(nf);
    let nv = 1 + rng.below(3);
    let mut vars = vec!["VarOne", "HTTPTwo", "Vthree"];
    rng.shuffle(&mut vars);
    vars.truncate(nv);
    let fr = *rng.pick(RULES);
    let vr = *rng.pick(RULES);
    let own = rng.chance(1, 3); // the rules come as annotations
    let mut order: Vec<usize> = (0..nf).collect();
    rng.shuffle(&mut order);
    let lit = |rng: &mut Rng, n: &str| format!("{n} {{ {} }}", order.iter().map(|i| format!("{}: {}", fields[*i], if rng.chance(1, 2) { "5" } else { "KA + 1" })).collect::<Vec<_>>().join(", "));
    let src = format!(
        "pub const KA: i32 = 4;\n{}#[repr(C)] pub struct Sta {{ {} }}\n{}#[repr(C)] pub enum Ena {{ {} }}\npub const KS: Sta = {};\nimpl Sta {{ pub const SLF: Sta = {}; }}\npub const KE: Ena = Ena::{};\npub const KI: i32 = Ena::{} as i32;\n#[no_mangle] pub extern \"C\" fn fun(a: Sta, b: Ena) {{}}\n",
        if own { format!("/// cbindgen:rename-all={fr}\n") } else { String::new() },
        fields.iter().map(|f| format!("pub {f}: i32")).collect::<Vec<_>>().join(", "),
        if own { format!("/// cbindgen:rename-all={vr}\n") } else { String::new() },
        vars.join(", "),
        lit(rng, "Sta"),
        lit(rng, "Self"),
        rng.pick(&vars),
        rng.pick(&vars)
    );
    let pwn = rng.chance(1, 3);
    let head = format!("language = {lang:?}\ndocumentation = false\n");
    let consts = format!("[const]\nallow_static_const = {}\nallow_constexpr = {}\n", rng.chance(1, 2), rng.chance(1, 2));
    let body = if rng.chance(1, 3) { "associated_constants_in_body = true\n" } else { "" };
    let i1 = Input { src: src.lines().filter(|l| !l.starts_with("///")).collect::<Vec<_>>().join("\n"), toml: format!("{head}{consts}[enum]\nprefix_with_name = {pwn}\n[struct]\n{body}") };
    let h1 = header(ctx, &i1)?;
    let (r1, r2) = if own { (String::new(), String::new()) } else { (format!("rename_variants = {vr:?}\n"), format!("rename_fields = {fr:?}\n")) };
    let inp = Input { src, toml: format!("{head}{consts}[enum]\nprefix_with_name = {pwn}\n{r1}[struct]\n{body}{r2}") };
    let h2 = header(ctx, &inp)?;
    let mut map = BTreeMap::new();
    for f in &fields {
        map.insert(f.to_string(), apply(fr, f, Kind::Member));
    }
    for v in &vars {
        let v = if pwn { format!("Ena_{v}") } else { v.to_string() };
        map.insert(v.clone(), apply(vr, &v, Kind::Variant("Ena")));
    }
    let want: Vec<String> = toks(&h1).iter().map(|t| map.get(t).cloned().unwrap_or_else(|| t.clone())).collect();
    let got = toks(&h2);
    if want != got {
        let i = (0..want.len().max(got.len())).find(|i| want.get(*i) != got.get(*i)).unwrap();
        return Err(fail(&inp, &format!("{h2}\n--- without rules:\n{h1}"), format!("under the rules {fr} and {vr}, token {i} is {:?} where the name map gives {:?}", got.get(i), want.get(i))));
    }
    ctx.interesting();
    Ok(())
}

pub fn c11(ctx: &Ctx) {
    if ctx.known("KF-C11-1") {
        let inp = Input { src: "#[repr(C)] pub struct S { first_field: i32 }\nimpl S { pub const ORIGIN: S = S { first_field: 1 }; }\npub const K: i32 = S::ORIGIN.first_field;\n#[no_mangle] pub extern \"C\" fn f(s: S) {}\n".into(), toml: "language = \"C\"\n[struct]\nrename_fields = \"CamelCase\"\n".into() };
        if let Gen::Ok(h) = run(ctx, &inp) {
            if h.contains("firstField") && h.contains(").first_field") {
                ctx.known.lock().unwrap().push("KF-C11-1: `pub const K: i32 = S::ORIGIN.first_field;` is printed with the source name of a renamed field".into());
            }
        }
    }
    let n = ctx.n(4000, 60_000);
    ctx.bound(format!("{n} random crates whose constants and associated constants refer to the fields of a struct and the variants of an enum under every rename rule, by configuration or annotation"));
    ctx.par("refs", n, refs);
    let n = ctx.n(8000, 160_000);
    ctx.bound(format!("{n} random crates of up to 9 items of every kind (generic ones too), constants and associated constants referring to each other, functions and statics, in C, C++ and Cython: the header under a random rename table (with swaps, identities and entries for names that are no items) and prefix is the header without them with one name put for another"));
    ctx.par("rename", n, one);
    let n = ctx.n(6000, 100_000);
    ctx.bound(format!("{n} random crates with plain names under every rename rule: fields, arguments, variants"));
    ctx.par("rules", n, |ctx, i, rng| names(ctx, i, rng, false));
}
