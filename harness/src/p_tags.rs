//! C12: tag keywords at references in C.
use crate::util::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Struct,
    Transparent,
    Enum,
    SizedEnum,
    CSizedEnum,
    DataC,
    DataSized,
    DataCSized,
    Union,
    Typedef,
    Opaque,
}
use K::*;
const KINDS: &[K] = &[Struct, Struct, Transparent, Enum, SizedEnum, CSizedEnum, DataC, DataSized, DataCSized, Union, Typedef, Opaque];

fn keyword(k: K) -> Option<&'static str> {
    match k {
        Struct | Opaque | DataC | DataCSized => Some("struct"),
        Enum => Some("enum"),
        DataSized | Union => Some("union"),
        Transparent | SizedEnum | CSizedEnum | Typedef => None,
    }
}
/// rank in the fixed order of item kinds
fn rank(k: K) -> usize {
    match k {
        Struct | Transparent => 0,
        Enum | SizedEnum | CSizedEnum | DataC | DataSized | DataCSized => 1,
        Union => 2,
        Typedef => 3,
        Opaque => 4,
    }
}

fn toks(h: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for l in h.lines() {
        if l.trim_start().starts_with('#') || l.trim_start().starts_with("//") {
            continue;
        }
        let mut cur = String::new();
        for c in l.chars().chain(Some(' ')) {
            if c.is_alphanumeric() || c == '_' {
                cur.push(c);
            } else {
                if !cur.is_empty() {
                    out.push(std::mem::take(&mut cur));
                }
                if !c.is_whitespace() {
                    out.push(c.to_string());
                }
            }
        }
    }
    out
}

fn ty(rng: &mut Rng, names: &[String], d: usize, value: &[String]) -> String {
    let any = rng.pick(names).clone();
    if d > 3 {
        return format!("*mut {any}");
    }
    match rng.below(10) {
        0 | 1 => format!("*const {any}"),
        2 => format!("*mut *const {any}"),
        3 => format!("Option<&'static {any}>"),
        4 => format!("*mut [{any}; 3]"),
        5 | 6 => {
            let n = rng.below(4);
            let a: Vec<String> = (0..n).map(|i| format!("{}{}", if rng.chance(1, 2) { format!("n{i}: ") } else { String::new() }, ty(rng, names, d + 1, names))).collect();
            let r = match rng.below(3) {
                0 => String::new(),
                1 => format!(" -> {any}"),
                _ => format!(" -> {}", ty(rng, names, d + 2, names)),
            };
            let f = format!("extern \"C\" fn({}){r}", a.join(", "));
            if rng.chance(1, 2) {
                format!("Option<{f}>")
            } else {
                f
            }
        }
        7 => format!("Box<{any}>"),
        8 if !value.is_empty() => format!("[{}; 2]", rng.pick(value)),
        _ if !value.is_empty() => rng.pick(value).clone(),
        _ => format!("*mut {any}"),
    }
}

pub fn c12(ctx: &Ctx) {
    let n = ctx.n(8000, 160000);
    ctx.bound(format!("{n} random C headers in the three styles with 1-10 items of every kind (plain, transparent, fieldless and data-carrying enums with each repr, unions, aliases, opaque types; some names declared twice under different cfgs as different kinds): every occurrence of an item's name outside macros carries exactly the keyword of its first declaration, and definitions use that keyword"));
    if ctx.known("KF-C12-1") {
        let inp = Input { src: "#[repr(C)] pub struct S { a: u8 }\npub const K: S = S { a: 1 };\n#[no_mangle] pub extern \"C\" fn f(s: S) {}\n".into(), toml: "language = \"C\"\nstyle = \"tag\"\n".into() };
        if let Gen::Ok(h) = run(ctx, &inp) {
            if h.contains("#define K (S){") {
                ctx.known.lock().unwrap().push("KF-C12-1: with style = \"tag\" a struct constant is printed as `#define K (S){ .a = 1 }`, without the keyword struct, and a cast in a constant names its struct without it".into());
            }
        }
    }
    ctx.par("tags", n, |ctx, _, rng| {
        let style = *rng.pick(&["both", "tag", "type", "both", "tag"]);
        let m = 1 + rng.below(10);
        let mut names: Vec<String> = (0..m).map(|i| format!("It{}", (b'A' + i as u8) as char)).collect();
        rng.shuffle(&mut names);
        let mut kinds: Vec<Vec<K>> = vec![];
        let mut texts = vec![];
        for c in 0..m {
            let mut ks = vec![*rng.pick(KINDS)];
            if rng.chance(1, 6) {
                let k2 = *rng.pick(KINDS);
                // a Rust name has one meaning per cfg; two kinds of different rank
                if rank(k2) != rank(ks[0]) {
                    ks.push(k2);
                }
            }
            // what may be used by value or be aliased: earlier items
            let lower: Vec<String> = names[..c].to_vec();
            for (j, k) in ks.iter().enumerate() {
                let cfg = match (ks.len(), j) {
                    (1, _) => "",
                    (_, 0) => "#[cfg(unix)] ",
                    _ => "#[cfg(windows)] ",
                };
                let name = &names[c];
                let pool: &[String] = if *k == Typedef { &lower } else { &names };
                let mut t = |rng: &mut Rng| if pool.is_empty() { "*mut u8".to_string() } else { ty(rng, pool, 0, &lower) };
                let fs = |rng: &mut Rng, t: &mut dyn FnMut(&mut Rng) -> String| {
                    let n = 1 + rng.below(3);
                    (0..n).map(|i| format!("f{i}: {}", t(rng))).collect::<Vec<_>>().join(", ")
                };
                let data = |rng: &mut Rng, t: &mut dyn FnMut(&mut Rng) -> String| format!("{name}V({}), {name}W {{ q: {}, r: {} }}, {name}E", t(rng), t(rng), t(rng));
                let s = match k {
                    Struct => format!("#[repr(C)] pub struct {name} {{ {} }}", fs(rng, &mut t)),
                    Transparent => format!("#[repr(transparent)] pub struct {name} {{ f: {} }}", t(rng)),
                    Enum => format!("#[repr(C)] pub enum {name} {{ {name}X, {name}Y }}"),
                    SizedEnum => format!("#[repr({})] pub enum {name} {{ {name}X, {name}Y }}", rng.pick(&["u8", "i32", "u64", "usize"])),
                    CSizedEnum => format!("#[repr(C, {})] pub enum {name} {{ {name}X, {name}Y }}", rng.pick(&["u8", "i16"])),
                    DataC => format!("#[repr(C)] pub enum {name} {{ {} }}", data(rng, &mut t)),
                    DataSized => format!("#[repr({})] pub enum {name} {{ {} }}", rng.pick(&["u8", "u32"]), data(rng, &mut t)),
                    DataCSized => format!("#[repr(C, u8)] pub enum {name} {{ {} }}", data(rng, &mut t)),
                    Union => format!("#[repr(C)] pub union {name} {{ {} }}", fs(rng, &mut t)),
                    Typedef => format!("pub type {name} = {};", t(rng)),
                    Opaque => format!("pub struct {name} {{ hidden: u8 }}"),
                };
                texts.push(format!("{cfg}{s}\n"));
            }
            kinds.push(ks);
        }
        for i in 0..1 + rng.below(3) {
            let a: Vec<String> = (0..rng.below(4)).map(|j| {
                let t = ty(rng, &names, 0, &names);
                let n = if rng.chance(1, 6) { "_".to_string() } else { format!("a{j}") };
                format!("{n}: {}{t}", if t.starts_with('[') { "*mut " } else { "" })
            }).collect();
            let t = ty(rng, &names, 0, &names);
            let r = if rng.chance(1, 2) { format!(" -> {}{t}", if t.starts_with('[') { "*mut " } else { "" }) } else { String::new() };
            texts.push(format!("#[no_mangle] pub extern \"C\" fn fun{i}({}){r} {{ loop {{}} }}\n", a.join(", ")));
        }
        if rng.chance(1, 2) {
            texts.push(format!("#[no_mangle] pub static mut GLOB: {} = 0;\n", ty(rng, &names, 0, &names)));
        }
        rng.shuffle(&mut texts);
        let inp = Input { src: texts.concat(), toml: format!("language = \"C\"\nstyle = {style:?}\n[defines]\nunix = \"ON_UNIX\"\nwindows = \"ON_WINDOWS\"\n[export]\ninclude = {names:?}\n") };
        let h = header(ctx, &inp)?;
        let ts = toks(&h);
        let at = |i: isize| if i >= 0 { ts.get(i as usize).map(|s| s.as_str()).unwrap_or("") } else { "" };
        // the name each braceless typedef declares: in `(*N` / `(*(*N` of the leftmost parentheses,
        // or right before the first `;` or `[`
        let mut declared = std::collections::BTreeSet::new();
        for (i, t) in ts.iter().enumerate() {
            if t != "typedef" {
                continue;
            }
            let end = (i..ts.len()).find(|j| ts[*j] == ";" || ts[*j] == "{").unwrap_or(ts.len());
            if ts.get(end).map(|s| s.as_str()) != Some(";") {
                continue;
            }
            let p = (i..=end).find(|j| matches!(ts[*j].as_str(), "(" | "[" | ";")).unwrap();
            if ts[p] == "(" {
                let mut j = p;
                while matches!(ts[j].as_str(), "(" | "*" | "const") {
                    j += 1;
                }
                declared.insert(j);
            } else {
                declared.insert(p - 1);
            }
        }
        let mut refs = 0;
        for (i, t) in ts.iter().enumerate() {
            let Some(c) = names.iter().position(|n| n == t) else { continue };
            let i = i as isize;
            let mut first = kinds[c].clone();
            first.sort_by_key(|k| rank(*k));
            let want = if style == "type" { None } else { keyword(first[0]) };
            let prev = at(i - 1);
            let got = if matches!(prev, "struct" | "union" | "enum") { Some(prev) } else { None };
            // `} N;`  -  the name a typedef declares
            if prev == "}" && at(i + 1) == ";" {
                continue;
            }
            // definitions: `struct N {`, `enum N : T {`; opaque: `typedef struct N N;` or `struct N;`
            if got.is_some() && (at(i + 1) == "{" || at(i + 1) == ":") {
                let k = got.unwrap();
                let ok = kinds[c].iter().any(|x| keyword(*x) == Some(k) || matches!(x, SizedEnum | CSizedEnum) && k == "enum");
                if !ok {
                    return Err(fail(&inp, &h, format!("{t} is defined with `{k}`")));
                }
                continue;
            }
            if got == Some("struct") && kinds[c].contains(&Opaque) && (at(i + 1) == ";" && matches!(at(i - 2), ";" | "}" | "") || at(i - 2) == "typedef" && at(i + 1) == t) {
                continue;
            }
            // C23 spelling of a sized enum: `typedef enum N N;`
            if got == Some("enum") && at(i - 2) == "typedef" && at(i + 1) == t && kinds[c].iter().any(|k| matches!(k, SizedEnum | CSizedEnum)) {
                continue;
            }
            if declared.contains(&(i as usize)) {
                continue;
            }
            refs += 1;
            if got != want {
                return Err(fail(&inp, &h, format!("a reference to {t} carries {got:?}, but {t} is declared with {want:?} (near `{} {} {} {}`)", at(i - 2), at(i - 1), t, at(i + 1))));
            }
        }
        if refs > 3 {
            ctx.interesting();
        }
        Ok(())
    });
}
