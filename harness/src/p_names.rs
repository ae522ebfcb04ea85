//! C07 and C11: names of members, arguments and variants; renaming of items.
use crate::p_cfg::toks;
use crate::util::*;
use heck::*;

pub const KW: &[&str] = &[
    "alignas", "alignof", "auto", "bool", "break", "case", "catch", "char", "char16_t", "char32_t", "char8_t", "class", "const", "const_cast", "constexpr", "continue",
    "decltype", "default", "delete", "do", "double", "dynamic_cast", "else", "enum", "explicit", "export", "extern", "false", "float", "for", "friend", "goto", "if", "inline",
    "int", "long", "mutable", "namespace", "new", "noexcept", "nullptr", "operator", "private", "protected", "public", "register", "reinterpret_cast", "return", "short",
    "signed", "sizeof", "static", "static_assert", "static_cast", "struct", "switch", "template", "this", "thread_local", "throw", "true", "try", "typedef", "typename",
    "union", "unsigned", "using", "virtual", "void", "volatile", "wchar_t", "while",
];
/// keywords that no header construct of ours prints on its own
const LONE: &[&str] = &["while", "if", "delete", "virtual", "mutable", "goto", "else", "friend", "catch", "register", "continue", "break", "try", "throw", "export", "switch", "do", "for", "private", "protected"];

pub fn esc(s: &str) -> String {
    if KW.contains(&s) {
        format!("{s}_")
    } else {
        s.to_string()
    }
}

pub const RULES: &[&str] = &["None", "GeckoCase", "LowerCase", "UpperCase", "PascalCase", "CamelCase", "SnakeCase", "ScreamingSnakeCase", "QualifiedScreamingSnakeCase", "prefix:pre_", "prefix:wh", "mGeckoCase", "snake_case", "camelCase"];

#[derive(Clone, Copy, PartialEq)]
pub enum Kind<'a> {
    Member,
    Arg,
    Variant(&'a str),
}

pub fn apply(rule: &str, s: &str, k: Kind) -> String {
    if s.is_empty() {
        return String::new();
    }
    match rule {
        "GeckoCase" | "mGeckoCase" => format!("{}{}", match k { Kind::Member => "m", Kind::Arg => "a", _ => "" }, s.to_upper_camel_case()),
        "LowerCase" => s.to_lowercase(),
        "UpperCase" => s.to_uppercase(),
        "PascalCase" => s.to_upper_camel_case(),
        "CamelCase" | "camelCase" => s.to_lower_camel_case(),
        "SnakeCase" | "snake_case" => s.to_snake_case(),
        "ScreamingSnakeCase" => s.to_shouty_snake_case(),
        "QualifiedScreamingSnakeCase" => match k {
            Kind::Variant(e) if !e.is_empty() => format!("{}_{}", e.to_shouty_snake_case(), s.to_shouty_snake_case()),
            _ => s.to_shouty_snake_case(),
        },
        r => match r.strip_prefix("prefix:") {
            Some(p) => format!("{p}{s}"),
            None => s.to_string(),
        },
    }
}

const RUST_KW: &[&str] = &[
    "as", "break", "const", "continue", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "static", "struct",
    "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try", "gen",
];
pub fn raw(s: &str) -> String {
    if RUST_KW.contains(&s) {
        format!("r#{s}")
    } else {
        s.to_string()
    }
}

fn ident(rng: &mut Rng, kw: bool) -> String {
    let k = *rng.pick(KW);
    let plain = ["alpha", "some_field", "x2", "HTTPServer", "get_URL", "aB_cD", "_lead", "trail_", "a__b", "val1_2", "ile", "m", "count", "self_", "unionx", "classes"];
    match rng.below(if kw { 12 } else { 6 }) {
        0..=5 if !kw => rng.pick(&plain).to_string(),
        0..=4 => k.to_string(),
        5 => format!("{k}_"),
        6 => k.to_uppercase(),
        7 => k.to_upper_camel_case(),
        8 => format!("{k}x"),
        9 => k[..k.len() - 1].to_string(),
        10 => format!("_{k}"),
        _ => rng.pick(&plain).to_string(),
    }
}
fn uniq(rng: &mut Rng, n: usize, kw: bool) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    while v.len() < n {
        let i = ident(rng, kw);
        let bad = i.is_empty() || i == "_" || ["self", "Self", "crate", "super"].contains(&i.as_str()) || v.contains(&i);
        if !bad {
            v.push(i);
        }
    }
    v
}

/// name declared with the array length n: the identifier before `[n]`, skipping `)`
fn name_before(t: &[String], n: usize) -> Vec<String> {
    let s = n.to_string();
    let mut out = vec![];
    for i in 2..t.len() {
        if t[i] == s && t[i - 1] == "[" {
            let mut j = i - 2;
            while j > 0 && t[j] == ")" {
                j -= 1;
            }
            out.push(t[j].clone());
        }
    }
    out
}

pub fn names(ctx: &Ctx, i: usize, rng: &mut Rng, kw: bool) -> Result<(), Fail> {
    let lang = ["C", "C++", "Cython"][i % 3];
    let (sr, ar, er) = (*rng.pick(RULES), *rng.pick(RULES), *rng.pick(RULES));
    let (sr, ar, er) = (if rng.chance(1, 3) { "None" } else { sr }, if rng.chance(1, 3) { "None" } else { ar }, if rng.chance(1, 3) { "None" } else { er });
    let mut src = String::new();
    // (array length, name expected)
    let mut want: Vec<(usize, String)> = vec![];
    let mut include = vec![];
    let mut key = 1000;
    let ann = |rng: &mut Rng, src: &mut String, conf: &str| -> String {
        if rng.chance(1, 4) {
            let r = *rng.pick(RULES);
            *src += &format!("/// cbindgen:rename-all={r}\n");
            r.to_string()
        } else {
            conf.to_string()
        }
    };
    for k in 0..1 + rng.below(3) {
        // struct or union
        let un = rng.chance(1, 3);
        let r = ann(rng, &mut src, sr);
        let n = 1 + rng.below(4);
        let tuple = !un && rng.chance(1, 4);
        let fs = if tuple { (0..n).map(|x| x.to_string()).collect() } else { uniq(rng, n, kw) };
        let mut list: Option<Vec<String>> = None;
        if rng.chance(1, 5) {
            let m = 1 + rng.below(n + 1);
            let l = uniq(rng, m, kw);
            src += &format!("/// cbindgen:field-names=[{}]\n", l.join(", "));
            list = Some(l);
        }
        let nm = format!("Zz{k}");
        include.push(nm.clone());
        src += &format!("#[repr(C)] pub {} {nm} {}\n", if un { "union" } else { "struct" }, if tuple { "(" } else { "{" });
        for (j, f) in fs.iter().enumerate() {
            key += 1;
            src += &if tuple { format!("  pub [u8; {key}],\n") } else { format!("  pub {}: [u8; {key}],\n", raw(f)) };
            let base = match &list {
                Some(l) if j < l.len() => l[j].clone(),
                Some(_) => f.clone(),
                None if r != "None" => apply(&r, f, Kind::Member),
                None if f.starts_with(|c: char| c.is_ascii_digit()) => format!("_{f}"),
                None => f.clone(),
            };
            want.push((key, esc(&base)));
        }
        src += if tuple { ");\n" } else { "}\n" };
    }
    for k in 0..1 + rng.below(2) {
        // functions, with function pointer arguments
        let r = ann(rng, &mut src, ar);
        let n = 1 + rng.below(4);
        let ns = uniq(rng, n, kw);
        let mut a = vec![];
        for x in &ns {
            if rng.chance(1, 3) {
                let m = 1 + rng.below(3);
                let inner: Vec<String> = uniq(rng, m, kw)
                    .iter()
                    .map(|y| {
                        key += 1;
                        want.push((key, esc(y)));
                        format!("{}: *const [u8; {key}]", raw(y))
                    })
                    .collect();
                // `fnptr *NAME` cannot be keyed by a length; the pointer target can
                a.push(format!("{}: {}extern \"C\" fn({})", raw(x), if rng.chance(1, 2) { "*mut " } else { "" }, inner.join(", ")));
            } else {
                key += 1;
                want.push((key, esc(&apply(&r, x, Kind::Arg))));
                a.push(format!("{}: *mut [u8; {key}]", raw(x)));
            }
        }
        src += &format!("#[no_mangle] pub extern \"C\" fn fun{k}({}) {{}}\n", a.join(", "));
    }
    // enums
    let mut wantv: Vec<(usize, String)> = vec![];
    let mut never: Vec<String> = vec![];
    let pwn = rng.chance(1, 3);
    let rmu = rng.chance(1, 4);
    for k in 0..rng.below(3) {
        let en = if kw && rng.chance(1, 6) { ["stat", "wh", "Zx"][k].to_string() } else { format!("Ze{k}") };
        let r = ann(rng, &mut src, er);
        let mut p = pwn;
        if rng.chance(1, 4) {
            p = rng.chance(1, 2);
            src += &format!("/// cbindgen:prefix-with-name={p}\n");
        }
        include.push(en.clone());
        let n = 1 + rng.below(4);
        let mut vs = uniq(rng, n, kw);
        if en == "stat" {
            vs.push("ic".into());
        }
        src += &format!("#[repr({})] pub enum {en} {{\n", rng.pick(&["C", "u16", "i32"]));
        vs.sort();
        vs.dedup();
        for v in &vs {
            key += 1;
            src += &format!("  {} = {key},\n", raw(v));
            let mut b = esc(v);
            if p {
                b = format!("{en}{}{b}", if rmu { "" } else { "_" });
            }
            if r != "None" {
                b = apply(&r, &b, Kind::Variant(&en));
            }
            wantv.push((key, esc(&b)));
        }
        src += "}\n";
    }
    // a tagged enum: names of variants, bodies and fields, helpers
    if rng.chance(1, 2) && kw {
        let r = ann(rng, &mut src, er);
        let _ = r;
        include.push("Zt".into());
        src += &format!("#[repr({})] pub enum Zt {{\n", rng.pick(&["C", "u8", "C, u8"]));
        let n = 1 + rng.below(3);
        let mut used: Vec<&str> = vec![];
        for _ in 0..n {
            let w = *rng.pick(LONE);
            if used.contains(&w) {
                continue;
            }
            used.push(w);
            never.push(w.into());
            let vn = if rng.chance(1, 2) { raw(w) } else { w.to_upper_camel_case() };
            match rng.below(4) {
                0 => src += &format!("  {vn},\n"),
                1 => src += &format!("  {vn}(u8),\n"),
                2 => src += &format!("  {vn}(u8, u16),\n"),
                _ => {
                    let f = *rng.pick(LONE);
                    never.push(f.into());
                    src += &format!("  {vn} {{ {}: u8, b: u16 }},\n", if rng.chance(1, 2) { raw(f) } else { f.to_upper_camel_case() });
                }
            }
        }
        src += "}\n";
    }
    let mut toml = format!("language = {lang:?}\n");
    if lang != "C++" {
        toml += &format!("style = {:?}\n", rng.pick(&["tag", "type"]));
    }
    toml += &format!("[export]\ninclude = {include:?}\n");
    if rmu {
        toml += "[export.mangle]\nremove_underscores = true\n";
    }
    toml += &format!("[fn]\nrename_args = {ar:?}\nargs = {:?}\n", rng.pick(&["auto", "vertical", "horizontal"]));
    toml += &format!("[struct]\nrename_fields = {sr:?}\n");
    let der = lang == "C++" && kw && rng.chance(1, 2);
    if der {
        toml += "derive_constructor = true\nderive_eq = true\n";
    }
    toml += &format!("[enum]\nrename_variants = {er:?}\nprefix_with_name = {pwn}\n");
    if der {
        toml += "derive_helper_methods = true\nderive_const_casts = true\nderive_mut_casts = true\n";
    }
    let inp = Input { src, toml };
    let h = header(ctx, &inp)?;
    let t = toks(&h);
    for (k, w) in &want {
        let got = name_before(&t, *k);
        let bad = got.is_empty() || got.iter().any(|g| g != w);
        // derived functions repeat the member under its own name or under the argument rule
        let bad = if bad && der && !got.is_empty() { got[0] != *w && !got.contains(w) || got.iter().any(|g| KW.contains(&g.as_str()) && !["const"].contains(&g.as_str())) } else { bad };
        if bad {
            return Err(fail(&inp, &h, format!("the member or argument of type [u8; {k}] is called {got:?}, expected {w:?}")));
        }
    }
    for (k, w) in &wantv {
        let s = k.to_string();
        // Cython prints the discriminant as a comment
        let got: Vec<String> = (3..t.len()).filter(|&i| t[i] == s && t[i - 1] == "=").map(|i| if t[i - 2] == "#" { t[i - 3].clone() } else { t[i - 2].clone() }).collect();
        if got.len() != 1 || &got[0] != w {
            return Err(fail(&inp, &h, format!("the variant with value {k} is called {got:?}, expected {w:?}")));
        }
    }
    if h.match_indices("r#").any(|(k, _)| !h[..k].ends_with(|c: char| c.is_alphanumeric() || c == '_')) {
        return Err(fail(&inp, &h, "a name is printed with its r#"));
    }
    if lang != "Cython" {
        let t = toks(&h.lines().filter(|l| !l.trim_start().starts_with('#')).collect::<Vec<_>>().join("\n"));
        for w in &never {
            // `switch`/`if`/`for` appear in derived code
            if der && ["if", "for", "switch", "break", "private", "protected", "do", "while", "delete", "else", "friend"].contains(&w.as_str()) {
                // as a name it would be followed by something no statement has
                let bad = t.windows(2).any(|p| p[0] == *w && [";", ",", ")", "=", "["].contains(&p[1].as_str()) && !(*w == "break" && p[1] == ";"));
                if bad {
                    return Err(fail(&inp, &h, format!("the keyword {w:?} is used as a name")));
                }
                continue;
            }
            if t.contains(w) {
                return Err(fail(&inp, &h, format!("the keyword {w:?} is used as a name")));
            }
        }
    }
    ctx.interesting();
    Ok(())
}

pub fn c07(ctx: &Ctx) {
    let n = ctx.n(24_000, 300_000);
    ctx.bound(format!("{n} random crates (structs, unions, tuples, functions, function pointers, enums, tagged enums) whose names are keywords, near-keywords or plain, under every rename rule, annotation, language and derive switch"));
    ctx.par("kw", n, |ctx, i, rng| names(ctx, i, rng, true));
    // every keyword on its own, in each position, every language
    ctx.par("each", KW.len() * 3, |ctx, i, _| {
        let w = KW[i / 3];
        let lang = ["C", "C++", "Cython"][i % 3];
        let r = raw(w);
        let inp = Input {
            src: format!("#[repr(C)] pub struct S {{ pub {r}: [u8; 11] }}\n#[repr(C)] pub union U {{ pub {r}: [u8; 12] }}\n#[repr(C)] pub enum E {{ {r} = 77 }}\n#[no_mangle] pub extern \"C\" fn f({r}: *const [u8; 13], a: S, b: U, c: E, d: extern \"C\" fn({r}: *mut [u8; 14])) {{}}\n"),
            toml: format!("language = {lang:?}\n{}", if lang == "Cython" { "style = \"tag\"\n" } else { "" }),
        };
        let h = header(ctx, &inp)?;
        let t = toks(&h);
        for k in 11..15 {
            let g = name_before(&t, k);
            if g.len() != 1 || g[0] != format!("{w}_") {
                return Err(fail(&inp, &h, format!("the name of type [u8; {k}] is {g:?}, expected {w}_")));
            }
        }
        if !t.contains(&format!("{w}_")) {
            return Err(fail(&inp, &h, format!("variant {w}_ missing")));
        }
        Ok(())
    });
}
