//! C17: accepted spellings of enumerated configuration values.
use crate::util::*;
use cbindgen::Config;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Key {
    name: &'static str,
    /// toml text with the value's place marked @
    toml: &'static [&'static str],
    get: fn(&Config) -> String,
    /// case-insensitive
    ci: bool,
    values: &'static [(&'static str, &'static [&'static str])],
}

const RULES: &[(&str, &[&str])] = &[
    ("None", &["none", "None"]),
    ("GeckoCase", &["mGeckoCase", "GeckoCase", "gecko_case"]),
    ("LowerCase", &["lowercase", "LowerCase", "lower_case"]),
    ("UpperCase", &["UPPERCASE", "UpperCase", "upper_case"]),
    ("PascalCase", &["PascalCase", "pascal_case"]),
    ("CamelCase", &["camelCase", "CamelCase", "camel_case"]),
    ("SnakeCase", &["snake_case", "SnakeCase"]),
    ("ScreamingSnakeCase", &["SCREAMING_SNAKE_CASE", "ScreamingSnakeCase", "screaming_snake_case"]),
    ("QualifiedScreamingSnakeCase", &["QUALIFIED_SCREAMING_SNAKE_CASE", "QualifiedScreamingSnakeCase", "qualified_screaming_snake_case"]),
];

fn opt(s: String) -> String {
    s.strip_prefix("Some(").and_then(|x| x.strip_suffix(')')).map(|x| x.to_string()).unwrap_or(s)
}

fn keys() -> Vec<Key> {
    vec![
        Key {
            name: "language",
            toml: &["language = @\n"],
            get: |c| format!("{:?}", c.language),
            ci: false,
            values: &[("Cxx", &["cxx", "Cxx", "CXX", "cpp", "Cpp", "CPP", "c++", "C++"]), ("C", &["c", "C"]), ("Cython", &["cython", "Cython"])],
        },
        Key {
            name: "line_endings",
            toml: &["line_endings = @\n"],
            get: |c| format!("{:?}", c.line_endings),
            ci: true,
            values: &[("LF", &["lf"]), ("CR", &["cr"]), ("CRLF", &["crlf"]), ("Native", &["native"])],
        },
        Key {
            name: "braces",
            toml: &["braces = @\n"],
            get: |c| format!("{:?}", c.braces),
            ci: false,
            values: &[("SameLine", &["SameLine", "same_line"]), ("NextLine", &["NextLine", "next_line"])],
        },
        Key {
            name: "fn.args",
            toml: &["[fn]\nargs = @\n"],
            get: |c| format!("{:?}", c.function.args),
            ci: false,
            values: &[("Horizontal", &["Horizontal", "horizontal"]), ("Vertical", &["Vertical", "vertical"]), ("Auto", &["Auto", "auto"])],
        },
        Key {
            name: "documentation_style",
            toml: &["documentation_style = @\n"],
            get: |c| format!("{:?}", c.documentation_style),
            ci: true,
            values: &[("C", &["c"]), ("C99", &["c99"]), ("Doxy", &["doxy"]), ("Cxx", &["cxx", "c++"]), ("Auto", &["auto"])],
        },
        Key {
            name: "documentation_length",
            toml: &["documentation_length = @\n"],
            get: |c| format!("{:?}", c.documentation_length),
            ci: true,
            values: &[("Short", &["short"]), ("Full", &["full"])],
        },
        Key {
            name: "style",
            toml: &["style = @\n"],
            get: |c| format!("{:?}", c.style),
            ci: false,
            values: &[("Both", &["Both", "both"]), ("Tag", &["Tag", "tag"]), ("Type", &["Type", "type"])],
        },
        Key {
            name: "export.item_types",
            toml: &["[export]\nitem_types = [@]\n"],
            get: |c| format!("{:?}", c.export.item_types).trim_matches(|c| c == '[' || c == ']').to_string(),
            ci: true,
            values: &[
                ("Constants", &["constants"]),
                ("Globals", &["globals"]),
                ("Enums", &["enums"]),
                ("Structs", &["structs"]),
                ("Unions", &["unions"]),
                ("Typedefs", &["typedefs"]),
                ("OpaqueItems", &["opaque"]),
                ("Functions", &["functions"]),
            ],
        },
        Key {
            name: "sort_by",
            toml: &["sort_by = @\n"],
            get: |c| format!("{:?}", c.sort_by),
            ci: true,
            values: &[("Name", &["name"]), ("None", &["none"])],
        },
        Key {
            name: "parse.expand.profile",
            toml: &["[parse.expand]\nprofile = @\n"],
            get: |c| format!("{:?}", c.parse.expand.profile),
            ci: false,
            values: &[("Debug", &["debug", "Debug"]), ("Release", &["release", "Release"])],
        },
        Key { name: "fn.rename_args", toml: &["[fn]\nrename_args = @\n"], get: |c| opt(format!("{:?}", c.function.rename_args)), ci: false, values: RULES },
        Key { name: "struct.rename_fields", toml: &["[struct]\nrename_fields = @\n"], get: |c| opt(format!("{:?}", c.structure.rename_fields)), ci: false, values: RULES },
        Key { name: "enum.rename_variants", toml: &["[enum]\nrename_variants = @\n"], get: |c| opt(format!("{:?}", c.enumeration.rename_variants)), ci: false, values: RULES },
        Key {
            name: "enum.rename_variant_name_fields",
            toml: &["[enum]\nrename_variant_name_fields = @\n"],
            get: |c| opt(format!("{:?}", c.enumeration.rename_variant_name_fields)),
            ci: false,
            values: RULES,
        },
    ]
}

fn expect(k: &Key, s: &str) -> Option<String> {
    let t = if k.ci { s.to_lowercase() } else { s.to_string() };
    for (v, sp) in k.values {
        if sp.contains(&t.as_str()) {
            return Some(v.to_string());
        }
    }
    if std::ptr::eq(k.values, RULES) {
        if let Some(p) = s.strip_prefix("prefix:") {
            return Some(format!("Prefix({p:?})"));
        }
    }
    None
}

fn mutate(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.below(2) {
        let i = r.below(v.len().max(1));
        match r.below(8) {
            0 if !v.is_empty() => {
                let c = v[i];
                v[i] = if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
            }
            1 if !v.is_empty() => {
                v.remove(i);
            }
            2 => v.insert(i, *r.pick(&['_', '-', ' ', 's', 'x', '+', ':', 'é', '\u{130}', '\u{212a}'])),
            3 => v.insert(0, ' '),
            4 => v.push(*r.pick(&[' ', 's', '_', '\n', '1'])),
            5 => v = v.iter().flat_map(|c| c.to_uppercase()).collect(),
            6 => v = v.iter().flat_map(|c| c.to_lowercase()).collect(),
            _ => v = v.iter().map(|&c| if c == '_' { '-' } else { c }).collect(),
        }
    }
    v.into_iter().collect()
}

fn tstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04X}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn one(ctx: &Ctx, k: &Key, s: &str) -> Result<(), Fail> {
    for t in k.toml {
        let inp = Input { src: String::new(), toml: t.replace('@', &tstr(s)) };
        let p = ctx.tdir().join("cbindgen.toml");
        std::fs::write(&p, &inp.toml).unwrap();
        let got = match catch_unwind(AssertUnwindSafe(|| Config::from_file(&p))) {
            Ok(r) => r.map(|c| (k.get)(&c)).map_err(|e| e.to_string()),
            Err(p) => Err(format!("PANIC {}", panic_text(&p))),
        };
        match (&got, expect(k, s)) {
            (Ok(g), Some(e)) if *g == e => ctx.interesting(),
            (Err(g), None) if !g.starts_with("PANIC") => {}
            (_, e) => {
                return Err(fail(
                    &inp,
                    &format!("{got:?}"),
                    format!("{} = {s:?} should {}, but gives {got:?}", k.name, e.map(|e| format!("mean {e}")).unwrap_or("be rejected".into())),
                ))
            }
        }
    }
    Ok(())
}

pub fn c17(ctx: &Ctx) {
    ctx.bound("every accepted spelling of 14 configuration keys; prefix: rules with arbitrary short strings; strings one or two edits away from a spelling, spellings of the other keys, and every string literal of config.rs and rename.rs");
    let ks = keys();
    let mut words: Vec<String> = ks.iter().flat_map(|k| k.values.iter().flat_map(|(v, s)| s.iter().map(|x| x.to_string()).chain([v.to_string()]))).collect();
    for f in ["config.rs", "rename.rs"] {
        words.extend(dict(f));
    }
    for x in ["", " ", "prefix", "prefix:", "prefix::", "prefix:a b", "Prefix:x", "prefix:prefix:", "prefix:é", "PREFIX:x", " prefix:x", "prefix :x", "auto ", "C#", "objc", "c99", "C99", "c++11", "cpp17", "rust", "kebab-case", "crlf\r\n", "lf\n", "tags", "types", "opaques", "statics", "cython3", "asc", "desc", "yes", "true", "bench", "test", "dev", "vert", "qualified_snake_case", "SCREAMING-KEBAB-CASE", "GECKO_CASE", "gecko-case", "mgeckocase"] {
        words.push(x.to_string());
    }
    words.sort();
    words.dedup();
    let n = words.len() * ks.len();
    ctx.par("words", n, |ctx, i, _| one(ctx, &ks[i / words.len()], &words[i % words.len()]));
    ctx.par("mutants", ctx.n(6000, 60000), |ctx, _, r| {
        let k = r.pick(&ks);
        let w = if r.chance(2, 3) {
            let (_, sp) = r.pick(k.values);
            r.pick(sp).to_string()
        } else {
            r.pick(&words).clone()
        };
        let s = mutate(r, &w);
        one(ctx, k, &s)
    });
    ctx.par("prefix", ctx.n(1000, 10000), |ctx, _, r| {
        let mut s = String::from("prefix:");
        for _ in 0..r.below(8) {
            s.push(*r.pick(&['a', 'B', '_', ':', ' ', '1', 'é', '漢', 'p', '"', '\\']));
        }
        let k = &ks[ks.len() - 1 - r.below(4)];
        one(ctx, k, &s)
    });
}
