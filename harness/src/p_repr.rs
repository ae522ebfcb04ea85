//! C14: representation attributes.
use crate::cparse::lex;
use crate::util::*;

#[derive(Clone, Debug)]
struct Want {
    style: Option<&'static str>,
    int: Option<String>,
    align: Option<Option<u64>>, // Some(None): packed, Some(Some(n)): align(n)
    /// a spelling that may either be refused or honoured
    lenient: bool,
}

const INTS: &[(&str, &str)] = &[
    ("u8", "uint8_t"),
    ("u16", "uint16_t"),
    ("u32", "uint32_t"),
    ("u64", "uint64_t"),
    ("usize", "uintptr_t"),
    ("i8", "int8_t"),
    ("i16", "int16_t"),
    ("i32", "int32_t"),
    ("i64", "int64_t"),
    ("isize", "intptr_t"),
];

/// What a list of repr arguments states; None: to be refused.
fn fold(atoms: &[String]) -> Option<Want> {
    let mut w = Want { style: None, int: None, align: None, lenient: false };
    for a in atoms {
        if let Some((_, c)) = INTS.iter().find(|x| x.0 == a) {
            if w.int.is_some() {
                return None;
            }
            w.int = Some(c.to_string());
        } else if a == "C" {
            w.style = Some("C");
        } else if a == "transparent" {
            w.style = Some("transparent");
        } else if a == "packed" || a == "packed()" {
            if w.align.is_some() {
                return None;
            }
            w.align = Some(None);
        } else if let Some(n) = a.strip_prefix("align(").and_then(|x| x.strip_suffix(')')) {
            let plain = n.parse::<u64>().ok().filter(|_| n.bytes().all(|b| b.is_ascii_digit()));
            let v = match plain {
                Some(v) => v,
                None => match n {
                    "0x10" => 16,
                    "1_6" => 16,
                    "0b1000" => 8,
                    "8usize" => 8,
                    _ => return None,
                },
            };
            if v == 0 || v & (v - 1) != 0 {
                return None;
            }
            if plain.is_none() {
                w.lenient = true;
            }
            if w.align.is_some() {
                return None;
            }
            w.align = Some(Some(v));
        } else {
            return None;
        }
    }
    Some(w)
}

fn atoms(rng: &mut Rng, kind: usize) -> Vec<String> {
    let mut v = vec![];
    let en = kind == 2 || kind == 3;
    match rng.below(12) {
        0 => {}
        1 | 2 if kind == 0 || kind == 4 => {
            v.push("transparent".to_string());
            return v;
        }
        _ => v.push("C".to_string()),
    }
    if en && rng.chance(1, 3) {
        v.clear();
    }
    if en {
        for _ in 0..[0, 1, 1, 1, 1, 2][rng.below(6)] {
            v.push(rng.pick(INTS).0.to_string());
        }
    }
    let k = [0, 1, 1, 1, 2][rng.below(5)];
    for _ in 0..(if en && !rng.chance(1, 6) { 0 } else { k }) {
        let a = match rng.below(10) {
            0..=2 => "packed".to_string(),
            3..=5 => format!("align({})", 1u64 << rng.below(30)),
            6 => rng.pick(&["align(0)", "align(3)", "align(12)", "align(6)", "align(18446744073709551616)", "align(24)", "align(100)", "align(9223372036854775809)"]).to_string(),
            7 => rng.pick(&["packed(1)", "packed(2)", "packed(4)", "packed(8)", "packed(16)"]).to_string(),
            8 => rng.pick(&["align(0x10)", "align(1_6)", "align(0b1000)", "align(8usize)"]).to_string(),
            _ => rng.pick(&["simd", "Rust", "u128", "i128", "f32", "c", "Packed", "aligned(8)", "U8", "int", "align(8, 8)", "packed()", "aligned", "size"]).to_string(),
        };
        v.push(a);
    }
    rng.shuffle(&mut v);
    v
}

fn attrs(rng: &mut Rng, v: &[String]) -> String {
    if v.is_empty() {
        return String::new();
    }
    let cut = if v.len() > 1 && rng.chance(1, 3) { 1 + rng.below(v.len() - 1) } else { v.len() };
    let mut s = format!("#[repr({})]", v[..cut].join(", "));
    if cut < v.len() {
        if rng.chance(1, 2) {
            s.push_str(" #[allow(dead_code)]");
        }
        s.push_str(&format!(" #[repr({})]", v[cut..].join(", ")));
    }
    s
}

struct It {
    kind: usize,
    name: String,
    /// name in the header
    out: String,
    atoms: Vec<String>,
    empty: bool,
}

#[derive(Debug, PartialEq)]
enum Seen {
    Missing,
    Opaque,
    Alias(String),
    Def { kw: String, anno: String },
}

fn toks(h: &str) -> Vec<String> {
    let clean: String = h.lines().filter(|l| !l.trim_start().starts_with('#')).collect::<Vec<_>>().join("\n");
    lex(&clean).map(|v| v.iter().map(|t| t.text().to_string()).collect()).unwrap_or_default()
}

fn seen(t: &[String], name: &str) -> Seen {
    let mut opaque = false;
    let mut alias = None;
    for i in 0..t.len() {
        let kw = t[i].as_str();
        if kw == "struct" || kw == "union" {
            let mut j = i + 1;
            while j < t.len() && j < i + 12 && t[j] != "{" && t[j] != ";" {
                j += 1;
            }
            if j >= t.len() {
                continue;
            }
            if t[j] == ";" {
                let b = &t[i + 1..j];
                if b.len() == 1 && b[0] == name || b.len() == 2 && b[0] == name && b[1] == name {
                    opaque = true;
                }
            } else if t[j] == "{" {
                let mut d = 0;
                let mut k = j;
                while k < t.len() {
                    if t[k] == "{" {
                        d += 1
                    } else if t[k] == "}" {
                        d -= 1;
                        if d == 0 {
                            break;
                        }
                    }
                    k += 1;
                }
                let b = &t[i + 1..j];
                if b.last().map(|x| x == name).unwrap_or(false) {
                    return Seen::Def { kw: kw.into(), anno: b[..b.len() - 1].concat() };
                }
                if k + 1 < t.len() && t[k + 1] == name {
                    return Seen::Def { kw: kw.into(), anno: b.concat() };
                }
            }
        }
        if kw == "typedef" && i + 3 < t.len() && t[i + 2] == name && t[i + 3] == ";" {
            alias = Some(t[i + 1].clone());
        }
        if kw == "using" && i + 4 < t.len() && t[i + 1] == name && t[i + 2] == "=" && t[i + 4] == ";" {
            alias = Some(t[i + 3].clone());
        }
    }
    if let Some(a) = alias {
        return Seen::Alias(a);
    }
    if opaque {
        Seen::Opaque
    } else {
        Seen::Missing
    }
}

/// (is there an enum of that name with a body, its base type)
fn enum_seen(t: &[String], name: &str) -> Option<Option<String>> {
    for i in 0..t.len() {
        if t[i] != "enum" {
            continue;
        }
        let mut j = i + 1;
        if t.get(j).map(|x| x == "class").unwrap_or(false) {
            j += 1;
        }
        if t.get(j).map(|x| x == name).unwrap_or(false) {
            match t.get(j + 1).map(|x| x.as_str()) {
                Some("{") => return Some(None),
                Some(":") => return Some(Some(t[j + 2].clone())),
                _ => {}
            }
        }
        // typedef enum { .. } NAME;
        if t.get(j).map(|x| x == "{").unwrap_or(false) {
            let mut k = j;
            while k < t.len() && t[k] != "}" {
                k += 1;
            }
            if t.get(k + 1).map(|x| x == name).unwrap_or(false) {
                return Some(None);
            }
        }
    }
    None
}

fn cython_line<'a>(h: &'a str, name: &str) -> Vec<&'a str> {
    h.lines()
        .map(|l| l.trim())
        .filter(|l| l.ends_with(&format!(" {name}:")) || l.ends_with(&format!(" {name};")) && l.starts_with("ctypedef"))
        .collect()
}

pub fn c14(ctx: &Ctx) {
    let n = ctx.n(3000, 60000);
    ctx.bound(format!("{n} random files of up to 6 items (structs, unions, enums, data enums, generic structs and unions instantiated once), each with up to 4 repr arguments in up to 2 attributes (integer types, C, transparent, packed, packed(N), align(N) valid and invalid, unknown words), layout.packed and layout.aligned_n set or not, C/C++/Cython, three styles"));
    ctx.par("repr", n, |ctx, _i, rng| {
        let lang = *rng.pick(&["C", "C", "C++", "C++", "Cython"]);
        let packed = rng.chance(2, 3);
        let aligned = rng.chance(2, 3);
        let style = *rng.pick(&["both", "both", "tag", "type"]);
        let mut toml = format!("language = {:?}\nstyle = {:?}\n", lang, style);
        if packed || aligned {
            toml.push_str("[layout]\n");
            if packed {
                toml.push_str("packed = \"PACKED\"\n");
            }
            if aligned {
                toml.push_str("aligned_n = \"ALIGNED\"\n");
            }
        }
        let mut its = vec![];
        let mut src = String::new();
        let mut args = vec![];
        for k in 0..1 + rng.below(6) {
            let kind = rng.below(6);
            let a = atoms(rng, kind);
            let name = format!("It{k}");
            let at = attrs(rng, &a);
            let empty = kind == 0 && a.iter().any(|x| x == "transparent") && rng.chance(1, 3);
            let mut out = name.clone();
            match kind {
                0 if a.iter().any(|x| x == "transparent") => src.push_str(&format!(
                    "{at} pub struct {name} {}\n",
                    if empty { "{ }" } else { "{ a: u16 }" }
                )),
                0 => src.push_str(&format!("{at} pub struct {name} {{ a: u8, b: u32 }}\n")),
                1 => src.push_str(&format!("{at} pub union {name} {{ a: u8, b: u32 }}\n")),
                2 => src.push_str(&format!("{at} pub enum {name} {{ A{k}, B{k} }}\n")),
                3 => src.push_str(&format!("{at} pub enum {name} {{ A{k}(u8), B{k} }}\n")),
                4 => {
                    src.push_str(&format!("{at} pub struct {name}<T> {{ a: T{} }}\n", if a.iter().any(|x| x == "transparent") { "" } else { ", b: u8" }));
                    if lang != "C++" {
                        out = format!("{name}_u16");
                    }
                }
                _ => {
                    src.push_str(&format!("{at} pub union {name}<T> {{ a: T, b: u8 }}\n"));
                    if lang != "C++" {
                        out = format!("{name}_u16");
                    }
                }
            }
            args.push(format!("a{k}: *const {name}{}", if kind >= 4 { "<u16>" } else { "" }));
            its.push(It { kind, name, out, atoms: a, empty });
        }
        src.push_str(&format!("#[no_mangle] pub extern \"C\" fn f({}) {{}}\n", args.join(", ")));
        let inp = Input { src, toml };
        let h = header(ctx, &inp)?;
        let t = toks(&h);
        for it in &its {
            let bad = |w: String| fail(&inp, &h, format!("{} with repr({}): {w}", it.name, it.atoms.join(", ")));
            let en = it.kind == 2 || it.kind == 3;
            let w = fold(&it.atoms).filter(|w| {
                if en {
                    (w.style == Some("C") || w.int.is_some()) && w.align.is_none()
                } else {
                    let st = if it.kind == 1 || it.kind == 5 { w.style == Some("C") } else { w.style.is_some() };
                    st && match w.align {
                        None => true,
                        Some(None) => packed,
                        Some(Some(_)) => aligned,
                    }
                }
            });
            if it.atoms.len() > 1 {
                ctx.interesting();
            }
            if lang == "Cython" {
                let ls = cython_line(&h, &it.out);
                let txt = ls.join(" | ");
                // bodies are distinguished by their first line
                let body = |kw: &str| {
                    let mut on = false;
                    for l in h.lines() {
                        if on {
                            return l.trim() != "pass";
                        }
                        if l.trim().ends_with(&format!("{kw} {}:", it.out)) {
                            on = true;
                        }
                    }
                    false
                };
                match &w {
                    None => {
                        if body("struct") || body("union") || body("enum") || ls.iter().any(|l| l.ends_with(';')) {
                            return Err(bad(format!("must be refused but has a definition: {txt}")));
                        }
                    }
                    Some(w) if w.lenient => {}
                    Some(w) if it.kind == 3 => {
                        let kw = if w.style == Some("C") { "struct" } else { "union" };
                        if !body(kw) {
                            return Err(bad(format!("no {kw} defined: {txt}")));
                        }
                        if let Some(i) = &w.int {
                            if !h.contains(&format!("ctypedef {i} {}_Tag;", it.out)) {
                                return Err(bad(format!("the tag is not {i}")));
                            }
                        }
                    }
                    Some(w) if it.kind == 2 => {
                        let ok = match &w.int {
                            Some(i) => h.contains(&format!("ctypedef {i} {};", it.out)),
                            None => body("enum"),
                        };
                        if !ok {
                            return Err(bad(format!("expected an enum of {:?}: {txt}", w.int)));
                        }
                    }
                    Some(w) => {
                        let transparent = w.style == Some("transparent") && !it.empty;
                        if transparent {
                            if !h.contains(&format!("ctypedef uint16_t {};", it.out)) {
                                return Err(bad(format!("expected an alias of uint16_t: {txt}")));
                            }
                        } else {
                            let kw = if it.kind == 1 || it.kind == 5 { "union" } else { "struct" };
                            if !it.empty && !body(kw) {
                                return Err(bad(format!("no {kw} defined: {txt}")));
                            }
                            let p = ls.iter().any(|l| l.contains("packed"));
                            // packed unions need no keyword for the fields to be read
                            if kw == "struct" && p != (w.align == Some(None)) {
                                return Err(bad(format!("packed is wrong: {txt}")));
                            }
                        }
                    }
                }
                continue;
            }
            let s = seen(&t, &it.out);
            match &w {
                None => {
                    let e = enum_seen(&t, &it.out);
                    // refused generic items are opaque; their instantiations keep the generic name in C++
                    if matches!(s, Seen::Def { .. } | Seen::Alias(_)) || e.is_some() {
                        return Err(bad(format!("must be refused but is emitted as {s:?} {e:?}")));
                    }
                }
                Some(w) if en => {
                    let c_like_data = it.kind == 3;
                    if c_like_data {
                        let kw = if w.style == Some("C") { "struct" } else { "union" };
                        match &s {
                            Seen::Def { kw: k, anno } if k == kw && anno.is_empty() => {}
                            _ => return Err(bad(format!("expected {kw} without annotation, got {s:?}"))),
                        }
                    }
                    if lang == "C++" {
                        let e = if c_like_data {
                            // the tag enum is nested
                            let mut r = None;
                            for i in 0..t.len() {
                                if (t[i] == "struct" || t[i] == "union") && t.get(i + 1) == Some(&it.out) && t.get(i + 2).map(|x| x == "{").unwrap_or(false) {
                                    r = enum_seen(&t[i..], "Tag");
                                }
                            }
                            r
                        } else {
                            enum_seen(&t, &it.out)
                        };
                        if e != Some(w.int.clone()) {
                            return Err(bad(format!("expected an enum of {:?}, got {e:?}", w.int)));
                        }
                    } else {
                        let en_name = if c_like_data { format!("{}_Tag", it.out) } else { it.out.clone() };
                        match &w.int {
                            Some(i) => {
                                let a = seen(&t, &en_name);
                                if style != "tag" && a != Seen::Alias(i.clone()) && !(a == Seen::Opaque) {
                                    return Err(bad(format!("expected typedef {i}, got {a:?}")));
                                }
                                let e = enum_seen(&t, &en_name);
                                if let Some(Some(b)) = &e {
                                    if b != i {
                                        return Err(bad(format!("expected base type {i}, got {b}")));
                                    }
                                }
                                // the typedef decides the size before C23
                                if a != Seen::Alias(i.clone()) {
                                    return Err(bad(format!("no typedef {i} {en_name}: {a:?} {e:?}")));
                                }
                            }
                            None => {
                                if enum_seen(&t, &en_name) != Some(None) {
                                    return Err(bad(format!("expected a plain enum, got {:?}", enum_seen(&t, &en_name))));
                                }
                            }
                        }
                    }
                }
                Some(w) => {
                    if w.lenient && s == Seen::Opaque {
                        continue;
                    }
                    if w.lenient && it.kind >= 4 && s == Seen::Missing {
                        continue;
                    }
                    let transparent = w.style == Some("transparent") && !it.empty;
                    if transparent {
                        let to = if it.kind == 4 && lang == "C++" { "T" } else { "uint16_t" };
                        if s != Seen::Alias(to.into()) {
                            return Err(bad(format!("expected an alias of {to}, got {s:?}")));
                        }
                        continue;
                    }
                    let kw = if it.kind == 1 || it.kind == 5 { "union" } else { "struct" };
                    let anno = match w.align {
                        None => String::new(),
                        Some(None) => "PACKED".into(),
                        Some(Some(n)) => format!("ALIGNED({n})"),
                    };
                    let want = Seen::Def { kw: kw.into(), anno };
                    if s != want {
                        return Err(bad(format!("expected {want:?}, got {s:?}")));
                    }
                }
            }
        }
        Ok(())
    });
}
