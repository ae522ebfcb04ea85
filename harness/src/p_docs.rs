//! C23: documentation becomes comments, completely, next to its item, and changes no code.
use crate::util::*;
use std::fmt::Write;

/// one documented entity: its name in the header contains `it<k>z`
struct Doc {
    k: usize,
    lines: Vec<String>,
}
struct GenD {
    n: usize,
    /// enums: Cython shows the variants before the name
    enums: Vec<usize>,
    /// flags: the constant and its type
    flags: Vec<(usize, usize)>,
    w: usize,
    docs: Vec<Doc>,
}
const BITS: &[&str] = &[
    "*/", "/*", "//", "/", "*", "\\", " \\", "\\ ", "\\\\", "\"", "'", "#", "é", "int x;", "*//", "**/", "\t", "@param", "{", "}", "#endif", "\\n", "%s", "\\t  ", "<b>", "`", "cbindgen:x", " see cbindgen:y=1", "??", "\\'", "\u{2028}", "\u{b}", "\u{c}",
];

fn lit(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn blank(s: &str) -> bool {
    s.trim().is_empty()
}
impl GenD {
    fn line(&mut self, r: &mut Rng) -> String {
        if r.chance(1, 8) {
            return ["", " ", "   "][r.below(3)].to_string();
        }
        self.w += 1;
        let mut s = String::new();
        let b = *r.pick(BITS);
        if r.chance(1, 3) && !b.trim_start().starts_with("cbindgen:") {
            s.push_str(b);
        } else {
            s.push_str(["", " ", "  "][r.below(3)]);
        }
        let _ = write!(s, "w{}w", self.w);
        for _ in 0..r.below(3) {
            if r.chance(1, 2) {
                s.push(' ');
            }
            s.push_str(r.pick(BITS));
        }
        if r.chance(1, 12) {
            for _ in 0..40 {
                s.push_str(" long");
            }
        }
        s
    }
    /// documentation attributes for a new entity
    fn docs(&mut self, r: &mut Rng) -> (usize, String) {
        self.n += 1;
        let k = self.n;
        let mut src = String::new();
        let mut lines: Vec<String> = vec![];
        if r.chance(1, 6) {
            return (k, src);
        }
        let long = r.chance(1, 60);
        for _ in 0..if long { 20 + r.below(60) } else { 1 + r.below(3) } {
            match r.below(6) {
                0 => {
                    // an annotation is not documentation
                    let a = ["cbindgen:foo", " cbindgen:foo-bar=1", "  cbindgen:derive-nothing=true"][r.below(3)];
                    let _ = writeln!(src, "///{a}");
                }
                1 | 2 => {
                    let eol = ["\n", "\n", "\r\n", "\r"][r.below(4)];
                    let m = 2 + r.below(3);
                    let ls: Vec<String> = (0..m).map(|_| self.line(r)).collect();
                    let _ = writeln!(src, "#[doc = {}]", lit(&ls.join(eol)));
                    let mut ls: Vec<String> = ls;
                    while ls.first().is_some_and(|x| blank(x)) {
                        ls.remove(0);
                    }
                    while ls.last().is_some_and(|x| blank(x)) {
                        ls.pop();
                    }
                    lines.extend(ls);
                }
                3 => {
                    let l = self.line(r);
                    let _ = writeln!(src, "#[doc = {}]", lit(&l));
                    lines.push(l);
                }
                _ => {
                    let mut l = self.line(r);
                    if l.starts_with('/') {
                        l.insert(0, ' ');
                    }
                    let _ = writeln!(src, "///{l}");
                    lines.push(l);
                }
            }
        }
        if r.chance(1, 6) {
            src.push_str("#[doc(hidden)]\n");
        }
        self.docs.push(Doc { k, lines });
        (k, src)
    }
    fn item(&mut self, r: &mut Rng, fns: &mut String, out: &mut String) {
        let (k, d) = self.docs(r);
        let t = ["u8", "i32", "*const u8", "[u8; 3]", "extern \"C\" fn(a: u8) -> u8"];
        match r.below(16) {
            0 | 1 => {
                let _ = writeln!(out, "{d}#[repr(C)] pub struct it{k}z {{");
                for _ in 0..1 + r.below(3) {
                    let (f, fd) = self.docs(r);
                    let _ = writeln!(out, "{fd}pub it{f}z: {},", r.pick(&t));
                }
                out.push_str("}\n");
                let _ = writeln!(fns, "#[no_mangle] pub extern \"C\" fn use{k}(a: *const it{k}z) {{}}");
            }
            2 => {
                let _ = writeln!(out, "{d}#[repr(C)] pub union it{k}z {{");
                for _ in 0..1 + r.below(3) {
                    let (f, fd) = self.docs(r);
                    let _ = writeln!(out, "{fd}pub it{f}z: {},", r.pick(&t));
                }
                out.push_str("}\n");
                let _ = writeln!(fns, "#[no_mangle] pub extern \"C\" fn use{k}(a: *const it{k}z) {{}}");
            }
            3 | 4 => {
                self.enums.push(k);
                let _ = writeln!(out, "{d}{} pub enum it{k}z {{", ["#[repr(C)]", "#[repr(u8)]", "#[repr(i32)]"][r.below(3)]);
                for _ in 0..1 + r.below(3) {
                    let (f, fd) = self.docs(r);
                    let _ = writeln!(out, "{fd}it{f}z,");
                }
                out.push_str("}\n");
                let _ = writeln!(fns, "#[no_mangle] pub extern \"C\" fn use{k}(a: *const it{k}z) {{}}");
            }
            5 | 6 => {
                self.enums.push(k);
                let _ = writeln!(out, "{d}{} pub enum it{k}z {{", ["#[repr(C)]", "#[repr(u8)]", "#[repr(C, u8)]"][r.below(3)]);
                for i in 0..1 + r.below(3) {
                    let (f, fd) = self.docs(r);
                    match r.below(3) {
                        _ if i == 0 => {
                            let _ = writeln!(out, "{fd}it{f}z(u8, {}),", r.pick(&t));
                        }
                        0 => {
                            let _ = writeln!(out, "{fd}it{f}z,");
                        }
                        1 => {
                            let _ = writeln!(out, "{fd}it{f}z({}),", r.pick(&t));
                        }
                        _ => {
                            let (g, gd) = self.docs(r);
                            let (h, hd) = self.docs(r);
                            let _ = writeln!(out, "{fd}it{f}z {{ {gd} it{g}z: {},\n{hd} it{h}z: u8 }},", r.pick(&t));
                        }
                    }
                }
                out.push_str("}\n");
                let _ = writeln!(fns, "#[no_mangle] pub extern \"C\" fn use{k}(a: *const it{k}z) {{}}");
            }
            7 => {
                let _ = writeln!(out, "{d}pub struct it{k}z {{ x: Vec<u8> }}");
                let _ = writeln!(fns, "#[no_mangle] pub extern \"C\" fn use{k}(a: *const it{k}z) {{}}");
            }
            8 => {
                let _ = writeln!(out, "{d}pub type it{k}z = {};", r.pick(&t));
                let _ = writeln!(fns, "#[no_mangle] pub extern \"C\" fn use{k}(a: *const it{k}z) {{}}");
            }
            9 => {
                let _ = writeln!(out, "{d}pub const it{k}z: u32 = {k};");
            }
            10 => {
                let _ = writeln!(out, "{d}#[no_mangle] pub static it{k}z: u8 = 1;");
            }
            11 => {
                let _ = writeln!(out, "{d}#[repr(transparent)] pub struct it{k}z({});", r.pick(&t));
                let _ = writeln!(fns, "#[no_mangle] pub extern \"C\" fn use{k}(a: *const it{k}z) {{}}");
            }
            12 => {
                let (f, fd) = self.docs(r);
                let _ = writeln!(out, "{d}#[repr(C)] pub struct it{k}z<T> {{ {fd}it{f}z: T }}");
                let _ = writeln!(fns, "#[no_mangle] pub extern \"C\" fn use{k}(a: *const it{k}z<u8>) {{}}");
            }
            13 => {
                let (f, fd) = self.docs(r);
                let _ = writeln!(out, "{d}#[repr(C)] pub struct it{k}z(u8, u8);\nimpl it{k}z {{ {fd}pub const it{f}z: u32 = 7; }}");
                let _ = writeln!(fns, "#[no_mangle] pub extern \"C\" fn use{k}(a: *const it{k}z) {{}}");
            }
            14 => {
                let (f, fd) = self.docs(r);
                let (e, ed) = self.docs(r);
                self.flags.push((f, k));
                self.flags.push((e, k));
                let _ = writeln!(out, "bitflags! {{ {d}#[repr(C)] pub struct it{k}z: u8 {{ {fd}const it{f}z = 1;\n{ed}const it{e}z = 2; }} }}");
                let _ = writeln!(fns, "#[no_mangle] pub extern \"C\" fn use{k}(a: *const it{k}z) {{}}");
            }
            _ => match r.below(3) {
                0 => {
                    let _ = writeln!(out, "extern \"C\" {{ {d}pub fn it{k}z(a: u8); }}");
                }
                1 => {
                    let _ = writeln!(out, "impl Ty{k} {{ {d}#[no_mangle] pub extern \"C\" fn it{k}z(a: u8) {{}} }}");
                }
                _ => {
                    let args = ["a: u8", "a: u8, b: extern \"C\" fn(u8)", ""][r.below(3)];
                    let must = if r.chance(1, 4) { "#[must_use] " } else { "" };
                    let _ = writeln!(out, "{d}#[no_mangle] {must}pub extern \"C\" fn it{k}z({args}) -> u8 {{}}");
                }
            },
        }
    }
}

/// Code of a header with its comments removed, as a compiler sees it. Blanks are dropped except
/// between two identifier characters.
pub fn strip(h: &str, cython: bool) -> Result<String, String> {
    let mut s: Vec<char> = h.chars().collect();
    if !cython {
        // backslash, blanks, end of line: the line continues (GCC and Clang accept the blanks)
        let mut o = vec![];
        let mut i = 0;
        while i < s.len() {
            if s[i] == '\\' {
                let mut j = i + 1;
                while j < s.len() && matches!(s[j], ' ' | '\t' | '\u{b}' | '\u{c}') {
                    j += 1;
                }
                if j < s.len() && (s[j] == '\n' || s[j] == '\r') {
                    i = j + 1;
                    continue;
                }
            }
            o.push(s[i]);
            i += 1;
        }
        s = o;
    }
    let mut o = String::new();
    let mut i = 0;
    let eol = |c: char| c == '\n' || c == '\r';
    while i < s.len() {
        let c = s[i];
        let n = s.get(i + 1).copied().unwrap_or(' ');
        if cython && c == '#' || !cython && c == '/' && n == '/' {
            while i < s.len() && !eol(s[i]) {
                i += 1;
            }
            o.push(' ');
        } else if !cython && c == '/' && n == '*' {
            let mut j = i + 2;
            while j + 1 < s.len() && !(s[j] == '*' && s[j + 1] == '/') {
                j += 1;
            }
            if j + 1 >= s.len() {
                return Err("unterminated comment".into());
            }
            i = j + 2;
            o.push(' ');
        } else if c == '"' || c == '\'' {
            o.push(c);
            i += 1;
            while i < s.len() && s[i] != c {
                if eol(s[i]) {
                    return Err("unterminated literal".into());
                }
                if s[i] == '\\' {
                    o.push(s[i]);
                    i += 1;
                }
                if i < s.len() {
                    o.push(s[i]);
                }
                i += 1;
            }
            o.push(c);
            i += 1;
        } else {
            o.push(c);
            i += 1;
        }
    }
    let mut out = String::new();
    for w in o.split_whitespace() {
        let a = out.chars().last().is_some_and(|c| c.is_alphanumeric() || c == '_');
        let b = w.chars().next().is_some_and(|c| c.is_alphanumeric() || c == '_');
        if a && b {
            out.push(' ');
        }
        out.push_str(w);
    }
    Ok(out)
}
fn squash(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
/// modulo blanks and backslashes at the end
fn norm(s: &str) -> String {
    squash(s).trim_end_matches('\\').to_string()
}
/// the first name `it<k>z` of a text, in whatever case; of `it1z_it2z` (an associated constant,
/// a variant with its enum's name) the second
fn first_name(s: &str) -> Option<usize> {
    let s: String = s.chars().filter(|c| *c != '_').collect::<String>().to_lowercase();
    for (i, _) in s.match_indices("it") {
        let d: String = s[i + 2..].chars().take_while(|c| c.is_ascii_digit()).collect();
        let rest = &s[i + 2 + d.len()..];
        if !d.is_empty() && rest.starts_with('z') {
            if rest[1..].strip_prefix("it").is_some_and(|x| x.starts_with(|c: char| c.is_ascii_digit())) {
                continue;
            }
            return d.parse().ok();
        }
    }
    None
}

fn one(ctx: &Ctx, _i: usize, r: &mut Rng) -> Result<(), Fail> {
    let mut g = GenD { n: 0, enums: vec![], flags: vec![], w: 0, docs: vec![] };
    let mut src = String::new();
    let mut fns = String::new();
    for _ in 0..1 + r.below(4) {
        g.item(r, &mut fns, &mut src);
    }
    src.push_str(&fns);
    let lang = ["C", "C++", "Cython"][r.below(3)];
    let style = ["c", "c99", "c++", "doxy", "auto", "cxx"][r.below(6)];
    let on = r.chance(9, 10);
    let short = r.chance(1, 4);
    let mut toml = format!("language = \"{lang}\"\nno_includes = true\n");
    if lang == "C" {
        let _ = writeln!(toml, "style = \"{}\"\ncpp_compat = {}", ["both", "tag"][r.below(2)], r.chance(1, 3));
    }
    if r.chance(1, 3) {
        let _ = writeln!(toml, "braces = \"{}\"\ntab_width = {}", ["NextLine", "SameLine"][r.below(2)], r.below(5));
    }
    let rules = ["CamelCase", "PascalCase", "ScreamingSnakeCase", "SnakeCase", "GeckoCase", "QualifiedScreamingSnakeCase", "None"];
    if r.chance(1, 3) {
        let _ = writeln!(toml, "[struct]\nrename_fields = \"{}\"", rules[r.below(5)]);
    }
    if r.chance(1, 3) {
        let _ = writeln!(toml, "[enum]\nrename_variants = \"{}\"\nprefix_with_name = {}", r.pick(&rules), r.chance(1, 3));
    }
    toml.push_str("[macro_expansion]\nbitflags = true\n");
    let plain = format!("documentation = false\n{toml}");
    let toml = format!("documentation = {on}\ndocumentation_style = \"{style}\"\ndocumentation_length = \"{}\"\n{toml}", if short { "short" } else { "full" });
    let inp = Input { src: src.clone(), toml };
    let h = header(ctx, &inp)?;
    let h0 = header(ctx, &Input { src, toml: plain })?;
    let cy = lang == "Cython";
    let a = strip(&h, cy).map_err(|e| fail(&inp, &h, format!("the header with documentation: {e}")))?;
    let b = strip(&h0, cy).map_err(|e| fail(&inp, &h0, format!("the header without documentation: {e}")))?;
    if a != b {
        return Err(fail(&inp, &h, format!("documentation changes the code. With it:\n{a}\nwithout:\n{b}")));
    }
    let hl: Vec<&str> = h.split(['\n', '\r']).collect();
    let hn: Vec<String> = hl.iter().map(|l| norm(l)).collect();
    let pre: &[&str] = if cy { &["#"] } else { &["", "*", "//", "///"] };
    for d in &g.docs {
        let want: Vec<String> = if !on { vec![] } else if short { d.lines.iter().take(1).map(|l| norm(l)).collect() } else { d.lines.iter().map(|l| norm(l)).collect() };
        // no line beyond those wanted
        for l in &d.lines[want.len()..] {
            if let Some(p) = l.find('w') {
                let word: String = l[p..].chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
                if word.len() > 2 && h.contains(&word) {
                    return Err(fail(&inp, &h, format!("documentation that is switched off or beyond the first line appears: {l:?}")));
                }
            }
        }
        if want.is_empty() || want.iter().all(|l| l.is_empty()) {
            continue;
        }
        ctx.interesting();
        let mut ok = false;
        for s in 0..hn.len().saturating_sub(want.len() - 1) {
            if pre.iter().any(|p| want.iter().enumerate().all(|(j, l)| hn[s + j].strip_prefix(p).is_some_and(|x| x == l))) {
                let rest = hl[s + want.len()..].join("\n");
                let rest = rest.trim_start().strip_prefix("*/").map(|x| x.to_string()).unwrap_or(rest);
                let rest = match g.flags.iter().find(|x| x.0 == d.k) {
                    // the declaration of a flag names its type first
                    Some((_, t)) => rest.replacen(&format!("it{t}z it{t}z_"), &format!("it{t}z_"), 1),
                    None => rest,
                };
                let k = if cy && g.enums.contains(&d.k) && rest.trim_start().starts_with("cdef enum:") { d.k + 1 } else { d.k };
                if first_name(&strip(&rest, cy).unwrap_or_default()) == Some(k) && first_name(&rest) == Some(k) {
                    ok = true;
                    break;
                }
            }
        }
        if !ok {
            return Err(fail(&inp, &h, format!("the documentation of it{}z is not in a comment in front of it: {:?}", d.k, want)));
        }
    }
    Ok(())
}

pub fn c23(ctx: &Ctx) {
    let n = ctx.n(12000, 200000);
    ctx.bound(format!("{n} random documented sources (structs, unions, enums, tagged enums, their fields and variants, opaque types, typedefs, constants, statics, functions, extern blocks, methods), documentation with comment markers, backslashes, carriage returns and directives in it, all languages, styles and lengths: the header without comments is that of documentation = false, and each documentation stands completely in a comment right before its item"));
    ctx.par("docs", n, one);
}
