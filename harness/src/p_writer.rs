//! C13: the text of a header under every indentation, brace, line ending and layout setting.
use crate::util::*;
use std::fmt::Write;

struct W<'a> {
    eol: &'a str,
    tab: usize,
    next_line: bool,
    cython: bool,
    lang: &'a str,
    style: &'a str,
    doc: &'a str,
    width: usize,
    layout: &'a str,
    base: usize,
}
/// a finished line or a raw text, without the line ending
type Lines = Vec<String>;

impl W<'_> {
    fn stop(&self, n: usize) -> usize {
        if self.tab == 0 {
            n
        } else {
            (n / self.tab + 1) * self.tab
        }
    }
    fn docs(&self, ind: usize, d: &[String], out: &mut Lines) {
        if d.is_empty() {
            return;
        }
        let p = " ".repeat(ind);
        if self.cython {
            out.extend(d.iter().map(|x| format!("{p}# {x}")));
            return;
        }
        let style = match (self.doc, self.lang) {
            ("auto", "C") => "doxy",
            ("auto", _) => "c++",
            (x, _) => x,
        };
        let (open, each, close) = match style {
            "c" => ("/*", "", " */"),
            "doxy" => ("/**", " *", " */"),
            "c99" => ("", "//", ""),
            _ => ("", "///", ""),
        };
        if !open.is_empty() {
            out.push(format!("{p}{open}"));
        }
        out.extend(d.iter().map(|x| format!("{p}{each} {x}")));
        if !close.is_empty() {
            out.push(format!("{p}{close}"));
        }
    }
    fn open(&self, head: String, out: &mut Lines) {
        if self.cython {
            out.push(head + ":");
        } else if self.next_line {
            let p = " ".repeat(self.base);
            out.push(head);
            out.push(format!("{p}{{"));
        } else {
            out.push(head + " {");
        }
    }
    fn text(&self, l: &Lines) -> String {
        l.join(self.eol)
    }
}

struct Decl {
    doc: Vec<String>,
    name: String,
    /// type and name; a function pointer has its own parameters
    fields: Vec<(String, String, Option<Vec<(String, String)>>, Vec<String>)>,
    ret: String,
    kind: u8,
    pre: Option<String>,
    post: Option<String>,
}

const TYS: &[(&str, &str)] = &[("u8", "uint8_t"), ("i32", "int32_t"), ("u64", "uint64_t"), ("f64", "double"), ("*mut u16", "uint16_t *"), ("*const i64", "const int64_t *")];
fn c_of(t: &str) -> &'static str {
    TYS.iter().find(|x| x.0 == t).unwrap().1
}
fn decl(t: &str, n: &str) -> String {
    let c = c_of(t);
    if c.ends_with('*') {
        format!("{c}{n}")
    } else {
        format!("{c} {n}")
    }
}
fn word(rng: &mut Rng, max: usize) -> String {
    let n = 1 + rng.below(max);
    (0..n).map(|_| *rng.pick(&['a', 'b', 'c', 'd', 'e', 'x', 'y'])).collect()
}

fn one(ctx: &Ctx, _: usize, rng: &mut Rng) -> Result<(), Fail> {
    let lang = *rng.pick(&["C", "C++", "Cython"]);
    let eolname = *rng.pick(&["LF", "CRLF", "CR"]);
    let w = W {
        eol: match eolname {
            "LF" => "\n",
            "CR" => "\r",
            _ => "\r\n",
        },
        tab: *rng.pick(&[0, 1, 2, 2, 3, 4, 8]),
        next_line: rng.chance(1, 2),
        cython: lang == "Cython",
        lang,
        style: *rng.pick(&["both", "tag", "type"]),
        doc: *rng.pick(&["auto", "c", "c99", "doxy", "c++"]),
        width: *rng.pick(&[0, 10, 20, 30, 40, 50, 60, 80, 100]),
        layout: *rng.pick(&["auto", "auto", "horizontal", "vertical"]),
        base: 0,
    };
    let w = W { base: if w.cython { w.stop(0) } else { 0 }, ..w };
    let docs = |rng: &mut Rng| -> Vec<String> {
        if rng.chance(1, 2) {
            vec![]
        } else {
            (0..1 + rng.below(3)).map(|_| format!("{} {}", word(rng, 20), word(rng, 20))).collect()
        }
    };
    let raw = |rng: &mut Rng, mark: &str| -> String {
        let mut t = String::new();
        for i in 0..1 + rng.below(3) {
            if i > 0 {
                t += *rng.pick(&["\n", "\r\n"]);
            }
            t += *rng.pick(&["", " ", "      ", "\t"]);
            write!(t, "// {mark} {}", word(rng, 12)).unwrap();
        }
        t
    };
    let mut ds: Vec<Decl> = vec![];
    for k in 0..1 + rng.below(5) {
        let kind = rng.below(5) as u8; // struct, union, enum, fn, static
        let mut fields = vec![];
        let n = if kind == 3 { rng.below(6) } else { 1 + rng.below(4) };
        for i in 0..n {
            let t = rng.pick(TYS).0.to_string();
            let f = if kind <= 1 && rng.chance(1, 4) {
                Some((0..rng.below(4)).map(|j| (rng.pick(TYS).0.to_string(), format!("{}_{j}", word(rng, 12)))).collect())
            } else {
                None
            };
            let d = if kind <= 2 { docs(rng) } else { vec![] };
            fields.push((t, format!("{}_{i}", word(rng, 20)), f, d));
        }
        let pre = if kind <= 1 && rng.chance(1, 5) { Some(raw(rng, "pre")) } else { None };
        let post = if kind <= 1 && rng.chance(1, 5) { Some(raw(rng, "post")) } else { None };
        let ret = if rng.chance(1, 3) { String::new() } else { rng.pick(TYS).0.to_string() };
        ds.push(Decl { doc: docs(rng), name: format!("N{k}_{}", word(rng, 10)), fields, ret, kind, pre, post });
    }
    let (prefix, postfix) = (rng.chance(1, 4), rng.chance(1, 4));
    let namespaces: Vec<String> = if lang == "C++" && rng.chance(1, 2) { (0..1 + rng.below(3)).map(|i| format!("ns{i}")).collect() } else { vec![] };
    let header = if rng.chance(1, 3) { Some(raw(rng, "header")) } else { None };
    let trailer = if rng.chance(1, 3) { Some(raw(rng, "trailer")) } else { None };

    // ---- the input ----
    let mut src = String::new();
    let put_docs = |s: &mut String, d: &[String]| d.iter().for_each(|l| write!(s, "/// {l}\n").unwrap());
    let (mut pres, mut posts) = (String::new(), String::new());
    for d in &ds {
        put_docs(&mut src, &d.doc);
        let n = &d.name;
        match d.kind {
            0 | 1 => {
                write!(src, "#[repr(C)] pub {} {n} {{\n", if d.kind == 0 { "struct" } else { "union" }).unwrap();
                for (t, f, fp, doc) in &d.fields {
                    put_docs(&mut src, doc);
                    match fp {
                        None => write!(src, "  pub {f}: {t},\n").unwrap(),
                        Some(ps) => {
                            let a: Vec<String> = ps.iter().map(|(t, n)| format!("{n}: {t}")).collect();
                            write!(src, "  pub {f}: extern \"C\" fn({}) -> {t},\n", a.join(", ")).unwrap()
                        }
                    }
                }
                src += "}\n";
                write!(src, "#[no_mangle] pub static G_{n}: {n} = x;\n").unwrap();
                if let Some(p) = &d.pre {
                    write!(pres, "{n} = {p:?}\n").unwrap();
                }
                if let Some(p) = &d.post {
                    write!(posts, "{n} = {p:?}\n").unwrap();
                }
            }
            2 => {
                write!(src, "#[repr(C)] pub enum {n} {{\n").unwrap();
                for (_, f, _, doc) in &d.fields {
                    put_docs(&mut src, doc);
                    write!(src, "  {f},\n").unwrap();
                }
                src += "}\n";
                write!(src, "#[no_mangle] pub static G_{n}: {n} = x;\n").unwrap();
            }
            3 => {
                let a: Vec<String> = d.fields.iter().map(|(t, n, _, _)| format!("{n}: {t}")).collect();
                let r = if d.ret.is_empty() { String::new() } else { format!(" -> {}", d.ret) };
                write!(src, "#[no_mangle] pub extern \"C\" fn {n}({}){r} {{}}\n", a.join(", ")).unwrap();
            }
            _ => write!(src, "#[no_mangle] pub static {n}: {} = x;\n", d.fields[0].0).unwrap(),
        }
    }
    let mut toml = format!(
        "language = {lang:?}\nline_endings = {eolname:?}\ntab_width = {}\nbraces = {:?}\nstyle = {:?}\ndocumentation_style = {:?}\nline_length = {}\nno_includes = true\n",
        w.tab,
        if w.next_line { "NextLine" } else { "SameLine" },
        w.style,
        w.doc,
        w.width
    );
    if let Some(h) = &header {
        write!(toml, "header = {h:?}\n").unwrap();
    }
    if let Some(h) = &trailer {
        write!(toml, "trailer = {h:?}\n").unwrap();
    }
    if !namespaces.is_empty() {
        write!(toml, "namespaces = {namespaces:?}\n").unwrap();
    }
    write!(toml, "[export.pre_body]\n{pres}[export.body]\n{posts}[fn]\nargs = {:?}\nsort_by = \"None\"\n", w.layout).unwrap();
    if prefix {
        toml += "prefix = \"PREFIX\"\n";
    }
    if postfix {
        toml += "postfix = \"POSTFIX\"\n";
    }
    let inp = Input { src, toml };

    // ---- the expected blocks ----
    let ind = w.base;
    let p = " ".repeat(ind);
    let mut blocks: Vec<String> = vec![];
    if let Some(h) = &header {
        blocks.push(h.clone());
    }
    if w.cython {
        blocks.push("cdef extern from *:".into());
    }
    if !namespaces.is_empty() {
        blocks.push(w.text(&namespaces.iter().map(|n| format!("namespace {n} {{")).collect()));
        blocks.push(w.text(&namespaces.iter().rev().map(|n| format!("}}  // namespace {n}")).collect()));
    }
    let tag = |kw: &str, n: &str| -> (String, String) {
        match (lang, w.style) {
            ("Cython", "tag" | "both") => (format!("{p}cdef {kw} {n}"), String::new()),
            ("Cython", _) => (format!("{p}ctypedef {kw} {n}"), String::new()),
            ("C", "both") => (format!("{p}typedef {kw} {n}"), format!(" {n};")),
            ("C", "type") => (format!("{p}typedef {kw}"), format!(" {n};")),
            _ => (format!("{p}{kw} {n}"), ";".into()),
        }
    };
    let mut fns = vec![];
    for d in &ds {
        let mut l: Lines = vec![];
        w.docs(ind, &d.doc, &mut l);
        let n = &d.name;
        match d.kind {
            0..=2 => {
                let kw = ["struct", "union", "enum"][d.kind as usize];
                let (head, tail) = if d.kind == 2 && lang == "C++" { (format!("{p}enum class {n}"), ";".into()) } else { tag(kw, n) };
                w.open(head, &mut l);
                let inner = w.stop(ind);
                let q = " ".repeat(inner);
                if let Some(x) = &d.pre {
                    l.push(x.clone());
                }
                for (t, f, fp, doc) in &d.fields {
                    w.docs(inner, doc, &mut l);
                    if d.kind == 2 {
                        l.push(format!("{q}{f},"));
                        continue;
                    }
                    match fp {
                        None => l.push(format!("{q}{};", decl(t, f))),
                        Some(ps) => {
                            let mut head = format!("{q}{}(", decl(t, &format!("(*{f})")));
                            if ps.is_empty() && lang == "C" {
                                head += "void";
                            }
                            args(&w, head, ps, false, &mut l);
                            *l.last_mut().unwrap() += ";";
                        }
                    }
                }
                if let Some(x) = &d.post {
                    l.push(x.clone());
                }
                if !w.cython {
                    l.push(format!("{p}}}{tail}"));
                }
                let c_tag = if lang == "C" && w.style == "tag" { format!("{kw} ") } else { String::new() };
                blocks.push(w.text(&l));
                blocks.push(format!("{p}extern const {c_tag}{n} G_{n};"));
                if lang == "C" && w.style == "both" {
                    let i = blocks.len() - 1;
                    blocks[i] = format!("{p}extern const {kw} {n} G_{n};");
                }
                continue;
            }
            3 => {
                let head = if d.ret.is_empty() { format!("void {n}(") } else { format!("{}(", decl(&d.ret, n)) };
                let ps: Vec<(String, String)> = d.fields.iter().map(|(t, n, _, _)| (t.clone(), n.clone())).collect();
                let void = if ps.is_empty() && lang == "C" { "void" } else { "" };
                let flat: Vec<String> = ps.iter().map(|(t, n)| decl(t, n)).collect();
                let line = format!("{p}{}{head}{void}{}){};", if prefix { "PREFIX " } else { "" }, flat.join(", "), if postfix { " POSTFIX" } else { "" });
                let fits = l.iter().chain([&line]).all(|x| x.len() <= w.width);
                if w.layout == "horizontal" || w.layout == "auto" && fits {
                    l.push(line);
                } else {
                    if prefix {
                        l.push(format!("{p}PREFIX"));
                    }
                    args(&w, format!("{p}{head}{void}"), &ps, true, &mut l);
                    if postfix {
                        l.push(format!("{p}POSTFIX"));
                    }
                    *l.last_mut().unwrap() += ";";
                }
                fns.push(w.text(&l));
            }
            _ => {
                let t = &d.fields[0].0;
                let c = decl(t, n);
                let c = if c.contains('*') { c.replace(" *", " *const ") } else { format!("const {c}") };
                l.push(format!("{p}extern {c};"));
                blocks.push(w.text(&l));
            }
        }
    }
    if lang == "C++" {
        blocks.push("extern \"C\" {".into());
        blocks.push("}  // extern \"C\"".into());
    }
    if let Some(t) = &trailer {
        blocks.push(t.clone());
    }
    if w.layout == "auto" && fns.iter().any(|f| f.contains(w.eol)) && fns.iter().any(|f| !f.contains(w.eol)) {
        ctx.interesting();
    }
    // ---- compare ----
    let h = crate::util::header(ctx, &inp)?;
    // a destination that takes the text in pieces and is interrupted receives the same bytes
    if let Ok(b) = bindings(ctx, &inp) {
        let mut slow = Slow { out: vec![], rng: Rng::new(rng.next(), 7), left: rng.below(40) };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.write(&mut slow)));
        let got = String::from_utf8_lossy(&slow.out).into_owned();
        if let Err(p) = r {
            return Err(fail(&inp, &got, format!("writing in pieces panicked: {}", panic_text(&p))));
        }
        if got != h {
            return Err(fail(&inp, &h, format!("a destination that takes the text in pieces received {got:?}")));
        }
    }
    let mut rest = h.as_str();
    let mut fnext = 0;
    loop {
        while let Some(r) = rest.strip_prefix(w.eol) {
            rest = r;
        }
        if rest.is_empty() {
            break;
        }
        let ends = |b: &str| -> Option<usize> {
            let r = rest.strip_prefix(b)?;
            if r.is_empty() || r.strip_prefix(w.eol).is_some_and(|r| r.is_empty() || r.starts_with(w.eol)) {
                Some(b.len())
            } else {
                None
            }
        };
        if fnext < fns.len() {
            if let Some(n) = ends(&fns[fnext]) {
                fnext += 1;
                rest = &rest[n..];
                continue;
            }
        }
        // C++ prints the end of the extern block and of the namespaces without a blank line between
        match blocks.iter().position(|b| ends(b).is_some()) {
            Some(i) => {
                rest = &rest[blocks[i].len()..];
                blocks.remove(i);
            }
            None => {
                let want: Vec<&String> = fns[fnext..].iter().chain(&blocks).collect();
                return Err(fail(&inp, &h, format!("the text at {:?} is none of the expected ones: {want:?}", &rest[..rest.len().min(200)])));
            }
        }
    }
    if fnext < fns.len() || !blocks.is_empty() {
        return Err(fail(&inp, &h, format!("missing from the header: {:?} {:?}", &fns[fnext..], blocks)));
    }
    Ok(())
}

/// accepts a few bytes at a time and is interrupted now and then
struct Slow {
    out: Vec<u8>,
    rng: Rng,
    left: usize,
}
impl std::io::Write for Slow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.left > 0 && self.rng.chance(1, 3) {
            self.left -= 1;
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = b.len().min(1 + self.rng.below(9));
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// the parameters in the layout that applies; the last line ends with `)`
fn args(w: &W, head: String, ps: &[(String, String)], vertical: bool, l: &mut Lines) {
    let flat: Vec<String> = ps.iter().map(|(t, n)| decl(t, n)).collect();
    let line = format!("{head}{}", flat.join(", "));
    let vertical = vertical || w.layout == "vertical" || w.layout == "auto" && line.len() > w.width;
    if !vertical || flat.len() < 2 {
        l.push(line + ")");
        return;
    }
    let col = " ".repeat(head.len());
    let k = flat.len();
    for (i, a) in flat.iter().enumerate() {
        let lead = if i == 0 { head.as_str() } else { col.as_str() };
        l.push(format!("{lead}{a}{}", if i + 1 == k { ")" } else { "," }));
    }
}

pub fn run_all(ctx: &Ctx) {
    let n = ctx.n(12000, 300000);
    ctx.bound(format!("{n} random crates of 1 to 5 structs, unions, enums, functions and statics with documentation, function pointer fields and raw bodies, in C, C++ and Cython, with random tab width (0 to 8), brace style, line ending, line length, argument layout, documentation style, namespaces, header, trailer, prefix and postfix: the header consists of exactly the expected lines, also when the destination takes it in pieces and is interrupted"));
    ctx.par("writer", n, one);
}
