//! C06: conditional compilation.
use crate::util::*;
use std::collections::HashSet;

#[derive(Clone, Debug)]
pub enum Cf {
    Opt(usize),
    Any(Vec<Cf>),
    All(Vec<Cf>),
    Not(Box<Cf>),
}

pub struct O {
    pub rust: String,
    pub key: String,
    pub define: Option<String>,
}

impl Cf {
    pub fn random(rng: &mut Rng, d: usize, n: usize) -> Cf {
        if d == 0 || rng.chance(2, 5) {
            return Cf::Opt(rng.below(n));
        }
        let k = if rng.chance(1, 14) { 0 } else { 1 + rng.below(3) };
        match rng.below(3) {
            0 => Cf::Any((0..k).map(|_| Cf::random(rng, d - 1, n)).collect()),
            1 => Cf::All((0..k).map(|_| Cf::random(rng, d - 1, n)).collect()),
            _ => Cf::Not(Box::new(Cf::random(rng, d - 1, n))),
        }
    }
    pub fn src(&self, os: &[O]) -> String {
        let l = |v: &Vec<Cf>| v.iter().map(|c| c.src(os)).collect::<Vec<_>>().join(", ");
        match self {
            Cf::Opt(i) => os[*i].rust.clone(),
            Cf::Any(v) => format!("any({})", l(v)),
            Cf::All(v) => format!("all({})", l(v)),
            Cf::Not(c) => format!("not({})", c.src(os)),
        }
    }
    pub fn kept(&self, os: &[O]) -> bool {
        match self {
            Cf::Opt(i) => os[*i].define.is_some(),
            Cf::Any(v) | Cf::All(v) => v.is_empty() || v.iter().any(|c| c.kept(os)),
            Cf::Not(c) => c.kept(os),
        }
    }
    /// truth over what is kept; `None` kept means no condition
    pub fn truth(&self, os: &[O], on: &dyn Fn(usize) -> bool) -> bool {
        match self {
            Cf::Opt(i) => on(*i),
            Cf::Any(v) => v.iter().filter(|c| c.kept(os)).any(|c| c.truth(os, on)),
            Cf::All(v) => v.iter().filter(|c| c.kept(os)).all(|c| c.truth(os, on)),
            Cf::Not(c) => !c.truth(os, on),
        }
    }
    pub fn cond(&self, os: &[O], on: &dyn Fn(usize) -> bool) -> bool {
        !self.kept(os) || self.truth(os, on)
    }
}

// ---------------- evaluation of printed conditions ----------------
struct P<'a> {
    t: Vec<String>,
    i: usize,
    on: &'a dyn Fn(&str) -> bool,
    cy: bool,
}
pub fn toks(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    while i < c.len() {
        if c[i].is_whitespace() {
            i += 1;
        } else if c[i].is_alphanumeric() || c[i] == '_' {
            let mut j = i;
            while j < c.len() && (c[j].is_alphanumeric() || c[j] == '_') {
                j += 1;
            }
            v.push(c[i..j].iter().collect());
            i = j;
        } else if i + 1 < c.len() && ["&&", "||", ">=", "<=", "=="].contains(&&*format!("{}{}", c[i], c[i + 1])) {
            v.push(format!("{}{}", c[i], c[i + 1]));
            i += 2;
        } else {
            v.push(c[i].to_string());
            i += 1;
        }
    }
    v
}
impl P<'_> {
    fn peek(&self) -> &str {
        self.t.get(self.i).map(|s| s.as_str()).unwrap_or("")
    }
    fn eat(&mut self, s: &str) -> bool {
        if self.peek() == s {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn or(&mut self) -> Result<bool, String> {
        let mut r = self.and()?;
        while self.eat(if self.cy { "or" } else { "||" }) {
            let x = self.and()?;
            r = r || x;
        }
        Ok(r)
    }
    fn and(&mut self) -> Result<bool, String> {
        let mut r = self.not()?;
        while self.eat(if self.cy { "and" } else { "&&" }) {
            let x = self.not()?;
            r = r && x;
        }
        Ok(r)
    }
    fn not(&mut self) -> Result<bool, String> {
        if self.eat(if self.cy { "not" } else { "!" }) {
            return Ok(!self.not()?);
        }
        if self.eat("(") {
            let r = self.or()?;
            if !self.eat(")") {
                return Err("missing )".into());
            }
            return Ok(r);
        }
        let t = self.peek().to_string();
        if t.is_empty() || !t.chars().next().unwrap().is_alphanumeric() && !t.starts_with('_') {
            return Err(format!("operand expected, got {t:?}"));
        }
        self.i += 1;
        if self.cy {
            return Ok(match t.as_str() {
                "True" => true,
                "False" => false,
                "or" | "and" | "not" => return Err("misplaced operator".into()),
                n => (self.on)(n),
            });
        }
        if t == "defined" {
            if !self.eat("(") {
                return Err("defined without (".into());
            }
            let n = self.peek().to_string();
            self.i += 1;
            if !self.eat(")") {
                return Err("defined without )".into());
            }
            return Ok((self.on)(&n));
        }
        if [">=", "<=", "==", ">", "<"].contains(&self.peek()) {
            // __STDC_VERSION__ >= 202311L: not set here
            self.i += 2;
            return Ok(false);
        }
        Ok(t.chars().next().unwrap().is_ascii_digit() && t != "0")
    }
}
pub fn eval(s: &str, on: &dyn Fn(&str) -> bool, cy: bool) -> Result<bool, String> {
    let mut p = P { t: toks(s), i: 0, on, cy };
    let r = p.or()?;
    if p.i != p.t.len() {
        return Err(format!("rest of condition {s:?} not understood"));
    }
    Ok(r)
}
/// The lines that survive preprocessing.
pub fn active(text: &str, on: &dyn Fn(&str) -> bool, cy: bool) -> Result<String, String> {
    let mut out = String::new();
    if cy {
        let mut st: Vec<(usize, bool)> = vec![];
        for l in text.lines() {
            let t = l.trim_start();
            if t.is_empty() {
                continue;
            }
            let ind = l.len() - t.len();
            while st.last().is_some_and(|(i, _)| *i >= ind) {
                st.pop();
            }
            let act = st.last().map(|x| x.1).unwrap_or(true);
            if let Some(r) = t.strip_prefix("IF ") {
                let c = r.trim_end().strip_suffix(':').ok_or("IF without :")?;
                st.push((ind, eval(c, on, true)? && act));
            } else if act {
                out.push_str(l);
                out.push('\n');
            }
        }
        return Ok(out);
    }
    // (active, some branch taken)
    let mut st: Vec<(bool, bool)> = vec![];
    for l in text.lines() {
        let t = l.trim_start();
        let outer = |st: &[(bool, bool)]| st.iter().all(|x| x.0);
        if let Some(r) = t.strip_prefix("#ifdef ") {
            let b = on(r.trim());
            st.push((b, b));
        } else if let Some(r) = t.strip_prefix("#ifndef ") {
            let b = !on(r.trim());
            st.push((b, b));
        } else if let Some(r) = t.strip_prefix("#if ") {
            let r = r.split("//").next().unwrap();
            let b = eval(r, on, false)?;
            st.push((b, b));
        } else if let Some(r) = t.strip_prefix("#elif ") {
            let x = st.last_mut().ok_or("#elif without #if")?;
            let b = !x.1 && eval(r, on, false)?;
            *x = (b, x.1 || b);
        } else if t.starts_with("#else") {
            let x = st.last_mut().ok_or("#else without #if")?;
            *x = (!x.1, true);
        } else if t.starts_with("#endif") {
            st.pop().ok_or("#endif without #if")?;
        } else if outer(&st) {
            out.push_str(l);
            out.push('\n');
        }
    }
    if !st.is_empty() {
        return Err(format!("{} conditionals are never closed", st.len()));
    }
    Ok(out)
}

/// identifiers, lower case without underscores
pub fn idents(text: &str) -> HashSet<String> {
    toks(text).into_iter().filter(|t| t.chars().next().unwrap().is_alphabetic() || t.starts_with('_')).map(|t| t.replace('_', "").to_lowercase()).collect()
}

pub fn c06(ctx: &Ctx) {
    let n = ctx.n(20_000, 200_000);
    ctx.bound(format!("{n} random crates of up to 8 items of every kind (also functions and constants of impl blocks, functions of extern blocks and bitflags!), cfg trees to depth 3 over up to 5 options (some without a defines entry), nested modules, every truth assignment; C, C++ and Cython"));
    if ctx.known("KF-C06-1") {
        let inp = Input {
            src: "#[repr(C)] pub struct S { pub a: u8, #[cfg(feature = \"x\")] pub b: u8 }\n#[no_mangle] pub extern \"C\" fn f(s: S) {}\n".into(),
            toml: "language = \"C++\"\n[defines]\n\"feature = x\" = \"DEFX\"\n[struct]\nderive_eq = true\n".into(),
        };
        if let Gen::Ok(h) = run(ctx, &inp) {
            if active(&h, &|_| false, false).is_ok_and(|a| idents(&a).contains("b")) {
                ctx.known.lock().unwrap().push("KF-C06-1: in C++ the derived operators, constructors and stream output mention a field or variant outside its #if".into());
            }
        }
    }
    ctx.par("cfg", n, |ctx, i, rng| {
        let no = 1 + rng.below(5);
        let os: Vec<O> = (0..no)
            .map(|k| {
                let named = rng.chance(1, 2);
                let define = if rng.chance(1, 6) { None } else { Some(format!("DEF{k}")) };
                let nm = *rng.pick(&["feature", "target_os", "panic"]);
                if named {
                    let key = match rng.below(4) {
                        0 => format!("{nm} = v{k}"),
                        1 => format!("{nm}=v{k}"),
                        2 => format!(" {nm} =v{k} "),
                        _ => format!("{nm}= v{k}"),
                    };
                    O { rust: format!("{nm} = \"v{k}\""), key, define }
                } else {
                    O { rust: format!("opt{k}"), key: format!("opt{k}"), define }
                }
            })
            .collect();
        let lang = ["C", "C++", "Cython"][i % 3];
        let mut toml = format!("language = {:?}\n", lang);
        let style = *rng.pick(&["both", "tag", "type"]);
        if lang != "C++" {
            toml += &format!("style = {:?}\n", if lang == "Cython" && style == "both" { "type" } else { style });
        }
        if lang == "C" && rng.chance(1, 4) {
            toml += "cpp_compat = true\n";
        }
        toml += &format!("braces = {:?}\n", rng.pick(&["SameLine", "NextLine"]));
        if rng.chance(1, 4) {
            toml += "documentation = false\n";
        }
        if rng.chance(1, 4) {
            toml += &format!("sort_by = {:?}\n", rng.pick(&["Name", "None"]));
        }
        let mut src = String::new();
        // (marker, conditions) of everything that must appear exactly under its conditions
        let mut marks: Vec<(String, Vec<Cf>)> = vec![];
        let mut include = vec![];
        let mut mods: Vec<Vec<Cf>> = vec![];
        let mut uid = 0;
        let subcfg = std::cell::Cell::new(false);
        let vfcfg = std::cell::Cell::new(false);
        let ni = 1 + rng.below(8);
        for _ in 0..ni {
            if rng.chance(1, 5) && mods.len() < 2 {
                let cs: Vec<Cf> = (0..rng.below(3)).map(|_| Cf::random(rng, 2, no)).collect();
                for c in &cs {
                    src += &format!("#[cfg({})]\n", c.src(&os));
                }
                src += &format!("pub mod m{uid} {{\n");
                uid += 1;
                mods.push(cs);
            } else if rng.chance(1, 6) && !mods.is_empty() {
                src += "}\n";
                mods.pop();
            }
            let cs: Vec<Cf> = if rng.chance(1, 4) { vec![] } else { (0..1 + rng.below(2)).map(|_| Cf::random(rng, 3, no)).collect() };
            let base: Vec<Cf> = mods.iter().flatten().cloned().chain(cs.iter().cloned()).collect();
            uid += 1;
            let id = uid;
            if rng.chance(1, 4) {
                src += "/// some words\n";
            }
            let attr = cs.iter().map(|c| format!("#[cfg({})]\n", c.src(&os))).collect::<String>();
            src += &attr;
            let sub = |rng: &mut Rng, marks: &mut Vec<(String, Vec<Cf>)>, m: &str, outer: &[Cf]| -> (String, Vec<Cf>) {
                let cs: Vec<Cf> = if rng.chance(1, 2) { vec![] } else { (0..1 + rng.below(2)).map(|_| Cf::random(rng, 2, no)).collect() };
                let mut all = outer.to_vec();
                if !cs.is_empty() {
                    subcfg.set(true);
                    if m.starts_with("gz") {
                        vfcfg.set(true);
                    }
                }
                // Cython has no conditional fields and variants: they stay in the definition
                if lang != "Cython" {
                    all.extend(cs.iter().cloned());
                }
                marks.push((m.to_string(), all.clone()));
                (cs.iter().map(|c| format!("#[cfg({})] ", c.src(&os))).collect(), all)
            };
            let kind = rng.below(if lang == "C++" { 16 } else { 15 });
            match kind {
                0 | 1 => {
                    src += &format!("#[no_mangle] pub extern \"C\" fn zq{id}x(a: u8) -> u8 {{ a }}\n");
                    marks.push((format!("zq{id}x"), base));
                }
                2 => {
                    src += &format!("#[no_mangle] pub static ZQ{id}X: u32 = 1;\n");
                    marks.push((format!("zq{id}x"), base));
                }
                3 => {
                    src += &format!("pub const ZQ{id}X: {};\n", rng.pick(&["u32 = 7", "bool = true", "i8 = -3", "f32 = 1.5"]));
                    marks.push((format!("zq{id}x"), base));
                }
                4 | 5 => {
                    let kw = if rng.chance(1, 3) { "union" } else { "struct" };
                    src += &format!("#[repr(C)] pub {kw} Zq{id}x {{\n  pub first: u8,\n");
                    for k in 0..rng.below(3) {
                        let m = format!("fz{id}k{k}x");
                        let (a, _) = sub(rng, &mut marks, &m, &base);
                        src += &format!("  {a}pub {m}: u16,\n");
                    }
                    src += "}\n";
                    include.push(format!("Zq{id}x"));
                    marks.push((format!("zq{id}x"), base));
                }
                10 => {
                    // the instantiation carries the generic's cfg
                    let k = rng.below(6);
                    if k < 2 {
                        let m = format!("fz{id}x");
                        let (a, _) = sub(rng, &mut marks, &m, &base);
                        let f = format!("{a}pub {m}: u16,");
                        let f = [["", &f], [&f, ""]][rng.below(2)];
                        match k {
                            0 => src += &format!("#[repr(C)] pub struct Zq{id}x<T> {{ {}pub a: T, {} }}\n", f[0], f[1]),
                            _ => src += &format!("#[repr(C)] pub union Zq{id}x<T> {{ {}pub a: *mut T, pub b: u8, {} }}\n", f[0], f[1]),
                        }
                    } else if k < 4 {
                        let m = format!("Vz{id}x");
                        let (a, all) = sub(rng, &mut marks, &m.to_lowercase(), &base);
                        let f = format!("gz{id}x");
                        let (fa, _) = sub(rng, &mut marks, &f, &all);
                        src += &format!("#[repr({})] pub enum Zq{id}x<T> {{ Always{id}(T), {a}{m} {{ always: u8, {fa}{f}: u32 }} }}\n", rng.pick(&["C", "u8", "C, u8"]));
                    } else if k == 4 {
                        src += &format!("pub struct Zq{id}x<T> {{ a: T }}\n");
                    } else {
                        src += &format!("pub type Zq{id}x<T> = *mut T;\n");
                    }
                    src += &attr;
                    src += &format!("pub type Za{id}x = *mut Zq{id}x<u8>;\n");
                    include.push(format!("Za{id}x"));
                    marks.push((format!("zq{id}x"), base.clone()));
                    marks.push((format!("za{id}x"), base));
                }
                12 | 13 => {
                    // functions and constants of an impl block, functions of an extern block
                    let (head, ext) = if kind == 12 { (format!("impl Zt{id} {{\n"), false) } else { ("extern \"C\" {\n".to_string(), true) };
                    src += &head;
                    for k in 0..1 + rng.below(3) {
                        let own: Vec<Cf> = if rng.chance(1, 2) { vec![] } else { (0..1 + rng.below(2)).map(|_| Cf::random(rng, 2, no)).collect() };
                        let a: String = own.iter().map(|c| format!("#[cfg({})] ", c.src(&os))).collect();
                        let m = format!("zq{id}k{k}x");
                        if ext {
                            src += &format!("  {a}pub fn {m}(a: u8);\n");
                        } else if rng.chance(1, 2) {
                            src += &format!("  {a}#[no_mangle] pub extern \"C\" fn {m}(a: u8) -> u8 {{ a }}\n");
                        } else {
                            src += &format!("  {a}pub const {m}: u32 = 3;\n");
                        }
                        marks.push((m, base.iter().cloned().chain(own).collect()));
                    }
                    src += "}\n";
                }
                14 => {
                    src += &format!("bitflags! {{\n{}pub struct Zq{id}x: u8 {{\n", "#[repr(C)] ");
                    for k in 0..1 + rng.below(2) {
                        src += &format!("  const zq{id}k{k}x = {};\n", 1 << k);
                        marks.push((format!("zq{id}k{k}x"), base.clone()));
                    }
                    src += "}\n}\n";
                    include.push(format!("Zq{id}x"));
                    marks.push((format!("zq{id}x"), base));
                }
                11 => {
                    src += &format!("#[repr(transparent)] pub struct Zq{id}x {{ a: u32 }}\n");
                    include.push(format!("Zq{id}x"));
                    marks.push((format!("zq{id}x"), base));
                }
                15 => {
                    // a struct literal with a conditional field, whose value is conditional too
                    let (m, v) = (format!("fz{id}x"), format!("vz{id}x"));
                    let (a, all) = sub(rng, &mut marks, &m, &base);
                    marks.push((v.clone(), all));
                    let at = rng.below(3);
                    let place = |f: &str, rest: [&str; 2]| -> String { (0..3).map(|k| if k == at { f.to_string() } else { rest[k - (k > at) as usize].to_string() }).collect() };
                    src += &format!("#[repr(C)] pub struct Zq{id}x {{ {} }}\n{attr}", place(&format!("{a}pub {m}: u16, "), ["pub one: u16, ", "pub two: u16, "]));
                    src += &format!("pub const Zk{id}x: Zq{id}x = Zq{id}x {{ {} }};\n", place(&format!("{a}{m}: {v}, "), ["one: 5, ", "two: 6, "]));
                    include.push(format!("Zq{id}x"));
                    marks.push((format!("zk{id}x"), base.clone()));
                    marks.push((format!("zq{id}x"), base));
                }
                6 => {
                    src += &format!("pub type Zq{id}x = u64;\n");
                    include.push(format!("Zq{id}x"));
                    marks.push((format!("zq{id}x"), base));
                }
                7 => {
                    src += &format!("pub struct Zq{id}x {{ p: u8 }}\n");
                    include.push(format!("Zq{id}x"));
                    marks.push((format!("zq{id}x"), base));
                }
                8 => {
                    let repr = *rng.pick(&["C", "u8", "i32"]);
                    src += &format!("#[repr({repr})] pub enum Zq{id}x {{\n  Always{id},\n");
                    for k in 0..1 + rng.below(3) {
                        let m = format!("Vz{id}k{k}x");
                        let (a, _) = sub(rng, &mut marks, &m.to_lowercase(), &base);
                        src += &format!("  {a}{m}{},\n", if rng.chance(1, 4) { format!(" = {}", 10 + k) } else { String::new() });
                    }
                    src += "}\n";
                    include.push(format!("Zq{id}x"));
                    marks.push((format!("zq{id}x"), base));
                }
                _ => {
                    let repr = *rng.pick(&["C", "u8", "C, u8"]);
                    src += &format!("#[repr({repr})] pub enum Zq{id}x {{\n  Always{id},\n");
                    for k in 0..1 + rng.below(3) {
                        let m = format!("Vz{id}k{k}x");
                        let (a, all) = sub(rng, &mut marks, &m.to_lowercase(), &base);
                        match rng.below(4) {
                            0 => src += &format!("  {a}{m},\n"),
                            1 => src += &format!("  {a}{m}(u8),\n"),
                            2 => src += &format!("  {a}{m}(u8, u16),\n"),
                            _ => {
                                let f = format!("gz{id}k{k}x");
                                let (fa, _) = sub(rng, &mut marks, &f, &all);
                                src += &format!("  {a}{m} {{ always: u8, {fa}{f}: u32 }},\n");
                            }
                        }
                    }
                    src += "}\n";
                    include.push(format!("Zq{id}x"));
                    marks.push((format!("zq{id}x"), base));
                }
            }
        }
        for _ in 0..mods.len() {
            src += "}\n";
        }
        src += "#[no_mangle] pub extern \"C\" fn zqlastx() {}\n";
        marks.push(("zqlastx".into(), vec![]));
        toml += "[macro_expansion]\nbitflags = true\n[defines]\n";
        for o in &os {
            if let Some(d) = &o.define {
                toml += &format!("{:?} = {:?}\n", o.key, d);
            }
        }
        toml += &format!("[export]\ninclude = {:?}\n", include);
        // renaming keeps the condition; a renamed name still contains the old one, letter case aside
        let rule = |rng: &mut Rng, k: &str, rs: &[&str]| if rng.chance(1, 3) { format!("{k} = {:?}\n", rng.pick(rs)) } else { String::new() };
        let rules = ["CamelCase", "PascalCase", "GeckoCase", "UpperCase", "LowerCase", "prefix:zz_"];
        let ren = [rule(rng, "rename_variants", &rules) + &rule(rng, "rename_variant_name_fields", &rules), rule(rng, "rename_fields", &rules)];
        if lang == "C++" {
            for s in ["enum", "struct"] {
                toml += &format!("[{s}]\n{}", ren[(s == "struct") as usize]);
                for k in ["derive_constructor", "derive_eq", "derive_helper_methods", "derive_const_casts", "derive_mut_casts", "derive_tagged_enum_destructor", "derive_tagged_enum_copy_constructor", "derive_ostream", "private_default_tagged_enum_constructor"] {
                    let ok = s == "enum" && !["derive_constructor", "derive_eq"].contains(&k) || s == "struct" && ["derive_constructor", "derive_eq", "derive_ostream"].contains(&k);
                    let known = subcfg.get() && ctx.known("KF-C06-1") && ["derive_constructor", "derive_eq", "derive_ostream"].contains(&k) || vfcfg.get() && ctx.known("KF-C06-1") && k == "derive_helper_methods";
                    if ok && !known && rng.chance(1, 3) {
                        toml += &format!("{k} = true\n");
                    }
                }
            }
        } else {
            toml += &format!("[struct]\n{}[enum]\n{}", ren[1], ren[0]);
        }
        if rng.chance(1, 4) {
            // both sections end with [enum] or [struct]
            if lang != "C++" {
                toml += "prefix_with_name = true\n";
            }
        }
        let inp = Input { src, toml };
        let h = header(ctx, &inp)?;
        let cy = lang == "Cython";
        if marks.iter().any(|m| !m.1.is_empty()) {
            ctx.interesting();
        }
        for bits in 0..(1u32 << no) {
            let on_opt = |k: usize| bits & (1 << k) != 0;
            let on_def = |d: &str| {
                if d == "__cplusplus" {
                    return lang == "C++";
                }
                d.strip_prefix("DEF").and_then(|k| k.parse::<usize>().ok()).is_some_and(on_opt)
            };
            let a = active(&h, &on_def, cy).map_err(|e| fail(&inp, &h, format!("conditionals are malformed: {e}")))?;
            let ts = toks(&a);
            if let Some(w) = ts.windows(2).find(|w| w[1] == "," && [",", "{", "("].contains(&w[0].as_str())) {
                return Err(fail(&inp, &h, format!("under some options a list reads `{}`", w.concat())));
            }
            let ids = idents(&a);
            for (m, cs) in &marks {
                let want = cs.iter().all(|c| c.cond(&os, &on_opt));
                let got = ids.iter().any(|x| x.contains(m.as_str()));
                if want != got {
                    let on: Vec<_> = (0..no).filter(|k| on_opt(*k)).map(|k| os[k].rust.clone()).collect();
                    return Err(fail(&inp, &h, format!("with exactly {on:?} enabled, `{m}` is {} in Rust but {} in the {lang} header", if want { "present" } else { "absent" }, if got { "present" } else { "absent" })));
                }
            }
        }
        Ok(())
    });
    let n = ctx.n(3000, 40_000);
    ctx.bound(format!("{n} random crates whose conditional modules are inline, in files, in mod.rs, in #[path] files or missing, up to 3 deep"));
    ctx.par("modules", n, |ctx, _i, rng| {
        let d = ctx.tdir().join("cfgmods");
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap();
        let os = options();
        let mut g = ModGen { os: &os, id: 0, marks: vec![], files: vec![] };
        let mut src = String::new();
        g.items(rng, &mut src, &[], &d, &d, false, 3);
        g.files.push((d.join("lib.rs"), src));
        let inp = g.write(&d);
        let out = generate(&d, |b| b.with_src(d.join("lib.rs")));
        judge(ctx, &inp, &os, &g.marks, out)
    });
    let n = ctx.n(96, 600);
    ctx.bound(format!("{n} random trees of five crates with path dependencies, conditional on targets or not"));
    ctx.par("deps", n, |ctx, _i, rng| {
        let d = ctx.tdir().join("cfgdeps");
        let _ = std::fs::remove_dir_all(&d);
        let os = options();
        let mut g = ModGen { os: &os, id: 0, marks: vec![], files: vec![] };
        // a random tree of crates
        let names = ["main", "dep-a", "dep-b", "dep-c", "dep-d"];
        let mut under: Vec<Vec<Cf>> = vec![vec![]];
        let mut deps: Vec<Vec<(&str, Option<Cf>)>> = vec![vec![]; names.len()];
        for k in 1..names.len() {
            let parent = if rng.chance(1, 2) { k - 1 } else { rng.below(k) };
            let edge = if rng.chance(1, 2) { Some(Cf::random(rng, 2, os.len())) } else { None };
            under.push(under[parent].iter().cloned().chain(edge.clone()).collect());
            deps[parent].push((names[k], edge));
        }
        let crates: Vec<_> = names.iter().zip(&under).zip(&deps).map(|((n, u), d)| (*n, u, d)).collect();
        for (name, under, deps) in &crates {
            let c = d.join(name);
            let mut src = String::new();
            g.items(rng, &mut src, under, &c.join("src"), &c.join("src"), false, 1);
            let mut m = format!("[package]\nname = \"{name}\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[workspace]\n");
            for (n, e) in *deps {
                match e {
                    Some(c) => m += &format!("[target.'cfg({})'.dependencies.{n}]\npath = \"../{n}\"\n", c.src(&os)),
                    None => m += &format!("[dependencies.{n}]\npath = \"../{n}\"\n"),
                }
            }
            g.files.push((c.join("Cargo.toml"), m));
            g.files.push((c.join("src/lib.rs"), src));
        }
        let inp = g.write(&d);
        let out = generate(&d, |b| b.with_crate(d.join("main")));
        judge(ctx, &inp, &os, &g.marks, out)
    });
}

fn options() -> Vec<O> {
    (0..4).map(|k| O { rust: if k % 2 == 0 { format!("opt{k}") } else { format!("feature = \"v{k}\"") }, key: if k % 2 == 0 { format!("opt{k}") } else { format!("feature = v{k}") }, define: if k == 3 { None } else { Some(format!("DEF{k}")) } }).collect()
}

/// conditional modules in all the places a module can be
struct ModGen<'a> {
    os: &'a [O],
    id: usize,
    marks: Vec<(String, Vec<Cf>)>,
    files: Vec<(std::path::PathBuf, String)>,
}

impl ModGen<'_> {
    fn items(&mut self, rng: &mut Rng, src: &mut String, under: &[Cf], dir: &std::path::Path, sub: &std::path::Path, inline: bool, depth: usize) {
        for _ in 0..1 + rng.below(3) {
            self.id += 1;
            let id = self.id;
            let cs: Vec<Cf> = if rng.chance(1, 3) { vec![] } else { (0..1 + rng.below(2)).map(|_| Cf::random(rng, 1, self.os.len())).collect() };
            let all: Vec<Cf> = under.iter().chain(&cs).cloned().collect();
            for c in &cs {
                *src += &format!("#[cfg({})]\n", c.src(self.os));
            }
            if depth == 0 || rng.chance(1, 3) {
                match rng.below(3) {
                    0 => *src += &format!("#[no_mangle] pub static ZQ{id}X: u32 = 1;\n"),
                    1 => *src += &format!("pub const ZQ{id}X: u32 = 1;\n"),
                    _ => *src += &format!("#[no_mangle] pub extern \"C\" fn zq{id}x() {{}}\n"),
                }
                self.marks.push((format!("zq{id}x"), all));
                continue;
            }
            let mut body = String::new();
            let m = format!("m{id}");
            match rng.below(if inline { 4 } else { 5 }) {
                0 => {
                    self.items(rng, &mut body, &all, &dir.join(&m), &sub.join(&m), true, depth - 1);
                    *src += &format!("pub mod {m} {{\n{body}}}\n");
                }
                1 => {
                    self.items(rng, &mut body, &all, sub, &sub.join(&m), false, depth - 1);
                    *src += &format!("pub mod {m};\n");
                    self.files.push((sub.join(format!("{m}.rs")), body));
                }
                2 => {
                    let s = sub.join(&m);
                    self.items(rng, &mut body, &all, &s, &s, false, depth - 1);
                    *src += &format!("pub mod {m};\n");
                    self.files.push((s.join("mod.rs"), body));
                }
                // a module whose file is missing
                3 => *src += &format!("pub mod {m};\n"),
                _ => {
                    self.items(rng, &mut body, &all, dir, dir, false, depth - 1);
                    *src += &format!("#[path = \"p{id}.rs\"]\npub mod {m};\n");
                    self.files.push((dir.join(format!("p{id}.rs")), body));
                }
            }
        }
    }
    fn write(&self, d: &std::path::Path) -> Input {
        let mut toml = "language = \"C\"\n[parse]\nparse_deps = true\nextra_bindings = [\"dep-a\", \"dep-b\", \"dep-c\", \"dep-d\"]\n[defines]\n".to_string();
        for o in self.os {
            if let Some(x) = &o.define {
                toml += &format!("{:?} = {:?}\n", o.key, x);
            }
        }
        let mut src = String::new();
        for (p, t) in &self.files {
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, t).unwrap();
            src += &format!("// ---- {}\n{t}", p.strip_prefix(d).unwrap().display());
        }
        std::fs::write(d.join("cbindgen.toml"), &toml).unwrap();
        Input { src, toml }
    }
}

fn generate(d: &std::path::Path, f: impl Fn(cbindgen::Builder) -> cbindgen::Builder) -> Result<String, String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let cfg = cbindgen::Config::from_file(d.join("cbindgen.toml")).map_err(|e| format!("config: {e}"))?;
        let b = f(cbindgen::Builder::new().with_config(cfg)).generate().map_err(|e| format!("generate: {e}"))?;
        let mut v = Vec::new();
        b.write(&mut v);
        Ok::<_, String>(String::from_utf8_lossy(&v).into_owned())
    }));
    r.unwrap_or_else(|p| Err(format!("cbindgen panicked: {}", panic_text(&p))))
}

fn judge(ctx: &Ctx, inp: &Input, os: &[O], marks: &[(String, Vec<Cf>)], out: Result<String, String>) -> Result<(), Fail> {
    let h = out.map_err(|e| fail(inp, "", e))?;
    if marks.iter().any(|m| m.1.len() > 1) {
        ctx.interesting();
    }
    for bits in 0..(1u32 << os.len()) {
        let on_opt = |k: usize| bits & (1 << k) != 0;
        let on_def = |d: &str| d.strip_prefix("DEF").and_then(|k| k.parse::<usize>().ok()).is_some_and(on_opt);
        let a = active(&h, &on_def, false).map_err(|e| fail(inp, &h, format!("conditionals are malformed: {e}")))?;
        let ids = idents(&a);
        for (m, cs) in marks {
            let want = cs.iter().all(|c| c.cond(os, &on_opt));
            let got = ids.contains(m);
            if want != got {
                let on: Vec<_> = (0..os.len()).filter(|k| on_opt(*k)).map(|k| os[k].rust.clone()).collect();
                return Err(fail(inp, &h, format!("with exactly {on:?} enabled, `{m}` is {} in Rust but {} in the header", if want { "present" } else { "absent" }, if got { "present" } else { "absent" })));
            }
        }
    }
    Ok(())
}
