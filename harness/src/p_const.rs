//! C15: the value of a constant, read back from the header, is the tree that was written in Rust.
use crate::util::*;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
enum E {
    Int(u128, &'static str),
    Float(String),
    Bool(bool),
    Char(u32),
    /// (source spelling, header spelling)
    Name(String, String),
    Un(char, Box<E>),
    Bin(&'static str, Box<E>, Box<E>),
    Cast(&'static str, Box<E>),
    Field(Box<E>, String, String),
    /// (source name, header name, fields in source order, declared order of (key, header name))
    Struct(String, String, Vec<(String, E)>, Vec<(String, String)>, bool),
    Array(Vec<E>),
    /// transparent wrapper: printed as its content
    Wrap(Box<E>),
}

/// Rust binding strengths
fn prec(op: &str) -> u8 {
    match op {
        "*" | "/" | "%" => 10,
        "+" | "-" => 9,
        "<<" | ">>" => 8,
        "&" => 7,
        "^" => 6,
        "|" => 5,
        "==" | "!=" | "<" | ">" | "<=" | ">=" => 4,
        "&&" => 3,
        "||" => 2,
        _ => 0,
    }
}
/// C binding strengths
fn cprec(op: &str) -> Option<u8> {
    Some(match op {
        "*" | "/" | "%" => 10,
        "+" | "-" => 9,
        "<<" | ">>" => 8,
        "<" | ">" | "<=" | ">=" => 7,
        "==" | "!=" => 6,
        "&" => 5,
        "^" => 4,
        "|" => 3,
        "&&" => 2,
        "||" => 1,
        _ => return None,
    })
}
const OPS: &[&str] = &["*", "/", "%", "+", "-", "<<", ">>", "&", "^", "|", "==", "!=", "<", ">", "<=", ">=", "&&", "||"];
/// (Rust, C tokens)
const CASTS: &[(&str, &str)] = &[
    ("u8", "uint8_t"), ("i8", "int8_t"), ("u16", "uint16_t"), ("i16", "int16_t"), ("u32", "uint32_t"), ("i32", "int32_t"), ("u64", "uint64_t"), ("i64", "int64_t"),
    ("usize", "uintptr_t"), ("isize", "intptr_t"), ("f32", "float"), ("f64", "double"), ("Al", "Al"), ("*const u8", "const uint8_t *"), ("*mut i32", "int32_t *"), ("*const Al", "const Al *"), ("*const Pair", "const Pair *"),
];

fn paren(s: String) -> String {
    format!("({s})")
}
/// Rust source text of an expression
fn src(e: &E, rng: &mut Rng, min: u8) -> String {
    let (s, p) = match e {
        E::Int(n, suf) => {
            let mut d = match rng.below(6) {
                0 => format!("{n:#x}"),
                1 if *n < 256 => format!("{n:#b}"),
                2 => format!("{n:#o}"),
                3 if *n > 999 => {
                    let t = n.to_string();
                    format!("{}_{}", &t[..t.len() - 3], &t[t.len() - 3..])
                }
                _ => n.to_string(),
            };
            if !suf.is_empty() {
                d.push_str(suf);
            }
            (d, 20)
        }
        E::Float(t) => (t.clone(), 20),
        E::Bool(b) => (b.to_string(), 20),
        E::Char(c) => {
            let c = char::from_u32(*c).unwrap();
            let lit = match c {
                '\0' => "\\0".into(),
                '\n' | '\t' | '\r' | '\'' | '\\' => c.escape_default().to_string(),
                c if (c as u32) < 0x20 || c as u32 == 0x7f => format!("\\x{:02x}", c as u32),
                c if rng.chance(1, 4) => format!("\\u{{{:x}}}", c as u32),
                c => c.to_string(),
            };
            (format!("'{lit}'"), 20)
        }
        E::Name(s, _) => (s.clone(), 20),
        E::Un(op, x) => (format!("{op}{}", src(x, rng, 15)), 15),
        E::Bin(op, l, r) => {
            let p = prec(op);
            let q = if p == 4 { 5 } else { p };
            // `x as T < y` would be generic arguments
            let l2 = match **l {
                E::Cast(..) => paren(src(l, rng, 0)),
                _ => src(l, rng, q),
            };
            let r2 = match **r {
                E::Cast(..) => paren(src(r, rng, 0)),
                _ => src(r, rng, p + 1),
            };
            (format!("{l2} {op} {r2}"), p)
        }
        E::Cast(t, x) => (format!("{} as {t}", src(x, rng, 14)), 14),
        E::Field(b, f, _) => {
            let b2 = match **b {
                E::Name(..) => src(b, rng, 20),
                _ => paren(src(b, rng, 0)),
            };
            (format!("{b2}.{f}"), 19)
        }
        E::Struct(n, _, fs, _, tuple) => {
            let v: Vec<String> = fs.iter().map(|(k, x)| if *tuple { src(x, rng, 0) } else { format!("{k}: {}", src(x, rng, 0)) }).collect();
            (if *tuple { format!("{n}({})", v.join(", ")) } else { format!("{n} {{ {} }}", v.join(", ")) }, 20)
        }
        E::Array(xs) => (format!("[{}]", xs.iter().map(|x| src(x, rng, 0)).collect::<Vec<_>>().join(", ")), 20),
        E::Wrap(x) => (format!("Wrap({})", src(x, rng, 0)), 20),
    };
    if p < min || (p < 20 && rng.chance(1, 8)) {
        paren(s)
    } else {
        s
    }
}
/// the tree to be found, in one canonical text
fn want(e: &E) -> String {
    match e {
        E::Int(n, _) => format!("{n}"),
        E::Float(t) => format!("f{}", t.trim_end_matches("f32").trim_end_matches("f64").trim_end_matches('_').replace('_', "").parse::<f64>().unwrap()),
        E::Bool(b) => b.to_string(),
        E::Char(c) => format!("c{c}"),
        E::Name(_, n) => n.clone(),
        E::Un('!', x) => format!("(~ {})", want(x)),
        E::Un(op, x) => format!("({op} {})", want(x)),
        E::Bin(op, l, r) => format!("({op} {} {})", want(l), want(r)),
        E::Cast(t, x) => format!("(as {} {})", CASTS.iter().find(|c| c.0 == *t).unwrap().1, want(x)),
        E::Field(b, _, f) => format!("(. {} {f})", want(b)),
        E::Struct(_, n, fs, decl, _) => {
            let v: Vec<String> = decl.iter().map(|(k, h)| format!("{h}={}", want(&fs.iter().find(|f| f.0 == *k).unwrap().1))).collect();
            format!("{n}{{{}}}", v.join(","))
        }
        E::Array(xs) => format!("[{}]", xs.iter().map(want).collect::<Vec<_>>().join(",")),
        E::Wrap(x) => want(x),
    }
}

// ---- reading back ----
#[derive(Clone, Debug, PartialEq)]
enum T {
    Id(String),
    Num(String),
    Chr(u32),
    P(String),
    /// `/* .name = */`
    Fld(String),
}
fn lex(s: &str) -> Result<Vec<T>, String> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut v = vec![];
    while i < c.len() {
        let x = c[i];
        let two: String = c[i..(i + 2).min(c.len())].iter().collect();
        if x.is_whitespace() {
            i += 1;
        } else if two == "/*" {
            let end = (i..c.len() - 1).find(|&j| c[j] == '*' && c[j + 1] == '/').ok_or("comment")?;
            let t: String = c[i + 2..end].iter().collect();
            v.push(T::Fld(t.trim().trim_start_matches('.').trim_end_matches('=').trim().to_string()));
            i = end + 2;
        } else if x == '\'' || (x == 'U' && c.get(i + 1) == Some(&'\'')) {
            let st = if x == 'U' { i + 2 } else { i + 1 };
            let mut j = st;
            while j < c.len() && c[j] != '\'' {
                j += if c[j] == '\\' { 2 } else { 1 };
            }
            if j >= c.len() {
                return Err("unterminated character".into());
            }
            let body: Vec<char> = c[st..j].to_vec();
            let code = match body.as_slice() {
                ['\\', 'x', h @ ..] | ['\\', 'U', h @ ..] => u32::from_str_radix(&h.iter().collect::<String>(), 16).map_err(|e| e.to_string())?,
                ['\\', e] => match e {
                    'n' => 10,
                    't' => 9,
                    'r' => 13,
                    '0' => 0,
                    '\'' => 39,
                    '"' => 34,
                    '\\' => 92,
                    _ => return Err(format!("escape \\{e}")),
                },
                [ch] if (*ch as u32) < 128 || x == 'U' => *ch as u32,
                _ => return Err(format!("character {body:?}")),
            };
            v.push(T::Chr(code));
            i = j + 1;
        } else if x.is_ascii_digit() {
            let mut j = i;
            while j < c.len() && (c[j].is_ascii_alphanumeric() || c[j] == '.' || c[j] == '_' || ((c[j] == '-' || c[j] == '+') && (c[j - 1] == 'e' || c[j - 1] == 'E'))) {
                j += 1;
            }
            v.push(T::Num(c[i..j].iter().collect()));
            i = j;
        } else if x.is_alphabetic() || x == '_' {
            let mut j = i;
            while j < c.len() && (c[j].is_alphanumeric() || c[j] == '_' || (c[j] == ':' && (c.get(j + 1) == Some(&':') || c[j - 1] == ':'))) {
                j += 1;
            }
            v.push(T::Id(c[i..j].iter().collect()));
            i = j;
        } else if ["<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "--", "++", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "->"].contains(&two.as_str()) {
            v.push(T::P(two));
            i += 2;
        } else {
            v.push(T::P(x.to_string()));
            i += 1;
        }
    }
    Ok(v)
}
struct Rd {
    t: Vec<T>,
    i: usize,
    py: bool,
    /// type names usable in casts and struct literals
    types: Vec<String>,
}
impl Rd {
    fn p(&self, s: &str) -> bool {
        matches!(self.t.get(self.i), Some(T::P(x)) if x == s)
    }
    fn eat(&mut self, s: &str) -> Result<(), String> {
        if self.p(s) {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected `{s}` at {:?}", self.t.get(self.i)))
        }
    }
    /// a type name up to the closing bracket, if there is one here
    fn ty(&mut self, close: &str) -> Option<String> {
        let mut j = self.i;
        let mut s: Vec<String> = vec![];
        loop {
            match self.t.get(j) {
                Some(T::P(x)) if x == close => break,
                Some(T::P(x)) if x == "*" => s.push("*".into()),
                Some(T::Id(x)) => s.push(x.clone()),
                _ => return None,
            }
            j += 1;
        }
        let n = s.join(" ");
        if self.types.contains(&n) {
            self.i = j + 1;
            Some(n)
        } else {
            None
        }
    }
    fn struct_body(&mut self, name: String) -> Result<String, String> {
        self.eat("{")?;
        let mut v = vec![];
        while !self.p("}") {
            if !v.is_empty() {
                self.eat(",")?;
            }
            let f = match self.t.get(self.i) {
                Some(T::Fld(f)) => {
                    self.i += 1;
                    Some(f.clone())
                }
                Some(T::P(x)) if x == "." && !self.py => {
                    let Some(T::Id(f)) = self.t.get(self.i + 1).cloned() else { return Err("designator".into()) };
                    self.i += 2;
                    self.eat("=")?;
                    Some(f)
                }
                _ if self.py => None,
                t => return Err(format!("unnamed field at {t:?}")),
            };
            let x = self.expr(0)?;
            v.push(match f {
                Some(f) => format!("{f}={x}"),
                None => x,
            });
        }
        self.eat("}")?;
        Ok(format!("{name}{{{}}}", v.join(",")))
    }
    fn prim(&mut self) -> Result<String, String> {
        let t = self.t.get(self.i).cloned().ok_or("end of expression")?;
        let mut r = match t {
            T::Num(n) => {
                self.i += 1;
                if n.contains('.') || ((n.contains('e') || n.contains('E')) && !n.starts_with("0x")) {
                    format!("f{}", n.parse::<f64>().map_err(|e| format!("{n}: {e}"))?)
                } else {
                    let d = n.trim_end_matches(|c: char| c.is_ascii_alphabetic());
                    let suf = n[d.len()..].to_lowercase();
                    if d.len() > 1 && d.starts_with('0') {
                        return Err(format!("octal {n}"));
                    }
                    let x: u128 = d.parse().map_err(|e| format!("{n}: {e}"))?;
                    if !["", "u", "ll", "ull", "l", "ul"].contains(&suf.as_str()) {
                        return Err(format!("suffix of {n}"));
                    }
                    if x > i64::MAX as u128 && !suf.contains('u') || (x > u32::MAX as u128 && suf == "u" && false) {
                        return Err(format!("{n} does not fit its type"));
                    }
                    format!("{x}")
                }
            }
            T::Chr(c) => {
                self.i += 1;
                format!("c{c}")
            }
            T::Id(n) => {
                self.i += 1;
                let n = match (self.py, n.as_str()) {
                    (true, "True") => "true".to_string(),
                    (true, "False") => "false".to_string(),
                    _ => n,
                };
                if !self.py && self.p("{") {
                    self.struct_body(n)?
                } else {
                    n
                }
            }
            T::P(x) if x == "(" => {
                self.i += 1;
                if !self.py {
                    if let Some(ty) = self.ty(")") {
                        if self.p("{") {
                            self.struct_body(ty)?
                        } else {
                            let v = self.unary()?;
                            return Ok(format!("(as {ty} {v})"));
                        }
                    } else {
                        let v = self.expr(0)?;
                        self.eat(")")?;
                        v
                    }
                } else {
                    let v = self.expr(0)?;
                    self.eat(")")?;
                    v
                }
            }
            T::P(x) if x == "{" && !self.py => self.list("{", "}")?,
            T::P(x) if x == "[" && self.py => self.list("[", "]")?,
            T::P(x) if x == "<" && self.py => {
                self.i += 1;
                let ty = self.ty(">").ok_or("cast")?;
                if self.p("{") {
                    self.struct_body(ty)?
                } else {
                    let v = self.unary()?;
                    return Ok(format!("(as {ty} {v})"));
                }
            }
            t => return Err(format!("unexpected {t:?}")),
        };
        while self.p(".") {
            let Some(T::Id(f)) = self.t.get(self.i + 1).cloned() else { return Err("member".into()) };
            self.i += 2;
            r = format!("(. {r} {f})");
        }
        Ok(r)
    }
    fn list(&mut self, open: &str, close: &str) -> Result<String, String> {
        self.eat(open)?;
        let mut v = vec![];
        while !self.p(close) {
            v.push(self.expr(0)?);
            if !self.p(close) {
                self.eat(",")?;
            }
        }
        self.eat(close)?;
        Ok(format!("[{}]", v.join(",")))
    }
    fn unary(&mut self) -> Result<String, String> {
        for op in ["-", "~", "!"] {
            if self.p(op) {
                self.i += 1;
                let v = self.unary()?;
                return Ok(format!("({op} {v})"));
            }
        }
        self.prim()
    }
    fn expr(&mut self, min: u8) -> Result<String, String> {
        let mut l = self.unary()?;
        while let Some(T::P(op)) = self.t.get(self.i).cloned() {
            let Some(p) = cprec(&op) else { break };
            if p < min {
                break;
            }
            self.i += 1;
            let r = self.expr(p + 1)?;
            l = format!("({op} {l} {r})");
        }
        Ok(l)
    }
}
fn read(s: &str, py: bool) -> Result<String, String> {
    let mut types: Vec<String> = CASTS.iter().map(|c| c.1.to_string()).collect();
    types.extend(["Pair", "Tup", "Mix"].map(|x| x.to_string()));
    let mut r = Rd { t: lex(s)?, i: 0, py, types };
    let v = r.expr(0)?;
    if r.i != r.t.len() {
        return Err(format!("trailing {:?}", &r.t[r.i..]));
    }
    Ok(v)
}

// ---- generation ----
struct G<'a> {
    lang: &'a str,
    /// names that may be used in expressions, (source, header)
    names: Vec<(String, String)>,
    pairs: Vec<(String, String)>,
}
impl G<'_> {
    fn leaf(&self, rng: &mut Rng) -> E {
        match rng.below(9) {
            0 | 1 | 2 => {
                let n = match rng.below(8) {
                    0 => u64::MAX as u128,
                    1 => i64::MAX as u128 + rng.below(2) as u128,
                    2 => u32::MAX as u128 + rng.below(2) as u128,
                    3 => (rng.next() >> rng.below(64)) as u128,
                    _ => rng.below(300) as u128,
                };
                let suf = *rng.pick(&["", "", "u8", "i8", "u16", "u32", "i32", "u64", "i64", "usize", "isize"]);
                let n = match suf {
                    "i64" | "isize" | "i32" | "i8" => n & 0x7f,
                    "u8" | "u16" | "u32" => n & 0xff,
                    _ => n,
                };
                E::Int(n, suf)
            }
            3 => E::Float(rng.pick(&["1.5", "0.25f32", "2.", "1e10", "3.5e-3", "1_000.5", "7.0_f64"]).to_string()),
            4 => E::Bool(rng.chance(1, 2)),
            5 => E::Char(*rng.pick(&['a', 'Z', '0', '"', '\'', '\\', '\n', '\0', '\t', '\r', '\u{1}', '\u{7f}', '\u{80}', '\u{9f}', '\u{a0}', 'é', 'λ', '\u{ffff}', '\u{1F600}', '?', '~']) as u32),
            _ => {
                let (a, b) = rng.pick(&self.names).clone();
                E::Name(a, b)
            }
        }
    }
    fn int_like(e: &E) -> bool {
        match e {
            E::Int(..) | E::Char(_) => true,
            E::Un(_, x) => Self::int_like(x),
            E::Bin(op, l, r) => !matches!(*op, "==" | "!=" | "<" | ">" | "<=" | ">=" | "&&" | "||") && Self::int_like(l) && Self::int_like(r),
            E::Cast(t, _) => t.starts_with(['u', 'i']),
            _ => false,
        }
    }
    fn scalar(&self, rng: &mut Rng, d: usize) -> E {
        if d == 0 {
            return self.leaf(rng);
        }
        match rng.below(12) {
            0 | 1 => self.leaf(rng),
            2 | 3 => {
                let x = self.scalar(rng, d - 1);
                // `!` of a truth value: see KF-C15-1
                let op = if rng.chance(1, 2) && Self::int_like(&x) { '!' } else { '-' };
                E::Un(op, Box::new(x))
            }
            4..=8 => {
                let op = *rng.pick(OPS);
                E::Bin(op, Box::new(self.scalar(rng, d - 1)), Box::new(self.scalar(rng, d - 1)))
            }
            9 | 10 => E::Cast(rng.pick(CASTS).0, Box::new(self.scalar(rng, d - 1))),
            _ => {
                let b = if rng.chance(1, 2) || self.pairs.is_empty() {
                    self.pair(rng, d - 1)
                } else {
                    let (a, b) = rng.pick(&self.pairs).clone();
                    E::Name(a, b)
                };
                let f = *rng.pick(&["x", "y"]);
                E::Field(Box::new(b), f.into(), f.into())
            }
        }
    }
    fn pair(&self, rng: &mut Rng, d: usize) -> E {
        let mut fs = vec![("x".to_string(), self.scalar(rng, d)), ("y".to_string(), self.scalar(rng, d))];
        rng.shuffle(&mut fs);
        E::Struct("Pair".into(), "Pair".into(), fs, vec![("x".into(), "x".into()), ("y".into(), "y".into())], false)
    }
    fn any(&self, rng: &mut Rng, d: usize) -> (E, String) {
        match rng.below(9) {
            0 => (self.pair(rng, d), "Pair".into()),
            1 => {
                let fs = (0..2).map(|i| (format!("_{i}"), self.scalar(rng, d))).collect();
                (E::Struct("Tup".into(), "Tup".into(), fs, (0..2).map(|i| (format!("_{i}"), format!("_{i}"))).collect(), true), "Tup".into())
            }
            2 => {
                let mut fs = vec![("p".to_string(), self.pair(rng, d.saturating_sub(1))), ("t".to_string(), E::Wrap(Box::new(self.scalar(rng, d)))), ("n".to_string(), self.scalar(rng, d)), ("a".to_string(), E::Array((0..2).map(|_| self.scalar(rng, 1)).collect()))];
                rng.shuffle(&mut fs);
                (E::Struct("Mix".into(), "Mix".into(), fs, ["p", "n", "a", "t"].map(|k| (k.to_string(), k.to_string())).to_vec(), false), "Mix".into())
            }
            3 => {
                let n = rng.below(4);
                (E::Array((0..n).map(|_| if rng.chance(1, 5) { self.pair(rng, 1) } else { self.scalar(rng, d) }).collect()), format!("[i64; {n}]"))
            }
            4 => (E::Wrap(Box::new(self.scalar(rng, d))), "Wrap".into()),
            _ => (self.scalar(rng, d), rng.pick(&["i64", "u8", "bool", "*const u8", "f64"]).to_string()),
        }
    }
}

/// the printed value of a constant
fn value_of(h: &str, lang: &str, name: &str) -> Option<String> {
    match lang {
        "C" => h.lines().find_map(|l| l.strip_prefix(&format!("#define {name} ")).map(|x| x.to_string())),
        "Cython" => h.lines().find_map(|l| {
            let (d, v) = l.split_once(" # = ")?;
            d.trim_end().split(['[', ' ', '*']).any(|w| w == name).then(|| v.to_string())
        }),
        _ => {
            if let Some(l) = h.lines().find_map(|l| l.strip_prefix(&format!("#define {name} ")).map(|x| x.to_string())) {
                // continued when it is a block
                return Some(l);
            }
            let mut at = 0;
            loop {
                let p = h[at..].find(&format!("{name}"))? + at;
                at = p + name.len();
                let before = h[..p].chars().last().unwrap_or(' ');
                let rest = &h[at..];
                if !(before == ' ' || before == '*') || !(rest.starts_with(" = ") || rest.starts_with('[')) {
                    continue;
                }
                let line = &h[h[..p].rfind('\n').map_or(0, |x| x + 1)..p];
                if !line.contains("const") {
                    continue;
                }
                let eq = rest.find(" = ")?;
                // the end is the `;` that ends a line
                let mut end = eq;
                while let Some(e) = rest[end..].find(";") {
                    end += e + 1;
                    if rest[end..].starts_with('\n') || end == rest.len() {
                        return Some(rest[eq + 3..end - 1].to_string());
                    }
                }
                return None;
            }
        }
    }
}

pub fn c15(ctx: &Ctx) {
    let n = ctx.n(8000, 150000);
    ctx.bound(format!("{n} random crates with 1 to 6 constants (free and associated, expression depth up to 4: all binary and unary operators, casts, integer, float, character and boolean literals, names, enum variants, associated constants, std limits, field accesses, struct, tuple-struct, transparent and array literals, raw identifiers, Self) in C, C++ (with and without static const / constexpr) and Cython: the printed value, parsed with C's precedences, is the tree written in Rust, and constants with an operand outside the supported subset are absent"));
    ctx.par("const", n, one);
    // KF-C15-1
    let inp = Input { src: "pub const C: bool = !true;\n".into(), toml: "language = \"C\"\n".into() };
    if let Gen::Ok(h) = run(ctx, &inp) {
        if value_of(&h, "C", "C").as_deref() == Some("~true") {
            if ctx.known("KF-C15-1") {
                ctx.known.lock().unwrap().push("KF-C15-1: `pub const C: bool = !true;` is printed as `~true`, which C evaluates to -2".into());
            } else {
                ctx.fail(fail(&inp, &h, "`!` on a truth value is printed as `~`"));
            }
        }
    }
}

const BAD: &[&str] = &["Unknown::SHIFT", "core::u8::MAX", "(Nope { x: 1 }).x", "Nope(1).0", "(if true { 1 } else { 2 })", "1i64.abs()", "(*&3)", "{ 1 }", "{ 1 }", "(Pair { x: 1, ..PAIRC }).x", "[1, 2][0]"];

fn one(ctx: &Ctx, _i: usize, rng: &mut Rng) -> Result<(), Fail> {
    let lang = *rng.pick(&["C", "C", "C++", "C++", "Cython"]);
    let mut toml = format!("language = \"{lang}\"\n[const]\n");
    let (mut st, mut ce) = (true, true);
    if lang == "C++" {
        st = rng.chance(2, 3);
        ce = rng.chance(1, 2);
    }
    let _ = writeln!(toml, "allow_static_const = {st}\nallow_constexpr = {ce}");
    let cls = lang != "C++" || rng.chance(1, 2);
    let pre = rng.chance(1, 3);
    let _ = writeln!(toml, "[enum]\nenum_class = {cls}\nprefix_with_name = {pre}");
    let mut s = String::from("pub type Al = i32;\n#[repr(C)] pub struct Pair { pub x: i64, pub y: i64 }\n#[repr(C)] pub struct Tup(pub i64, pub i64);\n#[repr(transparent)] pub struct Wrap(pub i64);\n#[repr(C)] pub struct Mix { pub p: Pair, pub n: i64, pub a: [i64; 2], pub t: Wrap }\n#[repr(u8)] pub enum En { Va, Vb }\n");
    let vn = |v: &str| {
        let n = if pre { format!("En_{v}") } else { v.to_string() };
        if lang == "C++" && cls {
            format!("En::{n}")
        } else {
            n
        }
    };
    let mut names: Vec<(String, String)> = vec![("OTHER".into(), "OTHER".into()), ("r#else_".into(), "else_".into()), ("En::Va".into(), vn("Va")), ("En::Vb".into(), vn("Vb")), ("Pair::KA".into(), "Pair_KA".into())];
    for (t, c) in [("u8", "UINT8"), ("i16", "INT16"), ("u32", "UINT32"), ("i64", "INT64")] {
        names.push((format!("{t}::MAX"), format!("{c}_MAX")));
        names.push((format!("{t}::MIN"), if t.starts_with('u') { "0".into() } else { format!("{c}_MIN") }));
    }
    // operands that no header can express: the constant must be left out
    let with_bad = rng.chance(1, 3);
    if with_bad {
        for b in BAD {
            names.push((b.to_string(), "@bad".into()));
        }
    }
    let _ = writeln!(s, "pub const OTHER: i64 = 3;\npub const r#else_: i64 = 4;");
    let _ = writeln!(s, "pub const PAIRC: Pair = Pair {{ x: 1, y: 2 }};");
    let g = G { lang, names, pairs: vec![("PAIRC".into(), "PAIRC".into())] };
    let _ = g.lang;
    let mut wants: Vec<(String, String)> = vec![];
    let n = 1 + rng.below(6);
    let mut assoc = String::from("impl Pair { pub const KA: i64 = 9;\n");
    for k in 0..n {
        let d = rng.below(5);
        let (e, ty) = g.any(rng, d);
        let t = src(&e, rng, 0);
        if rng.chance(1, 4) {
            // in an impl block, where the type may be called Self
            let t = if rng.chance(1, 2) { self_names(&t) } else { t };
            let _ = writeln!(assoc, "pub const K{k}: {ty} = {t};");
            wants.push((format!("Pair_K{k}"), want(&e)));
        } else {
            let _ = writeln!(s, "pub const CONST{k}: {ty} = {t};");
            wants.push((format!("CONST{k}"), want(&e)));
        }
    }
    s.push_str(&assoc);
    s.push_str("}\n#[no_mangle] pub extern \"C\" fn fun(a: Pair, b: Tup, c: Wrap, d: Mix, e: En, f: Al) {}\n");
    let inp = Input { src: s, toml };
    let h = header(ctx, &inp)?;
    ctx.interesting();
    let py = lang == "Cython";
    for (name, w) in wants {
        if w.contains("@bad") {
            if let Some(v) = value_of(&h, lang, &name) {
                return Err(fail(&inp, &h, format!("{name} is {v}, but its expression cannot be expressed")));
            }
            continue;
        }
        let v = value_of(&h, lang, &name).ok_or_else(|| fail(&inp, &h, format!("constant {name} is not in the header")))?;
        let w = if py { unnamed(&w) } else { w };
        match read(&v, py) {
            Ok(got) if got == w => {}
            Ok(got) => return Err(fail(&inp, &h, format!("{name} is {v}, which is {got}; written was {w}"))),
            Err(e) => return Err(fail(&inp, &h, format!("{name} is {v}, which cannot be read: {e}; written was {w}"))),
        }
    }
    Ok(())
}
/// Cython literals do not name their fields
fn unnamed(w: &str) -> String {
    let mut o = w.to_string();
    for f in ["x", "y", "_0", "_1", "p", "n", "a", "t"] {
        for b in ["{", ","] {
            o = o.replace(&format!("{b}{f}="), b);
        }
    }
    o
}
/// the type's own name replaced by Self
fn self_names(t: &str) -> String {
    t.replace("Pair::", "Self::").replace("Pair {", "Self {").replace("as *const Pair", "as *const Self")
}
