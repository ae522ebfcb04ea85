//! An independent reader of the headers cbindgen prints: a C (and enough C++) declaration parser
//! that follows the C declarator grammar. It knows nothing about how cbindgen prints.
use std::fmt;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum CT {
    Base { is_const: bool, tag: Option<String>, name: String, args: Vec<CT> },
    Ptr { is_const: bool, attr: Option<String>, is_ref: bool, to: Box<CT> },
    Arr { len: String, of: Box<CT> },
    Fn { ret: Box<CT>, args: Vec<(Option<String>, CT)>, noreturn: bool },
}

impl fmt::Debug for CT {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            CT::Base { is_const, tag, name, args } => {
                if *is_const {
                    write!(f, "const ")?;
                }
                if let Some(t) = tag {
                    write!(f, "{t} ")?;
                }
                write!(f, "{name}")?;
                if !args.is_empty() {
                    write!(f, "{args:?}")?;
                }
                Ok(())
            }
            CT::Ptr { is_const, attr, is_ref, to } => write!(
                f,
                "{}{}{} to ({to:?})",
                if *is_const { "const " } else { "" },
                attr.as_ref().map(|a| format!("{a} ")).unwrap_or_default(),
                if *is_ref { "reference" } else { "pointer" },
            ),
            CT::Arr { len, of } => write!(f, "array[{len}] of ({of:?})"),
            CT::Fn { ret, args, noreturn } => {
                write!(f, "{}function(", if *noreturn { "noreturn " } else { "" })?;
                for (i, (n, t)) in args.iter().enumerate() {
                    if i > 0 {
                        write!(f, ", ")?;
                    }
                    if let Some(n) = n {
                        write!(f, "{n}: ")?;
                    }
                    write!(f, "{t:?}")?;
                }
                write!(f, ") returning ({ret:?})")
            }
        }
    }
}

impl CT {
    pub fn base(name: &str) -> CT {
        CT::Base { is_const: false, tag: None, name: name.into(), args: vec![] }
    }
    /// Qualify the object type with const, as C does (an array's const is its element's).
    pub fn with_const(self) -> CT {
        match self {
            CT::Base { tag, name, args, .. } => CT::Base { is_const: true, tag, name, args },
            CT::Ptr { attr, is_ref, to, .. } => CT::Ptr { is_const: true, attr, is_ref, to },
            CT::Arr { len, of } => CT::Arr { len, of: Box::new(of.with_const()) },
            f => f,
        }
    }
    /// const on the pointer level that points at a function is not printed by cbindgen
    /// (known finding KF-C01-1): normal form used on both sides when that finding is listed.
    pub fn strip_fn_const(&self) -> CT {
        match self {
            CT::Base { is_const, tag, name, args } => CT::Base {
                is_const: *is_const,
                tag: tag.clone(),
                name: name.clone(),
                args: args.iter().map(|a| a.strip_fn_const()).collect(),
            },
            CT::Ptr { is_const, attr, is_ref, to } => {
                let f = matches!(**to, CT::Fn { .. });
                CT::Ptr { is_const: *is_const && !f, attr: attr.clone(), is_ref: *is_ref, to: Box::new(to.strip_fn_const()) }
            }
            CT::Arr { len, of } => CT::Arr { len: len.clone(), of: Box::new(of.strip_fn_const()) },
            CT::Fn { ret, args, noreturn } => CT::Fn {
                ret: Box::new(ret.strip_fn_const()),
                args: args.iter().map(|(n, t)| (n.clone(), t.strip_fn_const())).collect(),
                noreturn: *noreturn,
            },
        }
    }
    pub fn map_base(&self, f: &mut impl FnMut(&CT) -> CT) -> CT {
        match self {
            CT::Base { .. } => f(self),
            CT::Ptr { is_const, attr, is_ref, to } => {
                CT::Ptr { is_const: *is_const, attr: attr.clone(), is_ref: *is_ref, to: Box::new(to.map_base(f)) }
            }
            CT::Arr { len, of } => CT::Arr { len: len.clone(), of: Box::new(of.map_base(f)) },
            CT::Fn { ret, args, noreturn } => {
                let args = args.iter().map(|(n, t)| (n.clone(), t.map_base(f))).collect();
                CT::Fn { ret: Box::new(ret.map_base(f)), args, noreturn: *noreturn }
            }
        }
    }
    pub fn no_tags(&self) -> CT {
        self.map_base(&mut |b| match b {
            CT::Base { is_const, name, args, .. } => CT::Base {
                is_const: *is_const,
                tag: None,
                name: name.clone(),
                args: args.iter().map(|a| a.no_tags()).collect(),
            },
            x => x.clone(),
        })
    }
    pub fn no_arg_names(&self) -> CT {
        match self {
            CT::Base { .. } => self.clone(),
            CT::Ptr { is_const, attr, is_ref, to } => {
                CT::Ptr { is_const: *is_const, attr: attr.clone(), is_ref: *is_ref, to: Box::new(to.no_arg_names()) }
            }
            CT::Arr { len, of } => CT::Arr { len: len.clone(), of: Box::new(of.no_arg_names()) },
            CT::Fn { ret, args, noreturn } => CT::Fn {
                ret: Box::new(ret.no_arg_names()),
                args: args.iter().map(|(_, t)| (None, t.no_arg_names())).collect(),
                noreturn: *noreturn,
            },
        }
    }
    /// Every base type in it, outermost first.
    pub fn bases(&self, out: &mut Vec<CT>) {
        match self {
            CT::Base { args, .. } => {
                out.push(self.clone());
                for a in args {
                    a.bases(out)
                }
            }
            CT::Ptr { to, .. } => to.bases(out),
            CT::Arr { of, .. } => of.bases(out),
            CT::Fn { ret, args, .. } => {
                ret.bases(out);
                for (_, a) in args {
                    a.bases(out)
                }
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(String),
    Num(String),
    Str(String),
    P(String),
    Dir(String),
}

impl Tok {
    pub fn text(&self) -> &str {
        match self {
            Tok::Id(s) | Tok::Num(s) | Tok::Str(s) | Tok::P(s) | Tok::Dir(s) => s,
        }
    }
}

/// Tokens; comments are dropped, preprocessor lines become single tokens.
pub fn lex(text: &str) -> Result<Vec<Tok>, String> {
    let b: Vec<char> = text.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    let mut line_start = true;
    while i < b.len() {
        let c = b[i];
        if c == '\n' {
            line_start = true;
            i += 1;
            continue;
        }
        if c.is_whitespace() {
            i += 1;
            continue;
        }
        if c == '#' && line_start {
            let s = i;
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
            let l: String = b[s..i].iter().collect();
            out.push(Tok::Dir(l.trim().to_string()));
            continue;
        }
        line_start = false;
        if c == '/' && i + 1 < b.len() && b[i + 1] == '/' {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
            continue;
        }
        if c == '/' && i + 1 < b.len() && b[i + 1] == '*' {
            i += 2;
            while i + 1 < b.len() && !(b[i] == '*' && b[i + 1] == '/') {
                i += 1;
            }
            if i + 1 >= b.len() {
                return Err("unterminated comment".into());
            }
            i += 2;
            continue;
        }
        if c.is_alphabetic() || c == '_' || c == '$' {
            let s = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_' || b[i] == '$') {
                i += 1;
            }
            out.push(Tok::Id(b[s..i].iter().collect()));
            continue;
        }
        if c.is_ascii_digit() {
            let s = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '.' || b[i] == '_') {
                i += 1;
            }
            out.push(Tok::Num(b[s..i].iter().collect()));
            continue;
        }
        if c == '"' || c == '\'' {
            let s = i;
            i += 1;
            while i < b.len() && b[i] != c {
                if b[i] == '\\' {
                    i += 1;
                }
                i += 1;
            }
            i += 1;
            if i > b.len() {
                return Err("unterminated string".into());
            }
            out.push(Tok::Str(b[s..i].iter().collect()));
            continue;
        }
        if i + 2 < b.len() && b[i] == '.' && b[i + 1] == '.' && b[i + 2] == '.' {
            out.push(Tok::P("...".into()));
            i += 3;
            continue;
        }
        if i + 1 < b.len() {
            let two: String = b[i..i + 2].iter().collect();
            if ["::", "==", "!=", "<=", ">=", "&&", "||", "->", "<<"].contains(&two.as_str()) {
                out.push(Tok::P(two));
                i += 2;
                continue;
            }
        }
        out.push(Tok::P(c.to_string()));
        i += 1;
    }
    Ok(out)
}

#[derive(Clone, Debug, PartialEq)]
pub struct Member {
    pub name: Option<String>,
    pub ty: CT,
    pub cond: Vec<String>,
    pub bits: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Record {
    pub kind: String, // struct | union
    pub name: Option<String>,
    pub typedef: Option<String>,
    pub generics: Vec<(String, String)>,
    pub attrs: Vec<String>,
    pub fields: Vec<Member>,
    /// anonymous or named nested records, with their position among the fields
    pub nested: Vec<(usize, Record, Option<String>)>,
    pub enums: Vec<EnumD>,
    /// operator and other member functions: their header tokens joined
    pub methods: Vec<String>,
    pub consts: Vec<(String, CT)>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct EnumD {
    pub name: Option<String>,
    pub typedef: Option<String>,
    pub class: bool,
    pub base: Option<String>,
    pub variants: Vec<(String, Option<String>, Vec<String>)>,
    pub attrs: Vec<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum D {
    Rec(Record),
    Enum(EnumD),
    Fwd { kind: String, name: String, typedef: Option<String>, generics: Vec<(String, String)> },
    Typedef { name: String, ty: CT, generics: Vec<(String, String)> },
    Func { name: String, ty: CT, pre: Vec<String>, post: Vec<String> },
    Var { name: String, ty: CT },
    Const { name: String, ty: CT, value: Vec<Tok>, constexpr: bool },
    Define { name: String, value: String },
    Inline(String),
    Using(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Decl {
    pub d: D,
    pub cond: Vec<String>,
    pub ns: Vec<String>,
    pub extern_c: bool,
}

impl Decl {
    pub fn name(&self) -> Option<&str> {
        match &self.d {
            D::Rec(r) => r.typedef.as_deref().or(r.name.as_deref()),
            D::Enum(e) => e.typedef.as_deref().or(e.name.as_deref()),
            D::Fwd { name, .. } | D::Typedef { name, .. } | D::Func { name, .. } | D::Var { name, .. } | D::Const { name, .. } | D::Define { name, .. } => Some(name),
            _ => None,
        }
    }
}

pub const ATTRS: &[&str] = &["VX_NULLABLE", "VX_NONNULL"];
pub const NORETURN: &str = "VX_NORETURN";
/// Attribute-like words the harness configures itself.
pub fn is_attr(s: &str) -> bool {
    s.starts_with("VX_")
}

const BUILTIN: &[&str] = &["void", "char", "short", "int", "long", "float", "double", "signed", "unsigned", "bool", "_Bool"];

pub struct P {
    t: Vec<Tok>,
    i: usize,
    cond: Vec<String>,
    pub cpp: bool,
    ns: Vec<String>,
    extern_c: usize,
    loose: bool,
}

type R<T> = Result<T, String>;

/// Drop the branches decided by the language mode, keep every other conditional as a marker.
pub fn preprocess(toks: Vec<Tok>, cpp: bool) -> R<Vec<Tok>> {
    // stack entries: Some(taken now, anything taken) for decided ones, None for kept ones
    let mut out = vec![];
    let mut stack: Vec<Option<bool>> = vec![];
    for t in toks {
        if let Tok::Dir(d) = &t {
            let l = d.split("//").next().unwrap().trim().to_string();
            let decided = |c: &str| -> Option<bool> {
                match c {
                    "__cplusplus" => Some(cpp),
                    _ if c.starts_with("__STDC_VERSION__ >=") => Some(false),
                    _ => None,
                }
            };
            if let Some(c) = l.strip_prefix("#ifdef ") {
                let dec = decided(c.trim());
                stack.push(dec);
                if dec.is_none() {
                    out.push(Tok::Dir(format!("#if defined({})", c.trim())));
                }
                continue;
            }
            if let Some(c) = l.strip_prefix("#if ") {
                let dec = decided(c.trim());
                stack.push(dec);
                if dec.is_none() {
                    out.push(Tok::Dir(l));
                }
                continue;
            }
            if l.starts_with("#ifndef ") {
                stack.push(None);
                out.push(Tok::Dir(l));
                continue;
            }
            if l == "#else" {
                match stack.last_mut() {
                    None => return Err("#else without #if".into()),
                    Some(Some(b)) => *b = !*b,
                    Some(None) => out.push(Tok::Dir(l)),
                }
                continue;
            }
            if l == "#endif" {
                match stack.pop() {
                    None => return Err("#endif without #if".into()),
                    Some(None) => out.push(Tok::Dir(l)),
                    _ => {}
                }
                continue;
            }
            if stack.iter().any(|s| *s == Some(false)) {
                continue;
            }
            out.push(t);
            continue;
        }
        if stack.iter().any(|s| *s == Some(false)) {
            continue;
        }
        out.push(t);
    }
    if !stack.is_empty() {
        return Err("unclosed #if".into());
    }
    Ok(out)
}

pub fn parse(text: &str, cpp: bool) -> R<Vec<Decl>> {
    parse_with(text, cpp, false)
}

/// As `parse`, but a function may return an array (what a generic may be asked to do).
pub fn parse_loose(text: &str, cpp: bool) -> R<Vec<Decl>> {
    parse_with(text, cpp, true)
}

fn parse_with(text: &str, cpp: bool, loose: bool) -> R<Vec<Decl>> {
    let t = preprocess(lex(text)?, cpp)?;
    let mut p = P { t, i: 0, cond: vec![], cpp, ns: vec![], extern_c: 0, loose };
    let mut out = vec![];
    p.items(&mut out, false)?;
    if !p.cond.is_empty() {
        return Err("unclosed #if".into());
    }
    Ok(out)
}

impl P {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn at(&self, k: usize) -> &str {
        self.t.get(self.i + k).map(|t| t.text()).unwrap_or("")
    }
    fn is_id(&self, k: usize) -> bool {
        matches!(self.t.get(self.i + k), Some(Tok::Id(_)))
    }
    fn eat(&mut self, s: &str) -> bool {
        if self.at(0) == s && !matches!(self.peek(), Some(Tok::Str(_)) | Some(Tok::Dir(_))) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn ctxt(&self) -> String {
        let a = self.i.saturating_sub(12);
        let b = (self.i + 8).min(self.t.len());
        let f = |x: &[Tok]| x.iter().map(|t| t.text()).collect::<Vec<_>>().join(" ");
        format!("{} >>HERE<< {}", f(&self.t[a..self.i.min(self.t.len())]), f(&self.t[self.i.min(b)..b]))
    }
    fn expect(&mut self, s: &str) -> R<()> {
        if self.eat(s) {
            Ok(())
        } else {
            Err(format!("expected `{s}` at: {}", self.ctxt()))
        }
    }
    fn ident(&mut self) -> R<String> {
        match self.peek() {
            Some(Tok::Id(s)) => {
                let s = s.clone();
                self.i += 1;
                Ok(s)
            }
            _ => Err(format!("expected identifier at: {}", self.ctxt())),
        }
    }
    /// Handle conditional directives; returns true if one was consumed.
    fn directive(&mut self) -> R<Option<String>> {
        if let Some(Tok::Dir(d)) = self.peek().cloned() {
            self.i += 1;
            if let Some(c) = d.strip_prefix("#if ") {
                self.cond.push(c.trim().to_string());
                return Ok(Some(String::new()));
            }
            if let Some(c) = d.strip_prefix("#ifndef ") {
                self.cond.push(format!("!defined({})", c.trim()));
                return Ok(Some(String::new()));
            }
            if d == "#endif" {
                if self.cond.pop().is_none() {
                    return Err("#endif without #if".into());
                }
                return Ok(Some(String::new()));
            }
            if d == "#else" {
                let c = self.cond.pop().ok_or("#else")?;
                self.cond.push(format!("!({c})"));
                return Ok(Some(String::new()));
            }
            return Ok(Some(d));
        }
        Ok(None)
    }

    fn items(&mut self, out: &mut Vec<Decl>, nested: bool) -> R<()> {
        loop {
            if self.peek().is_none() {
                if nested {
                    return Err("unexpected end of file in a block".into());
                }
                return Ok(());
            }
            if nested && self.at(0) == "}" {
                return Ok(());
            }
            if let Some(d) = self.directive()? {
                if let Some(rest) = d.strip_prefix("#define ") {
                    let (n, v) = match rest.find(' ') {
                        Some(k) => (&rest[..k], rest[k + 1..].trim()),
                        None => (rest, ""),
                    };
                    self.push(out, D::Define { name: n.into(), value: v.into() });
                }
                continue;
            }
            if self.at(0) == "extern" && self.at(1) == "\"C\"" {
                self.i += 2;
                self.expect("{")?;
                self.extern_c += 1;
                self.items(out, true)?;
                self.expect("}")?;
                self.extern_c -= 1;
                continue;
            }
            if self.eat("namespace") {
                let n = self.ident()?;
                self.expect("{")?;
                self.ns.push(n);
                self.items(out, true)?;
                self.expect("}")?;
                self.ns.pop();
                continue;
            }
            if self.at(0) == "using" && self.at(1) == "namespace" {
                self.i += 2;
                let mut s = String::new();
                while !self.eat(";") {
                    s.push_str(self.at(0));
                    self.i += 1;
                    if self.peek().is_none() {
                        return Err("eof".into());
                    }
                }
                self.push(out, D::Using(s));
                continue;
            }
            if self.eat(";") {
                continue;
            }
            self.item(out)?;
        }
    }

    fn push(&mut self, out: &mut Vec<Decl>, d: D) {
        out.push(Decl { d, cond: self.cond.clone(), ns: self.ns.clone(), extern_c: self.extern_c > 0 });
    }

    fn generics(&mut self) -> R<Vec<(String, String)>> {
        let mut g = vec![];
        if self.eat("template") {
            self.expect("<")?;
            while !self.eat(">") {
                let mut words = vec![];
                while self.at(0) != "," && self.at(0) != ">" && self.at(0) != "=" {
                    words.push(self.at(0).to_string());
                    self.i += 1;
                    if self.peek().is_none() {
                        return Err("eof".into());
                    }
                }
                if self.eat("=") {
                    // default argument
                    let d = self.generic_arg()?;
                    words.push(format!("={d:?}"));
                    let n = words.len();
                    words.swap(n - 1, n - 2);
                }
                self.eat(",");
                let name = words.pop().unwrap_or_default();
                g.push((words.join(" "), name));
            }
        }
        Ok(g)
    }

    fn attrs(&mut self) -> R<Vec<String>> {
        let mut v = vec![];
        loop {
            if self.is_id(0) && is_attr(self.at(0)) {
                let mut s = self.ident()?;
                if self.at(0) == "(" {
                    s.push_str(&self.balanced("(", ")")?);
                }
                v.push(s);
            } else if self.at(0) == "__attribute__" || self.at(0) == "alignas" {
                let mut s = self.ident()?;
                s.push_str(&self.balanced("(", ")")?);
                v.push(s);
            } else {
                return Ok(v);
            }
        }
    }

    fn balanced(&mut self, o: &str, c: &str) -> R<String> {
        let mut d = 0;
        let mut s = String::new();
        loop {
            let t = self.peek().ok_or("eof in balanced")?.clone();
            if !matches!(t, Tok::Str(_) | Tok::Dir(_)) {
                if t.text() == o {
                    d += 1
                }
                if t.text() == c {
                    d -= 1
                }
            }
            if !s.is_empty() {
                s.push(' ');
            }
            s.push_str(t.text());
            self.i += 1;
            if d == 0 {
                return Ok(s);
            }
        }
    }

    fn item(&mut self, out: &mut Vec<Decl>) -> R<()> {
        let generics = self.generics()?;
        let pre = self.attrs()?;
        if self.at(0) == "using" {
            self.i += 1;
            let name = self.ident()?;
            let _a = self.attrs()?;
            self.expect("=")?;
            let (n, ty) = self.decl()?;
            if n.is_some() {
                return Err("named using".into());
            }
            self.expect(";")?;
            self.push(out, D::Typedef { name, ty, generics });
            return Ok(());
        }
        if self.at(0) == "typedef" {
            self.i += 1;
            if let Some(k) = self.record_ahead() {
                if k == "enum" {
                    let mut e = self.enum_()?;
                    e.typedef = Some(self.ident()?);
                    self.attrs()?;
                    self.expect(";")?;
                    self.push(out, D::Enum(e));
                } else {
                    let mut r = self.record()?;
                    r.typedef = Some(self.ident()?);
                    self.attrs()?;
                    self.expect(";")?;
                    self.push(out, D::Rec(r));
                }
                return Ok(());
            }
            let kw = self.at(0).to_string();
            let (n, ty) = self.decl()?;
            self.attrs()?;
            self.expect(";")?;
            let n = n.ok_or("unnamed typedef")?;
            if let CT::Base { tag: Some(t), name, is_const: false, args } = &ty {
                if *name == n && args.is_empty() && kw == *t {
                    self.push(out, D::Fwd { kind: kw, name: n.clone(), typedef: Some(n), generics });
                    return Ok(());
                }
            }
            self.push(out, D::Typedef { name: n, ty, generics });
            return Ok(());
        }
        if ["struct", "union", "enum"].contains(&self.at(0)) {
            if let Some(k) = self.record_ahead() {
                if k == "enum" {
                    let e = self.enum_()?;
                    self.expect(";")?;
                    self.push(out, D::Enum(e));
                } else {
                    let mut r = self.record()?;
                    self.expect(";")?;
                    r.generics = generics;
                    self.push(out, D::Rec(r));
                }
                return Ok(());
            }
            // forward declaration?
            let mut k = 1;
            while self.is_id(k) && (is_attr(self.at(k)) || self.at(k) == "class") {
                k += 1;
            }
            if self.is_id(k) && self.at(k + 1) == ";" {
                let kind = self.at(0).to_string();
                let name = self.at(k).to_string();
                self.i += k + 2;
                self.push(out, D::Fwd { kind, name, typedef: None, generics });
                return Ok(());
            }
        }
        // function, variable or constant
        let mut constexpr = false;
        let mut is_const_def = false;
        let mut ext = false;
        let mut inline = false;
        loop {
            match self.at(0) {
                "extern" => ext = true,
                "constexpr" => {
                    constexpr = true;
                    is_const_def = true
                }
                "static" => is_const_def = true,
                "inline" => inline = true,
                _ => break,
            }
            self.i += 1;
        }
        if inline && !is_const_def {
            // inline function definition
            let start = self.i;
            while self.at(0) != "{" && self.at(0) != ";" && self.at(0) != "=" {
                if self.at(0) == "(" {
                    self.balanced("(", ")")?;
                    continue;
                }
                self.i += 1;
                if self.peek().is_none() {
                    return Err("eof in inline".into());
                }
            }
            if self.at(0) == "{" {
                let s = self.t[start..self.i].iter().map(|t| t.text()).collect::<Vec<_>>().join(" ");
                self.balanced("{", "}")?;
                self.push(out, D::Inline(s));
                return Ok(());
            }
            self.i = start;
            is_const_def = true;
        }
        let (n, ty) = self.decl()?;
        let post = self.attrs()?;
        let n = n.ok_or_else(|| format!("declaration without a name at: {}", self.ctxt()))?;
        if self.eat("=") {
            let mut v = vec![];
            let mut d = 0i32;
            while !(d == 0 && self.at(0) == ";") {
                let t = self.peek().ok_or("eof in initializer")?.clone();
                match t.text() {
                    "{" | "(" | "[" => d += 1,
                    "}" | ")" | "]" => d -= 1,
                    _ => {}
                }
                v.push(t);
                self.i += 1;
            }
            self.expect(";")?;
            self.push(out, D::Const { name: n, ty, value: v, constexpr });
            return Ok(());
        }
        self.expect(";")?;
        let _ = is_const_def;
        match ty {
            CT::Fn { .. } => self.push(out, D::Func { name: n, ty, pre, post }),
            _ => {
                if !ext {
                    return Err(format!("variable {n} without extern"));
                }
                self.push(out, D::Var { name: n, ty })
            }
        }
        Ok(())
    }

    /// `struct|union|enum [attrs] [name] [: base] {` ahead?
    fn record_ahead(&self) -> Option<String> {
        let k = self.at(0);
        if !["struct", "union", "enum"].contains(&k) {
            return None;
        }
        let mut j = 1;
        let mut depth = 0i32;
        loop {
            match self.at(j) {
                "{" if depth == 0 => return Some(k.to_string()),
                ";" | "" | "*" | "," | "=" if depth == 0 => return None,
                ")" if depth == 0 => return None,
                "(" => depth += 1,
                ")" => depth -= 1,
                _ => {}
            }
            j += 1;
            if j > 60 {
                return None;
            }
        }
    }

    fn enum_(&mut self) -> R<EnumD> {
        self.expect("enum")?;
        let mut e = EnumD { class: self.eat("class"), ..Default::default() };
        e.attrs = self.attrs()?;
        if self.at(0) != "{" && self.at(0) != ":" {
            e.name = Some(self.ident()?);
        }
        if self.eat(":") {
            let mut s = vec![];
            while self.at(0) != "{" {
                s.push(self.at(0).to_string());
                self.i += 1;
                if self.peek().is_none() {
                    return Err("eof".into());
                }
            }
            e.base = Some(s.join(" "));
        }
        self.expect("{")?;
        loop {
            if self.directive()?.is_some() {
                continue;
            }
            if self.eat("}") {
                break;
            }
            let n = self.ident()?;
            self.attrs()?;
            let mut v = None;
            if self.eat("=") {
                let mut s = vec![];
                let mut d = 0;
                while !(d == 0 && (self.at(0) == "," || self.at(0) == "}")) {
                    match self.at(0) {
                        "(" => d += 1,
                        ")" => d -= 1,
                        "" => return Err("eof in enum".into()),
                        _ => {}
                    }
                    if let Some(Tok::Dir(_)) = self.peek() {
                        return Err("directive in discriminant".into());
                    }
                    s.push(self.at(0).to_string());
                    self.i += 1;
                }
                v = Some(s.join(" "));
            }
            e.variants.push((n, v, self.cond.clone()));
            if self.at(0) != "}" {
                self.expect(",")?;
            }
        }
        Ok(e)
    }

    fn record(&mut self) -> R<Record> {
        let kind = self.ident()?;
        let mut r = Record { kind, ..Default::default() };
        r.attrs = self.attrs()?;
        if self.at(0) != "{" {
            r.name = Some(self.ident()?);
        }
        self.expect("{")?;
        loop {
            if self.directive()?.is_some() {
                continue;
            }
            if self.eat("}") {
                break;
            }
            if self.eat(";") {
                continue;
            }
            if ["public", "private"].contains(&self.at(0)) && self.at(1) == ":" {
                self.i += 2;
                continue;
            }
            self.attrs()?;
            if let Some(k) = self.record_ahead() {
                if k == "enum" {
                    let e = self.enum_()?;
                    self.expect(";")?;
                    r.enums.push(e);
                } else {
                    let pos = r.fields.len();
                    let n = self.record()?;
                    let name = if self.at(0) == ";" { None } else { Some(self.ident()?) };
                    self.expect(";")?;
                    r.nested.push((pos, n, name));
                }
                continue;
            }
            if self.method_ahead(&r) {
                let start = self.i;
                while self.at(0) != "{" && self.at(0) != ";" {
                    if self.at(0) == "(" {
                        self.balanced("(", ")")?;
                        continue;
                    }
                    self.i += 1;
                    if self.peek().is_none() {
                        return Err("eof in method".into());
                    }
                }
                let s = self.t[start..self.i].iter().map(|t| t.text()).collect::<Vec<_>>().join(" ");
                if self.at(0) == "{" {
                    let body = self.balanced("{", "}")?;
                    r.methods.push(format!("{s} {body}"));
                } else {
                    self.i += 1;
                    r.methods.push(s);
                }
                continue;
            }
            if self.at(0) == "static" {
                self.i += 1;
                let (n, ty) = self.decl()?;
                if self.eat("=") {
                    while self.at(0) != ";" {
                        self.i += 1;
                        if self.peek().is_none() {
                            return Err("eof".into());
                        }
                    }
                }
                self.expect(";")?;
                r.consts.push((n.ok_or("unnamed static")?, ty));
                continue;
            }
            let (n, ty) = self.decl()?;
            let mut bits = None;
            if self.eat(":") {
                bits = Some(self.at(0).to_string());
                self.i += 1;
            }
            self.attrs()?;
            self.expect(";")?;
            if n.is_none() {
                return Err(format!("member without a name: {ty:?}"));
            }
            r.fields.push(Member { name: n, ty, cond: self.cond.clone(), bits });
        }
        Ok(r)
    }

    /// Is the next member a (C++) member function?
    fn method_ahead(&self, r: &Record) -> bool {
        if !self.cpp {
            return false;
        }
        let mut j = 0;
        // constructor / destructor
        if self.at(0) == "~" || (Some(self.at(0)) == r.name.as_deref() && self.at(1) == "(" && !["*", "&", "("].contains(&self.at(2))) {
            return true;
        }
        let mut depth = 0i32;
        let mut stat = false;
        loop {
            match self.at(j) {
                "operator" => return true,
                "friend" => return true,
                "static" => stat = true,
                ";" | "" if depth == 0 => return false,
                "{" if depth == 0 => return true,
                "(" => depth += 1,
                ")" => depth -= 1,
                "=" if depth == 0 => return false,
                _ => {}
            }
            let _ = stat;
            j += 1;
            if j > 400 {
                return false;
            }
        }
    }

    fn generic_arg(&mut self) -> R<CT> {
        if let Some(Tok::Num(n)) = self.peek().cloned() {
            self.i += 1;
            return Ok(CT::base(&n));
        }
        if self.at(0) == "-" {
            self.i += 1;
            let n = self.at(0).to_string();
            self.i += 1;
            return Ok(CT::base(&format!("-{n}")));
        }
        let (n, t) = self.decl()?;
        if n.is_some() {
            return Err("named generic argument".into());
        }
        Ok(t)
    }

    /// specifiers + declarator
    pub fn decl(&mut self) -> R<(Option<String>, CT)> {
        let mut is_const = false;
        let mut tag = None;
        let mut name: Option<String> = None;
        let mut builtin = vec![];
        let mut args = vec![];
        if self.eat("...") {
            return Ok((None, CT::base("...")));
        }
        loop {
            let w = self.at(0).to_string();
            if !self.is_id(0) {
                break;
            }
            if w == "const" {
                if is_const {
                    return Err(format!("duplicate const at: {}", self.ctxt()));
                }
                is_const = true;
                self.i += 1;
            } else if ["struct", "union", "enum"].contains(&w.as_str()) {
                if tag.is_some() || name.is_some() || !builtin.is_empty() {
                    return Err(format!("misplaced {w} at: {}", self.ctxt()));
                }
                tag = Some(w);
                self.i += 1;
            } else if BUILTIN.contains(&w.as_str()) {
                if name.is_some() {
                    break;
                }
                builtin.push(w);
                self.i += 1;
            } else if name.is_none() && builtin.is_empty() {
                if is_attr(&w) {
                    return Err(format!("attribute in type at: {}", self.ctxt()));
                }
                let mut n = w;
                self.i += 1;
                while self.at(0) == "::" {
                    self.i += 1;
                    n = format!("{n}::{}", self.ident()?);
                }
                name = Some(n);
                if self.at(0) == "<" {
                    self.i += 1;
                    while !self.eat(">") {
                        args.push(self.generic_arg()?);
                        if self.at(0) != ">" {
                            self.expect(",")?;
                        }
                    }
                    if args.is_empty() {
                        return Err("empty generic arguments".into());
                    }
                }
            } else {
                break;
            }
        }
        let name = match name {
            Some(n) => n,
            None if !builtin.is_empty() => builtin.join(" "),
            None => return Err(format!("no type at: {}", self.ctxt())),
        };
        let base = CT::Base { is_const, tag, name, args };
        self.declarator(base)
    }

    fn declarator(&mut self, mut base: CT) -> R<(Option<String>, CT)> {
        while self.at(0) == "*" || self.at(0) == "&" {
            let is_ref = self.at(0) == "&";
            self.i += 1;
            let mut is_const = false;
            let mut attr = None;
            loop {
                if self.at(0) == "const" {
                    if is_const {
                        return Err("duplicate const on pointer".into());
                    }
                    is_const = true;
                    self.i += 1;
                } else if self.is_id(0) && ATTRS.contains(&self.at(0)) {
                    if attr.is_some() {
                        return Err("duplicate pointer attribute".into());
                    }
                    attr = Some(self.ident()?);
                } else {
                    break;
                }
            }
            base = CT::Ptr { is_const, attr, is_ref, to: Box::new(base) };
        }
        if self.at(0) == "(" && ["*", "&", "("].contains(&self.at(1)) {
            let inner_start = self.i + 1;
            self.balanced("(", ")")?;
            let after_ty = self.suffix(base)?;
            let end = self.i;
            self.i = inner_start;
            let r = self.declarator(after_ty)?;
            self.expect(")")?;
            // what follows the group was already consumed as suffixes
            self.i = end;
            return Ok(r);
        }
        let mut name = None;
        if self.is_id(0) && !is_attr(self.at(0)) {
            let mut n = self.ident()?;
            while self.at(0) == "::" {
                self.i += 1;
                n = format!("{n}::{}", self.ident()?);
            }
            name = Some(n);
        }
        let ty = self.suffix(base)?;
        Ok((name, ty))
    }

    fn suffix(&mut self, base: CT) -> R<CT> {
        if self.at(0) == "[" {
            self.i += 1;
            let mut s = vec![];
            while self.at(0) != "]" {
                s.push(self.at(0).to_string());
                self.i += 1;
                if self.peek().is_none() {
                    return Err("eof in array".into());
                }
            }
            self.i += 1;
            let of = self.suffix(base)?;
            if let CT::Fn { .. } = of {
                return Err("array of functions".into());
            }
            return Ok(CT::Arr { len: s.join(" "), of: Box::new(of) });
        }
        if self.at(0) == "(" {
            self.i += 1;
            let mut args = vec![];
            if self.at(0) == "void" && self.at(1) == ")" {
                self.i += 2;
            } else if self.eat(")") {
                if !self.cpp {
                    return Err("empty parameter list in C declares no prototype".into());
                }
            } else {
                loop {
                    args.push(self.decl()?);
                    if self.eat(")") {
                        break;
                    }
                    self.expect(",")?;
                }
            }
            let mut noreturn = false;
            if self.at(0) == NORETURN {
                self.i += 1;
                noreturn = true;
            }
            let ret = self.suffix(base)?;
            match ret {
                CT::Fn { .. } => return Err("function returning function".into()),
                CT::Arr { .. } if !self.loose => return Err("function returning array".into()),
                _ => {}
            }
            return Ok(CT::Fn { ret: Box::new(ret), args, noreturn });
        }
        Ok(base)
    }
}
