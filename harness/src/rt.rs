//! The harness's own view of the Rust side: types, items, how they are written as Rust source,
//! and (independently of cbindgen's code) which C type each denotes.
use crate::cparse::CT;
use crate::util::Rng;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum RT {
    Prim(String),
    /// A named type with generic arguments (types or constants).
    Named(String, Vec<RT>),
    /// A constant used as generic argument or array length.
    Const(String),
    Ptr(bool, Box<RT>),
    Ref(bool, Box<RT>),
    Arr(Box<RT>, Box<RT>),
    Fn(Vec<(Option<String>, RT)>, Box<RT>),
    /// A standard wrapper: Option, NonNull, Box, ...
    W(String, Box<RT>),
    Unit,
    Never,
    SelfTy,
}

pub fn prim(s: &str) -> RT {
    RT::Prim(s.into())
}
pub fn named(s: &str) -> RT {
    RT::Named(s.into(), vec![])
}
pub fn bx(t: RT) -> Box<RT> {
    Box::new(t)
}

impl RT {
    pub fn src(&self) -> String {
        match self {
            RT::Prim(s) => s.clone(),
            RT::Named(n, a) if a.is_empty() => n.clone(),
            RT::Named(n, a) => format!("{n}<{}>", a.iter().map(|x| x.src()).collect::<Vec<_>>().join(", ")),
            RT::Const(s) => s.clone(),
            RT::Ptr(m, t) => format!("*{} {}", if *m { "mut" } else { "const" }, t.src()),
            RT::Ref(m, t) => format!("&'static {}{}", if *m { "mut " } else { "" }, t.src()),
            RT::Arr(t, n) => format!("[{}; {}]", t.src(), n.src()),
            RT::Fn(a, r) => {
                let a: Vec<String> = a
                    .iter()
                    .map(|(n, t)| match n {
                        Some(n) => format!("{n}: {}", t.src()),
                        None => t.src(),
                    })
                    .collect();
                let r = match **r {
                    RT::Unit => String::new(),
                    RT::Never => " -> !".into(),
                    ref t => format!(" -> {}", t.src()),
                };
                format!("extern \"C\" fn({}){r}", a.join(", "))
            }
            RT::W(w, t) => format!("{w}<{}>", t.src()),
            RT::Unit => "()".into(),
            RT::Never => "!".into(),
            RT::SelfTy => "Self".into(),
        }
    }

    pub fn subst(&self, m: &[(String, RT)]) -> RT {
        let s = |t: &RT| Box::new(t.subst(m));
        match self {
            RT::Named(n, a) if a.is_empty() => match m.iter().find(|(k, _)| k == n) {
                Some((_, v)) => v.clone(),
                None => self.clone(),
            },
            RT::Const(n) => match m.iter().find(|(k, _)| k == n) {
                Some((_, v)) => v.clone(),
                None => self.clone(),
            },
            RT::Named(n, a) => RT::Named(n.clone(), a.iter().map(|x| x.subst(m)).collect()),
            RT::Ptr(b, t) => RT::Ptr(*b, s(t)),
            RT::Ref(b, t) => RT::Ref(*b, s(t)),
            RT::Arr(t, n) => RT::Arr(s(t), s(n)),
            RT::Fn(a, r) => RT::Fn(a.iter().map(|(n, t)| (n.clone(), t.subst(m))).collect(), s(r)),
            RT::W(w, t) => RT::W(w.clone(), s(t)),
            _ => self.clone(),
        }
    }

    pub fn replace_self(&self, with: &RT) -> RT {
        let s = |t: &RT| Box::new(t.replace_self(with));
        match self {
            RT::SelfTy => with.clone(),
            RT::Named(n, a) => RT::Named(n.clone(), a.iter().map(|x| x.replace_self(with)).collect()),
            RT::Ptr(b, t) => RT::Ptr(*b, s(t)),
            RT::Ref(b, t) => RT::Ref(*b, s(t)),
            RT::Arr(t, n) => RT::Arr(s(t), n.clone()),
            RT::Fn(a, r) => RT::Fn(a.iter().map(|(n, t)| (n.clone(), t.replace_self(with))).collect(), s(r)),
            RT::W(w, t) => RT::W(w.clone(), s(t)),
            _ => self.clone(),
        }
    }

    pub fn visit(&self, f: &mut impl FnMut(&RT)) {
        f(self);
        match self {
            RT::Named(_, a) => a.iter().for_each(|x| x.visit(f)),
            RT::Ptr(_, t) | RT::Ref(_, t) | RT::W(_, t) => t.visit(f),
            RT::Arr(t, n) => {
                t.visit(f);
                n.visit(f)
            }
            RT::Fn(a, r) => {
                a.iter().for_each(|(_, x)| x.visit(f));
                r.visit(f)
            }
            _ => {}
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Lang {
    C,
    Cxx,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Style {
    Both,
    Tag,
    Type,
}

#[derive(Clone, Debug)]
pub struct Conf {
    pub lang: Lang,
    pub style: Style,
    pub usize_is_size_t: bool,
    pub attrs: bool,
    /// extra top-level TOML (before any table), then extra tables
    pub top: String,
    pub tables: String,
    pub fn_args: Option<&'static str>,
    pub line_length: usize,
}

impl Conf {
    pub fn new(lang: Lang) -> Conf {
        Conf { lang, style: Style::Both, usize_is_size_t: false, attrs: false, top: String::new(), tables: String::new(), fn_args: None, line_length: 100 }
    }
    pub fn random(rng: &mut Rng) -> Conf {
        let mut c = Conf::new(if rng.chance(3, 5) { Lang::C } else { Lang::Cxx });
        c.style = *rng.pick(&[Style::Both, Style::Tag, Style::Type]);
        c.usize_is_size_t = rng.chance(1, 3);
        c.attrs = rng.chance(1, 2);
        c.fn_args = *rng.pick(&[None, Some("horizontal"), Some("vertical"), Some("auto")]);
        c.line_length = *rng.pick(&[100, 100, 1, 20, 40, 1000]);
        c
    }
    pub fn toml(&self) -> String {
        let mut s = String::new();
        s.push_str(&format!("language = \"{}\"\n", if self.lang == Lang::C { "C" } else { "C++" }));
        s.push_str(&format!("style = \"{}\"\n", match self.style { Style::Both => "both", Style::Tag => "tag", Style::Type => "type" }));
        s.push_str(&format!("usize_is_size_t = {}\nline_length = {}\n", self.usize_is_size_t, self.line_length));
        s.push_str("no_includes = true\n");
        s.push_str(&self.top);
        if !self.tables.contains("[fn]") {
            s.push_str("[fn]\nno_return = \"VX_NORETURN\"\n");
            if let Some(a) = self.fn_args {
                s.push_str(&format!("args = \"{a}\"\n"));
            }
        }
        if self.attrs {
            s.push_str("[ptr]\nnon_null_attribute = \"VX_NONNULL\"\nnullable_attribute = \"VX_NULLABLE\"\n");
        }
        s.push_str(&self.tables);
        s
    }
    pub fn cpp(&self) -> bool {
        self.lang == Lang::Cxx
    }
    pub fn tags(&self) -> bool {
        self.lang == Lang::C && self.style != Style::Type
    }
}

/// (Rust name, C spelling, bits or 0 when platform-dependent, signed)
pub const PRIMS: &[(&str, &str)] = &[
    ("bool", "bool"),
    ("char", "uint32_t"),
    ("c_char", "char"),
    ("c_schar", "signed char"),
    ("c_uchar", "unsigned char"),
    ("f32", "float"),
    ("f64", "double"),
    ("c_float", "float"),
    ("c_double", "double"),
    ("u8", "uint8_t"),
    ("u16", "uint16_t"),
    ("u32", "uint32_t"),
    ("u64", "uint64_t"),
    ("i8", "int8_t"),
    ("i16", "int16_t"),
    ("i32", "int32_t"),
    ("i64", "int64_t"),
    ("uint8_t", "uint8_t"),
    ("uint16_t", "uint16_t"),
    ("uint32_t", "uint32_t"),
    ("uint64_t", "uint64_t"),
    ("int8_t", "int8_t"),
    ("int16_t", "int16_t"),
    ("int32_t", "int32_t"),
    ("int64_t", "int64_t"),
    ("usize", "uintptr_t"),
    ("isize", "intptr_t"),
    ("uintptr_t", "uintptr_t"),
    ("intptr_t", "intptr_t"),
    ("size_t", "size_t"),
    ("ssize_t", "ssize_t"),
    ("ptrdiff_t", "ptrdiff_t"),
    ("c_short", "short"),
    ("c_int", "int"),
    ("c_long", "long"),
    ("c_longlong", "long long"),
    ("c_ushort", "unsigned short"),
    ("c_uint", "unsigned int"),
    ("c_ulong", "unsigned long"),
    ("c_ulonglong", "unsigned long long"),
    ("RawFd", "int"),
    ("NonZeroU8", "uint8_t"),
    ("NonZeroU16", "uint16_t"),
    ("NonZeroU32", "uint32_t"),
    ("NonZeroU64", "uint64_t"),
    ("NonZeroUsize", "uintptr_t"),
    ("NonZeroI8", "int8_t"),
    ("NonZeroI16", "int16_t"),
    ("NonZeroI32", "int32_t"),
    ("NonZeroI64", "int64_t"),
    ("NonZeroIsize", "intptr_t"),
];

pub fn c_prim(name: &str, usize_is_size_t: bool) -> String {
    if name == "c_void" {
        return "void".into();
    }
    if name == "VaList" {
        return "...".into();
    }
    if usize_is_size_t {
        match name {
            "usize" | "uintptr_t" | "NonZeroUsize" => return "size_t".into(),
            "isize" | "intptr_t" | "NonZeroIsize" => return "ptrdiff_t".into(),
            _ => {}
        }
    }
    PRIMS.iter().find(|p| p.0 == name).unwrap_or_else(|| panic!("prim {name}")).1.to_string()
}

pub fn is_nonzero(name: &str) -> bool {
    name.starts_with("NonZero")
}
pub fn is_int(name: &str) -> bool {
    !matches!(name, "bool" | "char" | "c_char" | "c_schar" | "c_uchar" | "f32" | "f64" | "c_float" | "c_double" | "c_void" | "VaList" | "ptrdiff_t")
}

/// Lowered types: wrappers resolved.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum LT {
    /// Rust primitive name, and whether zero is a value of it
    Prim(String, bool),
    Named(String, Vec<LT>),
    Const(String),
    Ptr { mutable: bool, nullable: bool, to: Box<LT> },
    Arr(Box<LT>, String),
    Fn { args: Vec<(Option<String>, LT)>, ret: Box<LT>, never: bool, nullable: bool },
}

/// Which wrappers vanish or become pointers. None: the type is omitted (unit, PhantomData).
pub fn lower(t: &RT, lang: Lang) -> Option<LT> {
    let void = || LT::Prim("c_void".into(), true);
    Some(match t {
        RT::Prim(p) => LT::Prim(p.clone(), !is_nonzero(p)),
        RT::Named(n, _) if n == "PhantomData" || n == "PhantomPinned" => return None,
        RT::Named(n, a) => LT::Named(n.clone(), a.iter().filter_map(|x| lower(x, lang)).collect()),
        RT::Const(s) => LT::Const(s.clone()),
        RT::Ptr(m, t) => LT::Ptr { mutable: *m, nullable: true, to: Box::new(lower(t, lang).unwrap_or_else(void)) },
        RT::Ref(m, t) => LT::Ptr { mutable: *m, nullable: false, to: Box::new(lower(t, lang).unwrap_or_else(void)) },
        RT::Arr(t, n) => LT::Arr(Box::new(lower(t, lang)?), match &**n { RT::Const(s) => s.clone(), RT::Named(s, _) => s.clone(), x => panic!("{x:?}") }),
        RT::Fn(a, r) => LT::Fn {
            args: a.iter().filter_map(|(n, t)| lower(t, lang).map(|t| (n.clone(), t))).collect(),
            ret: Box::new(match **r {
                RT::Never | RT::Unit => void(),
                ref t => lower(t, lang).unwrap_or_else(void),
            }),
            never: **r == RT::Never,
            nullable: false,
        },
        RT::Unit => return None,
        RT::Never => void(),
        RT::SelfTy => panic!("unresolved Self"),
        RT::W(w, t) => {
            let inner = lower(t, lang)?;
            let keep = |x: LT| LT::Named(w.clone(), vec![x]);
            match w.as_str() {
                "Option" => match inner {
                    LT::Ptr { mutable, nullable: false, to } => LT::Ptr { mutable, nullable: true, to },
                    LT::Fn { args, ret, never, nullable: false } => LT::Fn { args, ret, never, nullable: true },
                    LT::Prim(p, false) if is_int(&p) => LT::Prim(p, true),
                    x => keep(x),
                },
                "NonNull" => LT::Ptr { mutable: true, nullable: false, to: Box::new(inner) },
                "Box" if lang == Lang::C => LT::Ptr { mutable: true, nullable: false, to: Box::new(inner) },
                "NonZero" => match inner {
                    LT::Prim(p, true) if is_int(&p) => LT::Prim(p, false),
                    x => keep(x),
                },
                "Cell" | "UnsafeCell" | "SyncUnsafeCell" => inner,
                "ManuallyDrop" | "MaybeUninit" | "Pin" if lang == Lang::C => inner,
                _ => keep(inner),
            }
        }
    })
}

/// The C type of a lowered type. `name` gives (tag, printed name) of a named type; generic
/// arguments are kept as arguments.
pub fn to_ct(t: &LT, c: &Conf, name: &dyn Fn(&str, &[LT]) -> (Option<String>, String, bool)) -> CT {
    to_ct_in(t, c, &|n, a, _| name(n, a), false)
}

/// As `to_ct`; the naming function is also told whether the type stands inside the arguments of
/// a generic type that is kept as written.
pub fn to_ct_in(t: &LT, c: &Conf, name: &dyn Fn(&str, &[LT], bool) -> (Option<String>, String, bool), inside: bool) -> CT {
    let null = |nullable: bool| if c.attrs { Some(if nullable { "VX_NULLABLE" } else { "VX_NONNULL" }.to_string()) } else { None };
    match t {
        LT::Prim(p, _) => CT::base(&c_prim(p, c.usize_is_size_t)),
        LT::Const(s) => CT::base(s),
        LT::Named(n, a) => {
            let (tag, nm, keep_args) = name(n, a, inside);
            CT::Base { is_const: false, tag, name: nm, args: if keep_args { a.iter().map(|x| to_ct_in(x, c, name, true)).collect() } else { vec![] } }
        }
        LT::Ptr { mutable, nullable, to } => {
            let inner = to_ct_in(to, c, name, inside);
            let inner = if *mutable { inner } else { inner.with_const_obj() };
            CT::Ptr { is_const: false, attr: null(*nullable), is_ref: false, to: Box::new(inner) }
        }
        LT::Arr(t, n) => CT::Arr { len: n.clone(), of: Box::new(to_ct_in(t, c, name, inside)) },
        LT::Fn { args, ret, never, .. } => CT::Ptr {
            is_const: false,
            attr: null(true),
            is_ref: false,
            to: Box::new(CT::Fn {
                ret: Box::new(to_ct_in(ret, c, name, inside)),
                args: args.iter().map(|(n, t)| (n.clone(), to_ct_in(t, c, name, inside))).collect(),
                noreturn: *never,
            }),
        },
    }
}

impl CT {
    pub fn with_const_obj(self) -> CT {
        self.with_const()
    }
}

// ---------------------------------------------------------------- items

#[derive(Clone, Debug)]
pub struct Param {
    pub name: String,
    /// None: a type parameter; Some(ty): a const parameter
    pub cst: Option<String>,
    pub default: Option<RT>,
}

#[derive(Clone, Debug)]
pub enum Item {
    Rec { union: bool, name: String, params: Vec<Param>, fields: Vec<(String, RT)>, attrs: String },
    Opaque { name: String, params: Vec<Param> },
    Alias { name: String, params: Vec<Param>, ty: RT },
    Enum { name: String, repr: String, variants: Vec<String> },
    Fn { name: String, args: Vec<(String, RT)>, ret: RT },
    Static { name: String, mutable: bool, ty: RT },
    Raw { name: String, src: String },
}

pub fn params_src(ps: &[Param]) -> String {
    if ps.is_empty() {
        return String::new();
    }
    let v: Vec<String> = ps
        .iter()
        .map(|p| {
            let mut s = match &p.cst {
                None => p.name.clone(),
                Some(t) => format!("const {}: {t}", p.name),
            };
            if let Some(d) = &p.default {
                s.push_str(&format!(" = {}", d.src()));
            }
            s
        })
        .collect();
    format!("<{}>", v.join(", "))
}

impl Item {
    pub fn name(&self) -> &str {
        match self {
            Item::Rec { name, .. } | Item::Opaque { name, .. } | Item::Alias { name, .. } | Item::Enum { name, .. } | Item::Fn { name, .. } | Item::Static { name, .. } | Item::Raw { name, .. } => name,
        }
    }
    pub fn params(&self) -> &[Param] {
        match self {
            Item::Rec { params, .. } | Item::Opaque { params, .. } | Item::Alias { params, .. } => params,
            _ => &[],
        }
    }
    pub fn src(&self) -> String {
        match self {
            Item::Rec { union, name, params, fields, attrs } => {
                let f: Vec<String> = fields.iter().map(|(n, t)| format!("    pub {n}: {},\n", t.src())).collect();
                format!("#[repr(C)]\n{attrs}pub {} {name}{} {{\n{}}}\n", if *union { "union" } else { "struct" }, params_src(params), f.concat())
            }
            Item::Opaque { name, params } => format!("pub struct {name}{} {{ hidden: u8 }}\n", params_src(params)),
            Item::Alias { name, params, ty } => format!("pub type {name}{} = {};\n", params_src(params), ty.src()),
            Item::Enum { name, repr, variants } => format!("#[repr({repr})]\npub enum {name} {{ {} }}\n", variants.join(", ")),
            Item::Fn { name, args, ret } => {
                let a: Vec<String> = args.iter().map(|(n, t)| format!("{n}: {}", t.src())).collect();
                let r = match ret {
                    RT::Unit => String::new(),
                    t => format!(" -> {}", t.src()),
                };
                format!("#[no_mangle]\npub extern \"C\" fn {name}({}){r} {{ loop {{}} }}\n", a.join(", "))
            }
            Item::Static { name, mutable, ty } => format!("#[no_mangle]\npub static {}{name}: {} = unsafe {{ zero() }};\n", if *mutable { "mut " } else { "" }, ty.src()),
            Item::Raw { src, .. } => src.clone(),
        }
    }
}

pub fn source(items: &[Item]) -> String {
    items.iter().map(|i| i.src()).collect::<Vec<_>>().join("\n")
}

// ---------------------------------------------------------------- generation

pub struct TG<'a> {
    /// non-generic named types available
    pub names: &'a [String],
    /// generic named types: name, parameter kinds (true = const), number of trailing defaults
    pub generics: &'a [(String, Vec<bool>, usize)],
    pub params: &'a [String],
    pub consts: &'a [String],
    pub wrappers: bool,
    pub self_ty: bool,
    pub lang: Lang,
}

pub const WRAPPERS: &[&str] = &["Option", "NonNull", "Box", "Cell", "UnsafeCell", "SyncUnsafeCell", "ManuallyDrop", "MaybeUninit", "Pin", "NonZero"];

impl TG<'_> {
    pub fn len(&self, rng: &mut Rng) -> RT {
        if !self.consts.is_empty() && rng.chance(2, 5) {
            RT::Const(rng.pick(self.consts).clone())
        } else {
            RT::Const(format!("{}", 1 + rng.below(40)))
        }
    }

    pub fn leaf(&self, rng: &mut Rng) -> RT {
        loop {
            match rng.below(8) {
                0 | 1 | 2 => return prim(rng.pick(PRIMS).0),
                3 | 4 if !self.names.is_empty() => return named(rng.pick(self.names)),
                5 | 6 if !self.params.is_empty() => return named(rng.pick(self.params)),
                7 if self.self_ty => return RT::SelfTy,
                _ => {}
            }
        }
    }

    pub fn arg_for(&self, rng: &mut Rng, is_const: bool, d: usize) -> RT {
        if is_const {
            self.len(rng)
        } else {
            self.ty(rng, d)
        }
    }

    /// A wrapped type that has a lowering (never one that must stay as written).
    pub fn wrapped(&self, rng: &mut Rng, d: usize) -> RT {
        loop {
            let w = *rng.pick(WRAPPERS);
            let t = match w {
                "Option" => match rng.below(6) {
                    0 => RT::Fn(self.fn_args(rng, d), bx(self.ret(rng, d))),
                    1 => RT::Ref(rng.chance(1, 2), bx(self.ty(rng, d))),
                    2 => RT::W("NonNull".into(), bx(self.ty(rng, d))),
                    3 if self.lang == Lang::C => RT::W("Box".into(), bx(self.ty(rng, d))),
                    4 => prim(*rng.pick(&["NonZeroU8", "NonZeroU16", "NonZeroU32", "NonZeroU64", "NonZeroUsize", "NonZeroI8", "NonZeroI32", "NonZeroI64", "NonZeroIsize"])),
                    5 => RT::W("NonZero".into(), bx(prim(*rng.pick(&["u8", "u16", "u32", "i64", "usize", "i8"])))),
                    _ => continue,
                },
                "NonZero" => prim(*rng.pick(&["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "usize", "isize"])),
                "Box" | "ManuallyDrop" | "MaybeUninit" | "Pin" if self.lang != Lang::C => continue,
                _ => self.ty(rng, d),
            };
            return RT::W(w.into(), bx(t));
        }
    }

    pub fn fn_args(&self, rng: &mut Rng, d: usize) -> Vec<(Option<String>, RT)> {
        let n = rng.below(4);
        (0..n)
            .map(|i| {
                let mut t = self.ty(rng, d);
                if self.is_arr(&t) {
                    t = RT::Ptr(true, bx(t));
                }
                (if rng.chance(1, 2) { Some(format!("p{i}")) } else { None }, t)
            })
            .collect()
    }

    fn is_arr(&self, t: &RT) -> bool {
        matches!(lower(&t.replace_self(&named("SelfHere")), self.lang), Some(LT::Arr(..)))
    }

    pub fn ret(&self, rng: &mut Rng, d: usize) -> RT {
        match rng.below(6) {
            0 => RT::Unit,
            1 => RT::Never,
            _ => {
                let t = self.ty(rng, d);
                if self.is_arr(&t) {
                    RT::Ptr(rng.chance(1, 2), bx(t))
                } else {
                    t
                }
            }
        }
    }

    pub fn ty(&self, rng: &mut Rng, d: usize) -> RT {
        if d == 0 {
            return self.leaf(rng);
        }
        match rng.below(13) {
            0 | 1 | 2 => self.leaf(rng),
            3 | 4 | 5 => RT::Ptr(rng.chance(1, 2), bx(self.pointee(rng, d - 1))),
            6 => RT::Ref(rng.chance(1, 2), bx(self.pointee(rng, d - 1))),
            7 => RT::Arr(bx(self.ty(rng, d - 1)), bx(self.len(rng))),
            8 | 9 => RT::Fn(self.fn_args(rng, d - 1), bx(self.ret(rng, d - 1))),
            10 | 11 if !self.generics.is_empty() => {
                let (n, ks, defs) = rng.pick(self.generics);
                let omit = if *defs > 0 { rng.below(defs + 1) } else { 0 };
                let k = (ks.len() - omit).max(1);
                RT::Named(n.clone(), ks[..k].iter().map(|c| self.arg_for(rng, *c, d - 1)).collect())
            }
            _ if self.wrappers => self.wrapped(rng, d - 1),
            _ => self.leaf(rng),
        }
    }

    fn pointee(&self, rng: &mut Rng, d: usize) -> RT {
        if rng.chance(1, 12) {
            prim("c_void")
        } else if rng.chance(1, 14) {
            RT::Unit
        } else {
            self.ty(rng, d)
        }
    }

    /// A type allowed as function argument (not an array at the top).
    pub fn arg(&self, rng: &mut Rng, d: usize) -> RT {
        loop {
            let t = self.ty(rng, d);
            match lower(&if self.self_ty { t.replace_self(&named("SelfHere")) } else { t.clone() }, self.lang) {
                None | Some(LT::Arr(..)) => continue,
                _ => return t,
            }
        }
    }
}

// ---------------------------------------------------------------- instantiation (oracle)

impl LT {
    pub fn subst(&self, m: &[(String, LT)]) -> LT {
        let s = |t: &LT| Box::new(t.subst(m));
        match self {
            LT::Named(n, a) if a.is_empty() => match m.iter().find(|(k, _)| k == n) {
                Some((_, v)) => v.clone(),
                None => self.clone(),
            },
            LT::Const(n) => match m.iter().find(|(k, _)| k == n) {
                Some((_, v)) => v.clone(),
                None => self.clone(),
            },
            LT::Named(n, a) => LT::Named(n.clone(), a.iter().map(|x| x.subst(m)).collect()),
            LT::Ptr { mutable, nullable, to } => LT::Ptr { mutable: *mutable, nullable: *nullable, to: s(to) },
            LT::Arr(t, n) => LT::Arr(
                s(t),
                match m.iter().find(|(k, _)| k == n) {
                    Some((_, LT::Const(v))) => v.clone(),
                    Some((_, LT::Named(v, a))) if a.is_empty() => v.clone(),
                    _ => n.clone(),
                },
            ),
            LT::Fn { args, ret, never, nullable } => {
                LT::Fn { args: args.iter().map(|(n, t)| (n.clone(), t.subst(m))).collect(), ret: s(ret), never: *never, nullable: *nullable }
            }
            _ => self.clone(),
        }
    }
}

/// The arguments bound to an item's parameters, with defaults filled in.
pub fn bind(params: &[Param], args: &[LT], lang: Lang) -> Vec<(String, LT)> {
    params
        .iter()
        .enumerate()
        .map(|(i, p)| {
            let v = match args.get(i) {
                Some(a) => a.clone(),
                None => lower(p.default.as_ref().expect("missing argument without default"), lang).unwrap(),
            };
            (p.name.clone(), v)
        })
        .collect()
}

/// The Rust name a primitive is reported under.
pub fn rust_prim(p: &str) -> &str {
    match p {
        "c_float" => "f32",
        "c_double" => "f64",
        "uint8_t" | "NonZeroU8" => "u8",
        "uint16_t" | "NonZeroU16" => "u16",
        "uint32_t" | "NonZeroU32" => "u32",
        "uint64_t" | "NonZeroU64" => "u64",
        "int8_t" | "NonZeroI8" => "i8",
        "int16_t" | "NonZeroI16" => "i16",
        "int32_t" | "NonZeroI32" => "i32",
        "int64_t" | "NonZeroI64" => "i64",
        "uintptr_t" | "NonZeroUsize" => "usize",
        "intptr_t" | "NonZeroIsize" => "isize",
        "RawFd" => "c_int",
        x => x,
    }
}

pub const SEP_OPEN: usize = 1;
pub const SEP_COMMA: usize = 2;
pub const SEP_CLOSE: usize = 3;
pub const SEP_MUT: usize = 4;
pub const SEP_CONST: usize = 5;
pub const SEP_FN: usize = 6;
pub const SEP_ARG: usize = 7;
pub const SEP_ENDFN: usize = 8;
pub const SEP_ARR: usize = 9;
pub const SEP_ARRLEN: usize = 10;

/// Mangled name of an instantiation; `last` means nothing follows, so closing separators are
/// left out. `ren` is the mangling rename rule.
pub fn mangle(n: &str, args: &[LT], last: bool, us: &str, ren: &dyn Fn(&str) -> String) -> String {
    let mut s = n.to_string();
    if args.is_empty() {
        return s;
    }
    s += &us.repeat(SEP_OPEN);
    for (i, a) in args.iter().enumerate() {
        if i > 0 {
            s += &us.repeat(SEP_COMMA);
        }
        s += &mangle_ty(a, last && i + 1 == args.len(), us, ren);
    }
    if !last {
        s += &us.repeat(SEP_CLOSE);
    }
    s
}

fn mangle_ty(t: &LT, last: bool, us: &str, ren: &dyn Fn(&str) -> String) -> String {
    match t {
        LT::Prim(p, _) => ren(rust_prim(p)),
        LT::Named(n, a) => ren(&mangle(n, a, last, us, ren)),
        LT::Const(c) => {
            if c.chars().next().unwrap().is_ascii_digit() {
                c.clone()
            } else {
                ren(c)
            }
        }
        LT::Ptr { mutable, to, .. } => us.repeat(if *mutable { SEP_MUT } else { SEP_CONST }) + &mangle_ty(to, last, us, ren),
        LT::Arr(t, n) => {
            us.repeat(SEP_ARR) + &mangle_ty(t, false, us, ren) + &us.repeat(SEP_ARRLEN) + &mangle_ty(&LT::Const(n.clone()), last, us, ren)
        }
        LT::Fn { args, ret, .. } => {
            let mut s = us.repeat(SEP_FN);
            s += &mangle_ty(ret, last && args.is_empty(), us, ren);
            for (i, (_, a)) in args.iter().enumerate() {
                s += &us.repeat(SEP_ARG);
                s += &mangle_ty(a, last && i + 1 == args.len(), us, ren);
            }
            if !last {
                s += &us.repeat(SEP_ENDFN);
            }
            s
        }
    }
}
