//! C01 to C04: declarations, primitives, wrappers, instantiation.
use crate::cparse::{parse, Decl, Record, CT, D};
use crate::rt::*;
use crate::util::*;

pub fn find<'a>(ds: &'a [Decl], name: &str) -> Vec<&'a Decl> {
    ds.iter().filter(|d| d.name() == Some(name)).collect()
}

/// A fixed cast of definitions the random types may refer to.
pub fn cast() -> Vec<Item> {
    vec![
        Item::Rec { union: false, name: "Sa".into(), params: vec![], fields: vec![("x".into(), prim("u8"))], attrs: String::new() },
        Item::Rec { union: true, name: "Ua".into(), params: vec![], fields: vec![("x".into(), prim("u8")), ("y".into(), prim("f32"))], attrs: String::new() },
        Item::Opaque { name: "Oa".into(), params: vec![] },
        Item::Enum { name: "Ea".into(), repr: "C".into(), variants: vec!["EaA".into(), "EaB".into()] },
        Item::Enum { name: "Eb".into(), repr: "u8".into(), variants: vec!["EbA".into(), "EbB".into()] },
        Item::Alias { name: "Aa".into(), params: vec![], ty: RT::Ptr(true, bx(named("Sa"))) },
    ]
}

pub fn cast_name(c: &Conf, n: &str) -> (Option<String>, String) {
    let t = if c.tags() {
        match n {
            "Sa" | "Oa" => Some("struct"),
            "Ua" => Some("union"),
            "Ea" => Some("enum"),
            _ => None,
        }
    } else {
        None
    };
    (t.map(|x| x.to_string()), n.to_string())
}

pub fn norm(ctx: &Ctx, t: &CT) -> CT {
    if ctx.known("KF-C01-1") {
        t.strip_fn_const()
    } else {
        t.clone()
    }
}

pub fn c01(ctx: &Ctx) {
    let n = ctx.n(12_000, 200_000);
    ctx.bound(format!("{n} random crates (types nested to depth 5), C and C++, three styles, all argument layouts, line lengths 1..1000"));
    // the known finding, if still there
    let inp = Input { src: "pub type J = *const extern \"C\" fn(f32) -> f64;\n#[no_mangle] pub extern \"C\" fn f(j: J) {}\n".into(), toml: "language = \"C\"\n".into() };
    if ctx.known("KF-C01-1") {
        if let Gen::Ok(h) = run(ctx, &inp) {
            if h.contains("typedef double (**J)(float);") {
                ctx.known.lock().unwrap().push("KF-C01-1: `*const extern \"C\" fn(f32) -> f64` is printed without the const of the pointed-to function pointer".into());
            }
        }
    }
    ctx.par("decl", n, |ctx, i, rng| {
        let mut c = Conf::random(rng);
        if i % 7 == 0 {
            c.lang = Lang::C;
        }
        let names: Vec<String> = ["Sa", "Ua", "Oa", "Ea", "Eb", "Aa", "Unknown"].iter().map(|s| s.to_string()).collect();
        let consts = vec!["LEN".to_string()];
        let generics: Vec<(String, Vec<bool>, usize)> = if c.cpp() { vec![("Ga".into(), vec![false], 0), ("Gb".into(), vec![false, true], 0)] } else { vec![] };
        let mut items = cast();
        if c.cpp() {
            items.push(Item::Rec { union: false, name: "Ga".into(), params: vec![Param { name: "T".into(), cst: None, default: None }], fields: vec![("g".into(), named("T"))], attrs: String::new() });
            items.push(Item::Rec {
                union: false,
                name: "Gb".into(),
                params: vec![Param { name: "T".into(), cst: None, default: None }, Param { name: "N".into(), cst: Some("usize".into()), default: None }],
                fields: vec![("g".into(), RT::Arr(bx(named("T")), bx(RT::Const("N".into()))))],
                attrs: String::new(),
            });
        }
        let tg = TG { names: &names, generics: &generics, params: &[], consts: &consts, wrappers: rng.chance(1, 3), self_ty: false, lang: c.lang };
        let depth = 1 + rng.below(5);
        let args: Vec<(String, RT)> = (0..rng.below(4)).map(|k| (if rng.chance(1, 6) { "_".into() } else { format!("arg{k}") }, tg.arg(rng, depth))).collect();
        let ret = tg.ret(rng, depth);
        let ret = match lower(&ret, c.lang) {
            Some(LT::Arr(..)) => RT::Unit,
            _ => ret,
        };
        let fty = loop {
            let t = tg.ty(rng, depth);
            if lower(&t, c.lang).is_some() {
                break t;
            }
        };
        let aty = loop {
            let t = tg.ty(rng, depth);
            if lower(&t, c.lang).is_some() {
                break t;
            }
        };
        let sty = loop {
            let t = tg.ty(rng, depth);
            if lower(&t, c.lang).is_some() {
                break t;
            }
        };
        let mutable = rng.chance(1, 2);
        items.push(Item::Raw { name: "LEN".into(), src: "pub const LEN: usize = 5;\n".into() });
        items.push(Item::Rec { union: rng.chance(1, 4), name: "Holder".into(), params: vec![], fields: vec![("first".into(), fty.clone()), ("second".into(), prim("u16"))], attrs: String::new() });
        items.push(Item::Alias { name: "Named".into(), params: vec![], ty: aty.clone() });
        items.push(Item::Static { name: "GLOB".into(), mutable, ty: sty.clone() });
        // pointers annotated as arrays
        let arr_c = rng.chance(1, 2);
        let arr_t = tg.ty(rng, depth.min(3));
        let arr_t = if lower(&arr_t, c.lang).is_none() || arr_t == prim("c_void") { prim("u8") } else { arr_t };
        let arr_len = *rng.pick(&["", "7", "LEN"]);
        let arr_n = *rng.pick(&["list", "list_of_x", "_l", "aList2"]);
        items.push(Item::Raw {
            name: "arrfn".into(),
            src: format!("/// cbindgen:ptrs-as-arrays=[[{arr_n}; {arr_len}]]\n#[no_mangle]\npub extern \"C\" fn arrfn(other: u8, {arr_n}: *{} {}) {{}}\n", if arr_c { "const" } else { "mut" }, arr_t.src()),
        });
        items.push(Item::Fn { name: "keep".into(), args: vec![("h".into(), RT::Ptr(true, bx(named("Holder")))), ("n".into(), RT::Ptr(true, bx(named("Named"))))], ret: RT::Unit });
        items.push(Item::Fn { name: "func".into(), args: args.clone(), ret: ret.clone() });
        // methods: what `self` is
        let sa = || bx(named("Sa"));
        let recvs: Vec<(String, RT)> = vec![
            ("self".into(), named("Sa")),
            ("mut self".into(), named("Sa")),
            ("&self".into(), RT::Ref(false, sa())),
            ("&mut self".into(), RT::Ref(true, sa())),
            ("&'static self".into(), RT::Ref(false, sa())),
            ("self: Self".into(), named("Sa")),
            ("self: &Self".into(), RT::Ref(false, sa())),
            ("self: &mut Sa".into(), RT::Ref(true, sa())),
            ("self: &'static Sa".into(), RT::Ref(false, sa())),
            ("self: *const Self".into(), RT::Ptr(false, sa())),
            ("self: &&mut Self".into(), RT::Ref(false, bx(RT::Ref(true, sa())))),
        ];
        let (recv, rt) = rng.pick(&recvs).clone();
        // lengths of arrays
        let lens: &[(&str, &str)] = &[
            ("0x10", "16"), ("1_000", "1000"), ("7usize", "7"), ("0b101", "5"), ("b'a' as usize", "97"), ("'\u{e9}' as usize", "233"), ("'\u{1f600}' as usize", "128512"),
            ("true as usize", "true"), ("LEN as usize", "LEN"), ("LEN as u8 as usize", "LEN"), ("r#LEN", "LEN"), ("self::LEN", "LEN"), ("0", "0"), ("18446744073709551615", "18446744073709551615"),
        ];
        let (len_src, len_want) = *rng.pick(lens);
        items.push(Item::Raw { name: "Lens".into(), src: format!("#[repr(C)] pub struct Lens {{ pub l: [u8; {len_src}], pub m: *const [u8; {len_src}] }}\n#[no_mangle] pub extern \"C\" fn lens(l: *const Lens) {{}}\n") });
        items.push(Item::Raw { name: "meth".into(), src: format!("impl Sa {{ #[no_mangle] pub extern \"C\" fn meth({recv}, more: u8) {{}} }}\n") });
        let inp = Input { src: source(&items), toml: c.toml() };
        let out = header(ctx, &inp)?;
        let ds = parse(&out, c.cpp()).map_err(|e| fail(&inp, &out, format!("the header does not follow the C declaration grammar: {e}")))?;
        let nm = |n: &str, _a: &[LT]| {
            let (t, n) = cast_name(&c, n);
            (t, n, true)
        };
        let ct = |t: &RT| to_ct(&lower(t, c.lang).unwrap(), &c, &nm);
        let cmp = |what: &str, got: &CT, want: CT| -> Result<(), Fail> {
            let (g, w) = (norm(ctx, got), norm(ctx, &want));
            if g != w {
                return Err(fail(&inp, &out, format!("{what} is declared as <{g:?}> but the Rust type is <{w:?}>")));
            }
            Ok(())
        };
        let get = |n: &str| -> Result<Decl, Fail> {
            let v = find(&ds, n);
            if v.len() != 1 {
                return Err(fail(&inp, &out, format!("{n} is declared {} times", v.len())));
            }
            Ok(v[0].clone())
        };
        let wantf = CT::Fn {
            ret: Box::new(match ret {
                RT::Unit | RT::Never => CT::base("void"),
                ref t => lower(t, c.lang).map(|t| to_ct(&t, &c, &nm)).unwrap_or(CT::base("void")),
            }),
            args: args.iter().map(|(n, t)| ((n != "_").then(|| n.clone()), ct(t))).collect(),
            noreturn: ret == RT::Never,
        };
        match get("func")?.d {
            D::Func { ty, .. } => cmp("function func", &ty, wantf)?,
            _ => return Err(fail(&inp, &out, "func is not a function")),
        }
        match get("arrfn")?.d {
            D::Func { ty, .. } => {
                let e = ct(&arr_t);
                let e = if arr_c { e.with_const() } else { e };
                let w = CT::Fn { ret: Box::new(CT::base("void")), args: vec![(Some("other".into()), CT::base("uint8_t")), (Some(arr_n.into()), CT::Arr { len: arr_len.into(), of: Box::new(e) })], noreturn: false };
                cmp("function arrfn", &ty, w)?
            }
            _ => return Err(fail(&inp, &out, "arrfn is not a function")),
        }
        match get("meth")?.d {
            D::Func { ty, .. } => {
                let w = CT::Fn { ret: Box::new(CT::base("void")), args: vec![(Some("self".into()), ct(&rt)), (Some("more".into()), CT::base("uint8_t"))], noreturn: false };
                cmp("method meth", &ty, w)?
            }
            _ => return Err(fail(&inp, &out, "meth is not a function")),
        }
        match get("GLOB")?.d {
            D::Var { ty, .. } => {
                let w = ct(&sty);
                let w = if mutable { w } else { w.with_const() };
                cmp("global GLOB", &ty, w)?
            }
            _ => return Err(fail(&inp, &out, "GLOB is not a variable")),
        }
        match get("Lens")?.d {
            D::Rec(r) if r.fields.len() == 2 => {
                let arr = || RT::Arr(bx(prim("u8")), bx(RT::Const(len_want.into())));
                cmp("field l", &r.fields[0].ty, ct(&arr()))?;
                cmp("field m", &r.fields[1].ty, ct(&RT::Ptr(false, bx(arr()))))?;
            }
            _ => return Err(fail(&inp, &out, "Lens is not a struct of two members")),
        }
        match get("Named")?.d {
            D::Typedef { ty, .. } => cmp("typedef Named", &ty, ct(&aty))?,
            _ => return Err(fail(&inp, &out, "Named is not a typedef")),
        }
        match get("Holder")?.d {
            D::Rec(r) => {
                if r.fields.len() != 2 || r.fields[0].name.as_deref() != Some("first") || r.fields[1].name.as_deref() != Some("second") {
                    return Err(fail(&inp, &out, "Holder's members are not exactly first, second"));
                }
                cmp("field first", &r.fields[0].ty, ct(&fty))?;
                cmp("field second", &r.fields[1].ty, CT::base("uint16_t"))?;
            }
            _ => return Err(fail(&inp, &out, "Holder is not a struct")),
        }
        ctx.interesting();
        Ok(())
    });
}

// ---------------------------------------------------------------- C02

const NOT_PRIMS: &[&str] = &[
    "U8", "u8_", "_u8", "u", "u1", "u12", "u128x", "i9", "i64_t", "uint_t", "uint8", "int8", "uint128_t", "int24_t", "c_in", "c_uints", "c_ints", "c_size", "c_void_", "Void", "void", "Char", "chars", "str", "Bool", "boolean",
    "f16x", "f640", "f", "float", "double", "long", "short", "c_bool", "c_uintptr", "sizet", "size", "ssize", "usizes", "isizes", "Usize", "Isize", "ptrdiff", "NonZero8", "NonZeroUSize", "NonZeroISize", "NonZeroU7", "NonZeroF32", "NonZeroBool",
    "NonZeroChar", "nonzerou8", "rawfd", "RawFD", "Rawfd", "va_list", "Valist", "VaLists", "intptr", "uintptr", "C_int", "c_Int", "c_long_long", "c_ulongs", "c_floats", "cchar", "SelfU8", "c_schars", "c_uchars", "wchar_t", "time_t",
];

pub fn c02(ctx: &Ctx) {
    // (spelling, kind) kind: 0 value type
    ctx.bound("every recognised primitive name x usize_is_size_t on/off x C, C++ x 3 styles, in argument, return, field, alias, array element, pointee and generic argument position (finite, exhaustive)".to_string());
    ctx.bound(format!("{} hand-picked and many generated near-miss names that must not be primitives", NOT_PRIMS.len()));
    let mut combos = vec![];
    for l in [Lang::C, Lang::Cxx] {
        for u in [false, true] {
            for s in [Style::Both, Style::Tag, Style::Type] {
                combos.push((l, u, s));
            }
        }
    }
    let np = PRIMS.len();
    ctx.par("prims", combos.len() * np, |ctx, i, rng| {
        let (l, u, s) = combos[i / np];
        let (p, _) = PRIMS[i % np];
        let mut c = Conf::new(l);
        c.usize_is_size_t = u;
        c.style = s;
        let qual = *rng.pick(&["", "std::ffi::", "libc::", "core::ffi::c::"]);
        let q = format!("{qual}{p}");
        let src = format!(
            "#[repr(C)] pub struct H {{ pub a: {q}, pub b: *mut {p}, pub c: [{p}; 3] }}\npub type Al = {p};\n#[repr(C)] pub struct G<T> {{ pub t: T }}\n#[no_mangle] pub extern \"C\" fn f(h: H, a: {p}, al: Al, g: G<{p}>) -> {p} {{}}\n"
        );
        let inp = Input { src, toml: c.toml() };
        let out = header(ctx, &inp)?;
        let ds = parse(&out, c.cpp()).map_err(|e| fail(&inp, &out, format!("unreadable header: {e}")))?;
        let want = c_prim(p, u);
        let bad = |w: &str, g: &CT| Err(fail(&inp, &out, format!("{w}: Rust `{p}` is emitted as {g:?}, expected {want}")));
        let is = |t: &CT| *t == CT::base(&want);
        let one = |n: &str| -> Result<Decl, Fail> { find(&ds, n).first().map(|d| (*d).clone()).ok_or_else(|| fail(&inp, &out, format!("{n} is missing"))) };
        if let D::Rec(r) = one("H")?.d {
            if r.fields.len() != 3 {
                return Err(fail(&inp, &out, "H does not have three members"));
            }
            if !is(&r.fields[0].ty) {
                return bad("field", &r.fields[0].ty);
            }
            match &r.fields[1].ty {
                CT::Ptr { to, .. } if is(to) => {}
                t => return bad("pointee", t),
            }
            match &r.fields[2].ty {
                CT::Arr { of, .. } if is(of) => {}
                t => return bad("array element", t),
            }
        }
        match one("Al")?.d {
            D::Typedef { ty, .. } if is(&ty) => {}
            d => return Err(fail(&inp, &out, format!("alias of {p} is emitted as {d:?}, expected {want}"))),
        }
        if let D::Func { ty: CT::Fn { ret, args, .. }, .. } = one("f")?.d {
            if !is(&ret) {
                return bad("return", &ret);
            }
            if !is(&args[1].1) {
                return bad("argument", &args[1].1);
            }
            match &args[3].1 {
                CT::Base { name, args, .. } => {
                    if c.cpp() {
                        if name != "G" || args.len() != 1 || !is(&args[0]) {
                            return bad("generic argument", &args[0]);
                        }
                    } else if *name != format!("G_{}", rust_prim(p)) {
                        return Err(fail(&inp, &out, format!("{p} is reported as {name} instead of G_{}", rust_prim(p))));
                    }
                }
                t => return bad("generic argument", t),
            }
        }
        ctx.interesting();
        Ok(())
    });
    // void and variadics
    ctx.par("void", 4, |ctx, i, _| {
        let c = Conf::new(if i % 2 == 0 { Lang::C } else { Lang::Cxx });
        let inp = Input {
            src: "#[no_mangle] pub unsafe extern \"C\" fn f(a: *const c_void, b: *mut std::ffi::c_void, c: VaList) {}\nextern \"C\" { pub fn g(a: u8, ...); }\n#[no_mangle] pub extern \"C\" fn h(a: extern \"C\" fn(u8, ...)) {}".into(),
            toml: c.toml(),
        };
        let out = header(ctx, &inp)?;
        let ds = parse(&out, c.cpp()).map_err(|e| fail(&inp, &out, e))?;
        let ptr = |k: bool| CT::Ptr { is_const: false, attr: None, is_ref: false, to: Box::new(CT::Base { is_const: k, tag: None, name: "void".into(), args: vec![] }) };
        for (n, want) in [("f", vec![ptr(true), ptr(false), CT::base("...")]), ("g", vec![CT::base("uint8_t"), CT::base("...")])] {
            match find(&ds, n).first().map(|d| &d.d) {
                Some(D::Func { ty: CT::Fn { args, .. }, .. }) => {
                    let g: Vec<CT> = args.iter().map(|a| a.1.clone()).collect();
                    if g != want {
                        return Err(fail(&inp, &out, format!("{n} takes {g:?}, expected {want:?}")));
                    }
                }
                _ => return Err(fail(&inp, &out, format!("{n} missing"))),
            }
        }
        Ok(())
    });
    // names that are not primitives
    let mut not_prims: Vec<String> = NOT_PRIMS.iter().map(|s| s.to_string()).collect();
    not_prims.extend(dict("ir/ty.rs"));
    let nn = not_prims.len() + ctx.n(600, 20_000);
    ctx.par("others", nn, |ctx, i, rng| {
        let name = if i < not_prims.len() {
            not_prims[i].clone()
        } else {
            // mutate a primitive's spelling
            let p = rng.pick(PRIMS).0.to_string();
            let mut b: Vec<char> = p.chars().collect();
            for _ in 0..1 + rng.below(2) {
                let k = rng.below(b.len());
                match rng.below(4) {
                    0 => {
                        b[k] = *rng.pick(&['a', 'U', '1', '6', '_', 't', 's', 'Z', 'i', 'u', '8'])
                    }
                    1 if b.len() > 2 => {
                        b.remove(k);
                    }
                    2 => b.insert(k, *rng.pick(&['_', 'x', '8', 'u', 'c', 'S'])),
                    _ => {
                        b[k] = if b[k].is_lowercase() { b[k].to_ascii_uppercase() } else { b[k].to_ascii_lowercase() }
                    }
                }
            }
            b.into_iter().collect()
        };
        let kw = ["u128", "i128", "f16", "f128", "c_void", "VaList", "bool", "char", "str", "fn", "as", "if", "in", "do", "PhantomData", "PhantomPinned", "Self", "self", "_"];
        if PRIMS.iter().any(|p| p.0 == name) || kw.contains(&name.as_str()) || name.chars().next().map_or(true, |c| c.is_ascii_digit()) {
            return Ok(());
        }
        let c = Conf::new(if rng.chance(1, 2) { Lang::C } else { Lang::Cxx });
        let inp = Input { src: format!("#[no_mangle] pub extern \"C\" fn f(a: *mut {name}) {{}}\n"), toml: c.toml() };
        let out = match run(ctx, &inp) {
            Gen::Ok(o) => o,
            Gen::Err(_) => return Ok(()), // the mutation produced a Rust keyword
            Gen::Panic(e) => return Err(fail(&inp, "", format!("cbindgen panicked: {e}"))),
        };
        let ok = out.contains(&format!("void f({name} *a);"));
        if !ok {
            return Err(fail(&inp, &out, format!("`{name}` is not a primitive name but is emitted as one (or not as written)")));
        }
        ctx.interesting();
        Ok(())
    });
}

// ---------------------------------------------------------------- C03

fn strict_option(t: &RT) -> bool {
    // Option around something whose niche is hidden by a cell (known finding KF-C03-1)
    let mut hit = false;
    t.visit(&mut |x| {
        if let RT::W(w, i) = x {
            if w == "Option" {
                let mut k = &**i;
                while let RT::W(v, j) = k {
                    if ["Cell", "UnsafeCell", "SyncUnsafeCell", "MaybeUninit"].contains(&v.as_str()) {
                        hit = true;
                    }
                    if !["Cell", "UnsafeCell", "SyncUnsafeCell", "MaybeUninit", "ManuallyDrop", "Pin"].contains(&v.as_str()) {
                        break;
                    }
                    k = j;
                }
            }
        }
    });
    hit
}

/// Any nest of wrappers, also those that must be left alone.
fn any_wrap(rng: &mut Rng, d: usize, names: &[String], more: &[String]) -> RT {
    const KEEP: &[&str] = &["Option", "NonNull", "Box", "Cell", "UnsafeCell", "SyncUnsafeCell", "ManuallyDrop", "MaybeUninit", "Pin", "NonZero", "Rc", "Vec", "RefCell", "MyOption", "OptionX", "Boxed", "NonNul", "Cells"];
    if d == 0 {
        return match rng.below(5) {
            0 => named(rng.pick(names)),
            1 => prim(*rng.pick(&["NonZeroU8", "NonZeroI32", "NonZeroUsize", "NonZeroIsize", "NonZeroU64"])),
            _ => prim(*rng.pick(&["u8", "bool", "f32", "char", "c_char", "usize", "i64", "c_int", "size_t", "ptrdiff_t"])),
        };
    }
    match rng.below(10) {
        0 => RT::Ptr(rng.chance(1, 2), bx(any_wrap(rng, d - 1, names, more))),
        1 => RT::Ref(rng.chance(1, 2), bx(any_wrap(rng, d - 1, names, more))),
        2 => {
            let n = rng.below(3);
            RT::Fn((0..n).map(|_| (None, noarr(any_wrap(rng, d - 1, names, more)))).collect(), bx(if rng.chance(1, 3) { RT::Unit } else { noarr(any_wrap(rng, d - 1, names, more)) }))
        }
        3 => RT::Arr(bx(any_wrap(rng, d - 1, names, more)), bx(RT::Const("4".into()))),
        4 if !more.is_empty() => RT::W(rng.pick(more).to_string(), bx(any_wrap(rng, d - 1, names, more))),
        _ => RT::W(rng.pick(KEEP).to_string(), bx(any_wrap(rng, d - 1, names, more))),
    }
}

fn noarr(t: RT) -> RT {
    if matches!(lower(&t, Lang::C), Some(LT::Arr(..))) || matches!(lower(&t, Lang::Cxx), Some(LT::Arr(..))) {
        RT::Ptr(false, bx(t))
    } else {
        t
    }
}

pub fn c03(ctx: &Ctx) {
    let n = ctx.n(12_000, 200_000);
    ctx.bound(format!("{n} random nests (depth up to 6) of std wrappers, user wrappers, pointers, arrays and function pointers in argument, field, union, alias, static and enum-variant position, C and C++, nullability observed through the configured pointer attributes"));
    if ctx.known("KF-C03-1") {
        let mut c = Conf::new(Lang::C);
        c.attrs = true;
        let inp = Input { src: "#[no_mangle] pub extern \"C\" fn f(a: Option<Cell<NonNull<u8>>>) {}\n".into(), toml: c.toml() };
        if let Gen::Ok(h) = run(ctx, &inp) {
            if h.contains("void f(uint8_t *VX_NULLABLE a);") {
                ctx.known.lock().unwrap().push("KF-C03-1: `Option<Cell<NonNull<u8>>>` is lowered to a nullable pointer although the cell hides the niche".into());
            }
        }
    }
    // further std wrappers, and any other name that the code mentions, must be left alone
    let registered = dict("parser.rs");
    let mut more: Vec<String> = ["OnceCell", "Mutex", "RwLock", "AtomicPtr", "LazyCell", "Wrapping", "Weak", "Reverse", "Saturating", "Ref", "AssertUnwindSafe", "Cow"].iter().map(|s| s.to_string()).collect();
    more.extend(dict("ir/ty.rs").into_iter().filter(|w| w.chars().next().unwrap().is_uppercase() && !PRIMS.iter().any(|p| p.0 == w)));
    more.retain(|w| !registered.contains(w) && !["Option", "NonNull", "Box", "Cell", "UnsafeCell", "SyncUnsafeCell", "ManuallyDrop", "MaybeUninit", "Pin", "NonZero", "PhantomData", "PhantomPinned", "VaList", "Self"].contains(&w.as_str()));
    ctx.par("wrap", n, |ctx, _i, rng| {
        let mut c = Conf::random(rng);
        c.attrs = true;
        c.line_length = 1000;
        let names: Vec<String> = ["Sa", "Oa"].iter().map(|s| s.to_string()).collect();
        let d = 1 + rng.below(6);
        let mut t = any_wrap(rng, d, &names, &more);
        if ctx.known("KF-C03-1") {
            let mut tries = 0;
            while strict_option(&t) {
                t = any_wrap(rng, d, &names, &more);
                tries += 1;
                if tries > 200 {
                    return Ok(());
                }
            }
        }
        // MyOption, Rc, Vec ... : unknown or opaque generics keep their arguments. To observe the
        // written form in C, where known generics are mangled, std_types is not needed: every
        // wrapper left alone shows up as a named type with (possibly mangled) arguments.
        let at = noarr(t.clone());
        let src = format!(
            "#[repr(C)] pub struct Sa {{ pub x: u8 }}\npub struct Oa {{ h: u8 }}\n#[repr(C)] pub struct H {{ pub a: {0} }}\n#[repr(C)] pub union U {{ pub a: {0}, pub b: u8 }}\npub type Al = {0};\n#[repr(C)] pub enum E {{ V {{ a: {0}, b: u8 }}, W }}\n#[no_mangle] pub static mut GL: {0} = 0;\n#[no_mangle] pub extern \"C\" fn f(a: {1}, h: *mut H, u: *mut U, al: *mut Al, e: *mut E) -> {1} {{}}\n",
            t.src(),
            at.src()
        );
        let inp = Input { src, toml: c.toml() };
        let out = header(ctx, &inp)?;
        let ds = parse(&out, c.cpp()).map_err(|e| fail(&inp, &out, format!("unreadable header: {e}")))?;
        let known_generic = |n: &str| ["Box", "Rc", "Option", "NonNull", "Vec", "RefCell", "ManuallyDrop", "MaybeUninit"].contains(&n);
        let nm = |n: &str, a: &[LT], inside: bool| -> (Option<String>, String, bool) {
            match n {
                _ if inside && !c.cpp() => (None, n.to_string(), true),
                "Sa" | "Oa" => (if c.tags() { Some("struct".into()) } else { None }, n.to_string(), true),
                _ if known_generic(n) && !c.cpp() => (if c.tags() { Some("struct".into()) } else { None }, mangle(n, a, true, "_", &|s| s.to_string()), false),
                _ => (None, n.to_string(), true),
            }
        };
        let want = to_ct_in(&lower(&t, c.lang).unwrap(), &c, &nm, false);
        let wanta = to_ct_in(&lower(&at, c.lang).unwrap(), &c, &nm, false);
        let cmp = |what: &str, got: &CT, want: &CT| -> Result<(), Fail> {
            let (g, w) = (got.strip_fn_const(), want.strip_fn_const());
            if g != w {
                return Err(fail(&inp, &out, format!("{what}: `{}` becomes <{g:?}>, expected <{w:?}>", t.src())));
            }
            Ok(())
        };
        let one = |n: &str| -> Result<D, Fail> { find(&ds, n).first().map(|d| d.d.clone()).ok_or_else(|| fail(&inp, &out, format!("{n} is missing"))) };
        for n in ["H", "U"] {
            match one(n)? {
                D::Rec(r) if !r.fields.is_empty() => cmp("field", &r.fields[0].ty, &want)?,
                _ => return Err(fail(&inp, &out, format!("{n} has no field"))),
            }
        }
        match one("Al")? {
            D::Typedef { ty, .. } => cmp("alias", &ty, &want)?,
            _ => return Err(fail(&inp, &out, "Al is not an alias")),
        }
        match one("GL")? {
            D::Var { ty, .. } => cmp("static", &ty, &want)?,
            _ => return Err(fail(&inp, &out, "GL is not a variable")),
        }
        match one("f")? {
            D::Func { ty: CT::Fn { args, ret, .. }, .. } => {
                cmp("argument", &args[0].1, &wanta)?;
                cmp("return", &ret, &wanta)?;
            }
            _ => return Err(fail(&inp, &out, "f is not a function")),
        }
        // the variant's body: a struct with member a of this type, somewhere
        let mut bodies = vec![];
        for dcl in &ds {
            if let D::Rec(r) = &dcl.d {
                if r.name.as_deref() == Some("V_Body") || r.typedef.as_deref() == Some("V_Body") {
                    bodies.push(r.clone());
                }
                for (_, k, _) in &r.nested {
                    if k.name.as_deref() == Some("V_Body") {
                        bodies.push(k.clone());
                    }
                }
            }
        }
        match bodies.first() {
            Some(b) if !b.fields.is_empty() => cmp("variant field", &b.fields[0].ty, &want)?,
            _ => return Err(fail(&inp, &out, "variant body missing")),
        }
        ctx.interesting();
        Ok(())
    });
}

// ---------------------------------------------------------------- C04 / C05

use std::collections::HashMap;

pub struct World<'a> {
    pub items: HashMap<String, &'a Item>,
    pub decls: HashMap<String, &'a Decl>,
    pub conf: &'a Conf,
    pub seen: std::cell::RefCell<HashMap<LT, String>>,
    pub names: std::cell::RefCell<HashMap<String, LT>>,
    /// exact mangled names are demanded (C05)
    pub exact: Option<&'a dyn Fn(&str, &[LT]) -> String>,
}

/// forget nullability: it is not part of an instantiation's identity
fn forget(t: &LT) -> LT {
    match t {
        LT::Ptr { mutable, to, .. } => LT::Ptr { mutable: *mutable, nullable: true, to: Box::new(forget(to)) },
        LT::Named(n, a) => LT::Named(n.clone(), a.iter().map(forget).collect()),
        LT::Arr(t, n) => LT::Arr(Box::new(forget(t)), n.clone()),
        LT::Fn { args, ret, never, .. } => LT::Fn { args: args.iter().map(|(_, t)| (None, forget(t))).collect(), ret: Box::new(forget(ret)), never: *never && false, nullable: true },
        LT::Prim(p, _) => LT::Prim(rust_prim(p).to_string(), true),
        x => x.clone(),
    }
}

impl World<'_> {
    pub fn cmp(&self, got: &CT, want: &LT, is_const: bool) -> Result<(), String> {
        let bad = || Err(format!("got <{got:?}>, expected {}<{want:?}>", if is_const { "const " } else { "" }));
        let attr = |nullable: bool| if self.conf.attrs { Some(if nullable { "VX_NULLABLE" } else { "VX_NONNULL" }.to_string()) } else { None };
        match (got, want) {
            (CT::Base { is_const: k, tag: None, name, args }, LT::Prim(p, _)) if *k == is_const && args.is_empty() => {
                if *name != c_prim(p, self.conf.usize_is_size_t) {
                    return bad();
                }
                Ok(())
            }
            (CT::Base { name, args, .. }, LT::Const(c)) => {
                if name != c || !args.is_empty() {
                    return bad();
                }
                Ok(())
            }
            (CT::Base { is_const: k, name, args, .. }, LT::Named(n, a)) if *k == is_const => {
                let item = self.items.get(n);
                if self.conf.cpp() || item.is_none() {
                    if name != n || args.len() != a.len() {
                        return bad();
                    }
                    for (g, w) in args.iter().zip(a) {
                        self.cmp(g, w, false)?;
                    }
                    return Ok(());
                }
                let item = item.unwrap();
                if !args.is_empty() {
                    return bad();
                }
                if a.is_empty() && item.params().is_empty() {
                    if name != n {
                        return bad();
                    }
                } else if let Some(e) = self.exact {
                    if *name != e(n, a) {
                        return Err(format!("instantiation <{want:?}> is called {name}, expected {}", e(n, a)));
                    }
                }
                self.define(name, item, a, want)
            }
            (CT::Ptr { is_const: k, attr: at, is_ref: false, to }, LT::Ptr { mutable, nullable, to: w }) if *k == is_const && *at == attr(*nullable) => self.cmp(to, w, !*mutable),
            (CT::Arr { len, of }, LT::Arr(w, n)) => {
                if len != n {
                    return bad();
                }
                self.cmp(of, w, is_const)
            }
            (CT::Ptr { is_const: _, attr: at, is_ref: false, to }, LT::Fn { args, ret, never, .. }) if *at == attr(true) => match &**to {
                CT::Fn { ret: gr, args: ga, noreturn } => {
                    if ga.len() != args.len() || noreturn != never {
                        return bad();
                    }
                    for ((gn, gt), (wn, wt)) in ga.iter().zip(args) {
                        if gn != wn {
                            return bad();
                        }
                        self.cmp(gt, wt, false)?;
                    }
                    self.cmp(gr, ret, false)
                }
                _ => bad(),
            },
            _ => bad(),
        }
    }

    fn define(&self, name: &str, item: &Item, a: &[LT], want: &LT) -> Result<(), String> {
        let key = forget(want);
        if let Some(prev) = self.seen.borrow().get(&key) {
            if prev != name {
                return Err(format!("one instantiation <{want:?}> has two names: {prev} and {name}"));
            }
            return Ok(());
        }
        if let Some(o) = self.names.borrow().get(name) {
            if *o != key {
                return Err(format!("two instantiations share the name {name}: <{o:?}> and <{key:?}>"));
            }
        }
        self.seen.borrow_mut().insert(key.clone(), name.to_string());
        self.names.borrow_mut().insert(name.to_string(), key);
        let d = match self.decls.get(name) {
            Some(d) => d,
            None => return Err(format!("{name} is used but never declared")),
        };
        let m = bind(item.params(), a, self.conf.lang);
        let lt = |t: &RT| lower(t, self.conf.lang).map(|t| t.subst(&m));
        match (item, &d.d) {
            (Item::Rec { union, fields, .. }, D::Rec(r)) => {
                if r.kind != if *union { "union" } else { "struct" } {
                    return Err(format!("{name} is a {}", r.kind));
                }
                let want: Vec<(String, LT)> = fields.iter().filter_map(|(n, t)| lt(t).map(|t| (n.clone(), t))).collect();
                if r.fields.len() != want.len() {
                    return Err(format!("{name} has {} members, expected {}", r.fields.len(), want.len()));
                }
                for (f, (wn, wt)) in r.fields.iter().zip(&want) {
                    if f.name.as_deref() != Some(wn.as_str()) {
                        return Err(format!("{name}: member {:?}, expected {wn}", f.name));
                    }
                    self.cmp(&f.ty, wt, false).map_err(|e| format!("{name}.{wn}: {e}"))?;
                }
                Ok(())
            }
            (Item::Alias { ty, .. }, D::Typedef { ty: g, .. }) => self.cmp(g, &lt(ty).unwrap(), false).map_err(|e| format!("typedef {name}: {e}")),
            (Item::Opaque { .. }, D::Fwd { .. }) => Ok(()),
            (Item::Enum { .. }, D::Enum(_)) | (Item::Enum { .. }, D::Typedef { .. }) => Ok(()),
            (_, d) => Err(format!("{name} is declared as {d:?}")),
        }
    }
}

/// Random generic definitions G0.. (each may use earlier ones) and functions using them.
pub fn generic_crate(rng: &mut Rng, c: &Conf, wrappers: bool, defaults: bool) -> Vec<Item> {
    let mut items = cast();
    let names: Vec<String> = ["Sa", "Ua", "Oa", "Ea", "Eb", "Aa"].iter().map(|s| s.to_string()).collect();
    let lens = vec!["LEN".to_string()];
    items.push(Item::Raw { name: "LEN".into(), src: "pub const LEN: usize = 5;\n".into() });
    let mut generics: Vec<(String, Vec<bool>, usize)> = vec![];
    let ng = 1 + rng.below(4);
    for g in 0..ng {
        let name = format!("G{g}");
        let np = 1 + rng.below(3);
        let mut params = vec![];
        let mut pnames = vec![];
        let mut cnames = lens.clone();
        let mut seen_default = false;
        for k in 0..np {
            let cst = rng.chance(1, 4);
            let n = if cst { format!("N{k}") } else { format!("T{k}") };
            seen_default = defaults && (seen_default || rng.chance(1, 3));
            let d = if seen_default {
                let t0 = TG { names: &names, generics: &[], params: &[], consts: &[], wrappers: false, self_ty: false, lang: c.lang };
                Some(if cst { RT::Const(format!("{}", 1 + rng.below(9))) } else { t0.ty(rng, 1) })
            } else {
                None
            };
            if cst {
                cnames.push(n.clone())
            } else {
                pnames.push(n.clone())
            }
            params.push(Param { name: n, cst: if cst { Some("usize".into()) } else { None }, default: d });
        }
        let ndef = params.iter().filter(|p| p.default.is_some()).count();
        let tg = TG { names: &names, generics: &generics, params: &pnames, consts: &cnames, wrappers, self_ty: false, lang: c.lang };
        let kind = rng.below(6);
        let item = match kind {
            0 => Item::Opaque { name: name.clone(), params: params.clone() },
            1 => Item::Alias { name: name.clone(), params: params.clone(), ty: tg.ty(rng, 3) },
            _ => {
                let nf = 1 + rng.below(4);
                let mut fields: Vec<(String, RT)> = (0..nf).map(|k| (format!("f{k}"), tg.ty(rng, 3))).collect();
                if rng.chance(1, 3) {
                    // recursive through a pointer
                    let args = params.iter().map(|p| if p.cst.is_some() { RT::Const(p.name.clone()) } else { named(&p.name) }).collect();
                    fields.push(("rec".into(), RT::Ptr(rng.chance(1, 2), bx(RT::Named(name.clone(), args)))));
                }
                if rng.chance(1, 6) {
                    fields.push(("ph".into(), RT::Named("PhantomData".into(), vec![prim("u8")])));
                }
                Item::Rec { union: kind == 2, name: name.clone(), params: params.clone(), fields, attrs: String::new() }
            }
        };
        let item = match item {
            Item::Alias { name, params, ty } if lower(&ty, c.lang).is_none() => Item::Alias { name, params, ty: prim("u8") },
            i => i,
        };
        items.push(item);
        generics.push((name, params.iter().map(|p| p.cst.is_some()).collect(), ndef));
    }
    let tg = TG { names: &names, generics: &generics, params: &[], consts: &lens, wrappers, self_ty: false, lang: c.lang };
    let inst = |rng: &mut Rng| -> RT {
        let (n, ks, defs) = rng.pick(&generics);
        let omit = if *defs > 0 { rng.below(defs + 1) } else { 0 };
        let k = (ks.len() - omit).max(1);
        RT::Named(n.clone(), ks[..k].iter().map(|cc| tg.arg_for(rng, *cc, 2)).collect())
    };
    let nf = 1 + rng.below(3);
    for f in 0..nf {
        let na = 1 + rng.below(3);
        let args: Vec<(String, RT)> = (0..na)
            .map(|k| {
                let t = inst(rng);
                let t = match rng.below(4) {
                    0 => RT::Ptr(true, bx(t)),
                    1 => RT::Fn(vec![(None, RT::Ptr(false, bx(t)))], bx(RT::Unit)),
                    _ => RT::Ptr(rng.chance(1, 2), bx(RT::Ptr(rng.chance(1, 2), bx(t)))),
                };
                (if rng.chance(1, 6) { "_".into() } else { format!("a{k}") }, t)
            })
            .collect();
        items.push(Item::Fn { name: format!("fun{f}"), args, ret: RT::Unit });
    }
    let st = inst(rng);
    items.push(Item::Static { name: "GLOB".into(), mutable: true, ty: RT::Ptr(true, bx(st)) });
    let st = inst(rng);
    items.push(Item::Rec { union: false, name: "Holder".into(), params: vec![], fields: vec![("h".into(), RT::Ptr(true, bx(st)))], attrs: String::new() });
    items.push(Item::Fn { name: "holder".into(), args: vec![("h".into(), named("Holder"))], ret: RT::Unit });
    items
}

/// Do two different reachable instantiations have the same mangled name by the scheme itself?
fn collide(items: &[Item], lang: Lang, ex: &dyn Fn(&str, &[LT]) -> String) -> bool {
    fn walk(t: &LT, out: &mut Vec<LT>) {
        match t {
            LT::Named(_, a) => {
                out.push(t.clone());
                a.iter().for_each(|x| walk(x, out));
            }
            LT::Ptr { to, .. } => walk(to, out),
            LT::Arr(t, _) => walk(t, out),
            LT::Fn { args, ret, .. } => {
                args.iter().for_each(|(_, x)| walk(x, out));
                walk(ret, out)
            }
            _ => {}
        }
    }
    let by: HashMap<&str, &Item> = items.iter().map(|i| (i.name(), i)).collect();
    let mut todo = vec![];
    for i in items {
        let tys: Vec<&RT> = match i {
            Item::Fn { args, ret, .. } => args.iter().map(|a| &a.1).chain([ret]).collect(),
            Item::Static { ty, .. } => vec![ty],
            Item::Rec { params, fields, .. } if params.is_empty() => fields.iter().map(|f| &f.1).collect(),
            Item::Alias { params, ty, .. } if params.is_empty() => vec![ty],
            _ => vec![],
        };
        for t in tys {
            if let Some(t) = lower(t, lang) {
                walk(&t, &mut todo);
            }
        }
    }
    let mut names: HashMap<String, LT> = HashMap::new();
    while let Some(t) = todo.pop() {
        if let LT::Named(n, a) = &t {
            if a.is_empty() {
                continue;
            }
            let m = ex(n, a);
            match names.get(&m) {
                Some(o) if *o == t => continue,
                Some(_) => return true,
                None => {}
            }
            names.insert(m, t.clone());
            if let Some(item) = by.get(n.as_str()) {
                let b = bind(item.params(), a, lang);
                let tys: Vec<&RT> = match item {
                    Item::Rec { fields, .. } => fields.iter().map(|f| &f.1).collect(),
                    Item::Alias { ty, .. } => vec![ty],
                    _ => vec![],
                };
                for f in tys {
                    if let Some(f) = lower(f, lang) {
                        walk(&f.subst(&b), &mut todo);
                    }
                }
            }
        }
    }
    false
}

/// Is some generic instantiated with more nesting than can terminate? Our generics only use
/// earlier ones or themselves with the same arguments, so instantiation always terminates.
fn check_generic(ctx: &Ctx, rng: &mut Rng, c: &Conf, exact: bool, mtoml: (&str, &dyn Fn(&str) -> String)) -> Result<(), Fail> {
    let wr = rng.chance(1, 3);
    let items = generic_crate(rng, c, wr, true);
    let inp = Input { src: source(&items), toml: c.toml() };
    let out = header(ctx, &inp)?;
    let ds = crate::cparse::parse_loose(&out, c.cpp()).map_err(|e| fail(&inp, &out, format!("unreadable header: {e}")))?;
    let mut decls: HashMap<String, &Decl> = HashMap::new();
    for d in &ds {
        if let Some(n) = d.name() {
            if decls.insert(n.to_string(), d).is_some() && !matches!(d.d, D::Typedef { .. }) {
                return Err(fail(&inp, &out, format!("{n} is declared twice")));
            }
        }
    }
    let (us, ren) = mtoml;
    let ex = |n: &str, a: &[LT]| mangle(n, a, true, us, ren);
    if !c.cpp() && collide(&items, c.lang, &ex) {
        // known finding KF-C05-1 (adjacent separators merge), or instantiations that differ only in
        // what C cannot see (nullability, argument names, never): one of the two is kept
        return Ok(());
    }
    let w = World {
        items: items.iter().filter(|i| !matches!(i, Item::Fn { .. } | Item::Static { .. } | Item::Raw { .. })).map(|i| (i.name().to_string(), i)).collect(),
        decls,
        conf: c,
        seen: Default::default(),
        names: Default::default(),
        exact: if exact { Some(&ex) } else { None },
    };
    let low = |t: &RT| lower(t, c.lang);
    for it in &items {
        match it {
            Item::Fn { name, args, .. } => match w.decls.get(name).map(|d| &d.d) {
                Some(D::Func { ty: CT::Fn { args: ga, .. }, .. }) => {
                    if ga.len() != args.len() {
                        return Err(fail(&inp, &out, format!("{name} has {} arguments", ga.len())));
                    }
                    for ((_, g), (n, t)) in ga.iter().zip(args) {
                        w.cmp(g, &low(t).unwrap(), false).map_err(|e| fail(&inp, &out, format!("{name}({n}): {e}")))?;
                    }
                }
                _ => return Err(fail(&inp, &out, format!("{name} is not declared as a function"))),
            },
            Item::Static { name, ty, .. } => match w.decls.get(name).map(|d| &d.d) {
                Some(D::Var { ty: g, .. }) => w.cmp(g, &low(ty).unwrap(), false).map_err(|e| fail(&inp, &out, format!("{name}: {e}")))?,
                _ => return Err(fail(&inp, &out, format!("{name} is not declared as a variable"))),
            },
            Item::Rec { name, params, fields, .. } if c.cpp() || params.is_empty() => match w.decls.get(name).map(|d| &d.d) {
                Some(D::Rec(r)) => {
                    let gp: Vec<&str> = r.generics.iter().map(|g| g.1.as_str()).collect();
                    let wp: Vec<&str> = params.iter().map(|g| g.name.as_str()).collect();
                    if gp != wp {
                        return Err(fail(&inp, &out, format!("{name} has template parameters {gp:?}, expected {wp:?}")));
                    }
                    let want: Vec<(String, LT)> = fields.iter().filter_map(|(n, t)| low(t).map(|t| (n.clone(), t))).collect();
                    if r.fields.len() != want.len() {
                        return Err(fail(&inp, &out, format!("{name} has {} members, expected {}", r.fields.len(), want.len())));
                    }
                    for (f, (wn, wt)) in r.fields.iter().zip(&want) {
                        if f.name.as_deref() != Some(wn.as_str()) {
                            return Err(fail(&inp, &out, format!("{name}: member {:?}, expected {wn}", f.name)));
                        }
                        w.cmp(&f.ty, wt, false).map_err(|e| fail(&inp, &out, format!("{name}.{wn}: {e}")))?;
                    }
                }
                _ if params.is_empty() || c.cpp() => {} // not needed, not emitted: C08 decides
                _ => {}
            },
            _ => {}
        }
    }
    // generics themselves must not survive in C
    if !c.cpp() {
        for it in &items {
            if !it.params().is_empty() && w.decls.contains_key(it.name()) {
                return Err(fail(&inp, &out, format!("the generic {} itself is emitted", it.name())));
            }
        }
        // every emitted type is used by someone we visited or is part of the cast
        ctx.interesting();
    } else {
        ctx.interesting();
    }
    Ok(())
}

/// Generic enums with data: every instantiation (C) or the template (C++) has a body per variant whose members are
/// the variant's fields with the parameters replaced, and enumerators of its own.
fn check_genum(ctx: &Ctx, rng: &mut Rng, c: &Conf, exact: bool, ren: &dyn Fn(&str) -> String) -> Result<(), Fail> {
    let items = cast();
    let names: Vec<String> = ["Sa", "Ua", "Oa", "Ea", "Eb", "Aa"].iter().map(|s| s.to_string()).collect();
    let np = 1 + rng.below(3);
    let mut params = vec![];
    let (mut pn, mut cn) = (vec![], vec!["7".to_string()]);
    for k in 0..np {
        let cst = rng.chance(1, 5);
        let n = if cst { format!("N{k}") } else { format!("T{k}") };
        if cst { cn.push(n.clone()) } else { pn.push(n.clone()) }
        params.push(Param { name: n, cst: if cst { Some("usize".into()) } else { None }, default: None });
    }
    let tg = TG { names: &names, generics: &[], params: &pn, consts: &cn, wrappers: false, self_ty: false, lang: c.lang };
    let repr = *rng.pick(&["C", "u8", "C, u8"]);
    let tagged = repr == "u8";
    // kind 0: unit, 1: named, 2: tuple
    let nv = 2 + rng.below(3);
    let mut vars: Vec<(String, usize, Vec<(String, RT)>)> = (0..nv)
        .map(|k| {
            let kind = rng.below(4).min(2);
            let nf = if kind == 0 { 0 } else { 1 + rng.below(3) };
            let fs = (0..nf)
                .map(|j| {
                    let t = tg.ty(rng, 3);
                    let t = if lower(&t, c.lang).is_none() { named(pn.first().map(|s| s.as_str()).unwrap_or("Sa")) } else { t };
                    (if kind == 1 { format!("f{j}") } else { format!("_{j}") }, t)
                })
                .collect();
            (format!("V{}", (b'a' + k as u8) as char), kind, fs)
        })
        .collect();
    if vars.iter().all(|v| v.1 == 0) {
        vars[0] = ("Va".into(), 1, vec![("f0".into(), prim("u8"))]);
    }
    let mut e = format!("#[repr({repr})] pub enum Ge<{}> {{ ", params.iter().map(|p| if p.cst.is_some() { format!("const {}: usize", p.name) } else { p.name.clone() }).collect::<Vec<_>>().join(", "));
    for (n, kind, fs) in &vars {
        e += n;
        match kind {
            1 => e += &format!(" {{ {} }}", fs.iter().map(|(n, t)| format!("{n}: {}", t.src())).collect::<Vec<_>>().join(", ")),
            2 => e += &format!("({})", fs.iter().map(|(_, t)| t.src()).collect::<Vec<_>>().join(", ")),
            _ => {}
        }
        e += ", ";
    }
    e += "}\n";
    let tg0 = TG { names: &names, generics: &[], params: &[], consts: &[], wrappers: false, self_ty: false, lang: c.lang };
    let insts: Vec<Vec<RT>> = (0..1 + rng.below(3)).map(|_| params.iter().map(|p| tg0.arg_for(rng, p.cst.is_some(), 2)).collect()).collect();
    let mut src = source(&items) + &e;
    for (i, a) in insts.iter().enumerate() {
        src += &format!("#[no_mangle] pub extern \"C\" fn g{i}(a: {}) {{}}\n", RT::Ptr(true, bx(RT::Named("Ge".into(), a.clone()))).src());
    }
    let inp = Input { src, toml: c.toml() };
    let out = header(ctx, &inp)?;
    let ds = crate::cparse::parse_loose(&out, c.cpp()).map_err(|e| fail(&inp, &out, format!("unreadable header: {e}")))?;
    let ex = |n: &str, a: &[LT]| mangle(n, a, true, "_", ren);
    let mut largs = vec![];
    for a in &insts {
        let mut l = vec![];
        for x in a {
            match lower(x, c.lang) {
                Some(x) => l.push(x),
                None => return Ok(()),
            }
        }
        largs.push(l);
    }
    if !c.cpp() {
        let ks: std::collections::HashSet<Vec<LT>> = largs.iter().map(|l| l.iter().map(forget).collect()).collect();
        let ms: std::collections::HashSet<String> = largs.iter().map(|l| ex("Ge", l)).collect();
        if ks.len() != ms.len() {
            return Ok(()); // KF-C05-1
        }
    }
    let mut decls: HashMap<String, &Decl> = HashMap::new();
    for d in &ds {
        if let Some(n) = d.name() {
            decls.insert(n.to_string(), d);
        }
    }
    let w = World { items: items.iter().map(|i| (i.name().to_string(), i)).collect(), decls, conf: c, seen: Default::default(), names: Default::default(), exact: if exact { Some(&ex) } else { None } };
    let bad = |m: String| Err(fail(&inp, &out, m));
    for (i, l) in largs.iter().enumerate() {
        let used = match w.decls.get(&format!("g{i}")).map(|d| &d.d) {
            Some(D::Func { ty: CT::Fn { args, .. }, .. }) => match &args[0].1 {
                CT::Ptr { to, .. } => match &**to {
                    CT::Base { name, .. } => name.clone(),
                    _ => return bad(format!("g{i}: not a named type")),
                },
                _ => return bad(format!("g{i}: not a pointer")),
            },
            _ => return bad(format!("g{i} is not declared")),
        };
        let (name, m) = if c.cpp() { ("Ge".to_string(), vec![]) } else { (ex("Ge", l), bind(&params, l, c.lang)) };
        let mg = |n: &str| if c.cpp() { n.to_string() } else { ex(n, l) };
        if used != name {
            return bad(format!("g{i} takes {used}, expected {name}"));
        }
        let rec = match w.decls.get(&name).map(|d| &d.d) {
            Some(D::Rec(r)) => r,
            _ => return bad(format!("{name} is not defined")),
        };
        let tagname = if c.cpp() { "Tag".to_string() } else { format!("{name}_Tag") };
        let en = if c.cpp() {
            rec.enums.iter().find(|e| e.name.as_deref() == Some("Tag"))
        } else {
            ds.iter().find_map(|d| match &d.d {
                D::Enum(e) if e.name.as_deref() == Some(&*tagname) || e.typedef.as_deref() == Some(&*tagname) => Some(e),
                _ => None,
            })
        };
        let Some(en) = en else { return bad(format!("{name} has no tag enum")) };
        let got: Vec<&str> = en.variants.iter().map(|v| v.0.as_str()).collect();
        let want: Vec<String> = vars.iter().map(|v| mg(&v.0)).collect();
        if got != want.iter().map(|s| s.as_str()).collect::<Vec<_>>() {
            return bad(format!("the tags of {name} are {got:?}, expected {want:?}"));
        }
        // the union of the variants
        let un = if tagged { rec } else {
            match rec.nested.iter().find(|n| n.1.kind == "union" && n.1.name.is_none()) {
                Some(n) => &n.1,
                None => return bad(format!("{name} has no union")),
            }
        };
        for (vn, kind, fs) in vars.iter().filter(|v| v.1 != 0) {
            let member = vn.to_lowercase();
            let inline = *kind == 2 && fs.len() == 1 && !c.cpp();
            let mut want: Vec<(String, Option<LT>)> = fs.iter().map(|(n, t)| (if inline { member.clone() } else { n.clone() }, Some(lower(t, c.lang).unwrap().subst(&m)))).collect();
            if tagged {
                want.insert(0, (if inline { format!("{member}_tag") } else { "tag".into() }, None));
            }
            let body = if inline {
                match un.nested.iter().find(|n| n.1.name.is_none() && n.1.fields.iter().any(|f| f.name.as_deref() == Some(&*member))) {
                    Some(n) => &n.1,
                    None => return bad(format!("{name} has no member {member}")),
                }
            } else {
                let bn = mg(&format!("{vn}_Body"));
                match un.fields.iter().find(|f| f.name.as_deref() == Some(&*member)).map(|f| &f.ty) {
                    Some(CT::Base { name: t, is_const: false, .. }) if *t == bn => {}
                    t => return bad(format!("{name}.{member} is {t:?}, expected {bn}")),
                }
                if c.cpp() {
                    match rec.nested.iter().find(|n| n.1.name.as_deref() == Some(&*bn)) {
                        Some(n) => &n.1,
                        None => return bad(format!("{bn} is not defined in {name}")),
                    }
                } else {
                    match w.decls.get(&bn).map(|d| &d.d) {
                        Some(D::Rec(r)) => r,
                        _ => return bad(format!("{bn} is not defined")),
                    }
                }
            };
            if body.fields.len() != want.len() {
                return bad(format!("{vn} of {name} has {} members, expected {}", body.fields.len(), want.len()));
            }
            for (f, (wn, wt)) in body.fields.iter().zip(&want) {
                if f.name.as_deref() != Some(wn.as_str()) {
                    return bad(format!("{vn} of {name}: member {:?}, expected {wn}", f.name));
                }
                match wt {
                    Some(wt) => w.cmp(&f.ty, wt, false).map_err(|e| fail(&inp, &out, format!("{vn} of {name}, {wn}: {e}")))?,
                    None => match &f.ty {
                        CT::Base { name: t, .. } if *t == tagname => {}
                        t => return bad(format!("{vn} of {name}: the tag has type {t:?}")),
                    },
                }
            }
        }
    }
    ctx.interesting();
    Ok(())
}

pub fn c04(ctx: &Ctx) {
    let n = ctx.n(8_000, 120_000);
    ctx.bound(format!("{n} random crates with 1-4 generic structs, unions, aliases, opaque types and enums with data (type and const parameters, defaults), instantiated from functions, fields and statics; every reachable instantiation is compared member by member"));
    for (k, src, pat, what) in [
        ("KF-C04-1", "#[repr(C)] pub struct Gen<T> { next: *mut Self, x: T }\n#[no_mangle] pub extern \"C\" fn f(g: Gen<u8>) {}\n", "  Gen *next;", "`Self` inside a generic struct becomes the bare generic name in C (struct Gen<T> { next: *mut Self })"),
        ("KF-C04-2", "#[repr(C)] pub struct Def<T, U = *mut T> { x: T, y: U }\n#[no_mangle] pub extern \"C\" fn f(d: Def<u8>) {}\n", "  T *y;", "a parameter default that mentions an earlier parameter is not substituted in C (struct Def<T, U = *mut T>)"),
        ("KF-C04-3", "#[repr(C)] pub struct Def<T = u8> { x: T }\n#[no_mangle] pub extern \"C\" fn f(d: Def) {}\n", "void f(Def d);", "a generic whose parameters all have defaults is not instantiated when used without arguments in C (struct Def<T = u8>; fn f(d: Def))"),
    ] {
        if ctx.known(k) {
            let inp = Input { src: src.into(), toml: "language = \"C\"\n".into() };
            if let Gen::Ok(h) = run(ctx, &inp) {
                if h.contains(pat) {
                    ctx.known.lock().unwrap().push(format!("{k}: {what}"));
                }
            }
        }
    }
    ctx.par("inst", n, |ctx, _, rng| {
        let mut c = Conf::random(rng);
        c.line_length = 1000;
        check_generic(ctx, rng, &c, false, ("_", &|s: &str| s.to_string()))
    });
    ctx.par("genum", ctx.n(2500, 40_000), |ctx, _, rng| {
        let mut c = Conf::random(rng);
        c.line_length = 1000;
        check_genum(ctx, rng, &c, false, &|s: &str| s.to_string())
    });
    // Self in non-generic items
    ctx.par("self", ctx.n(1500, 20_000), |ctx, _, rng| {
        let mut c = Conf::random(rng);
        c.line_length = 1000;
        let names: Vec<String> = ["Sa", "Oa"].iter().map(|s| s.to_string()).collect();
        let tg = TG { names: &names, generics: &[], params: &[], consts: &[], wrappers: true, self_ty: true, lang: c.lang };
        let d = 1 + rng.below(4);
        let (t1, t2) = (tg.ty(rng, d), tg.ty(rng, d));
        let me = named("Me");
        let r1 = RT::Ptr(true, bx(t1));
        let r2 = RT::Ptr(false, bx(t2));
        let src = format!(
            "#[repr(C)] pub struct Sa {{ pub x: u8 }}\npub struct Oa {{ h: u8 }}\n#[repr(C)] pub struct Me {{ pub a: {}, pub b: {} }}\n#[repr(C)] pub union Un {{ pub a: {}, pub b: u8 }}\nimpl Me {{ #[no_mangle] pub extern \"C\" fn m(me: {}, more: {}) -> {} {{}} }}\n#[no_mangle] pub extern \"C\" fn f(a: Un, t: *mut Tu, e: *mut En) {{}}\n#[repr(C)] pub struct Tu({}, {}, pub {});\n#[repr(C)] pub enum En {{ Va {{ a: {}, b: {} }}, Vb({}, {}), Vc, Vd({}) }}\n",
            r1.src(), r2.src(), r2.src(), r1.src(), r2.src(), r2.src(), r1.src(), r2.src(), r1.src(), r1.src(), r2.src(), r2.src(), r1.src(), r2.src()
        );
        let inp = Input { src, toml: c.toml() };
        let out = header(ctx, &inp)?;
        let ds = parse(&out, c.cpp()).map_err(|e| fail(&inp, &out, format!("unreadable header: {e}")))?;
        let nm = |n: &str, _: &[LT]| {
            let t = if !c.tags() { None } else if n == "Un" { Some("union".to_string()) } else if ["Sa", "Oa", "Me", "Tu", "En"].contains(&n) { Some("struct".to_string()) } else { None };
            (t, n.to_string(), true)
        };
        let ct = |t: &RT, s: &RT| to_ct(&lower(&t.replace_self(s), c.lang).unwrap(), &c, &nm).strip_fn_const();
        let (un, tu, en) = (named("Un"), named("Tu"), named("En"));
        let mut seen = 0;
        let chk = |w: &str, g: &CT, e: CT| if g.strip_fn_const() == e { Ok(()) } else { Err(fail(&inp, &out, format!("{w}: got <{g:?}>, expected <{e:?}>"))) };
        for dcl in &ds {
            match &dcl.d {
                D::Rec(r) if dcl.name() == Some("Me") => {
                    if r.fields.len() != 2 {
                        return Err(fail(&inp, &out, "Me has not two members"));
                    }
                    chk("Me.a", &r.fields[0].ty, ct(&r1, &me))?;
                    chk("Me.b", &r.fields[1].ty, ct(&r2, &me))?;
                }
                D::Rec(r) if ["Tu", "Va_Body", "Vb_Body"].contains(&dcl.name().unwrap_or_default()) => {
                    let want = match dcl.name().unwrap() {
                        "Tu" => vec![ct(&r1, &tu), ct(&r2, &tu), ct(&r1, &tu)],
                        "Va_Body" => vec![ct(&r1, &en), ct(&r2, &en)],
                        _ => vec![ct(&r2, &en), ct(&r1, &en)],
                    };
                    if r.fields.len() != want.len() {
                        return Err(fail(&inp, &out, "a tuple struct or variant body has not all its members"));
                    }
                    for (f, w) in r.fields.iter().zip(want) {
                        chk(dcl.name().unwrap(), &f.ty, w)?;
                    }
                    seen += 1;
                }
                D::Rec(r) if dcl.name() == Some("En") => {
                    // the variant with one member: inline in C, a body of its own in C++
                    fn find(r: &Record) -> Option<&CT> {
                        if r.name.as_deref() == Some("Vd_Body") {
                            return r.fields.first().map(|f| &f.ty);
                        }
                        r.nested.iter().find_map(|n| match n.1.fields.iter().find(|f| f.name.as_deref() == Some("vd")) {
                            Some(f) if n.1.name.is_none() && n.1.kind == "struct" => Some(&f.ty),
                            _ => find(&n.1),
                        })
                    }
                    match find(r) {
                        Some(t) => chk("En.vd", t, ct(&r2, &en))?,
                        None => return Err(fail(&inp, &out, "the member of Vd is missing")),
                    }
                }
                D::Rec(r) if dcl.name() == Some("Un") => chk("Un.a", &r.fields[0].ty, ct(&r2, &un))?,
                D::Func { name, ty: CT::Fn { args, ret, .. }, .. } if name == "m" || name == "Me_m" => {
                    chk("m.me", &args[0].1, ct(&r1, &me))?;
                    chk("m.more", &args[1].1, ct(&r2, &me))?;
                    chk("m ret", ret, ct(&r2, &me))?;
                }
                _ => {}
            }
        }
        if seen != if c.cpp() { 1 } else { 3 } {
            return Err(fail(&inp, &out, "a tuple struct or variant body is missing"));
        }
        ctx.interesting();
        Ok(())
    });
}

pub fn c05(ctx: &Ctx) {
    let n = ctx.n(8_000, 120_000);
    ctx.bound(format!("{n} random crates with 1-4 generics (C only; C++ has templates): every use must carry exactly the documented mangled name, with default settings, rename_types and remove_underscores, one name per instantiation and one instantiation per name"));
    if ctx.known("KF-C05-1") {
        let inp = Input { src: "#[repr(C)] pub struct Gen<T> { x: T }\n#[no_mangle] pub extern \"C\" fn f(a: Gen<*const *mut u8>, b: Gen<*mut *const u8>) {}\n".into(), toml: "language = \"C\"\n".into() };
        if let Gen::Ok(h) = run(ctx, &inp) {
            if h.contains("void f(struct Gen__________u8 a, struct Gen__________u8 b);") {
                ctx.known.lock().unwrap().push("KF-C05-1: Gen<*const *mut u8> and Gen<*mut *const u8> get the same mangled name because adjacent separators merge (so do other arguments whose leading separators add up to the same length)".into());
            }
        }
    }
    ctx.par("mangle", n, |ctx, i, rng| {
        let mut c = Conf::random(rng);
        c.lang = Lang::C;
        c.line_length = 1000;
        match i % 4 {
            0 => {
                c.tables = "[export.mangle]\nrename_types = \"UpperCase\"\n".into();
                check_generic(ctx, rng, &c, true, ("_", &|s: &str| s.to_uppercase()))
            }
            _ => check_generic(ctx, rng, &c, true, ("_", &|s: &str| s.to_string())),
        }
    });
    ctx.par("genum", ctx.n(1500, 20_000), |ctx, i, rng| {
        let mut c = Conf::random(rng);
        c.lang = Lang::C;
        c.line_length = 1000;
        if i % 3 == 0 {
            c.tables = "[export.mangle]\nrename_types = \"UpperCase\"\n".into();
            return check_genum(ctx, rng, &c, true, &|s: &str| s.to_uppercase());
        }
        check_genum(ctx, rng, &c, true, &|s: &str| s.to_string())
    });
    // remove_underscores can make different instantiations collide by design: single uses only
    ctx.par("nounderscore", ctx.n(1500, 20_000), |ctx, _, rng| {
        let mut c = Conf::new(Lang::C);
        c.style = *rng.pick(&[Style::Both, Style::Tag, Style::Type]);
        c.tables = "[export.mangle]\nremove_underscores = true\n".into();
        let tg = TG { names: &[], generics: &[("Gen".into(), vec![false], 0)], params: &[], consts: &[], wrappers: false, self_ty: false, lang: Lang::C };
        let t = tg.ty(rng, 3);
        let inp = Input { src: format!("#[repr(C)] pub struct Gen<T> {{ pub t: *mut T }}\n#[no_mangle] pub extern \"C\" fn f(g: *mut Gen<{}>) {{}}\n", t.src()), toml: c.toml() };
        let lt = match lower(&t, Lang::C) {
            Some(t) => t,
            None => return Ok(()),
        };
        let out = header(ctx, &inp)?;
        let ds = parse(&out, false).map_err(|e| fail(&inp, &out, format!("unreadable header: {e}")))?;
        let want = mangle("Gen", &[lt], true, "", &|s| s.to_string());
        match find(&ds, "f").first().map(|d| &d.d) {
            Some(D::Func { ty: CT::Fn { args, .. }, .. }) => match &args[0].1 {
                CT::Ptr { to, .. } if matches!(&**to, CT::Base { name, .. } if *name == want) => {}
                t => return Err(fail(&inp, &out, format!("argument is <{t:?}>, expected {want}"))),
            },
            _ => return Err(fail(&inp, &out, "f missing")),
        }
        if find(&ds, &want).is_empty() {
            return Err(fail(&inp, &out, format!("{want} is not defined")));
        }
        ctx.interesting();
        Ok(())
    });
}
