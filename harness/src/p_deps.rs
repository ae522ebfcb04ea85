//! C08: what is emitted, how often and in which order.
use crate::cparse::{parse_loose, D};
use crate::util::*;
use std::collections::BTreeSet;

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Struct,
    Transparent,
    Union,
    Enum,
    Data,
    Typedef,
    Opaque,
}

struct It {
    k: K,
    name: String,
    params: Vec<String>,
    refs: BTreeSet<usize>,
    has_assoc: bool,
    /// defined twice, under different conditions
    twice: bool,
}

struct G {
    cpp: bool,
    names: Vec<String>,
    nparams: Vec<usize>,
    kinds: Vec<K>,
    /// aliases from here on may not be named (an alias may not be recursive)
    alias_limit: std::cell::Cell<usize>,
}

impl G {
    /// a use of item t (its generic arguments are types too)
    fn use_of(&self, rng: &mut Rng, t: usize, cur: usize, ps: &[String], d: usize, refs: &mut BTreeSet<usize>) -> String {
        let n = &self.names[t];
        if ps.contains(n) {
            return n.clone(); // shadowed by a parameter
        }
        if d > 4 && self.nparams[t] > 0 || self.kinds[t] == K::Typedef && t >= self.alias_limit.get() {
            return "i16".into();
        }
        refs.insert(t);
        if self.nparams[t] == 0 {
            return n.clone();
        }
        let a: Vec<String> = (0..self.nparams[t]).map(|_| self.ty(rng, cur, ps, d + 1, true, refs)).collect();
        format!("{n}<{}>", a.join(", "))
    }
    /// `cur`: items below it may be used by value, all others only behind a pointer
    fn ty(&self, rng: &mut Rng, cur: usize, ps: &[String], d: usize, value: bool, refs: &mut BTreeSet<usize>) -> String {
        let any = rng.below(self.names.len());
        if !ps.is_empty() && rng.chance(1, 4) {
            return rng.pick(ps).clone();
        }
        if d > 3 {
            return if value && cur > 0 {
                let t = rng.below(cur);
                self.use_of(rng, t, cur, ps, d + 2, refs)
            } else {
                "u8".into()
            };
        }
        match rng.below(if value { 12 } else { 9 }) {
            0 | 1 => format!("*const {}", self.use_of(rng, any, cur, ps, d, refs)),
            2 => format!("*mut *const {}", self.use_of(rng, any, cur, ps, d, refs)),
            3 => format!("Option<&'static {}>", self.use_of(rng, any, cur, ps, d, refs)),
            4 => format!("*mut [{}; 3]", self.use_of(rng, any, cur, ps, d, refs)),
            5 | 6 => {
                let n = rng.below(3);
                let mut a = vec![];
                for _ in 0..n {
                    a.push(self.ty(rng, self.names.len(), ps, d + 1, true, refs));
                }
                let r = if rng.chance(1, 2) { format!(" -> {}", self.ty(rng, self.names.len(), ps, d + 2, true, refs)) } else { String::new() };
                let f = format!("extern \"C\" fn({}){r}", a.join(", "));
                if rng.chance(1, 2) {
                    format!("Option<{f}>")
                } else {
                    f
                }
            }
            7 => format!("Box<{}>", self.use_of(rng, any, cur, ps, d, refs)),
            8 => (*rng.pick(&["u8", "i32", "f64", "bool", "*const u8"])).to_string(),
            9 if cur > 0 => {
                let t = rng.below(cur);
                format!("[{}; 2]", self.use_of(rng, t, cur, ps, d, refs))
            }
            _ if cur > 0 => {
                let t = rng.below(cur);
                self.use_of(rng, t, cur, ps, d, refs)
            }
            _ => "u16".into(),
        }
    }
}

pub fn c08(ctx: &Ctx) {
    let n = ctx.n(6000, 120000);
    ctx.bound(format!("{n} random files of up to 12 items (structs, transparent structs, unions, enums, data enums, aliases, opaque types; generic ones in C++; structs and unions defined twice under different cfgs), referring to each other by value, pointer, array, function pointer, generic argument, associated constant and discriminant, with cycles through pointers; roots from functions, statics, constants and export.include; export.exclude and item_types set or not; C and C++, three styles"));
    ctx.par("deps", n, one);
}

fn one(ctx: &Ctx, _i: usize, rng: &mut Rng) -> Result<(), Fail> {
    let cpp = rng.chance(1, 2);
    let style = *rng.pick(&["both", "tag", "type"]);
    let m = 1 + rng.below(12);
    let names: Vec<String> = {
        // names whose alphabetical order is unrelated to the item's rank
        let mut l: Vec<String> = (0..m).map(|i| format!("It{}", (b'A' + i as u8) as char)).collect();
        rng.shuffle(&mut l);
        l
    };
    let kinds: Vec<K> = (0..m).map(|_| *rng.pick(&[K::Struct, K::Struct, K::Struct, K::Transparent, K::Union, K::Enum, K::Enum, K::Data, K::Data, K::Typedef, K::Typedef, K::Opaque, K::Opaque])).collect();
    let nparams: Vec<usize> = kinds
        .iter()
        .map(|k| if cpp && matches!(k, K::Struct | K::Union | K::Typedef | K::Data) && rng.chance(1, 3) { 1 + rng.below(2) } else { 0 })
        .collect();
    let g = G { cpp, names: names.clone(), nparams: nparams.clone(), kinds: kinds.clone(), alias_limit: std::cell::Cell::new(m) };
    let mut its: Vec<It> = vec![];
    let mut texts: Vec<String> = vec![];
    for c in 0..m {
        let name = names[c].clone();
        let k = kinds[c];
        g.alias_limit.set(if k == K::Typedef { c } else { m });
        let mut refs = BTreeSet::new();
        let mut params: Vec<String> = vec![];
        for p in 0..nparams[c] {
            // now and then a parameter that shadows an item
            let s = if rng.chance(1, 3) { rng.pick(&names).clone() } else { format!("T{p}") };
            if !params.contains(&s) && s != name {
                params.push(s);
            } else {
                params.push(format!("U{p}"));
            }
        }
        let gp = if params.is_empty() { String::new() } else { format!("<{}>", params.join(", ")) };
        let mut fs = vec!["z: u8".to_string()];
        for (i, p) in params.iter().enumerate() {
            fs.push(format!("p{i}: {}", if rng.chance(1, 2) { p.clone() } else { format!("*const {p}") }));
        }
        for i in 0..rng.below(4) {
            fs.push(format!("f{i}: {}", g.ty(rng, c, &params, 0, true, &mut refs)));
        }
        if rng.chance(1, 2) {
            rng.shuffle(&mut fs);
        }
        let mut has_assoc = false;
        let twice = matches!(k, K::Struct | K::Union) && params.is_empty() && rng.chance(1, 5);
        let t = match k {
            K::Struct | K::Union if twice => {
                let mut t = String::new();
                let kw = if k == K::Struct { "struct" } else { "union" };
                t.push_str(&format!("#[cfg(unix)] #[repr(C)] pub {kw} {name} {{ {} }}\n", fs.join(", ")));
                t.push_str(&format!("#[cfg(windows)] #[repr(C)] pub {kw} {name} {{ w: {} }}\n", g.ty(rng, c, &[], 0, true, &mut refs)));
                t
            }
            K::Struct => {
                let mut t = format!("#[repr(C)] pub struct {name}{gp} {{ {} }}\n", fs.join(", "));
                if params.is_empty() && rng.chance(1, 2) {
                    has_assoc = true;
                    let lit = match rng.below(3) {
                        0 if c > 0 => {
                            let u = rng.below(c);
                            if its[u].has_assoc {
                                refs.insert(u);
                                format!("{}::AK", names[u])
                            } else {
                                "1".into()
                            }
                        }
                        1 => "2 + 1".into(),
                        _ => "7".into(),
                    };
                    t.push_str(&format!("impl {name} {{ pub const AK: isize = {lit}; }}\n"));
                }
                t
            }
            K::Transparent => {
                let mut r = BTreeSet::new();
                let ty = g.ty(rng, c, &[], 0, true, &mut r);
                refs = r;
                format!("#[repr(transparent)] pub struct {name} {{ z: {ty} }}\n")
            }
            K::Union => format!("#[repr(C)] pub union {name}{gp} {{ {} }}\n", fs.join(", ")),
            K::Enum => {
                refs.clear();
                let mut d = String::new();
                if c > 0 && rng.chance(1, 3) {
                    let u = rng.below(c);
                    if its[u].has_assoc {
                        refs.insert(u);
                        d = match rng.below(3) {
                            0 => format!(" = {}::AK", names[u]),
                            1 => format!(" = {}::AK + 1", names[u]),
                            _ => format!(" = 1 << {}::AK", names[u]),
                        };
                    }
                } else if rng.chance(1, 4) {
                    d = " = 1 << 3".into();
                }
                format!("#[repr({})] pub enum {name} {{ {name}X, {name}Y{d} }}\n", if d.is_empty() { *rng.pick(&["C", "u8", "i32"]) } else { "C" })
            }
            K::Data => {
                refs.clear();
                let mut v = vec![];
                for (i, p) in params.iter().enumerate() {
                    v.push(format!("{name}P{i}({p})"));
                }
                for i in 0..1 + rng.below(3) {
                    let a = g.ty(rng, c, &params, 0, true, &mut refs);
                    v.push(match rng.below(3) {
                        0 => format!("{name}V{i}({a})"),
                        1 => format!("{name}V{i}({a}, {})", g.ty(rng, c, &params, 1, true, &mut refs)),
                        _ => format!("{name}V{i} {{ q: {a} }}"),
                    });
                }
                if rng.chance(1, 2) {
                    v.push(format!("{name}E"));
                }
                format!("#[repr({})] pub enum {name}{gp} {{ {} }}\n", *rng.pick(&["C", "u8", "C, u8"]), v.join(", "))
            }
            K::Typedef => {
                let mut r = BTreeSet::new();
                let ty = g.ty(rng, c, &params, 0, true, &mut r);
                refs = r;
                format!("pub type {name}{gp} = {ty};\n")
            }
            K::Opaque => {
                refs.clear();
                format!("pub struct {name} {{ hidden: Vec<u8> }}\n")
            }
        };
        its.push(It { k, name, params, refs, has_assoc, twice });
        texts.push(t);
    }
    g.alias_limit.set(m);
    // roots
    let mut roots = BTreeSet::new();
    for i in 0..rng.below(4) {
        let mut a = vec![];
        for j in 0..rng.below(3) {
            let t = g.ty(rng, m, &[], 0, true, &mut roots);
            let n = if rng.chance(1, 6) { "_".to_string() } else { format!("a{j}") };
            a.push(format!("{n}: {}{t}", if t.starts_with('[') { "*mut " } else { "" }));
        }
        let r = if rng.chance(1, 2) { format!(" -> {}", g.ty(rng, m, &[], 1, false, &mut roots)) } else { String::new() };
        texts.push(format!("#[no_mangle] pub extern \"C\" fn fun{i}({}){r} {{ loop {{}} }}\n", a.join(", ")));
    }
    for i in 0..rng.below(2) {
        texts.push(format!("#[no_mangle] pub static GLOB{i}: {} = 0;\n", g.ty(rng, m, &[], 0, true, &mut roots)));
    }
    if rng.chance(1, 3) {
        let u = rng.below(m);
        if its[u].has_assoc {
            roots.insert(u);
            texts.push(format!("pub const CST: isize = {}::AK;\n", names[u]));
        }
    }
    if rng.chance(1, 3) {
        let u = rng.below(m);
        if its[u].k == K::Struct && its[u].params.is_empty() && !its[u].twice {
            roots.insert(u);
            texts.push(format!("pub const CLIT: {0} = {0} {{ z: 3 }};\n", names[u]));
        }
    }
    rng.shuffle(&mut texts);
    let mut toml = format!("language = {:?}\nstyle = {style:?}\n", if cpp { "C++" } else { "C" });
    toml.push_str("[export]\n");
    let mut excluded = BTreeSet::new();
    if rng.chance(1, 3) {
        let mut inc: Vec<String> = vec![];
        for _ in 0..1 + rng.below(3) {
            let u = rng.below(m);
            roots.insert(u);
            inc.push(names[u].clone());
        }
        if rng.chance(1, 3) {
            inc.push("Nowhere".into());
        }
        toml.push_str(&format!("include = {inc:?}\n"));
    }
    if rng.chance(1, 5) {
        let u = rng.below(m);
        excluded.insert(u);
        toml.push_str(&format!("exclude = {:?}\n", vec![names[u].clone()]));
    }
    let mut on = vec!["structs", "unions", "enums", "typedefs", "opaque", "functions", "globals", "constants"];
    if rng.chance(1, 6) {
        on.remove(rng.below(5));
        toml.push_str(&format!("item_types = {on:?}\n"));
    }
    toml.push_str("[defines]\nunix = \"ON_UNIX\"\nwindows = \"ON_WINDOWS\"\n");
    let kind_on = |k: K| match k {
        K::Struct | K::Transparent => on.contains(&"structs"),
        K::Union => on.contains(&"unions"),
        K::Enum | K::Data => on.contains(&"enums"),
        K::Typedef => on.contains(&"typedefs"),
        K::Opaque => on.contains(&"opaque"),
    };
    let known = |i: usize| kind_on(its[i].k) && !excluded.contains(&i);
    // reachability over known items
    let reach_from = |start: &BTreeSet<usize>| {
        let mut seen: BTreeSet<usize> = BTreeSet::new();
        let mut todo: Vec<usize> = start.iter().copied().filter(|i| known(*i)).collect();
        while let Some(i) = todo.pop() {
            if seen.insert(i) {
                todo.extend(its[i].refs.iter().copied().filter(|j| known(*j)));
            }
        }
        seen
    };
    let want = reach_from(&roots);
    let inp = Input { src: texts.concat(), toml };
    let h = header(ctx, &inp)?;
    let ds = parse_loose(&h, cpp).map_err(|e| fail(&inp, &h, format!("unreadable header: {e}")))?;
    let mut pos: Vec<Vec<usize>> = vec![vec![]; m];
    for (p, d) in ds.iter().enumerate() {
        let Some(nm) = d.name() else { continue };
        let Some(i) = names.iter().position(|x| x == nm) else { continue };
        let counts = match (&d.d, its[i].k) {
            // an enum with a fixed size is an enum and a typedef in C
            (D::Typedef { .. }, K::Enum) => false,
            (D::Func { .. } | D::Var { .. } | D::Const { .. } | D::Define { .. }, _) => false,
            _ => true,
        };
        if counts {
            pos[i].push(p);
        }
    }
    if want.len() > 3 {
        ctx.interesting();
    }
    for i in 0..m {
        let n = pos[i].len();
        let exp = want.contains(&i);
        if exp && n == 0 {
            return Err(fail(&inp, &h, format!("{} is needed but not emitted", names[i])));
        }
        if !exp && n > 0 {
            return Err(fail(&inp, &h, format!("{} is emitted but not needed", names[i])));
        }
        if n > 1 && !(its[i].twice && n == 2) || exp && its[i].twice && n == 1 {
            return Err(fail(&inp, &h, format!("{} is emitted {n} times", names[i])));
        }
    }
    let layer = |i: usize| match its[i].k {
        K::Enum if !its[i].refs.iter().any(|_| true) => 0,
        K::Opaque => 1,
        _ => 2,
    };
    for &i in &want {
        for &j in its[i].refs.iter().filter(|j| known(**j) && **j != i) {
            if *pos[j].last().unwrap() > pos[i][0] && !reach_from(&its[j].refs.clone()).contains(&i) {
                return Err(fail(&inp, &h, format!("{} refers to {}, which comes later although the two are in no cycle", names[i], names[j])));
            }
        }
        for &j in &want {
            if layer(i) < layer(j) && pos[i][0] > pos[j][0] {
                return Err(fail(&inp, &h, format!("{} (plain enum or opaque type) does not come before {}", names[i], names[j])));
            }
        }
    }
    let _ = g.cpp;
    Ok(())
}
