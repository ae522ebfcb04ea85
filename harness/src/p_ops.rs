//! C16: which comparison operators (and constructors, stream operators) are derived in C++.
use crate::util::*;
use std::fmt::Write;

const OPS: &[(&str, &str, &str)] = &[("eq", "==", "&&"), ("neq", "!=", "||"), ("lt", "<", "&&"), ("lte", "<=", "&&"), ("gt", ">", "&&"), ("gte", ">=", "&&")];

#[derive(Clone, Copy, PartialEq)]
enum C {
    /// == and <
    Both,
    /// == only
    Eq,
    None,
}

fn ty(rng: &mut Rng, params: &[&str], plain: bool) -> (String, C) {
    match rng.below(14) {
        0 | 1 => (rng.pick(&["u8", "i32", "u64", "usize", "c_int"]).to_string(), C::Both),
        2 => (rng.pick(&["f32", "f64"]).to_string(), C::Both),
        3 => ("bool".into(), C::Eq),
        4 => ("*const u8".into(), C::Both),
        5 => ("*mut [u8; 3]".into(), C::Both),
        6 => ("Option<extern \"C\" fn(u8) -> bool>".into(), C::Eq),
        7 => ("extern \"C\" fn()".into(), C::Eq),
        8 => ("[u8; 4]".into(), C::None),
        9 => ("[[bool; 2]; 2]".into(), C::None),
        10 => ("Plain".into(), C::Both),
        11 if !params.is_empty() && !plain => (rng.pick(params).to_string(), C::Both),
        12 => ("&'static bool".into(), C::Both),
        13 => ("Option<&'static Plain>".into(), C::Both),
        _ => ("char".into(), C::Both),
    }
}

/// (annotation text, its effect)
fn switches(rng: &mut Rng, odd: bool) -> (String, Vec<Option<bool>>) {
    let mut t = String::new();
    let mut v = vec![];
    for (n, _, _) in OPS.iter().map(|x| (x.0, 0, 0)).chain([("constructor", 0, 0), ("ostream", 0, 0)]) {
        match rng.below(8) {
            0 => {
                let _ = writeln!(t, "/// cbindgen:derive-{n}");
                v.push(Some(true));
            }
            1 => {
                let _ = writeln!(t, "/// cbindgen:derive-{n}=true");
                v.push(Some(true));
            }
            2 => {
                let _ = writeln!(t, "/// cbindgen:derive-{n}=false");
                v.push(Some(false));
            }
            // other spellings; the last line of a name holds
            3 if rng.chance(1, 2) => {
                let mut e = None;
                for _ in 0..1 + rng.below(3) {
                    let (sp, x): (&str, Option<bool>) = *rng.pick(&[
                        (" cbindgen: derive-N = true ", Some(true)),
                        ("\tcbindgen:derive-N  ", Some(true)),
                        ("cbindgen:derive-N =false", Some(false)),
                        ("   cbindgen:derive-N= true", Some(true)),
                        (" cbindgen:derive-N=false", Some(false)),
                        (" cbindgen:derive-N=True", None),
                        (" cbindgen:derive-N=", None),
                        (" cbindgen:derive-N=[true]", None),
                        (" cbindgen:derive-N=yes", None),
                    ]);
                    if x.is_none() && !odd {
                        continue;
                    }
                    if rng.chance(1, 2) {
                        let _ = writeln!(t, "///{}", sp.replace('N', n));
                    } else {
                        let _ = writeln!(t, "#[doc = {:?}]", sp.replace('N', n));
                    }
                    e = x;
                    if rng.chance(1, 3) {
                        let _ = writeln!(t, "/// see cbindgen:derive-{n}=true, derive-{n}=false\n/// cbindgen:derive-{n}s\n/// cbindgen-derive-{n}");
                    }
                }
                v.push(e);
            }
            _ => v.push(None),
        }
    }
    (t, v)
}

struct Body {
    name: String,
    fields: Vec<(String, C)>,
    /// variant bodies: the first member is the tag
    tag: bool,
    sw: Vec<bool>,
}

/// the returned expression of the operator, if it is declared
fn found(h: &str, scope: &str, name: &str, sym: &str) -> Option<String> {
    let at = h.find(&format!("{scope} {{"))?;
    let end = closing(h, at);
    let head = format!("bool operator{sym}(const {name}& other) const {{");
    let p = h[at..end].find(&head)? + at + head.len();
    let e = closing(h, p - 1);
    let b = h[p..e].trim();
    Some(b.split_whitespace().collect::<Vec<_>>().join(" "))
}
/// end of the block whose `{` is the first one at or after `at`
fn closing(h: &str, at: usize) -> usize {
    let mut d = 0;
    for (i, c) in h[at..].char_indices() {
        match c {
            '{' => d += 1,
            '}' => {
                d -= 1;
                if d == 0 {
                    return at + i;
                }
            }
            _ => {}
        }
    }
    h.len()
}

fn check_body(h: &str, scope: &str, b: &Body) -> Result<(), String> {
    let real: Vec<&(String, C)> = b.fields.iter().collect();
    for (i, (_, sym, conj)) in OPS.iter().enumerate() {
        let can = if i < 2 {
            !real.is_empty() && real.iter().all(|f| f.1 != C::None)
        } else {
            !b.tag && real.len() == 1 && real[0].1 == C::Both
        };
        let want = if b.sw[i] && can {
            Some(format!("return {};", real.iter().map(|f| format!("{0} {sym} other.{0}", f.0)).collect::<Vec<_>>().join(&format!(" {conj} "))))
        } else {
            None
        };
        let got = found(h, scope, &b.name, sym);
        if got != want {
            return Err(format!("operator{sym} of {}: expected {want:?}, found {got:?}", b.name));
        }
    }
    let at = h.find(&format!("{scope} {{")).ok_or(format!("no {scope}"))?;
    let end = closing(h, at);
    let text = &h[at..end];
    let ctor = text.contains(&format!("  {}(", b.name)) && text.contains("  : ");
    if ctor != (b.sw[6] && !(b.fields.is_empty() && !b.tag)) {
        return Err(format!("constructor of {}: {ctor}", b.name));
    }
    let os = text.contains(&format!("operator<<(std::ostream& stream, const {}& instance)", b.name));
    if os != b.sw[7] {
        return Err(format!("stream operator of {}: {os}", b.name));
    }
    Ok(())
}

pub fn c16(ctx: &Ctx) {
    let n = ctx.n(6000, 100000);
    let cc = ctx.n(120, 1500);
    ctx.bound(format!("{n} random C++ headers with structs (plain, tuple, generic, up to 4 fields) and data-carrying enums, every derive switch set by annotation, by configuration, by both or by neither: operators with their comparisons, constructors and stream operators are exactly those expected; {cc} of them checked by clang++ -fsyntax-only"));
    ctx.par("ops", n, |ctx, i, rng| one(ctx, i, rng, i < cc));
}

fn one(ctx: &Ctx, _i: usize, rng: &mut Rng, compile: bool) -> Result<(), Fail> {
    let mut toml = String::from("language = \"C++\"\n[struct]\n");
    let mut conf = vec![];
    for n in OPS.iter().map(|x| x.0).chain(["constructor", "ostream"]) {
        // constructors and stream operators do not compile for every field
        let b = rng.chance(1, 2) && !(compile && matches!(n, "constructor" | "ostream"));
        conf.push(b);
        let _ = writeln!(toml, "derive_{n} = {b}");
    }
    let eff = |chain: &[&Vec<Option<bool>>]| -> Vec<bool> { (0..8).map(|k| chain.iter().find_map(|c| c[k]).unwrap_or(conf[k])).collect() };
    let mut src = String::from("#[repr(u8)] pub enum Plain { P, Q }\n");
    let mut bodies: Vec<(String, Body)> = vec![];
    let mut enums: Vec<(String, String, Vec<bool>, Vec<Option<(String, usize)>>)> = vec![];
    let mut uses = vec![];
    // a value that is no switch, on a variant, is neither its own choice nor its enum's: not generated there
    let sw_of = |rng: &mut Rng, odd: bool| {
        if compile {
            // only the comparison switches
            let (t, mut v) = switches(rng, odd);
            let t: String = t.lines().filter(|l| !l.contains("constructor") && !l.contains("ostream")).map(|l| format!("{l}\n")).collect();
            v[6] = None;
            v[7] = None;
            (t, v)
        } else {
            switches(rng, odd)
        }
    };
    for k in 0..1 + rng.below(3) {
        let name = format!("St{k}");
        let params: Vec<&str> = if rng.chance(1, 4) { vec!["T"] } else { vec![] };
        let (at, av) = sw_of(rng, true);
        let m = rng.below(4);
        let tuple = rng.chance(1, 3);
        let mut fs: Vec<(String, C)> = vec![];
        let mut txt = vec![];
        for j in 0..m {
            let (t, c) = ty(rng, &params, false);
            let fname = if tuple { format!("_{j}") } else { format!("f{j}") };
            txt.push(if tuple { t } else { format!("{fname}: {t}") });
            fs.push((fname, c));
        }
        if !params.is_empty() {
            let j = txt.len();
            txt.push(if tuple { "T".to_string() } else { format!("f{j}: T") });
            fs.push((if tuple { format!("_{j}") } else { format!("f{j}") }, C::Both));
        }
        let gp = if params.is_empty() { "" } else { "<T>" };
        if tuple {
            let _ = writeln!(src, "{at}#[repr(C)] pub struct {name}{gp}({});", txt.join(", "));
        } else {
            let _ = writeln!(src, "{at}#[repr(C)] pub struct {name}{gp} {{ {} }}", txt.join(", "));
        }
        uses.push(format!("s{k}: *const {name}{}", if params.is_empty() { "" } else { "<u8>" }));
        let sw = eff(&[&av]);
        let full = name.clone();
        bodies.push((format!("struct {name}"), Body { name: full, fields: fs, tag: false, sw }));
    }
    for k in 0..rng.below(3) {
        let name = format!("En{k}");
        let (at, av) = sw_of(rng, true);
        let repr = *rng.pick(&["C", "u8", "C, u16"]);
        let tag = repr == "u8";
        let mut vs = vec![];
        let mut plan = vec![];
        let nv = 1 + rng.below(4);
        for j in 0..nv {
            let vn = format!("{name}V{j}");
            let (vt, vv) = sw_of(rng, false);
            let kind = if j == 0 { 1 + rng.below(2) } else { rng.below(3) };
            if kind == 0 {
                vs.push(format!("{vt}{vn}"));
                plan.push(None);
                continue;
            }
            let m = rng.below(3).max((j == 0) as usize);
            let mut fs = vec![];
            let mut txt = vec![];
            for q in 0..m {
                let (t, c) = ty(rng, &[], true);
                fs.push((if kind == 1 { format!("_{q}") } else { format!("g{q}") }, c));
                txt.push(if kind == 1 { t } else { format!("g{q}: {t}") });
            }
            vs.push(if kind == 1 { format!("{vt}{vn}({})", txt.join(", ")) } else { format!("{vt}{vn} {{ {} }}", txt.join(", ")) });
            let sw_own = eff(&[&vv]);
            let mut sw = sw_own.clone();
            // the enum's own equality and stream output need those of its bodies
            for x in [0usize, 7] {
                sw[x] = vv[x].or(av[x]).unwrap_or(conf[x]);
            }
            plan.push(Some((vn.clone(), bodies.len())));
            bodies.push((format!("struct {vn}_Body"), Body { name: format!("{vn}_Body"), fields: fs, tag, sw }));
        }
        let _ = writeln!(src, "{at}#[repr({repr})] pub enum {name} {{ {} }}", vs.join(",\n"));
        uses.push(format!("e{k}: *const {name}"));
        enums.push((name, repr.to_string(), eff(&[&av]), plan));
    }
    let _ = writeln!(src, "#[no_mangle] pub extern \"C\" fn fun({}) {{}}", uses.join(", "));
    let inp = Input { src, toml };
    let h = header(ctx, &inp)?;
    for (scope, b) in &bodies {
        check_body(&h, scope, b).map_err(|e| fail(&inp, &h, e))?;
    }
    for (name, repr, sw, plan) in &enums {
        let data: Vec<&Body> = plan.iter().flatten().map(|(_, i)| &bodies[*i].1).collect();
        let can = data.iter().all(|b| b.sw[0] && !b.fields.is_empty() && b.fields.iter().all(|f| f.1 != C::None));
        let scope = format!("{} {name}", if repr == "u8" { "union" } else { "struct" });
        let want = sw[0] && can;
        let got = found(&h, &scope, name, "==");
        if got.is_some() != want {
            return Err(fail(&inp, &h, format!("operator== of {name}: expected {want}, found {got:?}")));
        }
        if let Some(g) = got {
            for (v, _) in plan.iter().flatten() {
                if !g.contains(&format!("case Tag::{v}: return ")) {
                    return Err(fail(&inp, &h, format!("operator== of {name} does not compare {v}")));
                }
            }
        }
        let ne = found(&h, &scope, name, "!=").is_some();
        if ne != (want && sw[1]) {
            return Err(fail(&inp, &h, format!("operator!= of {name}: {ne}")));
        }
    }
    if compile {
        let d = ctx.tdir();
        let p = d.join("h.hpp");
        std::fs::write(&p, &h).unwrap();
        if let Ok(o) = std::process::Command::new("clang++").args(["-std=c++17", "-fsyntax-only", "-w", "-x", "c++"]).arg(&p).output() {
            if !o.status.success() {
                return Err(fail(&inp, &h, format!("the header does not compile: {}", String::from_utf8_lossy(&o.stderr).lines().find(|l| l.contains("error")).unwrap_or(""))));
            }
        }
    }
    ctx.interesting();
    Ok(())
}
