//! Template expansion. A template is a Verus source file whose `//@` lines are directives that are
//! replaced by text copied (and mechanically desugared) from /repo.
use crate::repo::{FnRef, Repo};
use crate::rewrite::{Ctx, LoopSpec, Rw};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeSet, HashMap, HashSet};
use syn::spanned::Spanned;

fn read_with_includes(path: &str) -> Result<String, String> {
    let text = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
    let dir = std::path::Path::new(path).parent().unwrap().to_path_buf();
    let mut out = String::new();
    for l in text.lines() {
        if let Some(f) = l.trim().strip_prefix("//@include ") {
            out.push_str(&read_with_includes(dir.join(f.trim()).to_str().unwrap())?);
        } else {
            out.push_str(l);
        }
        out.push('\n');
    }
    Ok(out)
}

#[derive(Default)]
struct FnDir {
    file: String,
    path: String,
    ret: String,
    opts: HashMap<String, String>,
    flags: HashSet<String>,
    substs: Vec<(String, String)>,
    opaque: Vec<(String, String)>,
    lift: Option<String>,
    sorts: Vec<(String, String)>,
    spec: String,
    sig: Option<String>,
    attrs: String,
    pre: String,
    post: String,
    tpl_lits: String,
    loops: HashMap<usize, LoopSpec>,
}

fn str_lits(ts: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Group(g) => str_lits(g.stream(), out),
            proc_macro2::TokenTree::Literal(l) => {
                let s = l.to_string();
                if s.starts_with('"') {
                    out.insert(s);
                }
            }
            _ => {}
        }
    }
}

fn parse_opts(rest: &[&str], opts: &mut HashMap<String, String>, flags: &mut HashSet<String>) {
    for r in rest {
        match r.split_once('=') {
            Some((k, v)) => {
                opts.insert(k.into(), v.into());
            }
            None => {
                flags.insert(r.to_string());
            }
        }
    }
}

fn known_fns(text: &str) -> HashSet<String> {
    let mut s = HashSet::new();
    for l in text.lines() {
        if let Some(r) = l.trim().strip_prefix("//@fn ") {
            let p: Vec<&str> = r.split_whitespace().collect();
            if p.len() > 1 {
                let n = p[1].split('|').last().unwrap();
                let n = n.split('/').last().unwrap();
                let n = n.split("::").last().unwrap();
                s.insert(n.to_string());
                if p[2..].contains(&"fs") {
                    // F-fs: calls of this function pass the file system on
                    s.insert(format!("fs:{n}"));
                }
            }
            continue;
        }
        let mut rest = l;
        while let Some(i) = rest.find("fn ") {
            let ok = i == 0 || !rest.as_bytes()[i - 1].is_ascii_alphanumeric();
            rest = &rest[i + 3..];
            if ok {
                let n: String = rest.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                if !n.is_empty() {
                    s.insert(n);
                }
            }
        }
    }
    s
}

pub fn run(template: &str, root: &str) -> Result<(String, Value), String> {
    let text = read_with_includes(template)?;
    // extra axioms for the module-level `broadcast use` of the prelude
    let extra: Vec<String> = text.lines().filter_map(|l| l.trim().strip_prefix("//@broadcast ")).map(|x| format!(", {}", x.trim())).collect();
    let text = text.replace("/*VX_BROADCAST*/", &extra.concat());
    let repo = Repo::load(root)?;
    let known = known_fns(&text);
    let mut out = String::new();
    let mut fns_meta = vec![];
    let mut types_meta = vec![];
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    let mut gsubst: Vec<(String, String)> = vec![];
    // string literals used in specifications: `"..."@`
    let mut tpl_lits = String::new();
    for l in text.lines() {
        let mut k = 0;
        while let Some(e) = l[k..].find("\"@") {
            let end = k + e;
            if let Some(b) = l[..end].rfind('"') {
                tpl_lits.push_str(&l[b..end + 1]);
                tpl_lits.push(' ');
            }
            k = end + 2;
        }
    }
    while i < lines.len() {
        let l = lines[i].trim();
        if let Some(r) = l.strip_prefix("//@gsubst ") {
            if let Some((a, b)) = r.split_once(" => ") {
                gsubst.push((a.trim().into(), b.trim().into()));
            }
        } else if l == "//@lits" {
            let mut v = BTreeSet::new();
            if let Ok(ts) = tpl_lits.parse::<proc_macro2::TokenStream>() {
                str_lits(ts, &mut v);
            }
            out.push_str(&v.iter().map(|l| format!("reveal_strlit({l});")).collect::<Vec<_>>().join(" "));
            out.push('\n');
        } else if let Some(r) = l.strip_prefix("//@type ") {
            let p: Vec<&str> = r.split_whitespace().collect();
            let mut opts = HashMap::new();
            let mut flags = HashSet::new();
            parse_opts(&p[2..], &mut opts, &mut flags);
            let t = emit_type(&repo, p[0], p[1], &opts, &flags)?;
            let mut t2 = t;
            for (a, b) in &gsubst {
                t2 = t2.replace(a, b);
            }
            out.push_str(&t2);
            out.push('\n');
            types_meta.push(json!({"file": p[0], "name": p[1], "dropped_fields": opts.get("drop").cloned().unwrap_or_default()}));
        } else if let Some(r) = l.strip_prefix("//@fn ") {
            let p: Vec<&str> = r.split_whitespace().collect();
            let mut d = FnDir { file: p[0].into(), path: p[1].into(), ret: p.get(2).unwrap_or(&"r").to_string(), ..Default::default() };
            parse_opts(p.get(3..).unwrap_or(&[]), &mut d.opts, &mut d.flags);
            d.substs = gsubst.clone();
            d.tpl_lits = tpl_lits.clone();
            let mut sect = "spec".to_string();
            i += 1;
            while i < lines.len() && lines[i].trim() != "//@end" {
                let l = lines[i].trim();
                if let Some(r) = l.strip_prefix("//@loop ") {
                    let q: Vec<&str> = r.split_whitespace().collect();
                    let n: usize = q[0].parse().map_err(|_| format!("bad loop directive {l}"))?;
                    let e = d.loops.entry(n).or_default();
                    sect = format!("loop {n} inv");
                    // options whose value may contain spaces are separated by " ; "
                    for o in r[q[0].len()..].split(" ; ") {
                        let o = o.trim();
                        match o.split_once('=') {
                            Some(("rty", v)) => e.rty = Some(v.into()),
                            Some(("mode", v)) => e.mode = Some(v.into()),
                            Some(("dec", v)) => e.dec = Some(v.into()),
                            _ => {
                                if ["pre", "post", "before", "after"].contains(&o) {
                                    sect = format!("loop {n} {o}");
                                } else if !o.is_empty() {
                                    return Err(format!("bad loop option {o}"));
                                }
                            }
                        }
                    }
                } else if let Some(r) = l.strip_prefix("//@subst ") {
                    let (a, b) = r.split_once(" =>").ok_or("bad subst")?;
                    d.substs.push((a.trim().into(), b.trim().into()));
                } else if let Some(r) = l.strip_prefix("//@opaque ") {
                    let (a, b) = r.split_once(" =>").ok_or("bad opaque")?;
                    d.opaque.push((a.trim().into(), b.trim().into()));
                } else if let Some(r) = l.strip_prefix("//@lift ") {
                    d.lift = Some(r.trim().into());
                } else if let Some(r) = l.strip_prefix("//@sort ") {
                    let (a, b) = r.split_once(" =>").ok_or("bad sort")?;
                    d.sorts.push((a.trim().into(), b.trim().into()));
                } else if let Some(r) = l.strip_prefix("//@sig ") {
                    d.sig = Some(r.into());
                } else if let Some(r) = l.strip_prefix("//@attr ") {
                    d.attrs.push_str(r);
                    d.attrs.push('\n');
                } else if l == "//@pre" || l == "//@post" {
                    sect = l[3..].to_string();
                } else {
                    let t = format!("{}\n", lines[i]);
                    match sect.as_str() {
                        "spec" => d.spec.push_str(&t),
                        "pre" => d.pre.push_str(&t),
                        "post" => d.post.push_str(&t),
                        s => {
                            let q: Vec<&str> = s.split(' ').collect();
                            let e = d.loops.entry(q[1].parse().unwrap()).or_default();
                            match q[2] {
                                "inv" => e.inv.push_str(&t),
                                "pre" => e.pre.push_str(&t),
                                "post" => e.post.push_str(&t),
                                "before" => e.before.push_str(&t),
                                _ => e.after.push_str(&t),
                            }
                        }
                    }
                }
                i += 1;
            }
            let (t, m) = emit_fn(&repo, &known, &d);
            let start = out.matches('\n').count() + 1;
            out.push_str(&t);
            out.push('\n');
            let end = out.matches('\n').count();
            let mut m = m;
            m["out_lines"] = json!([start, end]);
            fns_meta.push(m);
        } else {
            out.push_str(lines[i]);
            out.push('\n');
        }
        i += 1;
    }
    Ok((out, json!({"fns": fns_meta, "types": types_meta})))
}

fn emit_type(repo: &Repo, file: &str, name: &str, opts: &HashMap<String, String>, flags: &HashSet<String>) -> Result<String, String> {
    let (f, it) = repo.find_type(file, name)?;
    let txt = |s: proc_macro2::Span| f.text[s.byte_range()].to_string();
    let drop: HashSet<&str> = opts.get("drop").map(|d| d.split(',').collect()).unwrap_or_default();
    let keep: Option<HashSet<&str>> = opts.get("keep").map(|d| d.split(',').collect());
    let fields = |fs: &syn::Fields, vis: &str| -> String {
        let mut v = vec![];
        match fs {
            syn::Fields::Named(n) => {
                for x in &n.named {
                    let id = x.ident.as_ref().unwrap().to_string();
                    if drop.contains(id.as_str()) || keep.as_ref().is_some_and(|k| !k.contains(id.as_str())) {
                        continue;
                    }
                    v.push(format!("{vis}{id}: {}", txt(x.ty.span())));
                }
                format!(" {{ {} }}", v.join(", "))
            }
            syn::Fields::Unnamed(n) => {
                for x in &n.unnamed {
                    v.push(format!("{vis}{}", txt(x.ty.span())));
                }
                format!("({})", v.join(", "))
            }
            syn::Fields::Unit => String::new(),
        }
    };
    let ders = opts.get("derive").map(|d| format!("#[derive({})]\n", d)).unwrap_or_default();
    Ok(match &it {
        syn::Item::Struct(s) => {
            let semi = if matches!(s.fields, syn::Fields::Named(_)) { "" } else { ";" };
            let gen = if s.generics.params.is_empty() { String::new() } else { txt(s.generics.span()) };
            format!("{ders}pub struct {}{gen}{}{semi}", s.ident, fields(&s.fields, "pub "))
        }
        syn::Item::Enum(e) => {
            let vs: Vec<String> = e.variants.iter().map(|v| format!("    {}{}", v.ident, fields(&v.fields, ""))).collect();
            let gen = if e.generics.params.is_empty() { String::new() } else { txt(e.generics.span()) };
            let mut t = format!("{ders}pub enum {}{gen} {{\n{},\n}}", e.ident, vs.join(",\n"));
            if flags.contains("disc") {
                // the numeric value of each variant, as rustc assigns it
                let mut cur: i128 = -1;
                let mut arms = String::new();
                for v in &e.variants {
                    cur = match &v.discriminant {
                        Some((_, syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(i), .. }))) => i.base10_parse().map_err(|e| e.to_string())?,
                        Some(_) => return Err("unsupported discriminant".into()),
                        None => cur + 1,
                    };
                    arms.push_str(&format!("{}::{} => {cur}, ", e.ident, v.ident));
                }
                t.push_str(&format!("\nimpl {0} {{ pub open spec fn disc(&self) -> usize {{ match *self {{ {arms} }} }} pub fn vx_disc(self) -> (r: usize) ensures r == self.disc() {{ match self {{ {arms} }} }} }}", e.ident));
            }
            t
        }
        syn::Item::Const(c) => {
            let e = txt(c.expr.span());
            if flags.contains("array") {
                // `&[..]` constant emitted as a spec sequence plus an exec accessor
                let inner = e.trim().trim_start_matches('&').trim();
                format!("pub open spec fn {}_spec() -> Seq<Seq<char>> {{ seq!{} }}", name, strs_to_views(inner))
            } else {
                format!("pub const {}: {} = {};", c.ident, txt(c.ty.span()), e)
            }
        }
        _ => return Err(format!("unsupported type item {name}")),
    })
}

fn strs_to_views(arr: &str) -> String {
    let mut out = String::new();
    if let Ok(a) = syn::parse_str::<syn::ExprArray>(arr) {
        out.push('[');
        for e in a.elems {
            if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = e {
                out.push_str(&format!("{:?}@, ", s.value()));
            }
        }
        out.push(']');
    }
    out
}

fn hash(s: &str) -> String {
    // FNV-1a over the source text, to identify which text was verified
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("{h:016x}")
}

fn emit_fn(repo: &Repo, known: &HashSet<String>, d: &FnDir) -> (String, Value) {
    match emit_fn_inner(repo, known, d) {
        Ok(x) => x,
        Err(e) => {
            let m = json!({"path": d.path, "file": d.file, "status": format!("not extracted: {e}")});
            // Signature still available: keep the contract as an assumption for this run so that
            // the callers can still be checked; the run is reported as not proved for this function.
            if let Ok(f) = repo.find_fn(&d.file, &d.path) {
                if let Ok(sig) = sig_text(&f, d) {
                    let t = format!("#[verifier::external_body]\n{sig}\n{}\n{{ unimplemented!() }}", d.spec);
                    return (apply(&t, &d.substs), m);
                }
            }
            (String::new(), m)
        }
    }
}

fn apply(t: &str, s: &[(String, String)]) -> String {
    let mut t = t.to_string();
    for (a, b) in s {
        t = t.replace(a.as_str(), b);
    }
    t
}

fn sig_text(f: &FnRef, d: &FnDir) -> Result<String, String> {
    if let Some(s) = &d.sig {
        return Ok(s.clone());
    }
    if f.closure.is_some() {
        return Err("closure needs //@sig".into());
    }
    let s = &f.sig;
    let txt = |r: std::ops::Range<usize>| f.file.text[r].to_string();
    let gen = if s.generics.params.is_empty() || d.flags.contains("strip_generics") {
        String::new()
    } else {
        let lt = s.generics.lt_token.unwrap().span().byte_range().start;
        let gt = s.generics.gt_token.unwrap().span().byte_range().end;
        txt(lt..gt)
    };
    let p = s.paren_token.span.join().byte_range();
    let params = txt(p);
    let ret = match &s.output {
        syn::ReturnType::Default => String::new(),
        syn::ReturnType::Type(_, t) => format!(" -> ({}: {})", d.ret, txt(t.span().byte_range())),
    };
    let wh = match (&s.generics.where_clause, d.flags.contains("strip_generics")) {
        (Some(w), false) => format!(" {}", txt(w.span().byte_range())),
        _ => String::new(),
    };
    let name = d.opts.get("name").cloned().unwrap_or(s.ident.to_string());
    let vis = if d.flags.contains("novis") { "" } else { &f.vis };
    Ok(format!("{vis}fn {name}{gen}{params}{ret}{wh}"))
}

fn emit_fn_inner(repo: &Repo, known: &HashSet<String>, d: &FnDir) -> Result<(String, Value), String> {
    let f = repo.find_fn(&d.file, &d.path)?;
    // Functions the runner asks to leave out (their text is outside the verifier's subset on this
    // tree): emitted as an unproved contract and reported as such.
    if std::env::var("VX_SKIP").is_ok_and(|v| v.split(',').any(|x| x == d.path)) {
        return Err("outside the verifier's subset on this tree".into());
    }
    let ctx = Ctx {
        repo,
        known,
        loops: d.loops.clone(),
        counter: Cell::new(0),
        panics_ok: d.opts.get("panics").is_some_and(|x| x == "ok"),
        opaque: d.opaque.clone(),
        lift: d.lift.clone(),
        sorts: RefCell::new(d.sorts.iter().rev().cloned().collect()),
        skip_macros: Default::default(),
        nat: d.flags.contains("nat"),
        keep_debug_assert: d.flags.contains("debug_assert"),
        lazy: d.flags.contains("lazy"),
        fs: d.flags.contains("fs"),
        unwrap_ok: d.flags.contains("unwrap_ok"),
        noinline: d.opts.get("noinline").map(|x| x.split(',').map(String::from).collect()).unwrap_or_default(),
        inline_from: d.opts.get("from").map(|x| x.split(',').map(String::from).collect()).unwrap_or_default(),
        rules: RefCell::new(BTreeSet::new()),
        inlined: RefCell::new(vec![]),
        depth: Cell::new(0),
        err: RefCell::new(None),
        file: f.file.rel.clone(),
    };
    let mut rw = Rw::new(f.file.clone(), &ctx);
    // P-mutself: `mut self` parameter becomes a local copy
    let mutself = matches!(f.sig.inputs.first(), Some(syn::FnArg::Receiver(r)) if r.reference.is_none() && r.mutability.is_some());
    if mutself {
        rw.set_self("__me");
    }
    let (body, span) = match &f.closure {
        Some(c) => (rw.expr(&c.body), c.span()),
        None => (rw.block_inner(&f.block), f.block.span()),
    };
    if let Some(e) = ctx.err.borrow_mut().take() {
        return Err(e);
    }
    let expected = match d.opts.get("loops") {
        Some(n) => n.parse().unwrap(),
        None => d.loops.keys().max().map_or(0, |m| m + 1),
    };
    if ctx.counter.get() != expected {
        return Err(format!("loop shape changed: contract has {expected} loops, code has {}", ctx.counter.get()));
    }
    let mut sig = sig_text(&f, d)?;
    let mut me = "";
    if mutself {
        sig = sig.replacen("mut self", "self", 1);
        me = "let mut __me = self;\n";
    }
    let r = span.byte_range();
    let srct = &f.file.text[r];
    let isolation = if d.flags.contains("isolate") { "" } else { "#[verifier::loop_isolation(false)]\n" };
    let is_trait_impl = f.trait_.is_some();
    let _ = is_trait_impl;
    let dec = if d.spec.contains("decreases") { "" } else { "#[verifier::exec_allows_no_decreases_clause]\n" };
    let post = if d.post.trim().is_empty() { String::new() } else { format!("\n{}", d.post) };
    let body = if post.is_empty() {
        body
    } else if f.sig.output == syn::ReturnType::Default {
        body
    } else {
        format!("let __ret = {{ {body} }};")
    };
    let tail = if post.is_empty() || f.sig.output == syn::ReturnType::Default { "" } else { "__ret" };
    // Vacuity canary: with VX_CANARY set every extracted function must fail.
    let canary = if std::env::var("VX_CANARY").is_ok() { "assert(false);\n" } else { "" };
    // `strlits`: the contents of every string literal of the body and of the contracts are made
    // visible to the solver (they are opaque by default).
    let lits = if d.flags.contains("strlits") {
        let mut v: BTreeSet<String> = BTreeSet::new();
        for t in [&body, &d.tpl_lits] {
            if let Ok(ts) = t.parse::<proc_macro2::TokenStream>() {
                str_lits(ts, &mut v);
            }
        }
        format!("proof {{ {} }}\n", v.iter().map(|l| format!("reveal_strlit({l});")).collect::<Vec<_>>().join(" "))
    } else {
        String::new()
    };
    // `hide(..)` headers have to come first
    let (hides, pre): (Vec<&str>, Vec<&str>) = d.pre.lines().partition(|l| l.trim().starts_with("hide("));
    let (hides, pre) = (hides.iter().map(|l| format!("{l}\n")).collect::<String>(), pre.iter().map(|l| format!("{l}\n")).collect::<String>());
    let t = format!("{}{dec}{isolation}{sig}\n{}\n{{\n{hides}{canary}{lits}{me}{pre}{body}\n{post}{tail}}}", d.attrs, d.spec);
    let t = apply(&t, &d.substs);
    let m = json!({
        "path": d.path, "file": f.file.rel, "status": "extracted",
        "lines": [span.start().line, span.end().line],
        "source_hash": hash(srct),
        "loops": ctx.counter.get(),
        "rules": ctx.rules.borrow().iter().cloned().collect::<Vec<_>>(),
        "inlined": ctx.inlined.borrow().clone(),
        "substitutions": d.substs.iter().map(|(a, b)| format!("{a} => {b}")).collect::<Vec<_>>(),
        "panics": if ctx.panics_ok { "allowed (partial correctness)" } else { "proved unreachable" },
    });
    Ok((t, m))
}
