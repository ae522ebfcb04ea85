use crate::repo::{FnRef, Repo, SrcFile};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeSet, HashMap, HashSet};
use std::ops::Range;
use std::rc::Rc;
use syn::parse::Parser;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::{Expr, Pat};

#[derive(Default, Clone, Debug)]
pub struct LoopSpec {
    pub inv: String,
    pub rty: Option<String>,
    pub mode: Option<String>,
    pub dec: Option<String>,
    pub pre: String,
    pub post: String,
    pub before: String,
    pub after: String,
}

pub struct Ctx<'r> {
    pub repo: &'r Repo,
    pub known: &'r HashSet<String>,
    pub loops: HashMap<usize, LoopSpec>,
    pub counter: Cell<usize>,
    pub panics_ok: bool,
    pub skip_macros: HashSet<String>,
    pub keep_debug_assert: bool,
    pub nat: bool,
    pub lazy: bool,
    pub fs: bool,
    pub unwrap_ok: bool,
    pub opaque: Vec<(String, String)>,
    pub lift: Option<String>,
    pub sorts: RefCell<Vec<(String, String)>>,
    pub noinline: HashSet<String>,
    pub inline_from: Vec<String>,
    pub rules: RefCell<BTreeSet<String>>,
    pub inlined: RefCell<Vec<String>>,
    pub depth: Cell<usize>,
    pub err: RefCell<Option<String>>,
    pub file: String,
}

impl Ctx<'_> {
    fn rule(&self, r: &str) {
        self.rules.borrow_mut().insert(r.to_string());
    }
    fn fail(&self, m: String) {
        let mut e = self.err.borrow_mut();
        if e.is_none() {
            *e = Some(m);
        }
    }
}

#[derive(Clone)]
enum ClosureArg {
    Inline { pats: Vec<String>, body: String },
    Path(String),
    Lift(String),
}

pub struct Rw<'c, 'r> {
    src: Rc<SrcFile>,
    ctx: &'c Ctx<'r>,
    edits: Vec<(Range<usize>, String)>,
    closures: HashMap<String, ClosureArg>,
    self_sub: Option<String>,
    aliases: Rc<RefCell<HashMap<String, Expr>>>,
}

const ITER_SRC: &[&str] = &["iter", "iter_mut", "into_iter", "values", "values_mut", "keys", "drain", "chars", "lines"];
const ADAPT: &[&str] = &["map", "filter", "filter_map", "enumerate", "cloned", "copied", "skip", "rev", "take", "zip", "skip_while", "take_while"];
const TERM: &[&str] = &["collect", "any", "all", "find", "position", "find_map", "for_each", "count", "min"];

struct Chain<'e> {
    src_method: String,
    src_recv: &'e Expr,
    ops: Vec<(String, Vec<&'e Expr>)>,
}

fn peel(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => peel(&p.expr),
        Expr::Group(p) => peel(&p.expr),
        _ => e,
    }
}

impl<'c, 'r> Rw<'c, 'r> {
    pub fn new(src: Rc<SrcFile>, ctx: &'c Ctx<'r>) -> Self {
        Rw { src, ctx, edits: vec![], closures: HashMap::new(), self_sub: None, aliases: Rc::new(RefCell::new(HashMap::new())) }
    }
    pub fn set_self(&mut self, s: &str) {
        self.ctx.rule("P-mutself");
        self.self_sub = Some(s.into());
    }
    fn sub(&self) -> Rw<'c, 'r> {
        Rw {
            src: self.src.clone(),
            ctx: self.ctx,
            edits: vec![],
            closures: self.closures.clone(),
            self_sub: self.self_sub.clone(),
            aliases: self.aliases.clone(),
        }
    }
    fn raw(&self, r: Range<usize>) -> String {
        self.src.text[r].to_string()
    }
    fn render(mut self, r: Range<usize>) -> String {
        self.edits.sort_by_key(|(x, _)| (x.start, std::cmp::Reverse(x.end)));
        let mut out = String::new();
        let mut pos = r.start;
        for (er, t) in &self.edits {
            if er.start < pos {
                continue;
            }
            out.push_str(&self.src.text[pos..er.start]);
            out.push_str(t);
            pos = er.end;
        }
        out.push_str(&self.src.text[pos..r.end]);
        out
    }
    pub fn expr(&self, e: &Expr) -> String {
        let mut s = self.sub();
        s.visit_expr(e);
        s.render(e.span().byte_range())
    }
    /// text of the statements of a block, without its braces
    pub fn block_inner(&self, b: &syn::Block) -> String {
        let mut s = self.sub();
        s.visit_block(b);
        let r = b.span().byte_range();
        s.render(r.start + 1..r.end - 1)
    }
    fn block(&self, b: &syn::Block) -> String {
        format!("{{{}}}", self.block_inner(b))
    }
    pub fn pat(&self, p: &Pat) -> String {
        let mut s = self.sub();
        s.visit_pat(p);
        s.render(p.span().byte_range())
    }
    /// pattern with explicit `ref`/`ref mut` removed (the scrutinee is a reference: default binding)
    fn pat_noref(&self, p: &Pat) -> String {
        // `&ref x` / `&mut ref mut x` binds x to the reference itself
        if let Pat::Reference(r) = p {
            if let Pat::Ident(i) = &*r.pat {
                if i.by_ref.is_some() && i.mutability.is_some() == r.mutability.is_some() && i.subpat.is_none() {
                    self.ctx.rule("R-refpat");
                    return i.ident.to_string();
                }
            }
        }
        struct V {
            cut: Vec<Range<usize>>,
        }
        impl<'ast> Visit<'ast> for V {
            fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) {
                if let Some(r) = i.by_ref {
                    let start = r.span().byte_range().start;
                    let end = i.ident.span().byte_range().start;
                    self.cut.push(start..end);
                }
                visit::visit_pat_ident(self, i);
            }
        }
        let mut v = V { cut: vec![] };
        v.visit_pat(p);
        let mut s = self.sub();
        for c in v.cut {
            self.ctx.rule("R-refpat");
            s.edits.push((c, String::new()));
        }
        s.render(p.span().byte_range())
    }

    fn chain<'e>(&self, e: &'e Expr) -> Option<Chain<'e>> {
        let mut ops: Vec<(String, Vec<&'e Expr>)> = vec![];
        let mut cur = peel(e);
        loop {
            match cur {
                Expr::MethodCall(m) => {
                    let name = m.method.to_string();
                    if ITER_SRC.contains(&name.as_str()) {
                        ops.reverse();
                        return Some(Chain { src_method: name, src_recv: &m.receiver, ops });
                    }
                    // L9: `xs.iter().chain(ys)` as the source of a pipeline
                    if name == "chain" && m.args.len() == 1 && !self.ctx.lazy && !ops.is_empty() && matches!(peel(&m.receiver), Expr::MethodCall(r) if r.method == "iter" && r.args.is_empty()) {
                        ops.reverse();
                        return Some(Chain { src_method: name, src_recv: cur, ops });
                    }
                    // L12: the pieces of a text as the source of a pipeline
                    if name == "split" && m.args.len() == 1 && !ops.is_empty() {
                        ops.reverse();
                        return Some(Chain { src_method: name, src_recv: cur, ops });
                    }
                    let first_of = name == "next"
                        && ops.is_empty()
                        && matches!(peel(&m.receiver), Expr::MethodCall(r) if ["filter_map", "filter", "map"].iter().any(|x| r.method == x));
                    if ADAPT.contains(&name.as_str()) || TERM.contains(&name.as_str()) || name == "peekable" || first_of {
                        ops.push((name, m.args.iter().collect()));
                        cur = peel(&m.receiver);
                    } else {
                        return None;
                    }
                }
                _ => return None,
            }
        }
    }

    fn callable(&self, f: &Expr) -> ClosureArg {
        match peel(f) {
            Expr::Closure(c) => {
                if let (Some(l), true) = (&self.ctx.lift, has_return(&c.body)) {
                    // C-lift: a closure with early returns is called as the function it is extracted to
                    self.ctx.rule("C-lift");
                    return ClosureArg::Lift(l.clone());
                }
                let pats = c
                    .inputs
                    .iter()
                    .map(|p| match p {
                        Pat::Type(t) => self.pat_noref(&t.pat),
                        p => self.pat_noref(p),
                    })
                    .collect();
                let mut s = self.sub();
                s.visit_expr(&c.body);
                let body = s.render(c.body.span().byte_range());
                if has_return(&c.body) {
                    self.ctx.fail("unsupported: return inside an inlined closure".into());
                }
                ClosureArg::Inline { pats, body }
            }
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    if let Some(c) = self.closures.get(&i.to_string()) {
                        return c.clone();
                    }
                }
                ClosureArg::Path(self.expr(f))
            }
            _ => {
                self.ctx.fail("unsupported: callable expression".into());
                ClosureArg::Path(String::new())
            }
        }
    }

    fn bind_pat(pat: &str, val: &str) -> String {
        let p = pat.trim();
        if let Some(inner) = p.strip_prefix('&') {
            format!("let {} = *({val});", inner.trim())
        } else if p == "_" {
            format!("let _ = {val};")
        } else if p == val.trim() {
            String::new()
        } else {
            format!("let {p} = {val};")
        }
    }

    fn apply(&self, c: &ClosureArg, args: &[String]) -> String {
        match c {
            ClosureArg::Inline { pats, body } => {
                let mut s = String::from("{ ");
                for (p, a) in pats.iter().zip(args) {
                    s.push_str(&Self::bind_pat(p, a));
                    s.push(' ');
                }
                s.push_str(body);
                s.push_str(" }");
                s
            }
            ClosureArg::Path(p) => format!("{p}({})", args.join(", ")),
            ClosureArg::Lift(t) => t.replace('$', &args.join(", ")),
        }
    }

    /// `alias.adapter(..)...` with the alias replaced by the chain it stands for
    fn resolve_alias_deep(&self, e: &Expr) -> Option<Expr> {
        if let Some(a) = self.resolve_alias(e) {
            return Some(a);
        }
        if let Expr::MethodCall(m) = peel(e) {
            if ADAPT.contains(&m.method.to_string().as_str()) {
                let r = self.resolve_alias_deep(&m.receiver)?;
                let mut m2 = m.clone();
                m2.receiver = Box::new(r);
                return Some(Expr::MethodCall(m2));
            }
        }
        None
    }
    fn resolve_alias(&self, e: &Expr) -> Option<Expr> {
        if let Expr::Path(p) = peel(e) {
            if let Some(i) = p.path.get_ident() {
                return self.aliases.borrow().get(&i.to_string()).cloned();
            }
        }
        None
    }

    /// returns (source binding expr, mode, start index expr, enumerate?)
    fn loop_source(&self, method: &str, recv: &Expr, spec: &LoopSpec) -> (String, String) {
        if let ("chain", Expr::MethodCall(m)) = (method, recv) {
            if let Expr::MethodCall(src) = peel(&m.receiver) {
                self.ctx.rule("L9-chain-source");
                return (format!("vx_chain(vx_refs(({}).vx_sl()), ({}).vx_into_vec())", self.expr(&src.receiver), self.expr(&m.args[0])), "own".into());
            }
        }
        if let ("split", Expr::MethodCall(m)) = (method, recv) {
            self.ctx.rule("L12-split-source");
            return (format!("({}).vx_split({})", self.expr(&m.receiver), self.expr(&m.args[0])), "own".into());
        }
        let r = self.expr(recv);
        let mode = spec.mode.clone();
        match method {
            "chars" => (format!("({r}).vx_chars()"), "own".into()),
            "lines" => (format!("({r}).vx_lines()"), "own".into()),
            "iter" => {
                let m = mode.unwrap_or("ref".into());
                if m == "set" || m == "map" {
                    (format!("({r}).vx_{m}_iter()"), "own".into())
                } else {
                    (format!("({r}).vx_sl()"), m)
                }
            }
            "iter_mut" => (format!("&mut {r}"), "mut".into()),
            "into_iter" => (r, mode.unwrap_or("own".into())),
            "values" => (format!("({r}).vx_values()"), "own".into()),
            "keys" => (format!("({r}).vx_keys()"), "own".into()),
            "values_mut" => (format!("({r}).vx_values_mut()"), "mut".into()),
            _ => {
                self.ctx.fail(format!("unsupported: iterator source {method}"));
                (r, "ref".into())
            }
        }
    }

    fn loop_frame(&self, n: usize, spec: &LoopSpec, srce: &str, mode: &str, start: &str, cond: &str, decl: &str, body: &str, ret: &str) -> String {
        let auto_mut = if mode == "mut" {
            format!(" __g{n}.len() == __s{n}.len(), forall|__j: int| __i{n} <= __j < __g{n}.len() ==> (#[trigger] __s{n}@[__j]) == __g{n}[__j],")
        } else {
            String::new()
        };
        let ghost = if mode == "mut" { format!("let ghost __g{n} = __s{n}@; ") } else { String::new() };
        let inv = spec.inv.trim().trim_end_matches(',').to_string();
        let inv = if inv.is_empty() { String::new() } else { format!(" {inv},") };
        let before = if spec.before.trim().is_empty() { String::new() } else { format!("{}\n", spec.before) };
        let after = if spec.after.trim().is_empty() { String::new() } else { format!("{}\n", spec.after) };
        let pre = spec.pre.clone();
        let post = spec.post.clone();
        let dec = spec.dec.clone().unwrap_or(format!("__s{n}.len() - __i{n}"));
        format!(
            "{{ let __s{n} = {srce}; let mut __i{n}: usize = {start}; {decl}{ghost}\n{before}while __i{n} < __s{n}.len(){cond}\n  invariant __i{n} <= __s{n}.len(),{auto_mut}{inv}\n  decreases {dec},\n{{ {body_pre}\n{pre}\n{body}\n{post}\n}}\n{after}{ret} }}",
            body_pre = "",
        )
    }

    fn elem(n: usize, mode: &str) -> String {
        match mode {
            "ref" => format!("&__s{n}[__i{n}]"),
            "mut" => format!("&mut __s{n}[__i{n}]"),
            "own" => format!("vx_move(&__s{n}[__i{n}])"),
            _ => format!("&__s{n}[__i{n}]"),
        }
    }

    fn do_for(&self, f: &syn::ExprForLoop) -> String {
        let n = self.ctx.counter.get();
        self.ctx.counter.set(n + 1);
        self.ctx.rule("L1-for");
        let spec = self.ctx.loops.get(&n).cloned().unwrap_or_default();
        let label = f.label.as_ref().map(|l| self.raw(l.span().byte_range())).unwrap_or_default();
        if !label.is_empty() {
            self.ctx.fail("unsupported: labelled loop".into());
        }
        let aliased = self.resolve_alias_deep(&f.expr);
        let src_e: &Expr = aliased.as_ref().unwrap_or(&f.expr);
        if spec.mode.as_deref() == Some("iter") {
            let s = self.expr(src_e);
            let body = self.block_inner(&f.body);
            let pat = self.pat(&f.pat);
            let inv = spec.inv.trim();
            let inv = if inv.is_empty() { String::new() } else { format!("invariant {inv}") };
            return format!("{{ let mut __it{n} = {s}; {before} loop {inv}\n{{ match __it{n}.next() {{ Some({pat}) => {{ {}\n{body}\n{} }}, None => break }} }} {after} }}", spec.pre, spec.post, before = spec.before, after = spec.after);
        }
        // range loops
        if let Expr::Range(r) = peel(src_e) {
            let lo = r.start.as_ref().map(|e| self.expr(e)).unwrap_or("0".into());
            let hi = match &r.end {
                Some(e) => self.expr(e),
                None => {
                    self.ctx.fail("unsupported: open range".into());
                    String::new()
                }
            };
            let incl = matches!(r.limits, syn::RangeLimits::Closed(_));
            let hi = if incl { format!("({hi}) + 1") } else { hi };
            let pat = self.pat(&f.pat);
            let body = self.block_inner(&f.body);
            let inv = spec.inv.trim().trim_end_matches(',');
            let inv = if inv.is_empty() { String::new() } else { format!("{inv},") };
            return format!(
                "{{ let __h{n} = {hi}; let mut __i{n}: usize = {lo}; {before}\nwhile __i{n} < __h{n}\n invariant __i{n} <= __h{n} || __h{n} < {lo}, {inv}\n decreases __h{n} - __i{n},\n{{ let {pat} = __i{n}; __i{n} = __i{n} + 1; {}\n{body}\n{} }} {after} }}",
                spec.pre, spec.post, before = spec.before, after = spec.after
            );
        }
        if let Some(c) = self.chain(src_e) {
            if c.ops.iter().any(|(o, _)| TERM.contains(&o.as_str()) && o != "rev") {
                // terminal yields a collection: iterate over it
                let s = self.expr(src_e);
                return self.for_over(n, &spec, s, spec.mode.clone().unwrap_or("own".into()), f);
            }
            let (s, mode) = self.loop_source(&c.src_method, c.src_recv, &spec);
            return self.pipeline(n, &spec, s, mode, &c.ops, Sink::For(f));
        }
        match peel(src_e) {
            Expr::Reference(r) => {
                let inner = self.expr(&r.expr);
                if r.mutability.is_some() {
                    self.for_over(n, &spec, format!("&mut {inner}"), "mut".into(), f)
                } else {
                    self.for_over(n, &spec, format!("({inner}).vx_sl()"), "ref".into(), f)
                }
            }
            other => {
                let s = self.expr(other);
                let mode = spec.mode.clone().unwrap_or("ref".into());
                let s = if mode == "ref" { format!("({s}).vx_sl()") } else { s };
                self.for_over(n, &spec, s, mode, f)
            }
        }
    }

    fn for_over(&self, n: usize, spec: &LoopSpec, srce: String, mode: String, f: &syn::ExprForLoop) -> String {
        self.pipeline(n, spec, srce, mode, &[], Sink::For(f))
    }

    fn pipeline(&self, n: usize, spec: &LoopSpec, srce: String, mode: String, ops: &[(String, Vec<&Expr>)], sink: Sink) -> String {
        let mut start = "0".to_string();
        let mut body = String::new();
        let mut tail = String::new();
        body.push_str(&format!("let __k{n} = __i{n}; "));
        let mut elem = Self::elem(n, &mode);
        let mut first = true;
        let mut zipped: Option<(String, String)> = None;
        let mut elem_is_place = true; // elem text is an uncomputed place expression
        let mut decl = String::new();
        let mut cond = String::new();
        let mut ret = String::new();
        let mut done = false;
        let bump = format!("__i{n} = __i{n} + 1; ");
        for (op, args) in ops {
            if done {
                self.ctx.fail("unsupported: call after iterator terminal".into());
            }
            match op.as_str() {
                "skip" if first => {
                    start = format!("vx_min({}, __s{n}.len())", self.expr(args[0]));
                }
                "peekable" => {}
                "zip" => {
                    // L7: bounded by the shorter side; the other side is a vector (by value or by reference)
                    self.ctx.rule("L7-zip");
                    let (z, own) = match peel(args[0]) {
                        Expr::Reference(r) => (self.expr(&r.expr), false),
                        Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => (self.expr(&m.receiver), false),
                        Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => (self.expr(&m.receiver), true),
                        e => (self.expr(e), true),
                    };
                    decl.push_str(&format!("let __z{n} = {}({z}){}; ", if own { "" } else { "" }, if own { "" } else { ".vx_sl()" }));
                    cond.push_str(&format!(" && __i{n} < __z{n}.len()"));
                    let ze = if own { format!("vx_move(&__z{n}[__k{n}])") } else { format!("&__z{n}[__k{n}]") };
                    zipped = Some((elem.clone(), ze.clone()));
                    elem = format!("({elem}, {ze})");
                    first = false;
                }
                "cloned" | "copied" => {
                    elem = format!("vx_clone({elem})");
                    first = false;
                }
                "enumerate" => {
                    elem = format!("(__k{n}, {elem})");
                    first = false;
                }
                "map" => {
                    let c = self.callable(args[0]);
                    body.push_str(&format!("let __e{n} = {elem}; "));
                    if elem_is_place {
                        body.push_str(&bump);
                        elem_is_place = false;
                    }
                    body.push_str(&format!("let __m{n} = {}; ", self.apply(&c, &[format!("__e{n}")])));
                    elem = format!("__m{n}");
                    first = false;
                }
                "filter" => {
                    let c = self.callable(args[0]);
                    body.push_str(&format!("let __e{n} = {elem}; "));
                    if elem_is_place {
                        body.push_str(&bump);
                        elem_is_place = false;
                    }
                    body.push_str(&format!("let __c{n}: bool = {}; if __c{n} {{ ", self.apply(&c, &[format!("&__e{n}")])));
                    tail.push_str(" }");
                    elem = format!("__e{n}");
                    first = false;
                }
                "skip_while" | "take_while" => {
                    // L10: a flag that flips at the first element the closure refuses
                    self.ctx.rule("L10-while-adapter");
                    let c = self.callable(args[0]);
                    body.push_str(&format!("let __e{n} = {elem}; "));
                    if elem_is_place {
                        body.push_str(&bump);
                        elem_is_place = false;
                    }
                    decl.push_str(&format!("let mut __w{n}: bool = {}; ", if op == "skip_while" { "false" } else { "true" }));
                    let call = self.apply(&c, &[format!("&__e{n}")]);
                    if op == "skip_while" {
                        body.push_str(&format!("if !__w{n} {{ __w{n} = !({call}); }} if __w{n} {{ "));
                    } else {
                        cond.push_str(&format!(" && __w{n}"));
                        body.push_str(&format!("__w{n} = {call}; if __w{n} {{ "));
                    }
                    tail.push_str(" }");
                    elem = format!("__e{n}");
                    first = false;
                }
                "filter_map" => {
                    let c = self.callable(args[0]);
                    body.push_str(&format!("let __e{n} = {elem}; "));
                    if elem_is_place {
                        body.push_str(&bump);
                        elem_is_place = false;
                    }
                    body.push_str(&format!("let __o{n} = {}; if let Some(__f{n}) = __o{n} {{ ", self.apply(&c, &[format!("__e{n}")])));
                    tail.push_str(" }");
                    elem = format!("__f{n}");
                    first = false;
                }
                "collect" | "any" | "all" | "find" | "position" | "find_map" | "for_each" | "count" | "next" | "min" => {
                    body.push_str(&format!("let __v{n} = {elem}; "));
                    if elem_is_place {
                        body.push_str(&bump);
                        elem_is_place = false;
                    }
                    let ap = |a: String| -> String {
                        let c = self.callable(args[0]);
                        self.apply(&c, &[a])
                    };
                    match op.as_str() {
                        "collect" => {
                            let ty = spec.rty.clone().unwrap_or("Vec<_>".into());
                            if ty == "String" {
                                decl.push_str(&format!("let mut __r{n}: String = String::new(); "));
                                body.push_str(&format!("__r{n}.vx_push_char(__v{n});"));
                            } else {
                                decl.push_str(&format!("let mut __r{n}: {ty} = Vec::new(); "));
                                body.push_str(&format!("__r{n}.push(__v{n});"));
                            }
                            ret = format!("__r{n}");
                        }
                        "any" => {
                            decl.push_str(&format!("let mut __r{n}: bool = false; "));
                            cond.push_str(&format!(" && !__r{n}"));
                            body.push_str(&format!("if {} {{ __r{n} = true; }}", ap(format!("__v{n}"))));
                            ret = format!("__r{n}");
                        }
                        "all" => {
                            decl.push_str(&format!("let mut __r{n}: bool = true; "));
                            cond.push_str(&format!(" && __r{n}"));
                            body.push_str(&format!("if !({}) {{ __r{n} = false; }}", ap(format!("__v{n}"))));
                            ret = format!("__r{n}");
                        }
                        "find" => {
                            let ty = spec.rty.clone().unwrap_or("Option<_>".into());
                            decl.push_str(&format!("let mut __r{n}: {ty} = None; "));
                            cond.push_str(&format!(" && __r{n}.is_none()"));
                            body.push_str(&format!("if {} {{ __r{n} = Some(__v{n}); }}", ap(format!("&__v{n}"))));
                            ret = format!("__r{n}");
                        }
                        "next" => {
                            let ty = spec.rty.clone().unwrap_or("Option<_>".into());
                            decl.push_str(&format!("let mut __r{n}: {ty} = None; "));
                            cond.push_str(&format!(" && __r{n}.is_none()"));
                            body.push_str(&format!("__r{n} = Some(__v{n});"));
                            ret = format!("__r{n}");
                        }
                        "min" => {
                            let ty = spec.rty.clone().unwrap_or("Option<usize>".into());
                            decl.push_str(&format!("let mut __r{n}: {ty} = None; "));
                            body.push_str(&format!("__r{n} = match __r{n} {{ None => Some(__v{n}), Some(__b{n}) => if __v{n} < __b{n} {{ Some(__v{n}) }} else {{ Some(__b{n}) }} }};"));
                            ret = format!("__r{n}");
                        }
                        "position" => {
                            decl.push_str(&format!("let mut __r{n}: Option<usize> = None; "));
                            cond.push_str(&format!(" && __r{n}.is_none()"));
                            body.push_str(&format!("if {} {{ __r{n} = Some(__k{n}); }}", ap(format!("__v{n}"))));
                            ret = format!("__r{n}");
                        }
                        "find_map" => {
                            let ty = spec.rty.clone().unwrap_or("Option<_>".into());
                            decl.push_str(&format!("let mut __r{n}: {ty} = None; "));
                            cond.push_str(&format!(" && __r{n}.is_none()"));
                            body.push_str(&format!("__r{n} = {};", ap(format!("__v{n}"))));
                            ret = format!("__r{n}");
                        }
                        "for_each" => {
                            body.push_str(&format!("{};", ap(format!("__v{n}"))));
                        }
                        _ => {
                            decl.push_str(&format!("let mut __r{n}: usize = 0; "));
                            body.push_str(&format!("__r{n} = __r{n} + 1;"));
                            ret = format!("__r{n}");
                        }
                    }
                    done = true;
                }
                other => {
                    self.ctx.fail(format!("unsupported: iterator adapter {other}"));
                }
            }
        }
        let target = match &sink {
            Sink::For(f) => Some((&*f.pat, self.block_inner(&f.body))),
            Sink::Clo(p, b) => Some((*p, b.clone())),
            Sink::Value => None,
        };
        if let Some((fpat, fb)) = target {
            // bind the loop pattern
            let p = match fpat {
                Pat::Tuple(t) if zipped.as_ref().is_some_and(|(a, b)| elem == format!("({a}, {b})")) && t.elems.len() == 2 => {
                    let (a, b) = zipped.clone().unwrap();
                    format!("{} {}", Self::bind_elem(&self.pat_noref(&t.elems[0]), &a, &mode), Self::bind_elem(&self.pat_noref(&t.elems[1]), &b, "ref"))
                }
                Pat::Tuple(t) if elem.starts_with(&format!("(__k{n}, ")) && t.elems.len() == 2 => {
                    let inner = elem[format!("(__k{n}, ").len()..elem.len() - 1].to_string();
                    format!("let {} = __k{n}; {}", self.pat(&t.elems[0]), Self::bind_elem(&self.pat_noref(&t.elems[1]), &inner, &mode))
                }
                p => {
                    let pt = self.pat_noref(p);
                    Self::bind_elem(&pt, &elem, &mode)
                }
            };
            body.push_str(&p);
            body.push(' ');
            if elem_is_place {
                body.push_str(&bump);
            }
            body.push_str(&format!("\n{}\n{{{fb}}}", spec.pre));
            let mut sp = spec.clone();
            sp.pre = String::new();
            return self.loop_frame(n, &sp, &srce, &mode, &start, &cond, &decl, &format!("{body}{tail}"), "");
        }
        if !done {
            self.ctx.fail("unsupported: iterator without terminal".into());
        }
        self.loop_frame(n, spec, &srce, &mode, &start, &cond, &decl, &format!("{body}{tail}"), &ret)
    }

    /// binds a loop pattern to an element place; `&p` on a shared element copies it out
    fn bind_elem(pat: &str, elem: &str, mode: &str) -> String {
        let p = pat.trim();
        if let Some(inner) = p.strip_prefix('&') {
            if mode == "ref" && elem.starts_with('&') {
                return format!("let {} = {};", inner.trim(), &elem[1..]);
            }
            return format!("let {} = *({elem});", inner.trim());
        }
        format!("let {p} = {elem};")
    }

    fn fmt_pieces(&self, args: &[Expr]) -> Option<Vec<Piece>> {
        let lit = match args.first()? {
            Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => s.value(),
            _ => return None,
        };
        let mut out = vec![];
        let mut cur = String::new();
        let mut next = 1usize;
        let cs: Vec<char> = lit.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            match cs[i] {
                '{' if cs.get(i + 1) == Some(&'{') => {
                    cur.push('{');
                    i += 2;
                }
                '}' if cs.get(i + 1) == Some(&'}') => {
                    cur.push('}');
                    i += 2;
                }
                '{' => {
                    if !cur.is_empty() {
                        out.push(Piece::Lit(std::mem::take(&mut cur)));
                    }
                    let mut j = i + 1;
                    while j < cs.len() && cs[j] != '}' {
                        j += 1;
                    }
                    let spec: String = cs[i + 1..j].iter().collect();
                    let (name, f) = match spec.split_once(':') {
                        Some((n, f)) => (n.to_string(), f.to_string()),
                        None => (spec, String::new()),
                    };
                    let text = if name.is_empty() {
                        let e = args.get(next)?;
                        next += 1;
                        if matches!(peel(e), Expr::Binary(_)) {
                            format!("({})", self.expr(e))
                        } else {
                            self.expr(e)
                        }
                    } else if let Ok(k) = name.parse::<usize>() {
                        self.expr(args.get(k + 1)?)
                    } else {
                        if name == "self" { self.self_sub.clone().unwrap_or("self".into()) } else { name }
                    };
                    let hex = f.strip_prefix('0').and_then(|f| f.strip_suffix('X')).and_then(|w| w.parse::<usize>().ok());
                    out.push(if f.is_empty() {
                        Piece::Disp(text)
                    } else if let Some(w) = hex {
                        Piece::Hex(text, w)
                    } else {
                        Piece::Dbg(text)
                    });
                    i = j + 1;
                }
                c => {
                    cur.push(c);
                    i += 1;
                }
            }
        }
        if !cur.is_empty() {
            out.push(Piece::Lit(cur));
        }
        Some(out)
    }

    fn write_calls(&self, target: &str, pieces: &[Piece]) -> Option<String> {
        // F-fs: what is written to an open file is written to the file system
        let fs = if self.ctx.fs { ", __fs" } else { "" };
        let target = if self.ctx.fs { target.trim_start_matches("&mut ") } else { target };
        let calls: Vec<String> = pieces
            .iter()
            .map(|p| match p {
                Piece::Lit(s) => format!("{target}.w_str({s:?}{fs})"),
                Piece::Disp(e) => format!("{target}.w_disp(&{e}{fs})"),
                Piece::Dbg(e) => format!("{target}.w_dbg(&{e}{fs})"),
                Piece::Hex(e, w) => format!("{target}.w_hex({e}, {w}{fs})"),
            })
            .collect();
        Some(if calls.len() == 1 { calls[0].clone() } else { format!("{{ {}; }}", calls.join("; ")) })
    }

    fn do_macro(&self, m: &syn::Macro, stmt: bool) -> Option<String> {
        let name = m.path.segments.last()?.ident.to_string();
        let parse = || -> Option<Vec<Expr>> {
            let p = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
            p.parse2(m.tokens.clone()).ok().map(|x| x.into_iter().collect())
        };
        let semi = if stmt { ";" } else { "" };
        match name.as_str() {
            "warn" | "info" | "debug" | "error" | "trace" => {
                self.ctx.rule("M-log");
                Some(format!("(){semi}"))
            }
            "write" | "writeln" => {
                self.ctx.rule("M-write");
                let args = parse()?;
                let target = self.expr(&args[0]);
                let mut pieces = if args.len() == 1 { vec![] } else { self.fmt_pieces(&args[1..])? };
                if name == "writeln" {
                    pieces.push(Piece::Lit("\n".into()));
                }
                let t = self.write_calls(&target, &pieces)?;
                Some(if t.starts_with('{') { t } else { format!("{t}{semi}") })
            }
            "format" => {
                self.ctx.rule("M-format");
                let args = parse()?;
                let pieces = self.fmt_pieces(&args)?;
                let mut s = String::from("{ let mut __f = String::new(); ");
                for p in pieces {
                    match p {
                        Piece::Lit(l) => s.push_str(&format!("vx_push_str(&mut __f, {l:?}); ")),
                        Piece::Disp(e) => s.push_str(&format!("vx_push_disp(&mut __f, &{e}); ")),
                        Piece::Dbg(e) => s.push_str(&format!("vx_push_dbg(&mut __f, &{e}); ")),
                        Piece::Hex(e, w) => s.push_str(&format!("vx_push_hex(&mut __f, {e}, {w}); ")),
                    }
                }
                s.push_str("__f }");
                Some(format!("{s}{semi}"))
            }
            "assert" => {
                self.ctx.rule("M-assert");
                let args = parse()?;
                let c = self.expr(&args[0]);
                Some(format!("{}({c}){semi}", if self.ctx.panics_ok { "vx_assert_ok" } else { "vx_assert" }))
            }
            "debug_assert_eq" | "debug_assert_ne" if !self.ctx.keep_debug_assert => {
                self.ctx.rule("M-assert");
                Some(format!("(){semi}"))
            }
            "debug_assert" => {
                self.ctx.rule("M-assert");
                if self.ctx.keep_debug_assert {
                    let args = parse()?;
                    let c = self.expr(&args[0]);
                    Some(format!("vx_assert({c}){semi}"))
                } else {
                    Some(format!("(){semi}"))
                }
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => {
                self.ctx.rule("M-panic");
                Some(format!("{}(){semi}", if self.ctx.panics_ok { "vx_panic_ok" } else { "vx_panic" }))
            }
            "matches" => {
                // re-parse `EXPR, PAT [if GUARD]` as a match
                let ts: Vec<proc_macro2::TokenTree> = m.tokens.clone().into_iter().collect();
                let mut k = None;
                for (i, t) in ts.iter().enumerate() {
                    if let proc_macro2::TokenTree::Punct(p) = t {
                        if p.as_char() == ',' {
                            k = Some(i);
                            break;
                        }
                    }
                }
                let k = k?;
                let e: Expr = syn::parse2(ts[..k].iter().cloned().collect()).ok()?;
                let rest: proc_macro2::TokenStream = ts[k + 1..].iter().cloned().collect();
                let arm = |input: syn::parse::ParseStream| -> syn::Result<(Pat, Option<Expr>)> {
                    let p = Pat::parse_multi_with_leading_vert(input)?;
                    let g = if input.peek(syn::Token![if]) {
                        let _: syn::Token![if] = input.parse()?;
                        Some(input.parse()?)
                    } else {
                        None
                    };
                    let _: Option<syn::Token![,]> = input.parse()?;
                    Ok((p, g))
                };
                let (p, g) = arm.parse2(rest).ok()?;
                self.ctx.rule("M-matches");
                let g = g.map(|g| format!(" if {}", self.expr(&g))).unwrap_or_default();
                Some(format!("(match {} {{ {}{g} => true, _ => false }}){semi}", self.expr(&e), self.pat(&p)))
            }
            "vec" => {
                let args = parse()?;
                self.ctx.rule("M-vec");
                if args.is_empty() {
                    return Some(format!("Vec::new(){semi}"));
                }
                let mut s = String::from("{ let mut __w = Vec::new(); ");
                for a in &args {
                    s.push_str(&format!("__w.push({}); ", self.expr(a)));
                }
                s.push_str("__w }");
                Some(format!("{s}{semi}"))
            }
            _ => {
                self.ctx.fail(format!("unsupported: macro {name}!"));
                None
            }
        }
    }

    /// `xs.iter().try_skip_map(|x| ..)` (the extension method of utilities.rs)
    fn skip_map<'e>(&self, e: &'e Expr) -> Option<(&'e Expr, &'e syn::ExprClosure)> {
        let Expr::MethodCall(m) = peel(e) else { return None };
        if m.method != "try_skip_map" || m.args.len() != 1 {
            return None;
        }
        let (Expr::Closure(c), Expr::MethodCall(i)) = (peel(&m.args[0]), peel(&m.receiver)) else { return None };
        if i.method != "iter" || !i.args.is_empty() || c.inputs.len() != 1 || only_return(&c.body) {
            return None;
        }
        Some((&i.receiver, c))
    }

    /// L11: `xs.iter().try_skip_map(f)?` is the loop of its definition; the first error of f is the
    /// error the function returns
    fn do_skip_map(&self, src: &Expr, c: &syn::ExprClosure) -> String {
        self.ctx.rule("L11-try_skip_map");
        let n = self.ctx.counter.get();
        self.ctx.counter.set(n + 1);
        let spec = self.ctx.loops.get(&n).cloned().unwrap_or_default();
        let r = self.expr(src);
        let pat = self.pat_noref(&c.inputs[0]);
        let body = self.expr(&c.body);
        let ty = spec.rty.clone().unwrap_or("Vec<_>".into());
        let decl = format!("let mut __r{n}: {ty} = Vec::new(); ");
        let lb = format!(
            "let __k{n} = __i{n}; let __e{n} = &__s{n}[__k{n}]; __i{n} = __i{n} + 1; let __f{n} = {{ {} {body} }}?; if let Some(__v{n}) = __f{n} {{ __r{n}.push(__v{n}); }}",
            Self::bind_pat(&pat, &format!("&__e{n}"))
        );
        self.loop_frame(n, &spec, &format!("({r}).vx_sl()"), "ref", "0", "", &decl, &lb, &format!("__r{n}"))
    }

    fn do_method(&self, m: &syn::ExprMethodCall) -> Option<String> {
        let name = m.method.to_string();
        let args: Vec<&Expr> = m.args.iter().collect();
        let whole = Expr::MethodCall(m.clone());
        // C-forall: a traversal that calls its closure on every item, read as a loop over those items
        if matches!(name.as_str(), "for_all_items" | "for_all_items_mut") && args.len() == 1 {
            if let Expr::Closure(c) = peel(args[0]) {
                if c.inputs.len() == 1 && !has_return(&c.body) {
                    self.ctx.rule("C-forall");
                    let n = self.ctx.counter.get();
                    self.ctx.counter.set(n + 1);
                    let spec = self.ctx.loops.get(&n).cloned().unwrap_or_default();
                    let r = self.expr(&m.receiver);
                    let (s, mode) = if name == "for_all_items" { (format!("({r}).vx_all()"), "ref") } else { (format!("({r}).vx_all_mut()"), "mut") };
                    let body = format!("{};", self.expr(&c.body));
                    return Some(self.pipeline(n, &spec, s, mode.into(), &[], Sink::Clo(&c.inputs[0], body)));
                }
            }
        }
        // C-retain: `v.retain(|x| p)` is read as v = v.into_iter().filter(|x| p).collect(); on a map the
        // closure gets each entry in turn. `m.filter(|x| p)` (ItemMap) keeps the items for which p is false.
        if args.len() == 1 && (name == "retain" && matches!(peel(&m.receiver), Expr::Path(_) | Expr::Field(_)) || name == "filter" && matches!(peel(&m.receiver), Expr::Field(_))) {
            if let Expr::Closure(c) = peel(args[0]) {
                if !has_return(&c.body) && (c.inputs.len() == 1 || (name == "retain" && c.inputs.len() == 2)) {
                    self.ctx.rule("C-retain");
                    let n = self.ctx.counter.get();
                    self.ctx.counter.set(n + 1);
                    let spec = self.ctx.loops.get(&n).cloned().unwrap_or_default();
                    let r = self.expr(&m.receiver);
                    let body = self.expr(&c.body);
                    let ty = spec.rty.clone().unwrap_or("Vec<_>".into());
                    let decl = format!("let mut __r{n}: {ty} = Vec::new(); ");
                    let head = format!("let __k{n} = __i{n}; let __e{n} = vx_move(&__s{n}[__k{n}]); __i{n} = __i{n} + 1; ");
                    let lb = if c.inputs.len() == 1 {
                        let no = if name == "filter" { "!" } else { "" };
                        format!("{head} let __c{n}: bool = {no}({{ {} {body} }}); if __c{n} {{ __r{n}.push(__e{n}); }}", Self::bind_pat(&self.pat(&c.inputs[0]), &format!("&__e{n}")))
                    } else {
                        format!(
                            "{head} let __ek{n} = __e{n}.0; let mut __ev{n} = __e{n}.1; let __c{n}: bool = {{ {} {} {body} }}; if __c{n} {{ __r{n}.push((__ek{n}, __ev{n})); }}",
                            Self::bind_pat(&self.pat(&c.inputs[0]), &format!("&__ek{n}")),
                            Self::bind_pat(&self.pat(&c.inputs[1]), &format!("&mut __ev{n}"))
                        )
                    };
                    let lp = self.loop_frame(n, &spec, &format!("({r}).vx_take_all()"), "own", "0", "", &decl, &lb, &format!("__r{n}"));
                    return Some(format!("({{ let __q{n} = {lp}; ({r}).vx_put_all(__q{n}); }})"));
                }
            }
        }
        // S-sort: the comparison keeps its text and is checked against the order named by the contract
        if name == "sort_by" && args.len() == 1 {
            let next = self.ctx.sorts.borrow_mut().pop();
            if let Some((ty, spec)) = next {
                if let ClosureArg::Inline { pats, body } = self.callable(args[0]) {
                    if pats.len() == 2 {
                        self.ctx.rule("S-sort");
                        let r = self.expr(&m.receiver);
                        return Some(format!(
                            "vx_sort_by(&mut {r}, |__a: &{ty}, __b: &{ty}| -> (__o: Ordering) ensures __o == {spec}(*__a, *__b) {{ {} {} {body} }}, Ghost({spec}_f()))",
                            Self::bind_pat(&pats[0], "__a"),
                            Self::bind_pat(&pats[1], "__b")
                        ));
                    }
                }
            }
            self.ctx.fail("unsupported: sort_by".into());
            return None;
        }
        // C-visit: a pre-order traversal that stops when its closure answers false
        if name == "visit" && args.len() == 1 {
            if let Expr::Reference(rf) = peel(args[0]) {
                if let Expr::Closure(c) = peel(&rf.expr) {
                    if c.inputs.len() == 1 && !has_return(&c.body) {
                        self.ctx.rule("C-visit");
                        let n = self.ctx.counter.get();
                        self.ctx.counter.set(n + 1);
                        let spec = self.ctx.loops.get(&n).cloned().unwrap_or_default();
                        let r = self.expr(&m.receiver);
                        let body = format!("if !({}) {{ break; }}", self.expr(&c.body));
                        return Some(self.pipeline(n, &spec, format!("({r}).vx_preorder()"), "own".into(), &[], Sink::Clo(&c.inputs[0], body)));
                    }
                }
            }
        }
        // iterator chains
        if let Some(c) = self.chain(&whole) {
            if let Some((last, _)) = c.ops.last() {
                if TERM.contains(&last.as_str()) || last == "next" {
                    let n = self.ctx.counter.get();
                    self.ctx.counter.set(n + 1);
                    self.ctx.rule("L2-chain");
                    let spec = self.ctx.loops.get(&n).cloned().unwrap_or_default();
                    let (s, mode) = self.loop_source(&c.src_method, c.src_recv, &spec);
                    // c borrows a clone; rebuild ops by index
                    return Some(self.pipeline(n, &spec, s, mode, &c.ops, Sink::Value));
                }
            }
            if c.src_method == "iter" && c.ops.iter().all(|(o, _)| o == "rev" || o == "peekable") {
                self.ctx.rule("L3-iterval");
                let r = self.expr(c.src_recv);
                let rev = c.ops.iter().filter(|(o, _)| o == "rev").count() % 2 == 1;
                return Some(format!("vx_iter{}(({r}).vx_sl())", if rev { "_rev" } else { "" }));
            }
            if self.ctx.lazy && c.src_method == "iter" {
                return self.lazy_vec(&whole);
            }
            if c.src_method != "iter" && c.ops.is_empty() {
                return None; // plain method named values()/keys()/...
            }
            self.ctx.fail(format!("unsupported: iterator value ({})", self.raw(m.span().byte_range()).replace('\n', " ")));
            return None;
        }
        // aliases of iterator chains used as a receiver
        if let Some(a) = self.resolve_alias(&m.receiver) {
            if TERM.contains(&name.as_str()) || ADAPT.contains(&name.as_str()) {
                let mut m2 = m.clone();
                m2.receiver = Box::new(a);
                return self.do_method(&m2);
            }
        }
        let is_closure = |e: &Expr| matches!(peel(e), Expr::Closure(_));
        let opt = |s: &Self| s.expr(&m.receiver);
        match (name.as_str(), args.len()) {
            ("extend", 1) if self.repeat_take(args[0]).is_some() => {
                self.ctx.rule("S-extend_repeat");
                let (x, n) = self.repeat_take(args[0]).unwrap();
                Some(format!("{}.vx_extend_repeat({x}, {n})", self.expr(&m.receiver)))
            }
            _ if self.ctx.fs && self.ctx.known.contains(&format!("fs:{name}")) => {
                self.ctx.rule("F-fs");
                let mut a: Vec<String> = args.iter().map(|a| self.expr(a)).collect();
                a.push("__fs".into());
                Some(format!("{}.{name}({})", self.expr(&m.receiver), a.join(", ")))
            }
            ("unwrap", 0) | ("expect", 1) if self.ctx.unwrap_ok => {
                // P-unwrap: a panic ends the run; what follows runs only on success
                self.ctx.rule("P-unwrap");
                Some(format!("{}.vx_unwrap_ok()", self.expr(&m.receiver)))
            }
            ("map_err", 1) => {
                self.ctx.rule("O-map_err");
                let c = self.callable(args[0]);
                Some(format!("(match {} {{ Ok(__x) => Ok(__x), Err(__y) => Err({}) }})", opt(self), self.apply(&c, &["__y".into()])))
            }
            ("read_to_string", 1) if self.ctx.fs => {
                self.ctx.rule("F-fs");
                Some(format!("{}.vx_read({}, __fs)", self.expr(&m.receiver), self.expr(args[0])))
            }
            ("read_to_end", 1) | ("write_all", 1) if self.ctx.fs => {
                self.ctx.rule("F-fs");
                Some(format!("{}.{name}({}, __fs)", self.expr(&m.receiver), self.expr(args[0])))
            }
            ("write", 1) if self.ctx.fs && matches!(peel(&m.receiver), Expr::Path(p) if p.path.is_ident("self")) => {
                self.ctx.rule("F-fs");
                match peel(args[0]) {
                    Expr::Reference(r) if r.mutability.is_some() => Some(format!("self.vx_write_buf({})", self.expr(args[0]))),
                    _ => Some(format!("{{ let __h = {}; self.vx_write_file(__h, __fs) }}", self.expr(args[0]))),
                }
            }
            ("is_file", 0) | ("exists", 0) if self.ctx.fs => {
                self.ctx.rule("F-fs");
                Some(format!("__fs.{name}(&({}))", self.expr(&m.receiver)))
            }
            ("as_bytes", 0) if self.ctx.fs => {
                self.ctx.rule("F-fs");
                Some(format!("{}.vx_bytes()", self.expr(&m.receiver)))
            }
            ("chain", 1) if self.ctx.lazy => {
                let a = self.lazy_vec(&m.receiver)?;
                let b = self.lazy_vec(args[0])?;
                Some(format!("vx_chain({a}, {b})"))
            }
            ("expect", 1) | ("unwrap", 0) if matches!(peel(&m.receiver), Expr::Macro(x) if x.mac.path.is_ident("write") || x.mac.path.is_ident("writeln")) => {
                // a failed write panics: the rest runs only if the text was written
                self.ctx.rule("M-write-unwrap");
                let Expr::Macro(x) = peel(&m.receiver) else { unreachable!() };
                self.do_macro(&x.mac, false)
            }
            ("clone", 0) => {
                self.ctx.rule("S-clone");
                Some(format!("{}.vx_cl()", self.expr(&m.receiver)))
            }
            ("clone_into", 1) => {
                self.ctx.rule("S-clone_into");
                let v = format!("vx_to_owned({})", self.as_ref_text(&m.receiver));
                Some(match peel(args[0]) {
                    Expr::Reference(r) if r.mutability.is_some() => format!("{} = {v}", self.expr(&r.expr)),
                    other => format!("*{} = {v}", self.expr(other)),
                })
            }
            ("clone_from", 1) => {
                self.ctx.rule("S-clone_from");
                let a = self.expr(args[0]);
                let star = matches!(peel(&m.receiver), Expr::Path(p) if p.path.get_ident().is_some_and(|i| i != "self"));
                Some(format!("{}{} = vx_clone({a})", if star { "*" } else { "" }, self.expr(&m.receiver)))
            }
            ("next", 0) if matches!(peel(&m.receiver), Expr::MethodCall(i) if i.method == "into_iter" && i.args.is_empty()) => {
                // L6: the first element of a vector that is consumed
                self.ctx.rule("L6-first");
                let Expr::MethodCall(i) = peel(&m.receiver) else { unreachable!() };
                Some(format!("vx_first({})", self.expr(&i.receiver)))
            }
            ("push", 1) if matches!(peel(args[0]), Expr::Lit(syn::ExprLit { lit: syn::Lit::Char(_), .. })) => {
                self.ctx.rule("S-push_char");
                Some(format!("{}.vx_push_char({})", self.expr(&m.receiver), self.expr(args[0])))
            }
            ("insert", 2)
                if matches!(peel(args[1]), Expr::Lit(syn::ExprLit { lit: syn::Lit::Char(_), .. }))
                    && matches!(peel(args[0]), Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(i), .. }) if i.base10_digits() == "0") =>
            {
                self.ctx.rule("S-insert_front");
                Some(format!("{}.vx_insert_front({})", self.expr(&m.receiver), self.expr(args[1])))
            }
            ("starts_with", 1) if is_closure(args[0]) => {
                self.ctx.rule("S-starts_with");
                let c = self.callable(args[0]);
                Some(format!("(match {}.vx_first_char() {{ Some(__x) => {}, None => false }})", opt(self), self.apply(&c, &["__x".into()])))
            }
            ("starts_with", 1) => {
                self.ctx.rule("S-starts_with");
                Some(format!("vx_starts_with({}, {})", self.as_ref_text(&m.receiver), self.expr(args[0])))
            }
            ("to_lowercase", 0) => {
                self.ctx.rule("S-lowercase");
                Some(format!("vx_to_lower({})", self.as_ref_text(&m.receiver)))
            }
            ("as_ref", 0) if is_lower(&m.receiver) => Some(format!("{}.as_str()", self.expr(&m.receiver))),
            ("is_ascii_digit", 0) => {
                self.ctx.rule("S-char");
                Some(format!("vx_is_ascii_digit({})", self.expr(&m.receiver)))
            }
            ("map", 1) if matches!(peel(&m.receiver), Expr::Call(c) if matches!(peel(&c.func), Expr::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == "load"))) => {
                // the loaders return a Result
                self.ctx.rule("O-map-result");
                let c = self.callable(args[0]);
                Some(format!("(match {} {{ Ok(__x) => Ok({}), Err(__x) => Err(__x) }})", opt(self), self.apply(&c, &["__x".into()])))
            }
            ("map", 1) => {
                self.ctx.rule("O-map");
                let c = self.callable(args[0]);
                Some(format!("(match {} {{ Some(__x) => Some({}), None => None }})", opt(self), self.apply(&c, &["__x".into()])))
            }
            ("and_then", 1) => {
                self.ctx.rule("O-and_then");
                let c = self.callable(args[0]);
                Some(format!("(match {} {{ Some(__x) => {}, None => None }})", opt(self), self.apply(&c, &["__x".into()])))
            }
            ("map_or", 2) => {
                self.ctx.rule("O-map_or");
                let c = self.callable(args[1]);
                let d = self.expr(args[0]);
                Some(format!("(match {} {{ Some(__x) => {}, None => {d} }})", opt(self), self.apply(&c, &["__x".into()])))
            }
            ("map_or_else", 2) if matches!(peel(args[0]), Expr::Closure(c) if c.inputs.is_empty()) => {
                self.ctx.rule("O-map_or_else");
                let d = self.callable(args[0]);
                let c = self.callable(args[1]);
                let d = self.apply(&d, &[]);
                Some(format!("(match {} {{ Some(__x) => {}, None => {d} }})", opt(self), self.apply(&c, &["__x".into()])))
            }
            ("then", 1) if matches!(peel(args[0]), Expr::Closure(c) if c.inputs.is_empty()) => {
                self.ctx.rule("O-then");
                let c = self.callable(args[0]);
                Some(format!("(if {} {{ Some({}) }} else {{ None }})", opt(self), self.apply(&c, &[])))
            }
            ("is_some_and", 1) => {
                self.ctx.rule("O-is_some_and");
                let c = self.callable(args[0]);
                Some(format!("(match {} {{ Some(__x) => {}, None => false }})", opt(self), self.apply(&c, &["__x".into()])))
            }
            ("or_else", 1) => {
                self.ctx.rule("O-or_else");
                let c = self.callable(args[0]);
                Some(format!("(match {} {{ Some(__x) => Some(__x), None => {} }})", opt(self), self.apply(&c, &[])))
            }
            ("or", 1) => {
                self.ctx.rule("O-or");
                let d = self.expr(args[0]);
                Some(format!("(match {} {{ Some(__x) => Some(__x), None => {d} }})", opt(self)))
            }
            // only Result's takes the error
            ("unwrap_or_else", 1) if matches!(peel(args[0]), Expr::Closure(c) if c.inputs.len() == 1) => {
                self.ctx.rule("O-unwrap_or_else-result");
                let c = self.callable(args[0]);
                Some(format!("(match {} {{ Ok(__x) => __x, Err(__x) => {} }})", opt(self), self.apply(&c, &["__x".into()])))
            }
            ("unwrap_or_else", 1) if is_closure(args[0]) => {
                self.ctx.rule("O-unwrap_or_else");
                let c = self.callable(args[0]);
                Some(format!("(match {} {{ Some(__x) => __x, None => {} }})", opt(self), self.apply(&c, &[])))
            }
            ("unwrap_or", 1) => {
                self.ctx.rule("O-unwrap_or");
                let d = self.expr(args[0]);
                Some(format!("(match {} {{ Some(__x) => __x, None => {d} }})", opt(self)))
            }
            ("cloned", 0) | ("copied", 0) => {
                self.ctx.rule("O-cloned");
                Some(format!("(match {} {{ Some(__x) => Some(vx_clone(__x)), None => None }})", opt(self)))
            }
            ("to_owned", 0) | ("to_string", 0) | ("into", 0) if str_tail(&m.receiver).is_some() => {
                self.ctx.rule("S-str_from");
                let (a, b) = str_tail(&m.receiver).unwrap();
                Some(format!("vx_str_from({}, {})", self.expr(a), self.expr(b)))
            }
            ("to_owned", 0) | ("to_string", 0) => {
                self.ctx.rule("S-to_owned");
                Some(format!("vx_to_owned({})", self.as_ref_text(&m.receiver)))
            }
            ("retain", 1) => None,
            ("as_deref", 0) => {
                self.ctx.rule("O-as_deref");
                Some(format!("vx_as_deref(&{})", self.expr(&m.receiver)))
            }
            ("try_write", 2) if is_closure(args[0]) => {
                // W-try: the trial layout is either emitted as written or leaves the output
                // untouched (contract of SourceWriter::try_write, property C13)
                self.ctx.rule("W-try");
                let c = self.callable(args[0]);
                let r = self.expr(&m.receiver);
                let n = self.expr(args[1]);
                Some(format!("({{ let __t: bool = {r}.vx_try({n}); if __t {{ {} }} __t }})", self.apply(&c, &[r.clone()])))
            }
            ("write_fmt", 1) => {
                if let Expr::Macro(mm) = peel(args[0]) {
                    let p = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
                    let a: Vec<Expr> = p.parse2(mm.mac.tokens.clone()).ok()?.into_iter().collect();
                    self.ctx.rule("M-write");
                    let target = self.expr(&m.receiver);
                    return self.write_calls(&target, &self.fmt_pieces(&a)?);
                }
                None
            }
            _ => self.try_inline_method(m),
        }
    }

    /// L8: an iterator handed to the caller is read as the sequence of elements it yields
    fn lazy_vec(&self, e: &Expr) -> Option<String> {
        self.ctx.rule("L8-lazy");
        let e = self.resolve_alias_deep(e).unwrap_or(e.clone());
        let c: Expr = syn::parse_quote!((#e).collect());
        match c {
            Expr::MethodCall(m) => self.do_method(&m),
            _ => None,
        }
    }

    /// `std::iter::repeat(x).take(n)` or `repeat_n(x, n)`
    fn repeat_take(&self, e: &Expr) -> Option<(String, String)> {
        let last = |f: &Expr| match peel(f) {
            Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
            _ => None,
        };
        match peel(e) {
            Expr::MethodCall(m) if m.method == "take" && m.args.len() == 1 => match peel(&m.receiver) {
                Expr::Call(c) if last(&c.func).as_deref() == Some("repeat") && c.args.len() == 1 => Some((self.expr(&c.args[0]), self.expr(&m.args[0]))),
                _ => None,
            },
            Expr::Call(c) if last(&c.func).as_deref() == Some("repeat_n") && c.args.len() == 2 => Some((self.expr(&c.args[0]), self.expr(&c.args[1]))),
            _ => None,
        }
    }

    /// text of a receiver as a reference (auto-ref of method calls made explicit)
    fn as_ref_text(&self, e: &Expr) -> String {
        match peel(e) {
            Expr::Lit(_) => self.expr(e),
            Expr::MethodCall(_) | Expr::Call(_) => format!("&*{}", self.expr(e)),
            Expr::Field(_) => format!("&{}", self.expr(e)),
            _ => format!("&*{}", self.expr(e)),
        }
    }

    fn find_helper(&self, name: &str) -> Option<FnRef> {
        if self.ctx.known.contains(name) || self.ctx.noinline.contains(name) || self.ctx.depth.get() > 6 {
            return None;
        }
        let mut c: Vec<FnRef> = self.ctx.repo.all_fns(&self.src.rel).into_iter().filter(|f| f.sig.ident == name).collect();
        if c.is_empty() && self.src.rel != self.ctx.file {
            c = self.ctx.repo.all_fns(&self.ctx.file).into_iter().filter(|f| f.sig.ident == name).collect();
        }
        for f in &self.ctx.inline_from {
            if c.is_empty() {
                c = self.ctx.repo.all_fns(f).into_iter().filter(|f| f.sig.ident == name).collect();
            }
        }
        if c.len() == 1 {
            c.pop()
        } else {
            None
        }
    }

    fn try_inline_method(&self, m: &syn::ExprMethodCall) -> Option<String> {
        let f = self.find_helper(&m.method.to_string())?;
        let recv_kind = match f.sig.inputs.first() {
            Some(syn::FnArg::Receiver(r)) => r.clone(),
            _ => return None,
        };
        let args: Vec<&Expr> = m.args.iter().collect();
        let is_self = matches!(peel(&m.receiver), Expr::Path(p) if p.path.is_ident("self"));
        let mut pre = String::new();
        let simple = match peel(&m.receiver) {
            Expr::Path(p) if recv_kind.reference.is_some() => p.path.get_ident().map(|i| i.to_string()),
            _ => None,
        };
        let self_sub = if is_self {
            self.self_sub.clone()
        } else if let Some(i) = simple {
            Some(i)
        } else {
            let k = self.ctx.depth.get();
            let r = self.expr(&m.receiver);
            let amp = if recv_kind.reference.is_some() {
                if recv_kind.mutability.is_some() {
                    "&mut "
                } else {
                    "&"
                }
            } else {
                ""
            };
            pre = format!("let __self{k} = {amp}{r}; ");
            Some(format!("__self{k}"))
        };
        self.inline(&f, &args, self_sub, pre)
    }

    fn inline(&self, f: &FnRef, args: &[&Expr], self_sub: Option<String>, mut pre: String) -> Option<String> {
        let params: Vec<&syn::PatType> = f
            .sig
            .inputs
            .iter()
            .filter_map(|a| match a {
                syn::FnArg::Typed(t) => Some(t),
                _ => None,
            })
            .collect();
        if params.len() != args.len() {
            return None;
        }
        self.ctx.depth.set(self.ctx.depth.get() + 1);
        let mut callee = Rw::new(f.file.clone(), self.ctx);
        callee.self_sub = self_sub;
        for (p, a) in params.iter().zip(args) {
            let pname = match &*p.pat {
                Pat::Ident(i) => i.ident.to_string(),
                _ => {
                    self.ctx.fail("unsupported: pattern parameter in inlined helper".into());
                    return None;
                }
            };
            let closure_arg = match peel(a) {
                Expr::Closure(_) => Some(self.callable(a)),
                Expr::Reference(r) if matches!(peel(&r.expr), Expr::Closure(_)) => Some(self.callable(&r.expr)),
                Expr::Path(pp) => pp.path.get_ident().and_then(|i| self.closures.get(&i.to_string()).cloned()),
                _ => None,
            };
            if let Some(c) = closure_arg {
                callee.closures.insert(pname, c);
            } else {
                let mutk = matches!(&*p.pat, Pat::Ident(i) if i.mutability.is_some());
                let argt = self.expr(a);
                if argt.trim() != pname || mutk {
                    let simple_ty = !matches!(&*p.ty, syn::Type::ImplTrait(_));
                    let ty = f.file.text[p.ty.span().byte_range()].to_string();
                    let gen_ty = f.sig.generics.type_params().any(|g| ty.contains(&g.ident.to_string()));
                    let ann = if simple_ty && !gen_ty && !ty.contains('\'') { format!(": {ty}") } else { String::new() };
                    pre.push_str(&format!("let {}{pname}{ann} = {argt}; ", if mutk { "mut " } else { "" }));
                }
            }
        }
        if block_has_return(&f.block) {
            self.ctx.fail(format!("unsupported: helper {} with early return", f.sig.ident));
        }
        let body = callee.block_inner(&f.block);
        self.ctx.inlined.borrow_mut().push(format!("{}::{}", f.file.rel, f.sig.ident));
        self.ctx.rule("I-inline");
        self.ctx.depth.set(self.ctx.depth.get() - 1);
        Some(format!("({{ {pre}{body} }})"))
    }

    fn do_call(&self, c: &syn::ExprCall) -> Option<String> {
        if let Expr::Path(p) = peel(&c.func) {
            if self.ctx.fs && p.path.segments.len() >= 2 && c.args.len() == 1 {
                let k = p.path.segments.len();
                let (a, b) = (p.path.segments[k - 2].ident.to_string(), p.path.segments[k - 1].ident.to_string());
                let f = match (a.as_str(), b.as_str()) {
                    ("File", "create") => Some("create"),
                    ("File", "open") => Some("open"),
                    ("fs", "create_dir_all") => Some("create_dir_all"),
                    _ => None,
                };
                if let Some(f) = f {
                    self.ctx.rule("F-fs");
                    return Some(format!("__fs.{f}({})", self.expr(&c.args[0])));
                }
            }
            if let Some(last) = p.path.segments.last().filter(|l| self.ctx.fs && self.ctx.known.contains(&format!("fs:{}", l.ident))) {
                self.ctx.rule("F-fs");
                let mut a: Vec<String> = c.args.iter().map(|a| self.expr(a)).collect();
                a.push("__fs".into());
                return Some(format!("{}({})", last.ident, a.join(", ")));
            }
            if let Some(i) = p.path.get_ident() {
                let name = i.to_string();
                if let Some(cl) = self.closures.get(&name) {
                    let args: Vec<String> = c.args.iter().map(|a| self.expr(a)).collect();
                    return Some(self.apply(cl, &args));
                }
                let f = self.find_helper(&name)?;
                if f.self_ty.is_none() {
                    let args: Vec<&Expr> = c.args.iter().collect();
                    return self.inline(&f, &args, None, String::new());
                }
            } else if p.path.segments.len() == 2 {
                let name = p.path.segments[1].ident.to_string();
                let ty = p.path.segments[0].ident.to_string();
                let f = self.find_helper(&name)?;
                let tyok = ty == "Self" || f.self_ty.as_deref() == Some(&ty) || (f.self_ty.is_none() && ty == "self");
                if tyok && !matches!(f.sig.inputs.first(), Some(syn::FnArg::Receiver(_))) {
                    let args: Vec<&Expr> = c.args.iter().collect();
                    return self.inline(&f, &args, None, String::new());
                }
            }
        }
        None
    }

    fn do_while(&self, w: &syn::ExprWhile) -> String {
        let n = self.ctx.counter.get();
        self.ctx.counter.set(n + 1);
        let spec = self.ctx.loops.get(&n).cloned().unwrap_or_default();
        let inv = spec.inv.trim();
        let inv = if inv.is_empty() { String::new() } else { format!("invariant {inv}") };
        let dec = spec.dec.as_ref().map(|d| format!("decreases {d}")).unwrap_or_default();
        if let Expr::Let(l) = peel(&w.cond) {
            self.ctx.rule("L4-whilelet");
            let e = self.expr(&l.expr);
            let p = self.pat(&l.pat);
            let body = self.block_inner(&w.body);
            return format!("{{ {} loop {inv}\n{{ match {e} {{ {p} => {{ {}\n{body}\n{} }}, _ => break }} }} {} }}", spec.before, spec.pre, spec.post, spec.after);
        }
        let c = self.expr(&w.cond);
        let body = self.block_inner(&w.body);
        format!("{{ {} while {c} {inv}\n{dec}\n{{ {}\n{body}\n{} }} {} }}", spec.before, spec.pre, spec.post, spec.after)
    }
}

enum Piece {
    Lit(String),
    Disp(String),
    Dbg(String),
    Hex(String, usize),
}
enum Sink<'e> {
    For(&'e syn::ExprForLoop),
    Clo(&'e Pat, String),
    Value,
}

fn or_with_ref_mut(p: &Pat) -> bool {
    struct V(bool);
    impl<'ast> Visit<'ast> for V {
        fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) {
            if i.by_ref.is_some() && i.mutability.is_some() {
                self.0 = true;
            }
        }
    }
    let mut v = V(false);
    if let Pat::Or(_) = p {
        v.visit_pat(p);
    }
    v.0
}

fn or_guard(a: &syn::Arm) -> bool {
    matches!(a.pat, Pat::Or(_)) && a.guard.is_some()
}
/// a `return` (not counting `?`)
fn only_return(e: &Expr) -> bool {
    struct V(bool);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}

fn has_return(e: &Expr) -> bool {
    struct V(bool);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}
fn block_has_return(b: &syn::Block) -> bool {
    b.stmts.iter().any(|s| match s {
        syn::Stmt::Expr(e, _) => has_return(e),
        syn::Stmt::Local(l) => l.init.as_ref().is_some_and(|i| has_return(&i.expr) || i.diverge.as_ref().is_some_and(|d| has_return(&d.1))),
        _ => false,
    })
}

impl<'ast, 'c, 'r> Visit<'ast> for Rw<'c, 'r> {
    fn visit_pat_reference(&mut self, r: &'ast syn::PatReference) {
        // P-refpat: `&P` that binds nothing matches as `P` through the reference
        struct V(bool);
        impl<'ast> Visit<'ast> for V {
            fn visit_pat_ident(&mut self, _: &'ast syn::PatIdent) {
                self.0 = true;
            }
        }
        let mut v = V(false);
        v.visit_pat(&r.pat);
        if !v.0 && !matches!(&*r.pat, Pat::Wild(_)) {
            self.ctx.rule("P-refpat");
            let a = r.span().byte_range().start;
            let b = r.pat.span().byte_range().start;
            self.edits.push((a..b, String::new()));
        }
        // P-refbind: `&P(ref x)` / `&mut P(ref mut x)` binds as `P(x)` through the reference
        if v.0 && !matches!(&*r.pat, Pat::Ident(_)) {
            struct B(Vec<Range<usize>>, bool, bool);
            impl<'ast> Visit<'ast> for B {
                fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) {
                    match i.by_ref {
                        Some(r) if i.mutability.is_some() == self.2 && i.subpat.is_none() => self.0.push(r.span().byte_range().start..i.ident.span().byte_range().start),
                        _ => self.1 = true,
                    }
                }
                fn visit_pat_reference(&mut self, _: &'ast syn::PatReference) {
                    self.1 = true;
                }
            }
            let mut w = B(vec![], false, r.mutability.is_some());
            w.visit_pat(&r.pat);
            if !w.1 {
                self.ctx.rule("P-refbind");
                self.edits.push((r.span().byte_range().start..r.pat.span().byte_range().start, String::new()));
                for c in w.0 {
                    self.edits.push((c, String::new()));
                }
                return;
            }
        }
        visit::visit_pat_reference(self, r);
    }
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        self.edits.push((a.span().byte_range(), String::new()));
    }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        if !self.ctx.opaque.is_empty() {
            let t: String = self.raw(s.span().byte_range()).split_whitespace().collect::<Vec<_>>().join(" ");
            if let Some((a, b)) = self.ctx.opaque.iter().find(|(a, _)| t.starts_with(a.as_str())) {
                self.ctx.rule(&format!("X-opaque statement `{a} ...` read as `{b}`"));
                self.edits.push((s.span().byte_range(), b.clone()));
                return;
            }
        }
        // A-cfg: code that is only built for another platform than the one of this run
        if let syn::Stmt::Expr(Expr::Block(b), _) = s {
            let off = b.attrs.iter().any(|a| self.raw(a.span().byte_range()).split_whitespace().collect::<String>() == "#[cfg(target_os=\"windows\")]");
            if off {
                self.ctx.rule("A-cfg");
                self.edits.push((s.span().byte_range(), String::new()));
                return;
            }
        }
        match s {
            syn::Stmt::Macro(m) => {
                if let Some(t) = self.do_macro(&m.mac, m.semi_token.is_some()) {
                    self.edits.push((m.span().byte_range(), t));
                } else {
                    self.ctx.fail(format!("unsupported: macro {}", self.raw(m.span().byte_range())));
                }
            }
            syn::Stmt::Item(syn::Item::Use(_)) => {}
            syn::Stmt::Item(syn::Item::Const(c)) => {
                self.ctx.rule("D-local-const");
                let e = self.expr(&c.expr);
                let t = format!("let {}: {} = {e};", c.ident, self.raw(c.ty.span().byte_range()));
                self.edits.push((c.span().byte_range(), t));
            }
            syn::Stmt::Item(i) => {
                self.ctx.rule("D-nested-item");
                self.edits.push((i.span().byte_range(), String::new()));
            }
            syn::Stmt::Local(l) => {
                if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                    if p.mutability.is_none() && p.by_ref.is_none() {
                        if let Some(c) = self.chain(&init.expr) {
                            if !c.ops.iter().any(|(o, _)| TERM.contains(&o.as_str()))
                                && (c.src_method == "iter" || c.src_method == "iter_mut")
                            {
                                self.ctx.rule("L5-iteralias");
                                self.aliases.borrow_mut().insert(p.ident.to_string(), (*init.expr).clone());
                                self.edits.push((l.span().byte_range(), String::new()));
                                return;
                            }
                        }
                        if let Expr::Closure(_) = peel(&init.expr) {
                            self.ctx.rule("D-closure-local");
                            let c = self.callable(&init.expr);
                            self.closures.insert(p.ident.to_string(), c);
                            self.edits.push((l.span().byte_range(), String::new()));
                            return;
                        }
                    }
                }
                visit::visit_local(self, l);
            }
            _ => visit::visit_stmt(self, s),
        }
    }
    fn visit_expr(&mut self, e: &'ast Expr) {
        let r = match e {
            Expr::ForLoop(f) => Some(self.do_for(f)),
            Expr::While(w) => Some(self.do_while(w)),
            // F-fs: a byte string that is text
            Expr::Lit(syn::ExprLit { lit: syn::Lit::ByteStr(b), .. }) if self.ctx.fs && String::from_utf8(b.value()).is_ok() => {
                self.ctx.rule("F-fs");
                Some(format!("vx_bstr({:?})", String::from_utf8(b.value()).unwrap()))
            }
            // A-add: lengths are added as mathematical numbers (no overflow assumed)
            Expr::Binary(b) if self.ctx.nat && matches!(b.op, syn::BinOp::Add(_)) => {
                self.ctx.rule("A-add");
                Some(format!("vx_add({}, {})", self.expr(&b.left), self.expr(&b.right)))
            }
            Expr::Binary(b) if self.ctx.nat && matches!(b.op, syn::BinOp::AddAssign(_)) => {
                self.ctx.rule("A-add");
                let l = self.expr(&b.left);
                Some(format!("{l} = vx_add({l}, {})", self.expr(&b.right)))
            }
            Expr::Loop(l) => {
                let n = self.ctx.counter.get();
                self.ctx.counter.set(n + 1);
                let spec = self.ctx.loops.get(&n).cloned().unwrap_or_default();
                let inv = spec.inv.trim();
                let inv = if inv.is_empty() { String::new() } else { format!("invariant {inv}") };
                let body = self.block_inner(&l.body);
                Some(format!("loop {inv}\n{{ {}\n{body}\n{} }}", spec.pre, spec.post))
            }
            Expr::Macro(m) => {
                let t = self.do_macro(&m.mac, false);
                if t.is_none() {
                    self.ctx.fail(format!("unsupported: macro {}", self.raw(m.span().byte_range())));
                }
                t
            }
            Expr::Match(m) if m.arms.iter().any(|a| or_with_ref_mut(&a.pat) || or_guard(a)) => {
                // P-orsplit: `A(ref mut x) | B(ref mut x) => e` becomes two arms with the same body
                self.ctx.rule("P-orsplit");
                let mut t = format!("match {} {{\n", self.expr(&m.expr));
                for a in &m.arms {
                    let g = a.guard.as_ref().map(|(_, g)| format!(" if {}", self.expr(g))).unwrap_or_default();
                    let b = self.expr(&a.body);
                    let pats: Vec<&Pat> = match &a.pat {
                        Pat::Or(o) if or_with_ref_mut(&a.pat) || or_guard(a) => o.cases.iter().collect(),
                        p => vec![p],
                    };
                    for p in pats {
                        t.push_str(&format!("{}{g} => {b},\n", self.pat(p)));
                    }
                }
                t.push('}');
                Some(t)
            }
            Expr::Reference(r) if matches!(peel(&r.expr), Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) && is_lower(&u.expr)) => {
                let Expr::Unary(u) = peel(&r.expr) else { unreachable!() };
                Some(format!("{}.as_str()", self.expr(&u.expr)))
            }
            Expr::Try(t) if self.skip_map(&t.expr).is_some() => {
                let (src, c) = self.skip_map(&t.expr).unwrap();
                Some(self.do_skip_map(src, c))
            }
            Expr::MethodCall(m) => self.do_method(m),
            Expr::Call(c) => self.do_call(c),
            Expr::Path(p) if p.path.is_ident("self") => self.self_sub.clone(),
            Expr::Path(p) if p.path.get_ident().is_some_and(|i| self.aliases.borrow().contains_key(&i.to_string())) => {
                let a = self.aliases.borrow().get(&p.path.get_ident().unwrap().to_string()).cloned().unwrap();
                Some(self.expr(&a))
            }
            _ => None,
        };
        match r {
            Some(t) => self.edits.push((e.span().byte_range(), t)),
            None => visit::visit_expr(self, e),
        }
    }
    fn visit_expr_closure(&mut self, i: &'ast syn::ExprClosure) {
        visit::visit_expr_closure(self, i);
    }
    fn visit_block(&mut self, b: &'ast syn::Block) {
        // closure locals are scoped to the block
        let saved = self.closures.clone();
        visit::visit_block(self, b);
        self.closures = saved;
    }
}

fn is_lower(e: &Expr) -> bool {
    matches!(peel(e), Expr::MethodCall(m) if m.method == "to_lowercase" && m.args.is_empty())
}

/// `s[n..]`
fn str_tail(e: &Expr) -> Option<(&Expr, &Expr)> {
    match peel(e) {
        Expr::Index(i) => match peel(&i.index) {
            Expr::Range(syn::ExprRange { start: Some(a), end: None, .. }) => Some((&i.expr, a)),
            _ => None,
        },
        _ => None,
    }
}

pub fn is_block(_: &syn::Block) -> bool {
    true
}
#[allow(dead_code)]
fn _unused(r: &Rw, b: &syn::Block) -> String {
    r.block(b)
}
