use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use syn::spanned::Spanned;

pub struct SrcFile {
    pub rel: String,
    pub text: String,
    pub ast: syn::File,
}

pub struct Repo {
    pub root: PathBuf,
    pub files: HashMap<String, Rc<SrcFile>>,
}

#[derive(Clone)]
pub struct FnRef {
    pub file: Rc<SrcFile>,
    pub sig: syn::Signature,
    pub vis: String,
    pub block: syn::Block,
    pub self_ty: Option<String>,
    pub trait_: Option<String>,
    /// for closures: parameter patterns and body expression
    pub closure: Option<syn::ExprClosure>,
}

fn last_seg(ty: &syn::Type) -> Option<String> {
    match ty {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        syn::Type::Reference(r) => last_seg(&r.elem),
        _ => None,
    }
}

/// `Option<Cfg>` -> "Option<Cfg>" so that impls on different instances can be told apart.
pub fn ty_text(file: &SrcFile, ty: &syn::Type) -> String {
    let r = ty.span().byte_range();
    file.text[r].split_whitespace().collect::<Vec<_>>().join(" ")
}

struct LocalMacro {
    name: String,
    params: Vec<String>,
    /// span of the definition and of the expansion's tokens
    def: std::ops::Range<usize>,
    body: std::ops::Range<usize>,
}

/// A function-local `macro_rules!` with a single rule whose matcher is a comma-separated list of
/// `$x:frag`. Each use is replaced by the rule's body with the arguments put in, on one line.
fn local_macro(m: &syn::ItemMacro) -> Option<LocalMacro> {
    use proc_macro2::TokenTree as T;
    if !m.mac.path.is_ident("macro_rules") {
        return None;
    }
    let ts: Vec<T> = m.mac.tokens.clone().into_iter().collect();
    // (matcher) => {body} [;]
    let (T::Group(a), T::Punct(p), T::Punct(q), T::Group(b)) = (ts.first()?, ts.get(1)?, ts.get(2)?, ts.get(3)?) else { return None };
    if p.as_char() != '=' || q.as_char() != '>' || ts.len() > 5 {
        return None;
    }
    let mut params = vec![];
    let it: Vec<T> = a.stream().into_iter().collect();
    let mut i = 0;
    while i < it.len() {
        match (&it[i], it.get(i + 1)?, it.get(i + 2)?, it.get(i + 3)?) {
            (T::Punct(d), T::Ident(n), T::Punct(c), T::Ident(_)) if d.as_char() == '$' && c.as_char() == ':' => params.push(n.to_string()),
            _ => return None,
        }
        i += 4;
        match it.get(i) {
            None => {}
            Some(T::Punct(c)) if c.as_char() == ',' => i += 1,
            _ => return None,
        }
    }
    let body = b.span_open().byte_range().end..b.span_close().byte_range().start;
    Some(LocalMacro { name: m.ident.as_ref()?.to_string(), params, def: m.span().byte_range(), body })
}

fn expand_local_macros(text: &str, ast: &syn::File) -> Option<String> {
    use syn::visit::{self, Visit};
    struct V<'t> {
        text: &'t str,
        stack: Vec<LocalMacro>,
        edits: Vec<(std::ops::Range<usize>, String)>,
    }
    impl V<'_> {
        fn block(&mut self, b: &syn::Block) {
            let n = self.stack.len();
            for s in &b.stmts {
                if let syn::Stmt::Item(syn::Item::Macro(m)) = s {
                    if let Some(l) = local_macro(m) {
                        let nl = self.text[l.def.clone()].matches('\n').count();
                        self.edits.push((l.def.clone(), "\n".repeat(nl)));
                        self.stack.push(l);
                        continue;
                    }
                }
                self.visit_stmt(s);
            }
            self.stack.truncate(n);
        }
        fn call(&mut self, m: &syn::Macro, whole: std::ops::Range<usize>) {
            let Some(l) = m.path.get_ident().and_then(|i| self.stack.iter().rev().find(|l| i == &l.name)) else { return };
            // split the arguments at top-level commas
            let mut args: Vec<std::ops::Range<usize>> = vec![];
            let mut cur: Option<std::ops::Range<usize>> = None;
            for t in m.tokens.clone() {
                if let proc_macro2::TokenTree::Punct(p) = &t {
                    if p.as_char() == ',' {
                        args.extend(cur.take());
                        continue;
                    }
                }
                let r = t.span().byte_range();
                cur = Some(match cur {
                    None => r,
                    Some(c) => c.start..r.end,
                });
            }
            args.extend(cur);
            if args.len() != l.params.len() {
                return;
            }
            let mut body: String = self.text[l.body.clone()].lines().filter(|x| !x.trim_start().starts_with("//")).collect::<Vec<_>>().join(" ");
            let mut order: Vec<usize> = (0..l.params.len()).collect();
            order.sort_by_key(|i| std::cmp::Reverse(l.params[*i].len()));
            for i in order {
                body = body.replace(&format!("${}", l.params[i]), &self.text[args[i].clone()]);
            }
            // concat! of string literals
            while let Some(a) = body.find("concat!(") {
                let Some(e) = body[a..].find(')') else { break };
                let inner = &body[a + 8..a + e];
                let parts: Vec<&str> = inner.split(',').map(|x| x.trim()).collect();
                if !parts.iter().all(|x| x.len() >= 2 && x.starts_with('"') && x.ends_with('"')) {
                    break;
                }
                let lit: String = parts.iter().map(|x| &x[1..x.len() - 1]).collect();
                body = format!("{}\"{lit}\"{}", &body[..a], &body[a + e + 1..]);
            }
            let nl = self.text[whole.clone()].matches('\n').count();
            self.edits.push((whole, format!("{body}{}", "\n".repeat(nl))));
        }
    }
    impl<'ast> Visit<'ast> for V<'_> {
        fn visit_block(&mut self, b: &'ast syn::Block) {
            self.block(b);
        }
        fn visit_stmt_macro(&mut self, m: &'ast syn::StmtMacro) {
            self.call(&m.mac, m.span().byte_range());
        }
        fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) {
            self.call(&m.mac, m.span().byte_range());
            visit::visit_expr_macro(self, m);
        }
    }
    let mut v = V { text, stack: vec![], edits: vec![] };
    v.visit_file(ast);
    if v.edits.is_empty() {
        return None;
    }
    v.edits.sort_by_key(|e| e.0.start);
    let mut out = String::new();
    let mut at = 0;
    for (r, s) in v.edits {
        if r.start < at {
            continue;
        }
        out.push_str(&text[at..r.start]);
        out.push_str(&s);
        at = r.end;
    }
    out.push_str(&text[at..]);
    Some(out)
}

impl Repo {
    pub fn load(root: &str) -> Result<Repo, String> {
        let mut files = HashMap::new();
        fn walk(dir: &Path, root: &Path, out: &mut HashMap<String, Rc<SrcFile>>) -> Result<(), String> {
            let mut ents: Vec<_> = std::fs::read_dir(dir).map_err(|e| e.to_string())?.flatten().collect();
            ents.sort_by_key(|e| e.path());
            for e in ents {
                let p = e.path();
                if p.is_dir() {
                    walk(&p, root, out)?;
                } else if p.extension().is_some_and(|x| x == "rs") {
                    let text = std::fs::read_to_string(&p).map_err(|e| e.to_string())?;
                    let rel = p.strip_prefix(root).unwrap().to_string_lossy().to_string();
                    let ast = syn::parse_file(&text).map_err(|e| format!("parse {rel}: {e}"))?;
                    // M-local: macros defined and used inside one function body are expanded
                    let (text, ast) = match expand_local_macros(&text, &ast) {
                        Some(t) => match syn::parse_file(&t) {
                            Ok(a) => (t, a),
                            Err(_) => (text, ast),
                        },
                        None => (text, ast),
                    };
                    out.insert(rel.clone(), Rc::new(SrcFile { rel, text, ast }));
                }
            }
            Ok(())
        }
        let rootp = PathBuf::from(root);
        walk(&rootp.join("src"), &rootp, &mut files)?;
        Ok(Repo { root: rootp, files })
    }

    fn fns_in(file: &Rc<SrcFile>) -> Vec<FnRef> {
        let mut out = vec![];
        fn items(file: &Rc<SrcFile>, its: &[syn::Item], out: &mut Vec<FnRef>) {
            for it in its {
                match it {
                    syn::Item::Fn(f) => out.push(FnRef {
                        file: file.clone(),
                        sig: f.sig.clone(),
                        vis: "pub ".into(),
                        block: (*f.block).clone(),
                        self_ty: None,
                        trait_: None,
                        closure: None,
                    }),
                    syn::Item::Impl(im) => {
                        let st = last_seg(&im.self_ty);
                        let tr = im.trait_.as_ref().and_then(|(_, p, _)| p.segments.last().map(|s| s.ident.to_string()));
                        for ii in &im.items {
                            if let syn::ImplItem::Fn(f) = ii {
                                out.push(FnRef {
                                    file: file.clone(),
                                    sig: f.sig.clone(),
                                    vis: if tr.is_some() { "".into() } else { "pub ".into() },
                                    block: f.block.clone(),
                                    self_ty: st.clone(),
                                    trait_: tr.clone(),
                                    closure: None,
                                })
                            }
                        }
                    }
                    syn::Item::Trait(t) => {
                        for ti in &t.items {
                            if let syn::TraitItem::Fn(f) = ti {
                                if let Some(b) = &f.default {
                                    out.push(FnRef {
                                        file: file.clone(),
                                        sig: f.sig.clone(),
                                        vis: "".into(),
                                        block: b.clone(),
                                        self_ty: Some(t.ident.to_string()),
                                        trait_: None,
                                        closure: None,
                                    })
                                }
                            }
                        }
                    }
                    syn::Item::Mod(m) => {
                        // test modules are not extracted
                        if m.ident == "tests" || m.ident == "test" {
                            continue;
                        }
                        if let Some((_, c)) = &m.content {
                            items(file, c, out)
                        }
                    }
                    _ => {}
                }
            }
        }
        items(file, &file.ast.items, &mut out);
        out
    }

    pub fn all_fns(&self, rel: &str) -> Vec<FnRef> {
        self.files.get(rel).map(|f| Self::fns_in(f)).unwrap_or_default()
    }

    /// `[Trait@]Type::name`, `name`, with `/nested` for nested fns and `|binding` for a closure
    /// bound by `let binding = |..| ..` in the body.
    pub fn find_fn(&self, rel: &str, path: &str) -> Result<FnRef, String> {
        let (path, closure) = match path.split_once('|') {
            Some((p, c)) => (p, Some(c)),
            None => (path, None),
        };
        let (path, nested) = match path.split_once('/') {
            Some((p, c)) => (p, Some(c)),
            None => (path, None),
        };
        let (tr, path) = match path.split_once('@') {
            Some((t, p)) => (Some(t), p),
            None => (None, path),
        };
        let (ty, name) = match path.rsplit_once("::") {
            Some((t, n)) => (Some(t), n),
            None => (None, path),
        };
        let matches = |f: &FnRef| {
            f.sig.ident == name
                && f.self_ty.as_deref() == ty
                && match tr {
                    Some("") => f.trait_.is_none(),
                    Some(t) => f.trait_.as_deref() == Some(t),
                    None => true,
                }
        };
        let mut cands: Vec<FnRef> = self.all_fns(rel).into_iter().filter(|f| matches(f)).collect();
        if cands.is_empty() {
            let mut names: Vec<_> = self.files.keys().cloned().collect();
            names.sort();
            for n in names {
                cands.extend(self.all_fns(&n).into_iter().filter(|f| matches(f)));
            }
        }
        if cands.is_empty() {
            return Err(format!("anchor lost: {rel} {path}"));
        }
        if cands.len() > 1 && ty.is_some() {
            let inh: Vec<_> = cands.iter().filter(|f| f.trait_.is_none()).cloned().collect();
            if tr.is_none() && inh.len() == 1 {
                cands = inh;
            }
        }
        if cands.len() > 1 {
            return Err(format!("anchor ambiguous: {rel} {path}"));
        }
        let mut f = cands.pop().unwrap();
        if let Some(n) = nested {
            struct V<'a> {
                n: &'a str,
                out: Option<syn::ItemFn>,
            }
            impl<'ast> syn::visit::Visit<'ast> for V<'_> {
                fn visit_item_fn(&mut self, i: &'ast syn::ItemFn) {
                    if i.sig.ident == self.n {
                        self.out = Some(i.clone());
                    }
                    syn::visit::visit_item_fn(self, i);
                }
            }
            let mut v = V { n, out: None };
            syn::visit::Visit::visit_block(&mut v, &f.block);
            match v.out {
                Some(i) => {
                    f.sig = i.sig;
                    f.block = *i.block;
                    f.vis = "pub ".into();
                    f.self_ty = None;
                    f.trait_ = None;
                }
                None => {
                    // the nested function may have been hoisted to module level
                    let c: Vec<FnRef> = self.all_fns(rel).into_iter().filter(|f| f.sig.ident == n).collect();
                    if c.len() == 1 {
                        f = c.into_iter().next().unwrap();
                        f.vis = "pub ".into();
                    } else {
                        return Err(format!("anchor lost: nested fn {n} in {path}"));
                    }
                }
            }
        }
        if let Some(c) = closure {
            struct V<'a> {
                n: &'a str,
                out: Option<syn::ExprClosure>,
            }
            impl<'ast> syn::visit::Visit<'ast> for V<'_> {
                // `|#method`: the closure handed to the first call of that method
                fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
                    syn::visit::visit_expr_method_call(self, m);
                    if self.out.is_none() && self.n.strip_prefix('#').is_some_and(|n| m.method == n) {
                        if let Some(syn::Expr::Closure(c)) = m.args.first() {
                            self.out = Some(c.clone());
                        }
                    }
                }
                fn visit_local(&mut self, i: &'ast syn::Local) {
                    if let (syn::Pat::Ident(p), Some(init)) = (&i.pat, &i.init) {
                        if p.ident == self.n {
                            if let syn::Expr::Closure(c) = &*init.expr {
                                self.out = Some(c.clone());
                            }
                        }
                    }
                    syn::visit::visit_local(self, i);
                }
            }
            let mut v = V { n: c, out: None };
            syn::visit::Visit::visit_block(&mut v, &f.block);
            f.closure = Some(v.out.ok_or_else(|| format!("anchor lost: closure {c} in {path}"))?);
        }
        Ok(f)
    }

    pub fn find_type(&self, rel: &str, name: &str) -> Result<(Rc<SrcFile>, syn::Item), String> {
        let find = |f: &Rc<SrcFile>| {
            f.ast.items.iter().find_map(|i| match i {
                syn::Item::Struct(s) if s.ident == name => Some((f.clone(), i.clone())),
                syn::Item::Enum(s) if s.ident == name => Some((f.clone(), i.clone())),
                syn::Item::Const(s) if s.ident == name => Some((f.clone(), i.clone())),
                syn::Item::Static(s) if s.ident == name => Some((f.clone(), i.clone())),
                _ => None,
            })
        };
        if let Some(f) = self.files.get(rel) {
            if let Some(x) = find(f) {
                return Ok(x);
            }
        }
        let mut names: Vec<_> = self.files.keys().cloned().collect();
        names.sort();
        for n in names {
            if let Some(x) = find(&self.files[&n]) {
                return Ok(x);
            }
        }
        Err(format!("anchor lost: {rel} {name}"))
    }
}
