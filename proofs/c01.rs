//@include prelude.inc
//@include ty_types.inc
//@gsubst SourceWriter<F> => SourceWriter
//@gsubst SourceWriter<W> => SourceWriter
//@gsubst &mut LB => &mut LangB
//@gsubst cdecl::write_type => write_type
verus! {
//@include ty_basic.inc
//@include writer_stub.inc
//@type src/bindgen/config.rs Language derive=Clone,Copy
//@type src/bindgen/config.rs Layout derive=Clone,Copy
//@type src/bindgen/config.rs PtrConfig
//@type src/bindgen/config.rs FunctionConfig keep=no_return,args
//@type src/bindgen/config.rs Config keep=language,line_length,pointer,function
//@type src/bindgen/writer.rs ListType
//@type src/bindgen/ir/annotation.rs AnnotationSet keep=deprecated
//@type src/bindgen/ir/function.rs FunctionArgument
//@type src/bindgen/ir/function.rs Function keep=path,ret,args,annotations,never_return
//@type src/bindgen/cdecl.rs CDeclarator
//@type src/bindgen/cdecl.rs CDecl
impl PartialEq for Language { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl PartialEqSpecImpl for Language {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
/// Both language backends hold the configuration they write under.
pub struct LangB<'a> { pub config: &'a Config }

/// C spelling of a primitive (its own contract is property C02).
pub uninterp spec fn prim_c(p: PrimitiveType, cfg: Config) -> Seq<char>;
impl PrimitiveType {
    #[verifier::external_body]
    pub fn to_repr_c(&self, config: &Config) -> (r: &'static str)
        ensures r@ == prim_c(*self, *config),
    { unimplemented!() }
}

// ---------------- specification: C's declarator grammar, from the inside out ----------------
pub open spec fn const_text(e: ConstExpr) -> Seq<char> {
    match e { ConstExpr::Path(p) => p.export_name@, ConstExpr::Value(v) => v@ }
}
pub open spec fn tag_text(t: DeclarationType) -> Seq<char> {
    match t { DeclarationType::Struct => "struct"@, DeclarationType::Enum => "enum"@, DeclarationType::Union => "union"@ }
}
pub open spec fn opt_sp(o: Option<String>) -> Seq<char> {
    match o { Some(s) => s@ + " "@, None => Seq::empty() }
}
/// what is written for one pointer level: `*`/`&`, its own const, the configured attribute
pub open spec fn ptr_text(k: bool, nullable: bool, is_ref: bool, cfg: Config) -> Seq<char> {
    (if is_ref { "&"@ } else { "*"@ })
    + (if k { "const "@ } else { Seq::empty() })
    + (if cfg.language is Cython { Seq::empty() }
       else if !nullable && !is_ref { opt_sp(cfg.pointer.non_null_attribute) }
       else if nullable { opt_sp(cfg.pointer.nullable_attribute) }
       else { Seq::empty() })
}
pub open spec fn noreturn_text(never: bool, cfg: Config) -> Seq<char> {
    if never && !(cfg.language is Cython) && cfg.function.no_return is Some { " "@ + cfg.function.no_return->0@ } else { Seq::empty() }
}
pub open spec fn paren(b: bool, d: Seq<char>) -> Seq<char> { if b { "("@ + d + ")"@ } else { d } }
pub open spec fn arglist(inner: Seq<char>, n: int, cfg: Config) -> Seq<char> {
    "("@ + (if n == 0 && cfg.language is C { "void"@ } else { Seq::empty() }) + inner + ")"@
}
pub open spec fn base_text(k: bool, tag: Option<DeclarationType>, name: Seq<char>, generics: Seq<char>, cfg: Config) -> Seq<char> {
    (if k { "const "@ } else { Seq::empty() })
    + (if !(cfg.language is Cython) && tag is Some { tag_text(tag->0) + " "@ } else { Seq::empty() })
    + name + generics
}
/// The declaration of declarator `d` with type `t`: `sp` separates the base type from the
/// declarator, `aptr` says that `d` starts with a pointer, `k` that this level is const.
pub open spec fn decl(t: Type, d: Seq<char>, sp: Seq<char>, aptr: bool, k: bool, cfg: Config) -> Seq<char>
    decreases t
{
    match t {
        Type::Path(g) => base_text(k, g.ctype, g.export_name@, garg_list(g.generics@, cfg), cfg) + sp + d,
        Type::Primitive(p) => base_text(k, None, prim_c(p, cfg), Seq::empty(), cfg) + sp + d,
        Type::Ptr { ty, is_const, is_nullable, is_ref } =>
            decl(*ty, ptr_text(k, is_nullable, is_ref, cfg) + d, sp, true, is_const, cfg),
        Type::Array(ty, len) =>
            decl(*ty, paren(aptr, d) + ("["@ + const_text(len) + "]"@), sp, false, k, cfg),
        // a function pointer is a pointer, always printed as nullable, to a function
        Type::FuncPtr { ret, args, is_nullable, never_return } =>
            decl(*ret, paren(true, ptr_text(false, true, false, cfg) + d) + (arglist(args_text(args@, args@.len() as int, cfg), args@.len() as int, cfg) + noreturn_text(never_return, cfg)), sp, true, false, cfg),
    }
}
pub open spec fn sp_of(id: Option<Seq<char>>) -> Seq<char> { if id is Some { " "@ } else { Seq::empty() } }
pub open spec fn id_of(id: Option<Seq<char>>) -> Seq<char> { if id is Some { id->0 } else { Seq::empty() } }
/// parameters in order, separated by ", "
pub open spec fn args_text(args: Seq<(Option<String>, Type)>, n: int, cfg: Config) -> Seq<char>
    decreases args, 0nat, n
{
    if n <= 0 || n > args.len() { Seq::empty() }
    else {
        args_text(args, n - 1, cfg) + (if n > 1 { ", "@ } else { Seq::empty() })
        + (match args[n - 1].0 {
            Some(s) => decl(args[n - 1].1, s@, " "@, false, false, cfg),
            None => decl(args[n - 1].1, Seq::empty(), Seq::empty(), false, false, cfg),
        })
    }
}
pub open spec fn garg_list(args: Seq<GenericArgument>, cfg: Config) -> Seq<char>
    decreases args, 1nat
{
    if args.len() == 0 { Seq::empty() } else { "<"@ + garg_text(args, args.len() as int, cfg) + ">"@ }
}
pub open spec fn garg_one(a: GenericArgument, cfg: Config) -> Seq<char>
    decreases a
{
    match a {
        GenericArgument::Type(t) => decl(t, Seq::empty(), Seq::empty(), false, false, cfg),
        GenericArgument::Const(e) => const_text(e),
    }
}
pub open spec fn garg_text(args: Seq<GenericArgument>, n: int, cfg: Config) -> Seq<char>
    decreases args, 0nat, n
{
    if n <= 0 || n > args.len() { Seq::empty() }
    else { garg_text(args, n - 1, cfg) + (if n > 1 { ", "@ } else { Seq::empty() }) + garg_one(args[n - 1], cfg) }
}
pub open spec fn ty_text(t: Type, k: bool, id: Option<Seq<char>>, cfg: Config) -> Seq<char> {
    decl(t, id_of(id), sp_of(id), false, k, cfg)
}
/// a parameter annotated as array: `T name[len]` with the pointee's constness
pub open spec fn arg_text(a: FunctionArgument, cfg: Config) -> Seq<char> {
    let id = match a.name { Some(s) => Some(s@), None => None };
    farg_text(a.ty, match a.array_length { Some(l) => Some(l@), None => None }, id, cfg)
}
pub open spec fn farg_text(t: Type, len: Option<Seq<char>>, id: Option<Seq<char>>, cfg: Config) -> Seq<char> {
    if len is None { ty_text(t, false, id, cfg) }
    else { match t {
        Type::Ptr { ty, is_const, is_nullable, is_ref } => decl(*ty, id_of(id) + ("["@ + len->0 + "]"@), sp_of(id), false, is_const, cfg),
        _ => Seq::empty(),
    } }
}
pub open spec fn fargs_text(args: Seq<FunctionArgument>, n: int, cfg: Config) -> Seq<char>
    decreases n
{
    if n <= 0 || n > args.len() { Seq::empty() }
    else { fargs_text(args, n - 1, cfg) + (if n > 1 { ", "@ } else { Seq::empty() }) + arg_text(args[n - 1], cfg) }
}
pub open spec fn func_text(f: Function, id: Option<Seq<char>>, cfg: Config) -> Seq<char> {
    decl(f.ret, id_of(id) + (arglist(fargs_text(f.args@, f.args@.len() as int, cfg), f.args@.len() as int, cfg) + noreturn_text(f.never_return, cfg)), sp_of(id), true, false, cfg)
}

// ---------------- what a CDecl stands for ----------------
pub open spec fn is_ptrd(d: CDeclarator) -> bool { d is Ptr || d is Func }
pub open spec fn last_ptr(ds: Seq<CDeclarator>, n: int) -> bool { 0 < n <= ds.len() && is_ptrd(ds[n - 1]) }
pub open spec fn left(d: CDeclarator, aptr: bool, cfg: Config) -> Seq<char> {
    match d {
        CDeclarator::Ptr { is_const, is_nullable, is_ref } => ptr_text(is_const, is_nullable, is_ref, cfg),
        _ => if aptr { "("@ } else { Seq::empty() },
    }
}
pub open spec fn right(d: CDeclarator, aptr: bool, cfg: Config) -> Seq<char>
    decreases d
{
    match d {
        CDeclarator::Ptr { is_const, is_nullable, is_ref } => Seq::empty(),
        CDeclarator::Array(len) => (if aptr { ")"@ } else { Seq::empty() }) + ("["@ + len@ + "]"@),
        CDeclarator::Func { args, layout, never_return } =>
            (if aptr { ")"@ } else { Seq::empty() })
            + (arglist(cd_args(args@, args@.len() as int, cfg), args@.len() as int, cfg) + noreturn_text(never_return, cfg)),
    }
}
pub open spec fn lpart(ds: Seq<CDeclarator>, n: int, cfg: Config) -> Seq<char>
    decreases n
{ if n <= 0 || n > ds.len() { Seq::empty() } else { left(ds[n - 1], last_ptr(ds, n - 1), cfg) + lpart(ds, n - 1, cfg) } }
pub open spec fn rpart(ds: Seq<CDeclarator>, n: int, cfg: Config) -> Seq<char>
    decreases ds, 0nat, n
{ if n <= 0 || n > ds.len() { Seq::empty() } else { rpart(ds, n - 1, cfg) + right(ds[n - 1], last_ptr(ds, n - 1), cfg) } }
pub open spec fn head(cd: CDecl, cfg: Config) -> Seq<char> {
    (if cd.type_qualifers@.len() > 0 { cd.type_qualifers@ + " "@ } else { Seq::empty() })
    + (if !(cfg.language is Cython) && cd.type_ctype is Some { tag_text(cd.type_ctype->0) + " "@ } else { Seq::empty() })
    + cd.type_name@ + garg_list(cd.type_generic_args@, cfg)
}
pub open spec fn dtext(ds: Seq<CDeclarator>, d: Seq<char>, cfg: Config) -> Seq<char>
    decreases ds, 1nat
{ lpart(ds, ds.len() as int, cfg) + d + rpart(ds, ds.len() as int, cfg) }
pub open spec fn cd_text(cd: CDecl, id: Option<Seq<char>>, cfg: Config) -> Seq<char>
    decreases cd
{ head(cd, cfg) + sp_of(id) + dtext(cd.declarators@, id_of(id), cfg) }
pub open spec fn cd_args(args: Seq<(Option<String>, CDecl)>, n: int, cfg: Config) -> Seq<char>
    decreases args, 0nat, n
{
    if n <= 0 || n > args.len() { Seq::empty() }
    else {
        cd_args(args, n - 1, cfg) + (if n > 1 { ", "@ } else { Seq::empty() })
        + cd_text(args[n - 1].1, match args[n - 1].0 { Some(s) => Some(s@), None => None }, cfg)
    }
}
proof fn lemma_prefix(a: Seq<CDeclarator>, x: CDeclarator, n: int, cfg: Config)
    requires 0 <= n <= a.len(),
    ensures lpart(a.push(x), n, cfg) == lpart(a, n, cfg), rpart(a.push(x), n, cfg) == rpart(a, n, cfg),
    decreases n
{
    if n > 0 {
        lemma_prefix(a, x, n - 1, cfg);
        assert(a.push(x)[n - 1] == a[n - 1]);
        assert(last_ptr(a.push(x), n - 1) == last_ptr(a, n - 1));
    }
}
/// Appending a declarator wraps what is there: pointers go in front, array bounds and parameter
/// lists behind, with parentheses exactly around something that starts with a pointer.
broadcast proof fn lemma_push(a: Seq<CDeclarator>, x: CDeclarator, d: Seq<char>, cfg: Config)
    ensures #[trigger] dtext(a.push(x), d, cfg) == wrap(x, dtext(a, d, cfg), last_ptr(a, a.len() as int), cfg),
{
    let n = a.len() as int;
    lemma_prefix(a, x, n, cfg);
    assert(a.push(x)[n] == x);
    assert(last_ptr(a.push(x), n) == last_ptr(a, n));
    assert(lpart(a.push(x), n + 1, cfg) == left(x, last_ptr(a, n), cfg) + lpart(a, n, cfg));
    assert(rpart(a.push(x), n + 1, cfg) == rpart(a, n, cfg) + right(x, last_ptr(a, n), cfg));
    seq5(left(x, last_ptr(a, n), cfg), lpart(a, n, cfg), d, rpart(a, n, cfg), right(x, last_ptr(a, n), cfg));
    let ap = last_ptr(a, n);
    let dd = dtext(a, d, cfg);
    match x {
        CDeclarator::Ptr { is_const, is_nullable, is_ref } => { seq_e(left(x, ap, cfg) + dd); }
        CDeclarator::Array(len) => { seq_par(ap, dd, "["@ + len@ + "]"@); }
        CDeclarator::Func { args, layout, never_return } => {
            seq_par(ap, dd, arglist(cd_args(args@, args@.len() as int, cfg), args@.len() as int, cfg) + noreturn_text(never_return, cfg));
        }
    }
}
proof fn lit_const()
    ensures "const"@ + " "@ == "const "@, "const"@.len() > 0, ","@ + " "@ == ", "@,
{
//@lits
    assert("const"@ + " "@ =~= "const "@);
    assert(","@ + " "@ =~= ", "@);
}
proof fn seq5(l: Seq<char>, lp: Seq<char>, d: Seq<char>, rp: Seq<char>, r: Seq<char>)
    ensures (l + lp) + d + (rp + r) == l + (lp + d + rp) + r,
{ assert((l + lp) + d + (rp + r) =~= l + (lp + d + rp) + r); }
proof fn seq_e(l: Seq<char>)
    ensures l + Seq::<char>::empty() == l, Seq::<char>::empty() + l == l,
{ assert(l + Seq::<char>::empty() =~= l); assert(Seq::<char>::empty() + l =~= l); }
proof fn seq_par(b: bool, d: Seq<char>, r: Seq<char>)
    ensures (if b { "("@ } else { Seq::empty() }) + d + ((if b { ")"@ } else { Seq::empty() }) + r) == paren(b, d) + r,
{
    if b { assert("("@ + d + (")"@ + r) =~= ("("@ + d + ")"@) + r); }
    else { assert(Seq::<char>::empty() + d + (Seq::<char>::empty() + r) =~= d + r); }
}
pub open spec fn wrap(x: CDeclarator, d: Seq<char>, aptr: bool, cfg: Config) -> Seq<char> {
    match x {
        CDeclarator::Ptr { is_const, is_nullable, is_ref } => ptr_text(is_const, is_nullable, is_ref, cfg) + d,
        CDeclarator::Array(len) => paren(aptr, d) + ("["@ + len@ + "]"@),
        CDeclarator::Func { args, layout, never_return } =>
            paren(aptr, d) + (arglist(cd_args(args@, args@.len() as int, cfg), args@.len() as int, cfg) + noreturn_text(never_return, cfg)),
    }
}
proof fn lemma_args_rel(c: Seq<(Option<String>, CDecl)>, t: Seq<(Option<String>, Type)>, n: int, cfg: Config)
    requires 0 <= n <= c.len(), c.len() == t.len(),
        forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).0 == t[i].0 && (forall|id: Option<Seq<char>>| #[trigger] cd_text(c[i].1, id, cfg) == ty_text(t[i].1, false, id, cfg)),
    ensures cd_args(c, n, cfg) == args_text(t, n, cfg),
    decreases n
{
    if n > 0 {
        lemma_args_rel(c, t, n - 1, cfg);
        let x = c[n - 1];
        assert(x.0 == t[n - 1].0);
        let id: Option<Seq<char>> = match x.0 { Some(s) => Some(s@), None => None };
        assert(cd_text(x.1, id, cfg) == ty_text(t[n - 1].1, false, id, cfg));
        assert(cd_args(c, n, cfg) == cd_args(c, n - 1, cfg) + (if n > 1 { ", "@ } else { Seq::empty() }) + cd_text(x.1, id, cfg));
        assert(args_text(t, n, cfg) == args_text(t, n - 1, cfg) + (if n > 1 { ", "@ } else { Seq::empty() }) + ty_text(t[n - 1].1, false, id, cfg));
    }
}
proof fn lemma_fargs_rel(c: Seq<(Option<String>, CDecl)>, t: Seq<FunctionArgument>, n: int, cfg: Config)
    requires 0 <= n <= c.len(), c.len() == t.len(),
        forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).0 == t[i].name && (forall|id: Option<Seq<char>>| #[trigger] cd_text(c[i].1, id, cfg) == farg_text(t[i].ty, match t[i].array_length { Some(l) => Some(l@), None => None }, id, cfg)),
    ensures cd_args(c, n, cfg) == fargs_text(t, n, cfg),
    decreases n
{
    if n > 0 {
        lemma_fargs_rel(c, t, n - 1, cfg);
        let x = c[n - 1];
        assert(x.0 == t[n - 1].name);
        let id: Option<Seq<char>> = match x.0 { Some(s) => Some(s@), None => None };
        let al: Option<Seq<char>> = match t[n - 1].array_length { Some(l) => Some(l@), None => None };
        assert(cd_text(x.1, id, cfg) == farg_text(t[n - 1].ty, al, id, cfg));
        assert(arg_text(t[n - 1], cfg) == farg_text(t[n - 1].ty, al, id, cfg));
        assert(cd_args(c, n, cfg) == cd_args(c, n - 1, cfg) + (if n > 1 { ", "@ } else { Seq::empty() }) + cd_text(x.1, id, cfg));
    }
}

// ---------------- the same text in the order in which it is written ----------------
pub open spec fn w_opt_sp(out: Seq<char>, o: Option<String>) -> Seq<char> { match o { Some(s) => out + s@ + " "@, None => out } }
pub open spec fn w_ptr(out: Seq<char>, k: bool, nullable: bool, is_ref: bool, cfg: Config) -> Seq<char> {
    let o = out + (if is_ref { "&"@ } else { "*"@ });
    let o = if k { o + "const "@ } else { o };
    if cfg.language is Cython { o }
    else if !nullable && !is_ref { w_opt_sp(o, cfg.pointer.non_null_attribute) }
    else if nullable { w_opt_sp(o, cfg.pointer.nullable_attribute) }
    else { o }
}
pub open spec fn w_left(out: Seq<char>, ds: Seq<CDeclarator>, n: int, cfg: Config) -> Seq<char>
    decreases n
{ if n <= 0 || n > ds.len() { out } else { w_left(w_left1(out, ds[n - 1], last_ptr(ds, n - 1), cfg), ds, n - 1, cfg) } }
pub open spec fn w_left1(out: Seq<char>, d: CDeclarator, aptr: bool, cfg: Config) -> Seq<char> {
    match d {
        CDeclarator::Ptr { is_const, is_nullable, is_ref } => w_ptr(out, is_const, is_nullable, is_ref, cfg),
        _ => if aptr { out + "("@ } else { out },
    }
}
pub open spec fn w_right(out: Seq<char>, ds: Seq<CDeclarator>, n: int, cfg: Config) -> Seq<char>
    decreases n
{ if n <= 0 || n > ds.len() { out } else { w_right1(w_right(out, ds, n - 1, cfg), ds[n - 1], last_ptr(ds, n - 1), cfg) } }
pub open spec fn w_right1(out: Seq<char>, d: CDeclarator, aptr: bool, cfg: Config) -> Seq<char> {
    match d {
        CDeclarator::Ptr { is_const, is_nullable, is_ref } => out,
        CDeclarator::Array(len) => (if aptr { out + ")"@ } else { out }) + "["@ + len@ + "]"@,
        CDeclarator::Func { args, layout, never_return } => {
            let o = (if aptr { out + ")"@ } else { out }) + "("@;
            let o = if args@.len() == 0 && cfg.language is C { o + "void"@ } else { o };
            let o = (o + cd_args(args@, args@.len() as int, cfg)) + ")"@;
            if never_return && !(cfg.language is Cython) && cfg.function.no_return is Some { o + " "@ + cfg.function.no_return->0@ } else { o }
        }
    }
}
pub open spec fn w_gargs(out: Seq<char>, args: Seq<GenericArgument>, n: int, cfg: Config) -> Seq<char>
    decreases n
{
    if n <= 0 || n > args.len() { out }
    else { (if n > 1 { w_gargs(out, args, n - 1, cfg) + ", "@ } else { w_gargs(out, args, n - 1, cfg) }) + garg_one(args[n - 1], cfg) }
}
pub open spec fn w_head(out: Seq<char>, cd: CDecl, cfg: Config) -> Seq<char> {
    let o = if cd.type_qualifers@.len() > 0 { out + cd.type_qualifers@ + " "@ } else { out };
    let o = if !(cfg.language is Cython) && cd.type_ctype is Some { o + tag_text(cd.type_ctype->0) + " "@ } else { o };
    let o = o + cd.type_name@;
    if cd.type_generic_args@.len() > 0 { w_gargs(o + "<"@, cd.type_generic_args@, cd.type_generic_args@.len() as int, cfg) + ">"@ } else { o }
}
pub open spec fn w_cd(out: Seq<char>, cd: CDecl, id: Option<Seq<char>>, cfg: Config) -> Seq<char> {
    let n = cd.declarators@.len() as int;
    let o = w_head(out, cd, cfg);
    let o = w_left(if id is Some { o + " "@ } else { o }, cd.declarators@, n, cfg);
    w_right(if id is Some { o + id->0 } else { o }, cd.declarators@, n, cfg)
}
proof fn s3(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures a + b + c == a + (b + c),
{ assert(a + b + c =~= a + (b + c)); }
proof fn lemma_ptr(out: Seq<char>, k: bool, nullable: bool, is_ref: bool, cfg: Config)
    ensures w_ptr(out, k, nullable, is_ref, cfg) == out + ptr_text(k, nullable, is_ref, cfg),
{
    let p = if is_ref { "&"@ } else { "*"@ };
    let c = if k { "const "@ } else { Seq::<char>::empty() };
    let at = if cfg.language is Cython { Seq::<char>::empty() } else if !nullable && !is_ref { opt_sp(cfg.pointer.non_null_attribute) } else if nullable { opt_sp(cfg.pointer.nullable_attribute) } else { Seq::<char>::empty() };
    assert(w_ptr(out, k, nullable, is_ref, cfg) =~= out + p + c + at);
    assert(out + p + c + at =~= out + (p + c + at));
}
proof fn lemma_left(out: Seq<char>, ds: Seq<CDeclarator>, n: int, cfg: Config)
    requires n <= ds.len(),
    ensures w_left(out, ds, n, cfg) == out + lpart(ds, n, cfg),
    decreases n
{
    if n <= 0 { seq_e(out); }
    else {
        let l = left(ds[n - 1], last_ptr(ds, n - 1), cfg);
        let o = w_left1(out, ds[n - 1], last_ptr(ds, n - 1), cfg);
        match ds[n - 1] {
            CDeclarator::Ptr { is_const, is_nullable, is_ref } => { lemma_ptr(out, is_const, is_nullable, is_ref, cfg); }
            _ => { seq_e(out); }
        }
        assert(o == out + l);
        lemma_left(o, ds, n - 1, cfg);
        s3(out, l, lpart(ds, n - 1, cfg));
    }
}
proof fn cat5(o: Seq<char>, c: Seq<char>, x: Seq<char>, y: Seq<char>, z: Seq<char>)
    ensures o + c + x + y + z == o + (c + (x + y + z)),
{ assert(o + c + x + y + z =~= o + (c + (x + y + z))); }
proof fn cat7(o: Seq<char>, c: Seq<char>, p: Seq<char>, v: Seq<char>, i: Seq<char>, q: Seq<char>, nr: Seq<char>)
    ensures o + c + p + v + i + q + nr == o + (c + ((p + v + i + q) + nr)),
{
    let a = p + v + i + q;
    assert(o + c + p + v + i + q + nr =~= o + c + a + nr);
    assert(o + c + a + nr =~= o + (c + (a + nr)));
}
proof fn lemma_nr(o: Seq<char>, never: bool, cfg: Config)
    ensures (if never && !(cfg.language is Cython) && cfg.function.no_return is Some { o + " "@ + cfg.function.no_return->0@ } else { o }) == o + noreturn_text(never, cfg),
{ seq_e(o); if never && !(cfg.language is Cython) && cfg.function.no_return is Some { s3(o, " "@, cfg.function.no_return->0@); } }
proof fn lemma_if(o: Seq<char>, b: bool, x: Seq<char>)
    ensures (if b { o + x } else { o }) == o + (if b { x } else { Seq::<char>::empty() }),
{ seq_e(o); }
proof fn lemma_right1(o: Seq<char>, d: CDeclarator, ap: bool, cfg: Config)
    ensures w_right1(o, d, ap, cfg) == o + right(d, ap, cfg),
{
    hide(noreturn_text);
    let c = if ap { ")"@ } else { Seq::<char>::empty() };
    lemma_if(o, ap, ")"@);
    match d {
        CDeclarator::Ptr { is_const, is_nullable, is_ref } => { seq_e(o); }
        CDeclarator::Array(len) => { cat5(o, c, "["@, len@, "]"@); }
        CDeclarator::Func { args, layout, never_return } => {
            let vb = args@.len() == 0 && cfg.language is C;
            let v = if vb { "void"@ } else { Seq::<char>::empty() };
            let i = cd_args(args@, args@.len() as int, cfg);
            lemma_if(o + c + "("@, vb, "void"@);
            lemma_nr(o + c + "("@ + v + i + ")"@, never_return, cfg);
            cat7(o, c, "("@, v, i, ")"@, noreturn_text(never_return, cfg));
        }
    }
}
proof fn lemma_right(out: Seq<char>, ds: Seq<CDeclarator>, n: int, cfg: Config)
    requires n <= ds.len(),
    ensures w_right(out, ds, n, cfg) == out + rpart(ds, n, cfg),
    decreases n
{
    hide(w_right1);
    if n <= 0 { seq_e(out); }
    else {
        lemma_right(out, ds, n - 1, cfg);
        lemma_right1(w_right(out, ds, n - 1, cfg), ds[n - 1], last_ptr(ds, n - 1), cfg);
        s3(out, rpart(ds, n - 1, cfg), right(ds[n - 1], last_ptr(ds, n - 1), cfg));
    }
}
proof fn lemma_gargs(out: Seq<char>, args: Seq<GenericArgument>, n: int, cfg: Config)
    requires n <= args.len(),
    ensures w_gargs(out, args, n, cfg) == out + garg_text(args, n, cfg),
    decreases n
{
    if n <= 0 { seq_e(out); }
    else {
        lemma_gargs(out, args, n - 1, cfg);
        let g = garg_text(args, n - 1, cfg);
        let c = if n > 1 { ", "@ } else { Seq::<char>::empty() };
        let x = garg_one(args[n - 1], cfg);
        assert(out + g + c + x =~= out + (g + c + x));
        seq_e(out + g);
    }
}
proof fn lemma_head(out: Seq<char>, cd: CDecl, cfg: Config)
    ensures w_head(out, cd, cfg) == out + head(cd, cfg),
{
    hide(w_gargs); hide(tag_text);
    let gn = cd.type_generic_args@.len() as int;
    let e = Seq::<char>::empty();
    let q = if cd.type_qualifers@.len() > 0 { cd.type_qualifers@ + " "@ } else { e };
    let t = if !(cfg.language is Cython) && cd.type_ctype is Some { tag_text(cd.type_ctype->0) + " "@ } else { e };
    let g = garg_list(cd.type_generic_args@, cfg);
    s3(out, cd.type_qualifers@, " "@); seq_e(out);
    let o1 = out + q;
    s3(o1, tag_text(cd.type_ctype->0), " "@); seq_e(o1);
    let o2 = o1 + t;
    let o3 = o2 + cd.type_name@;
    lemma_gargs(o3 + "<"@, cd.type_generic_args@, gn, cfg);
    let gt = garg_text(cd.type_generic_args@, gn, cfg);
    cat4(o3, "<"@, gt, ">"@); seq_e(o3);
    assert(w_head(out, cd, cfg) == o3 + g);
    cat5b(out, q, t, cd.type_name@, g);
}
proof fn cat4(o: Seq<char>, x: Seq<char>, y: Seq<char>, z: Seq<char>)
    ensures o + x + y + z == o + (x + y + z),
{ assert(o + x + y + z =~= o + (x + y + z)); }
proof fn cat5b(o: Seq<char>, c: Seq<char>, x: Seq<char>, y: Seq<char>, z: Seq<char>)
    ensures o + c + x + y + z == o + (c + x + y + z),
{ assert(o + c + x + y + z =~= o + (c + x + y + z)); }
proof fn cat6(o: Seq<char>, h: Seq<char>, s: Seq<char>, l: Seq<char>, d: Seq<char>, r: Seq<char>)
    ensures o + h + s + l + d + r == o + (h + s + (l + d + r)),
{
    assert(o + h + s + l + d + r =~= o + h + s + (l + d + r));
    assert(o + h + s + (l + d + r) =~= o + (h + s + (l + d + r)));
}
proof fn lemma_cd(out: Seq<char>, cd: CDecl, id: Option<Seq<char>>, cfg: Config)
    ensures w_cd(out, cd, id, cfg) == out + cd_text(cd, id, cfg),
{
    hide(lpart); hide(w_left); hide(w_right); hide(head); hide(w_head);
    let n = cd.declarators@.len() as int;
    let h = head(cd, cfg);
    lemma_head(out, cd, cfg);
    lemma_if(out + h, id is Some, " "@);
    let o5 = out + h + sp_of(id);
    lemma_left(o5, cd.declarators@, n, cfg);
    let l = lpart(cd.declarators@, n, cfg);
    lemma_if(o5 + l, id is Some, id_of(id));
    seq_e(o5 + l);
    let o7 = o5 + l + id_of(id);
    lemma_right(o7, cd.declarators@, n, cfg);
    let r = rpart(cd.declarators@, n, cfg);
    assert(w_cd(out, cd, id, cfg) == o7 + r);
    cat6(out, h, sp_of(id), l, id_of(id), r);
    assert(dtext(cd.declarators@, id_of(id), cfg) == l + id_of(id) + r);
}
proof fn lemma_cd_args_step(out: Seq<char>, args: Seq<(Option<String>, CDecl)>, n: int, id: Option<Seq<char>>, cfg: Config)
    requires 0 < n <= args.len(), id == (match args[n - 1].0 { Some(s) => Some(s@), None => None }),
    ensures
        (if n > 1 { out + cd_args(args, n - 1, cfg) + ", "@ } else { out + cd_args(args, n - 1, cfg) }) + cd_text(args[n - 1].1, id, cfg) == out + cd_args(args, n, cfg),
{
    let g = cd_args(args, n - 1, cfg);
    let c = if n > 1 { ", "@ } else { Seq::<char>::empty() };
    let x = cd_text(args[n - 1].1, id, cfg);
    assert(out + g + c + x =~= out + (g + c + x));
    seq_e(out + g);
}

// ---------------- code under contract ----------------
impl DeclarationType {
//@fn src/bindgen/declarationtyperesolver.rs DeclarationType::to_str r
    ensures r@ == tag_text(self),
//@end
}
impl GenericPath {
//@fn src/bindgen/ir/generic_path.rs GenericPath::ctype r
    ensures r is Some <==> self.ctype is Some, r is Some ==> *r->0 == self.ctype->0,
//@end
}
impl ConstExpr {
//@fn src/bindgen/ir/ty.rs ConstExpr::as_str r
    ensures r@ == const_text(*self),
//@end
}
impl CDeclarator {
//@fn src/bindgen/cdecl.rs CDeclarator::is_ptr r
    ensures r == is_ptrd(*self),
//@end
}
impl CDecl {
//@fn src/bindgen/cdecl.rs CDecl::new r
    ensures r.type_qualifers@.len() == 0, r.type_name@.len() == 0, r.type_generic_args@.len() == 0, r.declarators@.len() == 0, r.type_ctype is None,
//@end
//@fn src/bindgen/cdecl.rs CDecl::from_type r
    ensures forall|id: Option<Seq<char>>| #[trigger] cd_text(r, id, *config) == ty_text(*t, false, id, *config),
//@pre
    proof { assert forall|d: Seq<char>| #[trigger] dtext(Seq::<CDeclarator>::empty(), d, *config) == d by { assert(dtext(Seq::<CDeclarator>::empty(), d, *config) =~= d); } }
//@end
//@fn src/bindgen/cdecl.rs CDecl::from_static r
    ensures forall|id: Option<Seq<char>>| #[trigger] cd_text(r, id, *config) == ty_text(*t, is_const, id, *config),
//@pre
    proof { assert forall|d: Seq<char>| #[trigger] dtext(Seq::<CDeclarator>::empty(), d, *config) == d by { assert(dtext(Seq::<CDeclarator>::empty(), d, *config) =~= d); } }
//@end
//@fn src/bindgen/cdecl.rs CDecl::from_func_arg r panics=ok
    ensures forall|id: Option<Seq<char>>| #[trigger] cd_text(r, id, *config) == farg_text(*t, match array_length { Some(l) => Some(l@), None => None }, id, *config),
//@pre
    proof { assert forall|d: Seq<char>| #[trigger] dtext(Seq::<CDeclarator>::empty(), d, *config) == d by { assert(dtext(Seq::<CDeclarator>::empty(), d, *config) =~= d); } }
//@end
//@fn src/bindgen/cdecl.rs CDecl::from_func r
    ensures forall|id: Option<Seq<char>>| #[trigger] cd_text(r, id, *config) == func_text(*f, id, *config),
//@end
//@fn src/bindgen/cdecl.rs CDecl::build_func r
    requires old(self).type_qualifers@.len() == 0, old(self).type_name@.len() == 0, old(self).type_generic_args@.len() == 0, old(self).type_ctype is None, old(self).declarators@.len() == 0,
    ensures forall|id: Option<Seq<char>>| #[trigger] cd_text(*final(self), id, *config) == func_text(*f, id, *config),
//@pre
    broadcast use lemma_push;
    proof { assert forall|d: Seq<char>| #[trigger] dtext(Seq::<CDeclarator>::empty(), d, *config) == d by { assert(dtext(Seq::<CDeclarator>::empty(), d, *config) =~= d); } }
//@loop 0 rty=Vec<(Option<String>,CDecl)>
    __s0@ == f.args@, __r0@.len() == __i0, *self == *old(self),
    forall|i: int| 0 <= i < __i0 ==> (#[trigger] __r0@[i]).0 == f.args@[i].name && (forall|id: Option<Seq<char>>| #[trigger] cd_text(__r0@[i].1, id, *config) == farg_text(f.args@[i].ty, match f.args@[i].array_length { Some(l) => Some(l@), None => None }, id, *config)),
//@loop 0 after
    proof { lemma_fargs_rel(__r0@, f.args@, __r0@.len() as int, *config); }
//@end
//@fn src/bindgen/cdecl.rs CDecl::build_type r
    requires old(self).type_qualifers@.len() == 0, old(self).type_name@.len() == 0, old(self).type_generic_args@.len() == 0, old(self).type_ctype is None,
    ensures forall|id: Option<Seq<char>>| #[trigger] cd_text(*final(self), id, *config)
        == decl(*t, dtext(old(self).declarators@, id_of(id), *config), sp_of(id), last_ptr(old(self).declarators@, old(self).declarators@.len() as int), is_const, *config),
//@pre
    broadcast use lemma_push;
    proof { lit_const(); assert forall|x: Seq<char>| #[trigger] (x + Seq::<char>::empty()) == x by { seq_e(x); } }
//@loop 0 rty=Vec<(Option<String>,CDecl)>
    __s0@ == args@, __r0@.len() == __i0, *self == *old(self),
    forall|i: int| 0 <= i < __i0 ==> (#[trigger] __r0@[i]).0 == args@[i].0 && (forall|id: Option<Seq<char>>| #[trigger] cd_text(__r0@[i].1, id, *config) == ty_text(args@[i].1, false, id, *config)),
//@loop 0 after
    proof { lemma_args_rel(__r0@, args@, __r0@.len() as int, *config); }
//@end
//@fn src/bindgen/cdecl.rs CDecl::write r strip_generics isolate from=src/bindgen/writer.rs
    requires *old(language_backend).config == *config,
    ensures final(out).txt() == old(out).txt() + cd_text(*self, match ident { Some(s) => Some(s@), None => None }, *config),
        final(language_backend).config == old(language_backend).config,
//@pre
    let ghost __id: Option<Seq<char>> = match ident { Some(s) => Some(s@), None => None };
    let ghost __o = out.txt();
    proof { lemma_cd(out.txt(), *self, __id, *config); }
//@loop 0
    __s0@ == self.type_generic_args@, language_backend.config == old(language_backend).config, *old(language_backend).config == *config, items@ == self.type_generic_args@, list_type == ListType::Join(", "),
    out.txt() == (if 0 < __i0 < __s0@.len() { w_gargs(__base, __s0@, __i0 as int, *config) + ", "@ } else { w_gargs(__base, __s0@, __i0 as int, *config) }),
//@loop 0 before
    let ghost __base = out.txt();
//@loop 1
    iter_rev.wf(), iter_rev.rev, iter_rev.s@ == self.declarators@, language_backend.config == old(language_backend).config, *old(language_backend).config == *config,
    w_left(out.txt(), self.declarators@, (self.declarators@.len() - iter_rev.i) as int, *config) == w_left(__b1, self.declarators@, self.declarators@.len() as int, *config),
  ensures
    out.txt() == w_left(__b1, self.declarators@, self.declarators@.len() as int, *config),
    language_backend.config == old(language_backend).config,
//@loop 1 before
    let ghost __b1 = out.txt();
    proof { assert(__b1 == (if __id is Some { w_head(__o, *self, *config) + " "@ } else { w_head(__o, *self, *config) })); }
//@loop 2
    iter.wf(), !iter.rev, iter.s@ == self.declarators@, language_backend.config == old(language_backend).config, *old(language_backend).config == *config,
    last_was_pointer == last_ptr(self.declarators@, iter.i as int),
    out.txt() == w_right(__b2, self.declarators@, iter.i as int, *config),
  ensures
    out.txt() == w_right(__b2, self.declarators@, self.declarators@.len() as int, *config),
    language_backend.config == old(language_backend).config,
//@loop 2 before
    let ghost __b2 = out.txt();
//@end
}
//@fn src/bindgen/cdecl.rs CDecl::write/write_vertical r strip_generics
//@subst x.as_ref() => x.as_str()
    requires *old(language_backend).config == *config,
    ensures final(out).txt() == old(out).txt() + cd_args(args@, args@.len() as int, *config),
        final(language_backend).config == old(language_backend).config,
//@pre
    proof { lit_const(); seq_e(out.txt()); }
//@loop 0
    __s0@ == args@, language_backend.config == old(language_backend).config,
    out.txt() == old(out).txt() + cd_args(args@, __i0 as int, *config),
//@loop 0 pre
    proof { s3(out.txt(), ","@, " "@); lemma_cd_args_step(old(out).txt(), args@, i + 1, match args@[i as int].0 { Some(s) => Some(s@), None => None }, *config); }
//@end
//@fn src/bindgen/cdecl.rs CDecl::write/write_horizontal r strip_generics
//@subst x.as_ref() => x.as_str()
    requires *old(language_backend).config == *config,
    ensures final(out).txt() == old(out).txt() + cd_args(args@, args@.len() as int, *config),
        final(language_backend).config == old(language_backend).config,
//@pre
    proof { seq_e(out.txt()); }
//@loop 0
    __s0@ == args@, language_backend.config == old(language_backend).config,
    out.txt() == old(out).txt() + cd_args(args@, __i0 as int, *config),
//@loop 0 pre
    proof { lemma_cd_args_step(old(out).txt(), args@, i + 1, match args@[i as int].0 { Some(s) => Some(s@), None => None }, *config); }
//@end
impl Function {
//@fn src/bindgen/ir/function.rs Function::path r
    ensures *r == self.path,
//@end
}
//@fn src/bindgen/cdecl.rs write_func r strip_generics
    requires *old(language_backend).config == *config,
    ensures final(out).txt() == old(out).txt() + func_text(*f, Some(f.path.name@), *config),
        final(language_backend).config == old(language_backend).config,
//@end
//@fn src/bindgen/cdecl.rs write_field r strip_generics
    requires *old(language_backend).config == *config,
    ensures final(out).txt() == old(out).txt() + ty_text(*t, false, Some(ident@), *config),
        final(language_backend).config == old(language_backend).config,
//@end
//@fn src/bindgen/cdecl.rs write_static r strip_generics
    requires *old(language_backend).config == *config,
    ensures final(out).txt() == old(out).txt() + ty_text(*t, is_const, Some(ident@), *config),
        final(language_backend).config == old(language_backend).config,
//@end
//@fn src/bindgen/cdecl.rs write_type r strip_generics
    requires *old(language_backend).config == *config,
    ensures final(out).txt() == old(out).txt() + ty_text(*t, false, None, *config),
        final(language_backend).config == old(language_backend).config,
//@end
impl<'a> LangB<'a> {
//@fn src/bindgen/language_backend/clike.rs LanguageBackend@CLikeLanguageBackend::write_type r strip_generics
    ensures final(out).txt() == old(out).txt() + ty_text(*t, false, None, *old(self).config),
        final(self).config == old(self).config,
//@end
//@fn src/bindgen/language_backend/cython.rs LanguageBackend@CythonLanguageBackend::write_type r strip_generics name=write_type_cython
    ensures final(out).txt() == old(out).txt() + ty_text(*t, false, None, *old(self).config),
        final(self).config == old(self).config,
//@end
}
} // verus!
fn main() {}
