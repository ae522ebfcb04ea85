//@include prelude.inc
//@include ty_types.inc
verus! {
//@include ty_basic.inc
pub mod syn {
use super::*;
#[verifier::external_body] pub struct Tokens { _p: () }
pub struct Ident { pub s: String }
/// IdentExt::unraw: the identifier without r#
pub uninterp spec fn unraw_of(s: Seq<char>) -> Seq<char>;
impl Ident { #[verifier::external_body] pub fn unraw(&self) -> (r: &Ident) ensures r.s@ == unraw_of(self.s@) { unimplemented!() } }
impl Ident { #[verifier::external_body] pub fn vx_is(&self, t: &str) -> (r: bool) ensures r == (self.s@ == t@) { unimplemented!() } }
impl VxOwned for Ident { type O = String; open spec fn owned_rel(&self, o: String) -> bool { o@ == self.s@ } }
pub struct LitBool { pub value: bool, pub span: Tokens }
pub struct LitInt { pub digits: String }
impl LitInt { pub fn base10_digits(&self) -> (r: &str) ensures r@ == self.digits@ { self.digits.as_str() } }
pub struct LitByte { pub b: u8 }
impl LitByte { pub fn value(&self) -> (r: u8) ensures r == self.b { self.b } }
pub struct LitChar { pub c: char }
impl LitChar { pub fn value(&self) -> (r: char) ensures r == self.c { self.c } }
pub enum Lit { Bool(LitBool), Int(LitInt), Byte(LitByte), Char(LitChar), Other(Tokens) }
pub struct ExprLit { pub lit: Lit, pub attrs: Tokens }
pub struct ExprPath { pub path: Path, pub attrs: Tokens }
pub struct ExprCast { pub expr: Box<Expr>, pub ty: Box<Type> }
pub enum Expr { Lit(ExprLit), Path(ExprPath), Cast(ExprCast), Other(Tokens) }
pub enum GenericArgument { Lifetime(Tokens), Type(Type), Const(Expr), Other(Tokens) }
pub struct AngleBracketedGenericArguments { pub args: Vec<GenericArgument>, pub gt_token: Tokens }
pub enum PathArguments { None, AngleBracketed(AngleBracketedGenericArguments), Parenthesized(Tokens) }
pub struct PathSegment { pub ident: Ident, pub arguments: PathArguments }
pub struct Path { pub segments: Vec<PathSegment> }
pub struct TypeReference { pub mutability: Option<Tokens>, pub elem: Box<Type> }
pub enum PointerMutability { Const(Tokens), Mut(Tokens) }
pub struct TypePtr { pub mutability: PointerMutability, pub elem: Box<Type> }
pub struct TypePath { pub path: Path }
pub struct TypeArray { pub elem: Box<Type>, pub len: Expr, pub semi_token: Tokens }
pub struct FnPtrArg { pub name: Option<(Ident, Tokens)>, pub ty: Type }
pub struct TypeFnPtr { pub inputs: Vec<FnPtrArg>, pub variadic: Option<Tokens>, pub output: ReturnType }
pub struct TypeTuple { pub elems: Vec<Type> }
pub enum ReturnType { Default, Type(Tokens, Box<Type>) }
pub struct Verbatim { pub s: String }
impl VxOwned for Verbatim { type O = String; open spec fn owned_rel(&self, o: String) -> bool { o@ == self.s@ } }
pub enum ReceiverKind { Value, Reference(Tokens, Option<Tokens>, Option<Tokens>), Typed(Tokens, Box<Type>), Other(Tokens) }
pub struct Receiver { pub kind: ReceiverKind }
pub struct PatIdent { pub ident: Ident, pub attrs: Tokens }
pub enum Pat { Wild(Tokens), Ident(PatIdent), Other(Tokens) }
pub struct PatType { pub pat: Box<Pat>, pub ty: Box<Type>, pub attrs: Tokens }
pub enum FnArg { Receiver(Receiver), Typed(PatType) }
pub enum Type { Reference(TypeReference), Ptr(TypePtr), Path(TypePath), Array(TypeArray), FnPtr(TypeFnPtr), Tuple(TypeTuple), Verbatim(Verbatim), Never(Tokens), Other(Tokens) }
}
#[verifier::external_body]
pub fn vx_last<T>(v: &Vec<T>) -> (r: Option<&T>) ensures r is Some <==> v@.len() > 0, r is Some ==> *r->0 == v@.last() { v.last() }
#[verifier::external_body] pub fn vx_str_eq(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
//@type src/bindgen/ir/function.rs FunctionArgument
impl PartialEq for Type { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl PartialEqSpecImpl for Type {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
pub uninterp spec fn disp_i32(n: int) -> Seq<char>;
impl VxDisp for i32 { open spec fn disp(&self) -> Seq<char> { disp_i32(*self as int) } }
impl VxOwned for bool { type O = String; open spec fn owned_rel(&self, o: String) -> bool { o@ == bool_text(*self) } }
pub open spec fn bool_text(b: bool) -> Seq<char> { if b { "true"@ } else { "false"@ } }
#[verifier::external_body] pub fn vx_box_ref<T>(b: &Box<T>) -> (r: &T) ensures *r == **b { b.as_ref() }
/// decimal digits
pub uninterp spec fn dec(n: nat) -> Seq<char>;
#[verifier::external_body] pub fn vx_u8_text(n: &u8) -> (r: String) ensures r@ == dec(*n as nat) { n.to_string() }
#[verifier::external_body] pub fn vx_u32_text(n: char) -> (r: String) ensures r@ == dec(n as u32 as nat) { u32::to_string(&n.into()) }
#[verifier::external_body] pub fn vx_add(a: i32, b: i32) -> (r: i32) ensures r == a + b { unimplemented!() }
/// the primitive a name stands for, if any (PrimitiveType::maybe, proved against the C types in c02.rs)
pub uninterp spec fn prim_of(s: Seq<char>) -> Option<PrimitiveType>;
impl PrimitiveType { #[verifier::external_body] pub fn maybe(path: &str) -> (r: Option<PrimitiveType>) ensures r == prim_of(path@) { unimplemented!() } }
/// PrimitiveType::maybe knows neither marker (c02.rs)
pub axiom fn axiom_prims() ensures prim_of("PhantomData"@) is None, prim_of("PhantomPinned"@) is None;
impl Path {
    #[verifier::external_body]
    pub fn new<S: VxInto>(name: S) -> (r: Self) ensures r.name@ == name.iv() { unimplemented!() }
}
pub trait VxInto { spec fn iv(&self) -> Seq<char>; }
impl VxInto for String { open spec fn iv(&self) -> Seq<char> { self@ } }
impl<'a> VxInto for &'a str { open spec fn iv(&self) -> Seq<char> { (*self)@ } }

// ---------------- specification: the C type of a Rust type ----------------
pub open spec fn seg(p: syn::Path) -> syn::PathSegment { p.segments@.last() }
/// the name of a path: its last segment
pub open spec fn name_of(p: syn::Path) -> Seq<char> { syn::unraw_of(seg(p).ident.s@) }
pub open spec fn wf(p: syn::Path) -> bool { p.segments@.len() > 0 }
/// types that have no counterpart: markers of no size, and the unit type
pub open spec fn marker(p: syn::Path) -> bool { name_of(p) == "PhantomData"@ || name_of(p) == "PhantomPinned"@ }
pub open spec fn zero(s: syn::Type) -> bool {
    match s { syn::Type::Path(p) => marker(p.path), syn::Type::Tuple(t) => t.elems@.len() == 0, _ => false }
}
/// the arguments of a generic that count
pub open spec fn counts(a: syn::GenericArgument) -> bool { match a { syn::GenericArgument::Lifetime(_) => false, syn::GenericArgument::Type(t) => !zero(t), _ => true } }
/// a path that can be read
pub open spec fn ok_path(p: syn::Path) -> bool
    decreases p
{
    wf(p) && (name_of(p) == "PhantomData"@ || match seg(p).arguments {
        syn::PathArguments::AngleBracketed(a) => forall|i: int| 0 <= i < a.args@.len() ==> ok_arg(#[trigger] a.args@[i]),
        syn::PathArguments::Parenthesized(_) => false,
        syn::PathArguments::None => true,
    })
}
pub open spec fn ok_arg(a: syn::GenericArgument) -> bool
    decreases a
{
    match a { syn::GenericArgument::Type(t) => ok_ty(t), syn::GenericArgument::Lifetime(_) => true, syn::GenericArgument::Const(e) => ok_expr(e), syn::GenericArgument::Other(_) => false }
}
pub open spec fn ok_expr(e: syn::Expr) -> bool
    decreases e
{
    match e {
        syn::Expr::Lit(l) => !(l.lit is Other),
        syn::Expr::Path(p) => ok_path(p.path),
        syn::Expr::Cast(c) => ok_expr(*c.expr),
        syn::Expr::Other(_) => false,
    }
}
/// nothing between the angle brackets counts
pub open spec fn plain(p: syn::Path) -> bool {
    name_of(p) == "PhantomData"@ || match seg(p).arguments { syn::PathArguments::AngleBracketed(a) => forall|i: int| 0 <= i < a.args@.len() ==> !counts(#[trigger] a.args@[i]), _ => true }
}
/// a type that can be read
pub open spec fn ok_ty(s: syn::Type) -> bool
    decreases s
{
    match s {
        syn::Type::Reference(r) => ok_ty(*r.elem),
        syn::Type::Ptr(r) => ok_ty(*r.elem),
        syn::Type::Path(p) => ok_path(p.path) && (prim_of(name_of(p.path)) is Some ==> plain(p.path)),
        syn::Type::Array(a) => ok_ty(*a.elem) && !zero(*a.elem) && ok_expr(a.len),
        syn::Type::FnPtr(f) => (forall|i: int| 0 <= i < f.inputs@.len() ==> ok_in(#[trigger] f.inputs@[i])) && ok_out(f.output),
        syn::Type::Tuple(t) => t.elems@.len() == 0,
        syn::Type::Verbatim(t) => t.s@ == "..."@,
        syn::Type::Never(_) | syn::Type::Other(_) => false,
    }
}
pub open spec fn ok_in(a: syn::FnPtrArg) -> bool
    decreases a
{ ok_ty(a.ty) }
pub open spec fn ok_out(o: syn::ReturnType) -> bool
    decreases o
{ match o { syn::ReturnType::Default => true, syn::ReturnType::Type(_, t) => *t is Never || ok_ty(*t) } }
pub open spec fn lit_text(l: syn::Lit) -> Seq<char> {
    match l { syn::Lit::Bool(b) => bool_text(b.value), syn::Lit::Int(i) => i.digits@, syn::Lit::Byte(b) => dec(b.b as nat), syn::Lit::Char(c) => dec(c.c as u32 as nat), syn::Lit::Other(_) => Seq::empty() }
}
/// `c` is the constant `e`
pub open spec fn is_expr(c: ConstExpr, e: syn::Expr) -> bool
    decreases e
{
    match e {
        syn::Expr::Lit(l) => c matches ConstExpr::Value(v) && v@ == lit_text(l.lit),
        syn::Expr::Path(p) => c matches ConstExpr::Path(g) && is_path(g, p.path),
        syn::Expr::Cast(x) => is_expr(c, *x.expr),
        syn::Expr::Other(_) => false,
    }
}
/// `g` is the path `p`, with the arguments that count in order
pub open spec fn is_path(g: GenericPath, p: syn::Path) -> bool
    decreases p
{
    &&& wf(p)
    &&& g.path.name@ == name_of(p)
    &&& g.export_name@ == name_of(p)
    &&& g.ctype is None
    &&& match seg(p).arguments {
        syn::PathArguments::AngleBracketed(a) => if name_of(p) == "PhantomData"@ { g.generics@.len() == 0 } else { args_are(g.generics@, a.args, a.args@.len()) },
        _ => g.generics@.len() == 0,
    }
}
pub open spec fn args_are(gs: Seq<GenericArgument>, v: Vec<syn::GenericArgument>, n: nat) -> bool
    decreases v, n
{
    if n == 0 || n > v@.len() { gs.len() == 0 }
    else if !counts(v@[n - 1]) { args_are(gs, v, (n - 1) as nat) }
    else { gs.len() > 0 && is_arg(gs.last(), v@[n - 1]) && args_are(gs.drop_last(), v, (n - 1) as nat) }
}
pub open spec fn is_arg(g: GenericArgument, a: syn::GenericArgument) -> bool
    decreases a
{
    match a {
        syn::GenericArgument::Type(t) => g matches GenericArgument::Type(x) && is_ty(x, t),
        syn::GenericArgument::Const(e) => g matches GenericArgument::Const(c) && is_expr(c, e),
        _ => false,
    }
}
/// `t` is the type `s`
pub open spec fn is_ty(t: Type, s: syn::Type) -> bool
    decreases s, 0nat
{
    match s {
        syn::Type::Reference(r) => t matches Type::Ptr { ty, is_const, is_nullable, is_ref } && is_const == (r.mutability is None) && !is_nullable && !is_ref && is_pointee(*ty, *r.elem),
        syn::Type::Ptr(r) => t matches Type::Ptr { ty, is_const, is_nullable, is_ref } && is_const == (r.mutability is Const) && is_nullable && !is_ref && is_pointee(*ty, *r.elem),
        syn::Type::Path(p) => match prim_of(name_of(p.path)) { Some(x) => t == Type::Primitive(x), None => t matches Type::Path(g) && is_path(g, p.path) },
        syn::Type::Array(a) => t matches Type::Array(e, n) && is_ty(*e, *a.elem) && is_expr(n, a.len),
        syn::Type::FnPtr(f) => t matches Type::FuncPtr { ret, args, is_nullable, never_return } && !is_nullable && is_out(*ret, never_return, f.output)
            && if f.variadic is Some { args@.len() > 0 && args@.last() == (None::<String>, Type::Primitive(PrimitiveType::VaList)) && ins_are(args@.drop_last(), f.inputs, f.inputs@.len()) } else { ins_are(args@, f.inputs, f.inputs@.len()) },
        syn::Type::Verbatim(v) => t == Type::Primitive(PrimitiveType::VaList),
        _ => false,
    }
}
/// what a pointer to `s` points to: `void` for a type that has no counterpart
pub open spec fn is_pointee(t: Type, s: syn::Type) -> bool
    decreases s, 1nat
{ if zero(s) { t == Type::Primitive(PrimitiveType::Void) } else { is_ty(t, s) } }
pub open spec fn is_out(t: Type, never: bool, o: syn::ReturnType) -> bool
    decreases o
{
    match o {
        syn::ReturnType::Default => !never && t == Type::Primitive(PrimitiveType::Void),
        syn::ReturnType::Type(_, s) => never == (*s is Never) && if *s is Never { t == Type::Primitive(PrimitiveType::Void) } else { is_pointee(t, *s) },
    }
}
/// parameters of a function pointer, without those of types that have no counterpart
pub open spec fn ins_are(args: Seq<(Option<String>, Type)>, v: Vec<syn::FnPtrArg>, n: nat) -> bool
    decreases v, n
{
    if n == 0 || n > v@.len() { args.len() == 0 }
    else if zero(v@[n - 1].ty) { ins_are(args, v, (n - 1) as nat) }
    else { args.len() > 0 && is_in(args.last(), v@[n - 1]) && named(args.last().0, v@, n) && ins_are(args.drop_last(), v, (n - 1) as nat) }
}
pub open spec fn is_in(a: (Option<String>, Type), x: syn::FnPtrArg) -> bool
    decreases x
{
    is_ty(a.1, x.ty)
}
/// how many of the first n parameters that count are called `_`
pub open spec fn wilds(v: Seq<syn::FnPtrArg>, n: nat) -> nat
    decreases n
{
    if n == 0 || n > v.len() { 0 } else {
        let a = v[n - 1];
        wilds(v, (n - 1) as nat) + if !zero(a.ty) && a.name is Some && (a.name->0).0.s@ == "_"@ { 1nat } else { 0nat }
    }
}
/// the name of the n-th parameter; those called `_` become `_`, `_1`, `_2`, ...
pub open spec fn named(a: Option<String>, v: Seq<syn::FnPtrArg>, n: nat) -> bool {
    let x = v[n - 1].name;
    let k = wilds(v, (n - 1) as nat);
    match x {
        None => a is None,
        Some(i) => a is Some && a->0@ == if i.0.s@ != "_"@ { syn::unraw_of(i.0.s@) } else if k == 0 { "_"@ } else { "_"@ + disp_i32(k as int) },
    }
}

/// a path as GenericPath::self_path makes it
pub open spec fn self_key(g: GenericPath) -> bool { g.path.name@ == "Self"@ && g.export_name@ == "Self"@ && g.generics@.len() == 0 && g.ctype is None }
pub open spec fn ok_self(r: syn::Receiver) -> bool { match r.kind { syn::ReceiverKind::Typed(_, s) => ok_ty(*s), syn::ReceiverKind::Other(_) => false, _ => true } }
/// the type of `self`, `&self`, `&mut self` and `self: T`
pub open spec fn is_self(t: Type, r: syn::Receiver) -> bool {
    match r.kind {
        syn::ReceiverKind::Value => t matches Type::Path(g) && self_key(g),
        syn::ReceiverKind::Reference(_, _, m) => t matches Type::Ptr { ty, is_const, is_nullable, is_ref } && is_const == (m is None) && !is_nullable && !is_ref && *ty is Path && self_key(ty->Path_0),
        syn::ReceiverKind::Typed(_, s) => if zero(*s) { t matches Type::Path(g) && self_key(g) } else { is_ty(t, *s) },
        syn::ReceiverKind::Other(_) => false,
    }
}
pub open spec fn absent(a: syn::FnArg) -> bool { a matches syn::FnArg::Typed(p) && zero(*p.ty) }
pub open spec fn ok_param(a: syn::FnArg) -> bool {
    match a {
        syn::FnArg::Typed(p) => ok_ty(*p.ty) && (zero(*p.ty) || !(*p.pat is Other) && !(*p.ty is Array)),
        syn::FnArg::Receiver(r) => ok_self(r),
    }
}
pub open spec fn is_param(x: FunctionArgument, a: syn::FnArg) -> bool {
    match a {
        syn::FnArg::Typed(p) => is_ty(x.ty, *p.ty) && x.array_length is None && match *p.pat {
            syn::Pat::Ident(i) => if x.ty == Type::Primitive(PrimitiveType::VaList) { x.name is None } else { x.name is Some && x.name->0@ == syn::unraw_of(i.ident.s@) },
            _ => x.name is None,
        },
        syn::FnArg::Receiver(r) => is_self(x.ty, r) && x.array_length is None && x.name is Some && x.name->0@ == "self"@,
    }
}
pub proof fn lemma_array(t: Type, s: syn::Type)
    requires ok_ty(s), is_ty(t, s), !zero(s),
    ensures t is Array <==> s is Array,
{ }
pub proof fn lemma_args(gs: Seq<GenericArgument>, v: Vec<syn::GenericArgument>, n: nat)
    requires args_are(gs, v, n), n <= v@.len(),
    ensures gs.len() == 0 <==> forall|i: int| 0 <= i < n ==> !counts(#[trigger] v@[i]),
    decreases n,
{ if n > 0 { if counts(v@[n - 1]) { } else { lemma_args(gs, v, (n - 1) as nat); } } }
pub proof fn lemma_plain(g: GenericPath, p: syn::Path)
    requires is_path(g, p),
    ensures g.generics@.len() == 0 <==> plain(p),
{ match seg(p).arguments { syn::PathArguments::AngleBracketed(a) => { if name_of(p) != "PhantomData"@ { lemma_args(g.generics@, a.args, a.args@.len()); } }, _ => {} } }

// ================= code under contract =================
impl ConstExpr {
//@fn src/bindgen/ir/ty.rs ConstExpr::load r
    ensures r is Ok ==> ok_expr(*expr) && is_expr(r->Ok_0, *expr), r is Err ==> !ok_expr(*expr),
//@subst vx_to_owned(&*value) => vx_to_owned(&value)
//@subst u8::to_string(&byte.value()) => vx_u8_text(&byte.value())
//@subst u32::to_string(&ch.value().into()) => vx_u32_text(ch.value())
//@end
}
impl GenericPath {
//@fn src/bindgen/ir/generic_path.rs GenericPath::load r loops=1 panics=ok
    ensures r is Ok ==> ok_path(*path) && is_path(r->Ok_0, *path), r is Err ==> !ok_path(*path),
//@subst path.segments.last() => vx_last(&path.segments)
//@pre
    let ghost p = *path;
//@loop 0 rty=Vec<GenericArgument>
    __s0@ == args@, forall|j: int| 0 <= j < __i0 ==> ok_arg(#[trigger] args@[j]), args_are(__r0@, *args, __i0 as nat),
//@loop 0 pre
    let ghost r0 = __r0@;
    proof { assert(__s0@[__i0 as int] == args@[__i0 as int]); }
//@loop 0 post
    proof {
        if __r0@.len() > r0.len() { assert(__r0@.drop_last() =~= r0); assert(is_arg(__r0@.last(), args@[__k0 as int])); }
        assert(args_are(__r0@, *args, __i0 as nat));
    }
//@end
}
impl Type {
//@fn src/bindgen/ir/ty.rs Type::load_from_output r
    ensures r is Ok ==> ok_out(*output) && is_out(r->Ok_0.0, r->Ok_0.1, *output), r is Err ==> !ok_out(*output),
//@subst ty.as_ref() => vx_box_ref(ty)
//@end
//@fn src/bindgen/ir/ty.rs Type::load r loops=1 nat
    ensures match r { Ok(Some(t)) => ok_ty(*ty) && !zero(*ty) && is_ty(t, *ty), Ok(None) => ok_ty(*ty) && zero(*ty), Err(_) => !ok_ty(*ty) },
//@pre
    proof { axiom_prims(); }
//@subst let generic_path = GenericPath::load(&path.path)?; => let generic_path = GenericPath::load(&path.path)?; proof { lemma_plain(generic_path, path.path); }
//@subst super::PrimitiveType => PrimitiveType
//@subst if function.variadic.is_some() { => let ghost a0 = args@; if function.variadic.is_some() {
//@subst args.push((None, Type::Primitive(PrimitiveType::VaList))) => args.push((None, Type::Primitive(PrimitiveType::VaList))); proof { assert(args@.drop_last() =~= a0); }
//@post
    proof {
        if __ret is Ok && __ret->Ok_0 is Some && (__ret->Ok_0)->0 is Ptr {
            let e = *((__ret->Ok_0)->0->Ptr_ty);
            assert(*ty is Reference ==> is_pointee(e, *ty->Reference_0.elem));
            assert(*ty is Ptr ==> is_pointee(e, *ty->Ptr_0.elem));
        }
    }
//@subst ident == "_" => ident.vx_is("_")
//@subst vx_to_owned(&*tokens) == "..." => vx_str_eq(&vx_to_owned(&*tokens), "...")
//@loop 0 rty=Vec<(Option<String>, Type)>
    __s0@ == function.inputs@, forall|j: int| 0 <= j < __i0 ==> ok_in(#[trigger] function.inputs@[j]), ins_are(__r0@, function.inputs, __i0 as nat), wildcard_counter == wilds(function.inputs@, __i0 as nat),
//@loop 0 pre
    let ghost r0 = __r0@;
    proof { assert(__s0@[__i0 as int] == function.inputs@[__i0 as int]); assert(ok_in(function.inputs@[__i0 as int]) == ok_ty(function.inputs@[__i0 as int].ty)); }
//@loop 0 post
    proof {
        if __r0@.len() > r0.len() { assert(__r0@.drop_last() =~= r0); assert(is_in(__r0@.last(), function.inputs@[__k0 as int])); }
        assert(ins_are(__r0@, function.inputs, __i0 as nat));
    }
//@end
}
impl GenericPath {
//@fn src/bindgen/ir/generic_path.rs GenericPath::self_path r
    ensures self_key(r),
//@end
}
//@fn src/bindgen/ir/function.rs gen_self_type r
    ensures r is Ok ==> ok_self(*receiver) && is_self(r->Ok_0, *receiver), r is Err ==> !ok_self(*receiver),
//@subst String::from("Receiver is => vx_to_owned("Receiver is
//@end
impl syn::FnArg {
//@fn src/bindgen/ir/function.rs SynFnArgHelpers@FnArg::as_argument r novis
    ensures match r { Ok(Some(x)) => ok_param(*self) && !absent(*self) && is_param(x, *self), Ok(None) => ok_param(*self) && absent(*self), Err(_) => !ok_param(*self) },
//@subst super::PrimitiveType => PrimitiveType
//@subst let name = match **pat { => proof { lemma_array(ty, *((*self)->Typed_0.ty)); } let name = match **pat {
//@end
}
} // verus!
fn main() {}
