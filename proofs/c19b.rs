//@include prelude.inc
//@include ty_types.inc
verus! {
//@include ty_basic.inc
#[verifier::external_body] pub struct Cfg { _p: () }
#[verifier::external_body] pub struct AnnotationSet { _p: () }
#[verifier::external_body] pub struct Documentation { _p: () }
//@type src/bindgen/ir/function.rs FunctionArgument
//@type src/bindgen/ir/function.rs Function
//@type src/bindgen/ir/global.rs Static
// ---------------- syn (dependency): the parts read here ----------------
pub mod syn {
use super::*;
#[verifier::external_body] pub struct Tokens { _p: () }
#[verifier::external_body] pub struct Attribute { _p: () }
#[verifier::external_body] pub struct FnArg { _p: () }
#[verifier::external_body] pub struct ReturnType { _p: () }
#[verifier::external_body] pub struct Type { _p: () }
pub enum StaticMutability { Mut(Tokens), None, Other(Tokens) }
pub struct Signature { pub inputs: Vec<FnArg>, pub variadic: Option<Tokens>, pub output: ReturnType }
pub struct ItemStatic { pub attrs: Vec<Attribute>, pub ty: Type, pub mutability: StaticMutability }
}
// ---------------- what the parts of a declaration are loaded as (assumed: functions of the source) ----------------
/// one argument (SynFnArgHelpers::as_argument: c01b); one without a representation vanishes
pub uninterp spec fn arg_of(a: syn::FnArg) -> Option<Option<FunctionArgument>>;
impl syn::FnArg {
    #[verifier::external_body]
    pub fn as_argument(&self) -> (r: Result<Option<FunctionArgument>, String>) ensures loaded(r, arg_of(*self)) { unimplemented!() }
}
pub uninterp spec fn out_of(o: syn::ReturnType) -> Option<(Type, bool)>;
pub uninterp spec fn ty_of(t: syn::Type) -> Option<Option<Type>>;
pub uninterp spec fn ann_of(a: Seq<syn::Attribute>) -> Option<AnnotationSet>;
pub uninterp spec fn doc_of(a: Seq<syn::Attribute>) -> Documentation;
pub uninterp spec fn cfg_of(a: Seq<syn::Attribute>) -> Option<Cfg>;
pub uninterp spec fn cfg_both(a: Option<Cfg>, b: Option<Cfg>) -> Option<Cfg>;
/// `Self` replaced by the type of the impl block
pub uninterp spec fn selfed(t: Type, p: Path) -> Type;
pub open spec fn oc(c: Option<&Cfg>) -> Option<Cfg> { match c { Some(c) => Some(*c), None => None } }
pub open spec fn loaded<T>(r: Result<T, String>, o: Option<T>) -> bool { match o { Some(x) => r matches Ok(y) && y == x, None => r is Err } }
impl Type {
    #[verifier::external_body]
    pub fn load(t: &syn::Type) -> (r: Result<Option<Type>, String>) ensures loaded(r, ty_of(*t)) { unimplemented!() }
    #[verifier::external_body]
    pub fn load_from_output(o: &syn::ReturnType) -> (r: Result<(Type, bool), String>) ensures loaded(r, out_of(*o)) { unimplemented!() }
    #[verifier::external_body]
    pub fn replace_self_with(&mut self, p: &Path) ensures *final(self) == selfed(*old(self), *p) { unimplemented!() }
}
impl Cfg {
    #[verifier::external_body]
    pub fn load(attrs: &[syn::Attribute]) -> (r: Option<Cfg>) ensures r == cfg_of(attrs@) { unimplemented!() }
    #[verifier::external_body]
    pub fn append(a: Option<&Cfg>, b: Option<Cfg>) -> (r: Option<Cfg>) ensures r == cfg_both(oc(a), b) { unimplemented!() }
}
impl AnnotationSet {
    #[verifier::external_body]
    pub fn load(attrs: &[syn::Attribute]) -> (r: Result<AnnotationSet, String>) ensures loaded(r, ann_of(attrs@)) { unimplemented!() }
}
impl Documentation {
    #[verifier::external_body]
    pub fn load(attrs: &[syn::Attribute]) -> (r: Documentation) ensures r == doc_of(attrs@) { unimplemented!() }
}

// ---------------- specification ----------------
/// a C variable argument list
pub open spec fn va_list() -> FunctionArgument { FunctionArgument { name: None, ty: Type::Primitive(PrimitiveType::VaList), array_length: None } }
/// the arguments that exist in C, in order
pub open spec fn args_upto(v: Seq<syn::FnArg>, n: nat) -> Seq<FunctionArgument> decreases n {
    if n == 0 { Seq::empty() } else {
        let r = args_upto(v, (n - 1) as nat);
        match arg_of(v[n - 1])->0 { Some(a) => r.push(a), None => r }
    }
}
pub open spec fn args_ok(v: Seq<syn::FnArg>, n: nat) -> bool { forall|i: int| 0 <= i < n ==> arg_of(#[trigger] v[i]) is Some }
pub open spec fn args_of(v: Vec<syn::FnArg>) -> Seq<FunctionArgument> { args_upto(v@, v@.len()) }
pub open spec fn declared_args(s: syn::Signature) -> Seq<FunctionArgument> {
    if s.variadic is Some { args_of(s.inputs).push(va_list()) } else { args_of(s.inputs) }
}
pub open spec fn sub_ty(t: Type, st: Option<&Path>) -> Type { match st { Some(p) => selfed(t, *p), None => t } }
pub open spec fn representable(s: syn::Signature, attrs: Seq<syn::Attribute>) -> bool {
    args_ok(s.inputs@, s.inputs@.len()) && out_of(s.output) is Some && ann_of(attrs) is Some
}
/// the declaration carries over: its symbol, every argument in order, the result, its condition, annotations and documentation
pub open spec fn is_decl(f: Function, path: Path, st: Option<&Path>, s: syn::Signature, ext: bool, attrs: Seq<syn::Attribute>, mc: Option<&Cfg>) -> bool {
    &&& f.path == path
    &&& (f.self_type_path is Some <==> st is Some) && (st is Some ==> f.self_type_path->0 == *st->0)
    &&& f.args@.len() == declared_args(s).len()
    &&& forall|i: int| 0 <= i < f.args@.len() ==> {
            &&& (#[trigger] f.args@[i]).name == declared_args(s)[i].name
            &&& f.args@[i].array_length == declared_args(s)[i].array_length
            &&& f.args@[i].ty == sub_ty(declared_args(s)[i].ty, st)
        }
    &&& f.ret == sub_ty((out_of(s.output)->0).0, st) && f.never_return == (out_of(s.output)->0).1
    &&& f.extern_decl == ext
    &&& f.cfg == cfg_both(oc(mc), cfg_of(attrs))
    &&& f.annotations == ann_of(attrs)->0
    &&& f.documentation == doc_of(attrs)
}
pub open spec fn static_ok(i: syn::ItemStatic) -> bool { ty_of(i.ty) is Some && ty_of(i.ty)->0 is Some && ann_of(i.attrs@) is Some }
pub open spec fn is_static(g: Static, path: Path, i: syn::ItemStatic, mc: Option<&Cfg>) -> bool {
    &&& g.path == path && g.export_name@ == path.name@
    &&& g.ty == ty_of(i.ty)->0->0
    &&& g.mutable == (i.mutability is Mut)
    &&& g.cfg == cfg_both(oc(mc), cfg_of(i.attrs@))
    &&& g.annotations == ann_of(i.attrs@)->0
    &&& g.documentation == doc_of(i.attrs@)
}

// ================= code under contract =================
impl Function {
//@fn src/bindgen/ir/function.rs Function::load r loops=2
    ensures
        r is Ok <==> representable(*sig, attrs@),
        r is Ok ==> is_decl(r->Ok_0, path, self_type_path, *sig, extern_decl, attrs@, mod_cfg),
//@subst super::PrimitiveType => PrimitiveType
//@loop 0 rty=Vec<FunctionArgument>
    __s0@ == sig.inputs@, args_ok(sig.inputs@, __i0 as nat), __r0@ =~= args_upto(sig.inputs@, __i0 as nat),
//@loop 0 pre
    proof { assert(__s0@[__i0 as int] == sig.inputs@[__i0 as int]); }
//@loop 1
    __s1@.len() == declared_args(*sig).len(),
    forall|j: int| 0 <= j < __i1 ==> (#[trigger] __s1@[j]).name == declared_args(*sig)[j].name && __s1@[j].array_length == declared_args(*sig)[j].array_length
        && __s1@[j].ty == selfed(declared_args(*sig)[j].ty, *self_path),
    __g1 =~= declared_args(*sig),
//@end
}
impl Static {
//@fn src/bindgen/ir/global.rs Static::new r
    ensures r.path == path, r.export_name@ == path.name@, r.ty == ty, r.mutable == mutable, r.cfg == cfg, r.annotations == annotations, r.documentation == documentation,
//@end
//@fn src/bindgen/ir/global.rs Static::load r
    ensures
        r is Ok <==> static_ok(*item),
        r is Ok ==> is_static(r->Ok_0, path, *item, mod_cfg),
//@end
}
} // verus!
fn main() {}
