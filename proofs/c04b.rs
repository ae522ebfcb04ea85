//@include prelude.inc
//@include ty_types.inc
verus! {
// ---------------- syn (dependency): the parts read here ----------------
pub mod syn {
use super::*;
#[verifier::external_body] pub struct Tokens { _p: () }
#[verifier::external_body] pub struct Type { _p: () }
#[verifier::external_body] pub struct Expr { _p: () }
pub struct Ident { pub s: String }
pub uninterp spec fn unraw_of(s: Seq<char>) -> Seq<char>;
impl Ident { #[verifier::external_body] pub fn unraw(&self) -> (r: &Ident) ensures r.s@ == unraw_of(self.s@) { unimplemented!() } }
impl VxOwned for Ident { type O = String; open spec fn owned_rel(&self, o: String) -> bool { o@ == self.s@ } }
pub struct TypeParam { pub ident: Ident, pub default: Option<(Tokens, Type)>, pub rest: Tokens }
pub struct ConstParam { pub ident: Ident, pub ty: Type, pub default: Option<(Tokens, Expr)>, pub rest: Tokens }
pub enum GenericParam { Lifetime(Tokens), Type(TypeParam), Const(ConstParam) }
pub struct Generics { pub params: Vec<GenericParam> }
}
pub uninterp spec fn ty_of(t: syn::Type) -> Option<Option<Type>>;
pub uninterp spec fn expr_of(e: syn::Expr) -> Option<ConstExpr>;
pub open spec fn loaded<T>(r: Result<T, String>, o: Option<T>) -> bool { match o { Some(x) => r matches Ok(y) && y == x, None => r is Err } }
impl Type { #[verifier::external_body] pub fn load(t: &syn::Type) -> (r: Result<Option<Type>, String>) ensures loaded(r, ty_of(*t)) { unimplemented!() } }
impl ConstExpr { #[verifier::external_body] pub fn load(e: &syn::Expr) -> (r: Result<ConstExpr, String>) ensures loaded(r, expr_of(*e)) { unimplemented!() } }
/// Option::transpose
pub fn vx_transpose<T>(o: Option<Result<T, String>>) -> (r: Result<Option<T>, String>)
    ensures r == (match o { None => Ok::<Option<T>, String>(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) })
{ match o { None => Ok(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) } }
pub trait VxTranspose<T> { spec fn ov(self) -> Option<Result<T, String>>; fn vx_transpose(self) -> (r: Result<Option<T>, String>) where Self: Sized
    ensures r == (match self.ov() { None => Ok::<Option<T>, String>(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) }); }
impl<T> VxTranspose<T> for Option<Result<T, String>> {
    open spec fn ov(self) -> Option<Result<T, String>> { self }
    fn vx_transpose(self) -> (r: Result<Option<T>, String>) { vx_transpose(self) }
}

// ---------------- specification ----------------
pub open spec fn param_ok(p: syn::GenericParam) -> bool {
    match p {
        syn::GenericParam::Lifetime(_) => true,
        syn::GenericParam::Type(t) => t.default matches Some(d) ==> ty_of(d.1) is Some,
        syn::GenericParam::Const(c) => ty_of(c.ty) is Some && ty_of(c.ty)->0 is Some && (c.default matches Some(d) ==> expr_of(d.1) is Some),
    }
}
/// a parameter keeps its name, its kind and its default (a default of no size stands for nothing: void)
pub open spec fn is_param(r: GenericParam, p: syn::GenericParam) -> bool {
    match p {
        syn::GenericParam::Lifetime(_) => false,
        syn::GenericParam::Type(t) => r.name.name@ == syn::unraw_of(t.ident.s@) && r.ty is Type
            && r.default == (match t.default { None => None, Some(d) => Some(match ty_of(d.1)->0 { Some(x) => GenericArgument::Type(x), None => GenericArgument::Type(Type::Primitive(PrimitiveType::Void)) }) }),
        syn::GenericParam::Const(c) => r.name.name@ == syn::unraw_of(c.ident.s@) && r.ty == GenericParamType::Const(ty_of(c.ty)->0->0)
            && r.default == (match c.default { None => None, Some(d) => Some(GenericArgument::Const(expr_of(d.1)->0)) }),
    }
}
/// the parameters that are not lifetimes, among the first n
pub open spec fn real(v: Seq<syn::GenericParam>, n: nat) -> Seq<syn::GenericParam>
    decreases n
{ if n == 0 { Seq::empty() } else if v[n - 1] is Lifetime { real(v, (n - 1) as nat) } else { real(v, (n - 1) as nat).push(v[n - 1]) } }
pub open spec fn params_ok(v: Seq<syn::GenericParam>, n: nat) -> bool { forall|i: int| 0 <= i < n ==> param_ok(#[trigger] v[i]) }
pub open spec fn are_params(r: Seq<GenericParam>, v: Seq<syn::GenericParam>) -> bool { r.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> is_param(#[trigger] r[i], v[i]) }

// ================= code under contract =================
impl Path {
//@fn src/bindgen/ir/path.rs Path::new r
    ensures r.name@ == name@,
//@sig pub fn new(name: String) -> (r: Path)
//@subst name.into() => name
//@end
}
//@gsubst .transpose() => .vx_transpose()
impl GenericParam {
//@fn src/bindgen/ir/generic_path.rs GenericParam::load r
    ensures r is Ok <==> param_ok(*param), r matches Ok(o) ==> (o is None <==> *param is Lifetime) && (o matches Some(p) ==> is_param(p, *param)),
//@end
}
impl GenericParams {
//@fn src/bindgen/ir/generic_path.rs GenericParams::load r loops=1
    ensures r is Ok <==> params_ok(generics.params@, generics.params@.len()), r matches Ok(ps) ==> are_params(ps.0@, real(generics.params@, generics.params@.len())),
//@loop 0
    params_ok(generics.params@, __i0 as nat), are_params(params@, real(generics.params@, __i0 as nat)), __s0@ == generics.params@,
//@loop 0 pre
    let ghost r0 = params@;
    proof { assert(__s0@[__i0 - 1] == generics.params@[__i0 - 1]); }
//@loop 0 post
    proof {
        let v = generics.params@;
        assert forall|i: int| 0 <= i < real(v, __i0 as nat).len() implies is_param(#[trigger] params@[i], real(v, __i0 as nat)[i]) by { if i < r0.len() { assert(params@[i] == r0[i]); } }
    }
//@end
}
} // verus!
fn main() {}
