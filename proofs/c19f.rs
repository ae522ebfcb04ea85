//@include prelude.inc
//@include ty_types.inc
verus! {
//@include ty_basic.inc
#[verifier::external_body] pub struct AnnotationSet { _p: () }
#[verifier::external_body] pub struct Documentation { _p: () }
#[verifier::external_body] pub struct Cfg { _p: () }
#[verifier::external_body] pub struct Literal { _p: () }
//@type src/bindgen/ir/constant.rs Constant
pub mod syn {
#[verifier::external_body] pub struct Attribute { _p: () }
#[verifier::external_body] pub struct Type { _p: () }
#[verifier::external_body] pub struct Expr { _p: () }
}
// what the parts of an item are loaded as: functions of the source
// (Type::load: c01b, Literal::load: c15, Documentation::load: c23b, Cfg::load: c06c, AnnotationSet::load: c16b)
pub uninterp spec fn ty_of(t: syn::Type) -> Option<Option<Type>>;
pub uninterp spec fn lit_of(e: syn::Expr) -> Option<Literal>;
pub uninterp spec fn ann_of(a: Seq<syn::Attribute>) -> Option<AnnotationSet>;
pub uninterp spec fn doc_of(a: Seq<syn::Attribute>) -> Documentation;
pub uninterp spec fn cfg_of(a: Seq<syn::Attribute>) -> Option<Cfg>;
pub uninterp spec fn cfg_both(a: Option<Cfg>, b: Option<Cfg>) -> Option<Cfg>;
pub uninterp spec fn selfed(t: Type, me: Path) -> Type;
pub uninterp spec fn lit_selfed(t: Literal, me: Path) -> Literal;
pub open spec fn oc(c: Option<&Cfg>) -> Option<Cfg> { match c { Some(c) => Some(*c), None => None } }
pub open spec fn loaded<T>(r: Result<T, String>, o: Option<T>) -> bool { match o { Some(x) => r matches Ok(y) && y == x, None => r is Err } }
impl Type {
    #[verifier::external_body] pub fn load(t: &syn::Type) -> (r: Result<Option<Type>, String>) ensures loaded(r, ty_of(*t)) { unimplemented!() }
    #[verifier::external_body] pub fn replace_self_with(&mut self, p: &Path) ensures *final(self) == selfed(*old(self), *p) { unimplemented!() }
}
impl Literal {
    #[verifier::external_body] pub fn load(e: &syn::Expr) -> (r: Result<Literal, String>) ensures loaded(r, lit_of(*e)) { unimplemented!() }
    #[verifier::external_body] pub fn replace_self_with(&mut self, p: &Path) ensures *final(self) == lit_selfed(*old(self), *p) { unimplemented!() }
}
impl Cfg {
    #[verifier::external_body] pub fn load(attrs: &[syn::Attribute]) -> (r: Option<Cfg>) ensures r == cfg_of(attrs@) { unimplemented!() }
    #[verifier::external_body] pub fn append(a: Option<&Cfg>, b: Option<Cfg>) -> (r: Option<Cfg>) ensures r == cfg_both(oc(a), b) { unimplemented!() }
}
impl AnnotationSet { #[verifier::external_body] pub fn load(attrs: &[syn::Attribute]) -> (r: Result<AnnotationSet, String>) ensures loaded(r, ann_of(attrs@)) { unimplemented!() } }
impl Documentation { #[verifier::external_body] pub fn load(attrs: &[syn::Attribute]) -> (r: Documentation) ensures r == doc_of(attrs@) { unimplemented!() } }
/// str::strip_suffix
pub open spec fn ends(s: Seq<char>, t: Seq<char>) -> bool { s.len() >= t.len() && s.skip(s.len() - t.len()) == t }
pub trait VxStrip { spec fn sv(&self) -> Seq<char>; fn vx_strip_suffix(&self, t: &str) -> (r: Option<&str>)
    ensures r is Some <==> ends(self.sv(), t@), r matches Some(x) ==> x@ == self.sv().take(self.sv().len() - t@.len()); }
impl VxStrip for str { open spec fn sv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_strip_suffix(&self, t: &str) -> (r: Option<&str>) { self.strip_suffix(t) } }
pub open spec fn out_name(path: Path, to: Option<Path>) -> Seq<char> { match to { Some(t) => path.name@.take(path.name@.len() - t.name@.len()), None => path.name@ } }
pub open spec fn const_ok(ty: syn::Type, e: syn::Expr, a: Seq<syn::Attribute>) -> bool { ty_of(ty) is Some && ty_of(ty)->0 is Some && lit_of(e) is Some && ann_of(a) is Some }
/// a constant has its own type and value - with `Self` the type it belongs to -, condition, annotations and documentation
pub open spec fn is_const_of(r: Constant, path: Path, mc: Option<&Cfg>, ty: syn::Type, e: syn::Expr, a: Seq<syn::Attribute>, to: Option<Path>) -> bool {
    &&& r.path == path && r.associated_to == to && r.export_name@ == out_name(path, to)
    &&& r.ty == (match to { Some(t) => selfed(ty_of(ty)->0->0, t), None => ty_of(ty)->0->0 })
    &&& r.value == (match to { Some(t) => lit_selfed(lit_of(e)->0, t), None => lit_of(e)->0 })
    &&& r.cfg == cfg_both(oc(mc), cfg_of(a)) && r.annotations == ann_of(a)->0 && r.documentation == doc_of(a)
}

// ================= code under contract =================
impl Constant {
//@fn src/bindgen/ir/constant.rs Constant::new r
    requires associated_to matches Some(t) ==> ends(path.name@, t.name@),
    ensures r.path == path, r.ty == ty, r.value == value, r.cfg == cfg, r.annotations == annotations, r.documentation == documentation,
        r.associated_to == associated_to, r.export_name@ == out_name(path, associated_to),
//@subst .strip_suffix( => .vx_strip_suffix(
//@end
//@fn src/bindgen/ir/constant.rs Constant::load r
    requires associated_to matches Some(t) ==> ends(path.name@, t.name@),
    ensures
        r is Ok <==> const_ok(*ty, *expr, attrs@),
        r matches Ok(c) ==> is_const_of(c, path, mod_cfg, *ty, *expr, attrs@, associated_to),
//@end
}
} // verus!
fn main() {}
