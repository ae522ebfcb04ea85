// Parts of the loaders' specifications shared by c19d and c19e.
// ---------------- syn (dependency): the parts read here ----------------
pub mod syn {
use super::*;
#[verifier::external_body] pub struct Tokens { _p: () }
#[verifier::external_body] pub struct Attribute { _p: () }
#[verifier::external_body] pub struct Generics { _p: () }
#[verifier::external_body] pub struct Type { _p: () }
pub struct Ident { pub s: String }
/// IdentExt::unraw: the identifier without r#
pub uninterp spec fn unraw_of(s: Seq<char>) -> Seq<char>;
impl Ident { #[verifier::external_body] pub fn unraw(&self) -> (r: &Ident) ensures r.s@ == unraw_of(self.s@) { unimplemented!() } }
impl VxOwned for Ident { type O = String; open spec fn owned_rel(&self, o: String) -> bool { o@ == self.s@ } }
pub struct Field { pub attrs: Vec<Attribute>, pub ident: Option<Ident>, pub ty: Type }
pub struct FieldsNamed { pub named: Vec<Field>, pub brace_token: Tokens }
pub struct FieldsUnnamed { pub unnamed: Vec<Field>, pub paren_token: Tokens }
pub enum Fields { Named(FieldsNamed), Unnamed(FieldsUnnamed), Unit }
pub struct ItemStruct { pub attrs: Vec<Attribute>, pub ident: Ident, pub fields: Fields, pub generics: Generics }
pub struct ItemUnion { pub attrs: Vec<Attribute>, pub ident: Ident, pub fields: FieldsNamed, pub generics: Generics }
pub struct Variant { pub attrs: Vec<Attribute>, pub ident: Ident, pub fields: Fields, pub discriminant: Option<(Tokens, Expr)> }
#[verifier::external_body] pub struct Expr { _p: () }
pub struct ItemEnum { pub attrs: Vec<Attribute>, pub ident: Ident, pub generics: Generics, pub variants: Vec<Variant> }
pub struct ItemType { pub attrs: Vec<Attribute>, pub ident: Ident, pub ty: Box<Type>, pub generics: Generics }
}
// ---------------- what the parts of an item are loaded as: functions of the source ----------------
// (Type::load: c01b, Documentation::load: c23b, Cfg::load: c06c, Repr::load: c14, replace_self_with: c04)
pub uninterp spec fn ty_of(t: syn::Type) -> Option<Option<Type>>;
pub uninterp spec fn ann_of(a: Seq<syn::Attribute>) -> Option<AnnotationSet>;
pub uninterp spec fn no_ann() -> AnnotationSet;
pub uninterp spec fn doc_of(a: Seq<syn::Attribute>) -> Documentation;
pub uninterp spec fn cfg_of(a: Seq<syn::Attribute>) -> Option<Cfg>;
pub uninterp spec fn cfg_both(a: Option<Cfg>, b: Option<Cfg>) -> Option<Cfg>;
pub uninterp spec fn params_of(g: syn::Generics) -> Option<GenericParams>;
pub uninterp spec fn repr_of(a: Seq<syn::Attribute>) -> Option<Repr>;
pub uninterp spec fn safe(c: LayoutConfig, a: ReprAlign) -> bool;
/// `Self` replaced by the type itself
pub uninterp spec fn selfed(t: Type, name: Seq<char>) -> Type;
pub open spec fn oc(c: Option<&Cfg>) -> Option<Cfg> { match c { Some(c) => Some(*c), None => None } }
pub open spec fn loaded<T>(r: Result<T, String>, o: Option<T>) -> bool { match o { Some(x) => r matches Ok(y) && y == x, None => r is Err } }
impl Type {
    #[verifier::external_body]
    pub fn load(t: &syn::Type) -> (r: Result<Option<Type>, String>) ensures loaded(r, ty_of(*t)) { unimplemented!() }
    #[verifier::external_body]
    pub fn replace_self_with(&mut self, p: &Path) ensures *final(self) == selfed(*old(self), p.name@) { unimplemented!() }
}
impl Cfg {
    #[verifier::external_body]
    pub fn load(attrs: &[syn::Attribute]) -> (r: Option<Cfg>) ensures r == cfg_of(attrs@) { unimplemented!() }
    #[verifier::external_body]
    pub fn append(a: Option<&Cfg>, b: Option<Cfg>) -> (r: Option<Cfg>) ensures r == cfg_both(oc(a), b) { unimplemented!() }
}
impl AnnotationSet {
    #[verifier::external_body]
    pub fn load(attrs: &[syn::Attribute]) -> (r: Result<AnnotationSet, String>) ensures loaded(r, ann_of(attrs@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: AnnotationSet) ensures r == no_ann() { unimplemented!() }
}
impl Documentation {
    #[verifier::external_body]
    pub fn load(attrs: &[syn::Attribute]) -> (r: Documentation) ensures r == doc_of(attrs@) { unimplemented!() }
}
impl GenericParams {
    #[verifier::external_body]
    pub fn load(g: &syn::Generics) -> (r: Result<GenericParams, String>) ensures loaded(r, params_of(*g)) { unimplemented!() }
}
impl Repr {
    #[verifier::external_body]
    pub fn load(attrs: &[syn::Attribute]) -> (r: Result<Repr, String>) ensures loaded(r, repr_of(attrs@)) { unimplemented!() }
}
impl LayoutConfig {
    #[verifier::external_body]
    pub fn ensure_safe_to_represent(&self, a: &ReprAlign) -> (r: Result<(), String>) ensures r is Ok <==> safe(*self, *a) { unimplemented!() }
}

// ---------------- specification ----------------
/// the decimal text of a number
pub uninterp spec fn dec(n: int) -> Seq<char>;
#[verifier::external_body] pub fn vx_add(a: i32, b: i32) -> (r: i32) ensures r == a + b { unimplemented!() }
impl VxDisp for i32 { open spec fn disp(&self) -> Seq<char> { dec(*self as int) } }
/// a field whose type exists in C is loaded as itself: name, type, condition, annotations, documentation
pub open spec fn is_field(f: Field, s: syn::Field, me: Seq<char>, name: Seq<char>) -> bool {
    &&& f.name@ == name
    &&& f.ty == selfed(ty_of(s.ty)->0->0, me)
    &&& f.cfg == cfg_of(s.attrs@)
    &&& f.annotations == ann_of(s.attrs@)->0
    &&& f.documentation == doc_of(s.attrs@)
}
/// the field has a representation in C (PhantomData and () have none and vanish)
pub open spec fn kept(s: syn::Field) -> bool { ty_of(s.ty)->0 is Some }
pub open spec fn field_ok(s: syn::Field, named: bool) -> bool {
    ty_of(s.ty) is Some && (ty_of(s.ty)->0 is Some ==> (named ==> s.ident is Some) && ann_of(s.attrs@) is Some)
}
pub open spec fn fields_ok(v: Seq<syn::Field>, named: bool, n: nat) -> bool { forall|i: int| 0 <= i < n ==> field_ok(#[trigger] v[i], named) }
/// how many of the first n fields are kept
pub open spec fn nkept(v: Seq<syn::Field>, n: nat) -> nat decreases n {
    if n == 0 { 0 } else { nkept(v, (n - 1) as nat) + if kept(v[n - 1]) { 1nat } else { 0 } }
}
/// r holds the kept ones of the first n fields, in order; members of tuple structs are numbered from 0
pub open spec fn fields_are(r: Seq<Field>, v: Seq<syn::Field>, me: Seq<char>, named: bool, n: nat) -> bool {
    &&& r.len() == nkept(v, n)
    &&& forall|i: int| 0 <= i < n && kept(#[trigger] v[i]) ==> is_field(r[nkept(v, i as nat) as int], v[i], me,
            if named { syn::unraw_of(v[i].ident->0.s@) } else { dec(nkept(v, i as nat) as int) })
}
proof fn lemma_kept(v: Seq<syn::Field>, a: nat, b: nat)
    requires a <= b ensures nkept(v, a) <= nkept(v, b), a < b && kept(v[a as int]) ==> nkept(v, a) < nkept(v, b), nkept(v, b) <= b
    decreases b
{
    if a < b { lemma_kept(v, a, (b - 1) as nat); } else if b > 0 { lemma_kept(v, (b - 1) as nat, (b - 1) as nat); }
}
/// one more field read
proof fn lemma_step(r0: Seq<Field>, r: Seq<Field>, v: Seq<syn::Field>, me: Seq<char>, named: bool, n: nat)
    requires fields_are(r0, v, me, named, n), n < v.len(),
        kept(v[n as int]) ==> r.len() == r0.len() + 1 && r.drop_last() == r0 && is_field(r.last(), v[n as int], me, if named { syn::unraw_of(v[n as int].ident->0.s@) } else { dec(r0.len() as int) }),
        !kept(v[n as int]) ==> r == r0,
    ensures fields_are(r, v, me, named, (n + 1) as nat),
{
    assert forall|i: int| 0 <= i < n + 1 && kept(#[trigger] v[i]) implies is_field(r[nkept(v, i as nat) as int], v[i], me, if named { syn::unraw_of(v[i].ident->0.s@) } else { dec(nkept(v, i as nat) as int) }) by {
        if i < n {
            lemma_kept(v, i as nat, n);
            assert(r[nkept(v, i as nat) as int] == r0[nkept(v, i as nat) as int]);
        }
    }
}
