//@include prelude.inc
//@include ty_types.inc
verus! {
//@include ty_basic.inc
//@include items_opaque.inc
//@type src/bindgen/ir/repr.rs ReprStyle derive=Clone,Copy
//@type src/bindgen/ir/repr.rs ReprType derive=Clone,Copy
//@type src/bindgen/ir/repr.rs Repr derive=Clone,Copy
impl PartialEq for ReprStyle { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl PartialEqSpecImpl for ReprStyle {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
//@type src/bindgen/config.rs Language derive=Clone,Copy
impl PartialEq for Language { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl PartialEqSpecImpl for Language {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
//@type src/bindgen/ir/enumeration.rs VariantBody
//@type src/bindgen/ir/enumeration.rs EnumVariant
//@type src/bindgen/ir/enumeration.rs Enum
//@type src/bindgen/ir/annotation.rs AnnotationValue
//@type src/bindgen/rename.rs RenameRule
//@type src/bindgen/config.rs EnumConfig keep=rename_variant_name_fields,add_sentinel
//@type src/bindgen/config.rs Config keep=language,enumeration
#[verifier::external_body] pub struct LayoutConfig { _p: () }
pub enum IdentifierType { StructMember, Other }
//@include loadparts.inc
impl VxDisp for syn::Ident { open spec fn disp(&self) -> Seq<char> { self.s@ } }
#[verifier::external_body] pub fn vx_dec(n: usize) -> (r: String) ensures r@ == dec(n as int) { unimplemented!() }
pub trait VxName { spec fn text(&self) -> Seq<char>; fn vx_into(self) -> (r: String) where Self: Sized ensures r@ == self.text(); }
impl VxName for String { open spec fn text(&self) -> Seq<char> { self@ } fn vx_into(self) -> (r: String) { self } }
impl<'a> VxName for &'a str { open spec fn text(&self) -> Seq<char> { (*self)@ } #[verifier::external_body] fn vx_into(self) -> (r: String) { self.to_owned() } }
/// what a discriminant's expression is loaded as (property C15)
pub uninterp spec fn lit_of(e: syn::Expr) -> Option<Literal>;
pub uninterp spec fn lit_selfed(l: Literal, me: Seq<char>) -> Literal;
impl Literal {
    #[verifier::external_body]
    pub fn load(e: &syn::Expr) -> (r: Result<Literal, String>) ensures loaded(r, lit_of(*e)) { unimplemented!() }
    #[verifier::external_body]
    pub fn replace_self_with(&mut self, p: &Path) ensures *final(self) == lit_selfed(*old(self), p.name@) { unimplemented!() }
}
pub uninterp spec fn no_doc() -> Documentation;
pub uninterp spec fn simple_doc(s: Seq<char>) -> Documentation;
impl Documentation {
    #[verifier::external_body] pub fn none() -> (r: Documentation) ensures r == no_doc() { unimplemented!() }
    #[verifier::external_body] pub fn simple(s: &str) -> (r: Documentation) ensures r == simple_doc(s@) { unimplemented!() }
}
pub uninterp spec fn defaulted(a: AnnotationSet, name: Seq<char>, v: AnnotationValue) -> AnnotationSet;
impl AnnotationSet {
    pub uninterp spec fn bool_of(&self, name: Seq<char>) -> Option<bool>;
    pub uninterp spec fn list_of(&self, name: Seq<char>) -> Option<Vec<String>>;
    pub uninterp spec fn rule_of(&self, name: Seq<char>) -> Option<RenameRule>;
    #[verifier::external_body] pub fn bool(&self, name: &str) -> (r: Option<bool>) ensures r == self.bool_of(name@) { unimplemented!() }
    #[verifier::external_body] pub fn list(&self, name: &str) -> (r: Option<Vec<String>>) ensures r == self.list_of(name@) { unimplemented!() }
    #[verifier::external_body] pub fn parse_rule(&self, name: &str) -> (r: Option<RenameRule>) ensures r == self.rule_of(name@) { unimplemented!() }
    #[verifier::external_body] pub fn add_default(&mut self, name: &str, value: AnnotationValue) ensures *final(self) == defaulted(*old(self), name@, value) { unimplemented!() }
}
pub uninterp spec fn applied(r: RenameRule, text: Seq<char>, ctx: IdentifierType) -> Seq<char>;
pub struct CowStr { pub s: String }
impl CowStr { pub fn into_owned(self) -> (r: String) ensures r == self.s { self.s } }
impl RenameRule {
    #[verifier::external_body] pub fn apply(&self, text: &str, context: IdentifierType) -> (r: CowStr) ensures r.s@ == applied(*self, text@, context) { unimplemented!() }
}

// ---------------- specification ----------------
/// the name of the i-th field of a variant: its own, its number, or - for a single unnamed field laid out inline - the variant's
pub open spec fn vfield_name(s: syn::Field, i: int, inl: Option<Seq<char>>) -> Seq<char> {
    match inl { Some(n) => n, None => match s.ident { Some(id) => syn::unraw_of(id.s@), None => dec(i) } }
}
pub open spec fn ntag(tagged: bool) -> nat { if tagged { 1 } else { 0 } }
pub open spec fn is_tag_field(f: Field, inl: Option<Seq<char>>) -> bool {
    &&& f.name@ == (match inl { Some(n) => n + "_tag"@, None => "tag"@ })
    &&& f.ty matches Type::Path(g) && g.path.name@ == "Tag"@ && g.export_name@ == "Tag"@ && g.generics@.len() == 0 && g.ctype is None
    &&& f.cfg is None && f.annotations == no_ann() && f.documentation == no_doc()
}
/// r is the tag (if every variant repeats it), then the kept ones of the first n fields in order
pub open spec fn vfields_are(r: Seq<Field>, v: Seq<syn::Field>, me: Seq<char>, tagged: bool, inl: Option<Seq<char>>, n: nat) -> bool {
    &&& r.len() == ntag(tagged) + nkept(v, n)
    &&& tagged ==> is_tag_field(r[0], inl)
    &&& forall|i: int| 0 <= i < n && kept(#[trigger] v[i]) ==> is_field(r[(ntag(tagged) + nkept(v, i as nat)) as int], v[i], me, vfield_name(v[i], i, inl))
}
proof fn lemma_vstep(r0: Seq<Field>, r: Seq<Field>, v: Seq<syn::Field>, me: Seq<char>, tagged: bool, inl: Option<Seq<char>>, n: nat)
    requires vfields_are(r0, v, me, tagged, inl, n), n < v.len(),
        kept(v[n as int]) ==> r.len() == r0.len() + 1 && r.drop_last() == r0 && is_field(r.last(), v[n as int], me, vfield_name(v[n as int], n as int, inl)),
        !kept(v[n as int]) ==> r == r0,
    ensures vfields_are(r, v, me, tagged, inl, (n + 1) as nat),
{
    if tagged && kept(v[n as int]) { assert(r[0] == r.drop_last()[0]); }
    assert forall|i: int| 0 <= i < n + 1 && kept(#[trigger] v[i]) implies is_field(r[(ntag(tagged) + nkept(v, i as nat)) as int], v[i], me, vfield_name(v[i], i, inl)) by {
        if i < n {
            lemma_kept(v, i as nat, n);
            let k = (ntag(tagged) + nkept(v, i as nat)) as int;
            if kept(v[n as int]) { assert(r[k] == r.drop_last()[k]); }
            assert(r[k] == r0[k]);
        }
    }
}
/// the annotations of a variant: its own, and what the enum says about the generated methods
pub open spec fn dflt(a: AnnotationSet, e: AnnotationSet, name: Seq<char>) -> AnnotationSet {
    match e.bool_of(name) { Some(b) => defaulted(a, name, AnnotationValue::Bool(b)), None => a }
}
pub open spec fn vann(s: syn::Variant, e: AnnotationSet) -> AnnotationSet { dflt(dflt(ann_of(s.attrs@)->0, e, "derive-ostream"@), e, "derive-eq"@) }
pub open spec fn vname(s: syn::Variant, e: AnnotationSet, c: Config) -> Seq<char> {
    applied(match e.rule_of("rename-variant-name-fields"@) { Some(r) => r, None => c.enumeration.rename_variant_name_fields }, syn::unraw_of(s.ident.s@), IdentifierType::StructMember)
}
pub open spec fn vfields(f: syn::Fields) -> Seq<syn::Field> { match f { syn::Fields::Named(x) => x.named@, syn::Fields::Unnamed(x) => x.unnamed@, syn::Fields::Unit => Seq::empty() } }
pub open spec fn variant_ok(s: syn::Variant) -> bool {
    &&& s.discriminant matches Some(d) ==> lit_of(d.1) is Some
    &&& ann_of(s.attrs@) is Some
    &&& fields_ok(vfields(s.fields), false, vfields(s.fields).len())
}
pub open spec fn is_variant(v: EnumVariant, s: syn::Variant, tagged: bool, g: GenericParams, mc: Option<&Cfg>, me: Seq<char>, e: AnnotationSet, c: Config) -> bool {
    &&& v.name@ == syn::unraw_of(s.ident.s@) && v.export_name@ == v.name@
    &&& v.discriminant == (match s.discriminant { Some(d) => Some(lit_selfed(lit_of(d.1)->0, me)), None => None })
    &&& v.cfg == cfg_both(oc(mc), cfg_of(s.attrs@))
    &&& v.documentation == doc_of(s.attrs@)
    &&& match v.body {
        VariantBody::Empty(a) => s.fields is Unit && a == vann(s, e),
        VariantBody::Body { name, body, inline, inline_casts } => {
            let fs = vfields(s.fields);
            &&& !(s.fields is Unit)
            &&& name@ == vname(s, e, c)
            &&& inline_casts == (s.fields is Unnamed && fs.len() == 1)
            &&& inline == (inline_casts && !(c.language is Cxx))
            &&& body.path.name@ == syn::unraw_of(s.ident.s@) + "_Body"@
            &&& body.generic_params == g
            &&& body.has_tag_field == tagged && body.is_enum_variant_body && body.alignment is None && !body.is_transparent && body.cfg is None
            &&& body.annotations == vann(s, e) && body.documentation == no_doc()
            &&& vfields_are(body.fields@, fs, me, tagged, if inline { Some(name@) } else { None }, fs.len())
        }
    }
}
pub open spec fn repr_ok(a: Seq<syn::Attribute>) -> bool {
    repr_of(a) is Some && !(repr_of(a)->0.style is Rust && repr_of(a)->0.ty is None) && repr_of(a)->0.align is None
}
pub open spec fn variants_ok(v: Seq<syn::Variant>, n: nat) -> bool { forall|i: int| 0 <= i < n ==> variant_ok(#[trigger] v[i]) }
pub open spec fn enum_ok(i: syn::ItemEnum) -> bool {
    repr_ok(i.attrs@) && params_of(i.generics) is Some && ann_of(i.attrs@) is Some && variants_ok(i.variants@, i.variants@.len())
}
/// a variant that is not in the source: no value, no fields
pub open spec fn extra(v: EnumVariant, name: Seq<char>, d: Documentation) -> bool {
    v.name@ == name && v.export_name@ == name && v.discriminant is None && v.cfg is None && v.documentation == d
    && v.body == VariantBody::Empty(no_ann())
}
pub open spec fn own_variants(r: Seq<EnumVariant>, i: syn::ItemEnum, mc: Option<&Cfg>, c: Config, n: nat) -> bool {
    forall|k: int| 0 <= k < n ==> is_variant(#[trigger] r[k], i.variants@[k], !(repr_of(i.attrs@)->0.style is C), params_of(i.generics)->0, mc, syn::unraw_of(i.ident.s@), ann_of(i.attrs@)->0, c)
}
pub open spec fn trailing(i: syn::ItemEnum) -> Seq<String> { match ann_of(i.attrs@)->0.list_of("enum-trailing-values"@) { Some(l) => l@, None => Seq::empty() } }
pub open spec fn sentinel(i: syn::ItemEnum, c: Config) -> bool { match ann_of(i.attrs@)->0.bool_of("add-sentinel"@) { Some(b) => b, None => c.enumeration.add_sentinel } }
pub open spec fn with_data(v: Seq<syn::Variant>, n: nat) -> bool { exists|k: int| 0 <= k < n && !(#[trigger] v[k].fields is Unit) }
pub open spec fn is_enum(r: Enum, i: syn::ItemEnum, mc: Option<&Cfg>, c: Config) -> bool {
    let n = i.variants@.len() as int;
    let t = trailing(i);
    &&& r.path.name@ == syn::unraw_of(i.ident.s@) && r.export_name@ == r.path.name@
    &&& r.generic_params == params_of(i.generics)->0 && r.repr == repr_of(i.attrs@)->0
    &&& r.variants@.len() == n + t.len() + (if sentinel(i, c) { 1int } else { 0 })
    &&& own_variants(r.variants@, i, mc, c, n as nat)
    &&& forall|k: int| 0 <= k < t.len() ==> extra(#[trigger] r.variants@[n + k], t[k]@, no_doc())
    &&& sentinel(i, c) ==> extra(r.variants@.last(), "Sentinel"@, simple_doc(" Must be last for serialization purposes"@))
    &&& r.tag is Some <==> with_data(i.variants@, n as nat)
    &&& r.tag matches Some(x) ==> x@ == "Tag"@
    &&& r.cfg == cfg_both(oc(mc), cfg_of(i.attrs@))
    &&& r.annotations == ann_of(i.attrs@)->0
    &&& r.documentation == doc_of(i.attrs@)
}

// ================= code under contract =================
impl Path {
//@fn src/bindgen/ir/path.rs Path::new r
    ensures r.name@ == name.text(),
//@sig pub fn new<T: VxName>(name: T) -> (r: Path)
//@subst name.into() => name.vx_into()
//@end
}
impl Field {
    #[verifier::external_body] pub fn literal_name(&self) -> String { unimplemented!() }
//@fn src/bindgen/ir/field.rs Field::from_name_and_type r
    ensures r.name == name, r.ty == ty, r.cfg is None, r.annotations == no_ann(), r.documentation == no_doc(),
//@end
}
impl Struct {
//@fn src/bindgen/ir/structure.rs Struct::new r loops=1
    ensures r.path == path, r.export_name@ == path.name@, r.generic_params == generic_params, r.fields == fields,
        r.has_tag_field == has_tag_field, r.is_enum_variant_body == is_enum_variant_body, r.alignment == alignment,
        r.is_transparent == (is_transparent && fields@.len() > 0), r.cfg == cfg, r.annotations == annotations,
        r.documentation == documentation, r.associated_constants@.len() == 0,
//@loop 0 rty=Vec<String>
//@end
}
impl VariantBody {
//@fn src/bindgen/ir/enumeration.rs VariantBody::empty r
    ensures r matches VariantBody::Empty(a) && a == no_ann(),
//@end
//@fn src/bindgen/ir/enumeration.rs VariantBody::is_empty r
    ensures r == (*self is Empty),
//@end
}
impl EnumConfig {
//@fn src/bindgen/config.rs EnumConfig::add_sentinel r
    ensures r == (match annotations.bool_of("add-sentinel"@) { Some(b) => b, None => self.add_sentinel }),
//@end
}
//@fn src/bindgen/ir/enumeration.rs EnumVariant::load/parse_fields r loops=1
    ensures
        r is Ok <==> fields_ok(fields@, false, fields@.len()),
        r is Ok ==> vfields_are(r->Ok_0@, fields@, self_path.name@, inline_tag_field, match inline_name { Some(n) => Some(n@), None => None }, fields@.len()),
//@sig pub fn parse_fields(inline_tag_field: bool, fields: &Vec<syn::Field>, self_path: &Path, inline_name: Option<&str>) -> (r: Result<Vec<Field>, String>)
//@subst vx_to_owned(&*i) => vx_dec(i)
//@pre
    let ghost me = self_path.name@;
    let ghost fs = fields@;
    let ghost inl = match inline_name { Some(n) => Some(n@), None => None };
//@loop 0
    __s0@ == fs, me == self_path.name@, inl == (match inline_name { Some(n) => Some(n@), None => None }), fields_ok(fs, false, __i0 as nat), vfields_are(res@, fs, me, inline_tag_field, inl, __i0 as nat),
//@loop 0 pre
    let ghost r0 = res@;
    proof { assert(__s0@[__i0 - 1] == fs[__i0 - 1]); }
//@loop 0 post
    proof {
        if kept(fs[__i0 - 1]) { assert(res@.drop_last() =~= r0); }
        lemma_vstep(r0, res@, fs, me, inline_tag_field, inl, (__i0 - 1) as nat);
    }
//@end
impl EnumVariant {
//@fn src/bindgen/ir/enumeration.rs EnumVariant::new r
    ensures r.name == name, r.export_name@ == name@, r.discriminant == discriminant, r.body == body, r.cfg == cfg, r.documentation == documentation,
//@end
//@fn src/bindgen/ir/enumeration.rs EnumVariant::load r
    ensures
        r is Ok <==> variant_ok(*variant),
        r is Ok ==> is_variant(r->Ok_0, *variant, inline_tag_field, generic_params, mod_cfg, self_path.name@, *enum_annotations, *config),
//@subst enum_annotations.parse_atom::<RenameRule>( => enum_annotations.parse_rule(
//@subst Some(&*name) => Some(name.as_str())
//@end
}
impl Enum {
//@fn src/bindgen/ir/enumeration.rs Enum::inline_tag_field r
    ensures r == !(repr.style is C),
//@end
//@fn src/bindgen/ir/enumeration.rs Enum::new r
    ensures r.path == path, r.export_name@ == path.name@, r.generic_params == generic_params, r.repr == repr, r.variants == variants,
        r.tag == tag, r.cfg == cfg, r.annotations == annotations, r.documentation == documentation,
//@end
//@fn src/bindgen/ir/enumeration.rs Enum::load r loops=2
    ensures
        r is Ok <==> enum_ok(*item),
        r is Ok ==> is_enum(r->Ok_0, *item, mod_cfg, *config),
//@pre
    let ghost vs = item.variants@;
    let ghost tr = trailing(*item);
//@loop 0
    __s0@ == vs, vs == item.variants@, path.name@ == syn::unraw_of(item.ident.s@), repr_ok(item.attrs@), repr == repr_of(item.attrs@)->0,
    generic_params == params_of(item.generics)->0, annotations == ann_of(item.attrs@)->0,
    variants@.len() == __i0, variants_ok(vs, __i0 as nat), own_variants(variants@, *item, mod_cfg, *config, __i0 as nat), has_data == with_data(vs, __i0 as nat),
//@loop 0 pre
    let ghost r0 = variants@;
    proof { assert(__s0@[__i0 - 1] == vs[__i0 - 1]); }
//@loop 0 post
    proof {
        assert forall|k: int| 0 <= k < __i0 implies is_variant(#[trigger] variants@[k], item.variants@[k], !(repr_of(item.attrs@)->0.style is C), params_of(item.generics)->0, mod_cfg, syn::unraw_of(item.ident.s@), ann_of(item.attrs@)->0, *config) by {
            if k < __i0 - 1 { assert(variants@[k] == r0[k]); }
        }
        if with_data(vs, (__i0 - 1) as nat) {
            let k = choose|k: int| 0 <= k < __i0 - 1 && !(#[trigger] vs[k].fields is Unit);
            assert(!(vs[k].fields is Unit));
        }
        if !(vs[__i0 - 1].fields is Unit) { assert(with_data(vs, __i0 as nat)); }
    }
//@loop 1 mode=own
    __s1@ == tr, variants@.len() == vs.len() + __i1, own_variants(variants@, *item, mod_cfg, *config, vs.len()),
    vs == item.variants@, tr == trailing(*item),
    forall|k: int| 0 <= k < __i1 ==> extra(#[trigger] variants@[vs.len() + k], tr[k]@, no_doc()),
//@loop 1 pre
    let ghost r1 = variants@;
//@loop 1 post
    proof {
        assert forall|k: int| 0 <= k < vs.len() implies is_variant(#[trigger] variants@[k], item.variants@[k], !(repr_of(item.attrs@)->0.style is C), params_of(item.generics)->0, mod_cfg, syn::unraw_of(item.ident.s@), ann_of(item.attrs@)->0, *config) by { assert(variants@[k] == r1[k]); }
        assert forall|k: int| 0 <= k < __i1 implies extra(#[trigger] variants@[vs.len() + k], tr[k]@, no_doc()) by { if k < __i1 - 1 { assert(variants@[vs.len() + k] == r1[vs.len() + k]); } }
    }
//@end
}
} // verus!
fn main() {}
