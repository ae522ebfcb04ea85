//@include prelude.inc
//@include ty_types.inc
verus! {
//@include ty_basic.inc
//@include items_opaque.inc
//@type src/bindgen/ir/repr.rs ReprStyle derive=Clone,Copy
//@type src/bindgen/ir/repr.rs ReprType derive=Clone,Copy
//@type src/bindgen/ir/repr.rs Repr derive=Clone,Copy
impl PartialEq for ReprStyle { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl PartialEqSpecImpl for ReprStyle {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
//@type src/bindgen/ir/opaque.rs OpaqueItem
#[verifier::external_body] pub struct LayoutConfig { _p: () }
//@include loadparts.inc
pub open spec fn styled(a: Seq<syn::Attribute>, c: LayoutConfig) -> bool {
    repr_of(a) is Some && (repr_of(a)->0.align matches Some(x) ==> safe(c, x))
}
pub open spec fn fields_of(f: syn::Fields) -> Seq<syn::Field> { match f { syn::Fields::Named(x) => x.named@, syn::Fields::Unnamed(x) => x.unnamed@, syn::Fields::Unit => Seq::empty() } }
pub open spec fn struct_ok(i: syn::ItemStruct, c: LayoutConfig) -> bool {
    &&& styled(i.attrs@, c)
    &&& repr_of(i.attrs@)->0.style is C || repr_of(i.attrs@)->0.style is Transparent
    &&& fields_ok(fields_of(i.fields), i.fields is Named, fields_of(i.fields).len())
    &&& params_of(i.generics) is Some && ann_of(i.attrs@) is Some
}
pub open spec fn is_struct(s: Struct, i: syn::ItemStruct, mc: Option<&Cfg>) -> bool {
    let me = syn::unraw_of(i.ident.s@);
    let fs = fields_of(i.fields);
    &&& s.path.name@ == me && s.export_name@ == me
    &&& s.generic_params == params_of(i.generics)->0
    &&& fields_are(s.fields@, fs, me, i.fields is Named, fs.len())
    &&& !s.has_tag_field && !s.is_enum_variant_body
    &&& s.alignment == repr_of(i.attrs@)->0.align
    &&& s.is_transparent == (repr_of(i.attrs@)->0.style is Transparent && s.fields@.len() > 0)
    &&& s.cfg == cfg_both(oc(mc), cfg_of(i.attrs@))
    &&& s.annotations == ann_of(i.attrs@)->0
    &&& s.documentation == doc_of(i.attrs@)
    &&& s.associated_constants@.len() == 0
}
pub open spec fn union_ok(i: syn::ItemUnion, c: LayoutConfig) -> bool {
    &&& styled(i.attrs@, c) && repr_of(i.attrs@)->0.style is C
    &&& fields_ok(i.fields.named@, true, i.fields.named@.len())
    &&& params_of(i.generics) is Some && ann_of(i.attrs@) is Some
}
pub open spec fn is_union(s: Union, i: syn::ItemUnion, mc: Option<&Cfg>) -> bool {
    let me = syn::unraw_of(i.ident.s@);
    &&& s.path.name@ == me && s.export_name@ == me
    &&& s.generic_params == params_of(i.generics)->0
    &&& fields_are(s.fields@, i.fields.named@, me, true, i.fields.named@.len())
    &&& !s.tuple_union
    &&& s.alignment == repr_of(i.attrs@)->0.align
    &&& s.cfg == cfg_both(oc(mc), cfg_of(i.attrs@))
    &&& s.annotations == ann_of(i.attrs@)->0
    &&& s.documentation == doc_of(i.attrs@)
}
pub open spec fn typedef_ok(i: syn::ItemType) -> bool { ty_of(*i.ty) is Some && ty_of(*i.ty)->0 is Some && params_of(i.generics) is Some && ann_of(i.attrs@) is Some }
pub open spec fn is_typedef(s: Typedef, i: syn::ItemType, mc: Option<&Cfg>) -> bool {
    let me = syn::unraw_of(i.ident.s@);
    &&& s.path.name@ == me && s.export_name@ == me
    &&& s.generic_params == params_of(i.generics)->0
    &&& s.aliased == ty_of(*i.ty)->0->0
    &&& s.cfg == cfg_both(oc(mc), cfg_of(i.attrs@))
    &&& s.annotations == ann_of(i.attrs@)->0
    &&& s.documentation == doc_of(i.attrs@)
}
pub open spec fn is_opaque(s: OpaqueItem, path: Path, g: syn::Generics, a: Seq<syn::Attribute>, mc: Option<&Cfg>) -> bool {
    &&& s.path == path && s.export_name@ == path.name@
    &&& s.generic_params == params_of(g)->0
    &&& s.cfg == cfg_both(oc(mc), cfg_of(a))
    &&& s.annotations == (match ann_of(a) { Some(x) => x, None => no_ann() })
    &&& s.documentation == doc_of(a)
}

// ================= code under contract =================
impl Path {
//@fn src/bindgen/ir/path.rs Path::new r
    ensures r.name@ == name@,
//@sig pub fn new(name: String) -> (r: Path)
//@subst name.into() => name
//@end
}
impl Field {
    #[verifier::external_body] pub fn literal_name(&self) -> String { unimplemented!() }
//@fn src/bindgen/ir/field.rs Field::load r
    ensures
        r is Ok <==> field_ok(*field, true),
        r is Ok ==> (r->Ok_0 is Some <==> kept(*field)),
        r is Ok && r->Ok_0 is Some ==> is_field(r->Ok_0->0, *field, self_path.name@, syn::unraw_of(field.ident->0.s@)),
//@end
}
impl Struct {
//@fn src/bindgen/ir/structure.rs Struct::new r loops=1
    ensures r.path == path, r.export_name@ == path.name@, r.generic_params == generic_params, r.fields == fields,
        r.has_tag_field == has_tag_field, r.is_enum_variant_body == is_enum_variant_body, r.alignment == alignment,
        r.is_transparent == (is_transparent && fields@.len() > 0), r.cfg == cfg, r.annotations == annotations,
        r.documentation == documentation, r.associated_constants@.len() == 0,
//@loop 0 rty=Vec<String>
//@end
//@fn src/bindgen/ir/structure.rs Struct::load r loops=2 nat
    ensures
        r is Ok <==> struct_ok(*item, *layout_config),
        r is Ok ==> is_struct(r->Ok_0, *item, mod_cfg),
//@pre
    let ghost me = syn::unraw_of(item.ident.s@);
    let ghost fs = fields_of(item.fields);
//@loop 0 rty=Vec<Field>
    __s0@ == fs, item.fields is Named, path.name@ == me, fields_ok(fs, true, __i0 as nat), fields_are(__r0@, fs, me, true, __i0 as nat),
//@loop 0 pre
    let ghost r0 = __r0@;
    proof { assert(__s0@[__i0 as int] == fs[__i0 as int]); }
//@loop 0 post
    proof {
        if kept(fs[__k0 as int]) { assert(__r0@.drop_last() =~= r0); }
        lemma_step(r0, __r0@, fs, me, true, __k0 as nat);
    }
//@loop 1
    __s1@ == fs, item.fields is Unnamed, path.name@ == me, fields_ok(fs, false, __i1 as nat), fields_are(out@, fs, me, false, __i1 as nat), current == out@.len(),
//@loop 1 pre
    let ghost r0 = out@;
    proof { assert(__s1@[__i1 - 1] == fs[__i1 - 1]); }
//@loop 1 post
    proof {
        if kept(fs[__i1 - 1]) { assert(out@.drop_last() =~= r0); }
        lemma_step(r0, out@, fs, me, false, (__i1 - 1) as nat);
    }
//@end
}
impl Union {
//@fn src/bindgen/ir/union.rs Union::new r
    ensures r.path == path, r.export_name@ == path.name@, r.generic_params == generic_params, r.fields == fields, r.alignment == alignment, r.tuple_union == tuple_union,
        r.cfg == cfg, r.annotations == annotations, r.documentation == documentation,
//@end
//@fn src/bindgen/ir/union.rs Union::load r loops=1
    ensures
        r is Ok <==> union_ok(*item, *layout_config),
        r is Ok ==> is_union(r->Ok_0, *item, mod_cfg),
//@pre
    let ghost me = syn::unraw_of(item.ident.s@);
    let ghost fs = item.fields.named@;
//@loop 0 rty=Vec<Field>
    __s0@ == fs, path.name@ == me, fields_ok(fs, true, __i0 as nat), fields_are(__r0@, fs, me, true, __i0 as nat),
//@loop 0 pre
    let ghost r0 = __r0@;
    proof { assert(__s0@[__i0 as int] == fs[__i0 as int]); }
//@loop 0 post
    proof {
        if kept(fs[__k0 as int]) { assert(__r0@.drop_last() =~= r0); }
        lemma_step(r0, __r0@, fs, me, true, __k0 as nat);
    }
//@end
}
impl Typedef {
//@fn src/bindgen/ir/typedef.rs Typedef::new r
    ensures r.path == path, r.export_name@ == path.name@, r.generic_params == generic_params, r.aliased == aliased,
        r.cfg == cfg, r.annotations == annotations, r.documentation == documentation,
//@end
//@fn src/bindgen/ir/typedef.rs Typedef::load r
    ensures
        r is Ok <==> typedef_ok(*item),
        r is Ok ==> is_typedef(r->Ok_0, *item, mod_cfg),
//@end
}
impl OpaqueItem {
//@fn src/bindgen/ir/opaque.rs OpaqueItem::new r
    ensures r.path == path, r.export_name@ == path.name@, r.generic_params == generic_params,
        r.cfg == cfg, r.annotations == annotations, r.documentation == documentation,
//@end
//@fn src/bindgen/ir/opaque.rs OpaqueItem::load r
    ensures
        r is Ok <==> params_of(*generics) is Some,
        r is Ok ==> is_opaque(r->Ok_0, path, *generics, attrs@, mod_cfg),
//@end
}
} // verus!
fn main() {}
