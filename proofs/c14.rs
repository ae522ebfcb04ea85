//@include prelude.inc
//@include ty_types.inc
verus! {
//@include ty_basic.inc
//@include items_opaque.inc
//@type src/bindgen/ir/repr.rs ReprStyle derive=Clone,Copy
//@type src/bindgen/ir/repr.rs ReprType derive=Clone,Copy
//@type src/bindgen/ir/repr.rs Repr derive=Clone,Copy
//@type src/bindgen/config.rs LayoutConfig
impl PartialEq for ReprStyle { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl PartialEqSpecImpl for ReprStyle {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}

// ---------------- syn, as far as this code looks at it ----------------
pub mod syn {
use super::*;
#[verifier::external_body] pub struct Attribute { _p: () }
#[verifier::external_body] pub struct Ident { _p: () }
#[verifier::external_body] pub struct Fields { _p: () }
#[verifier::external_body] pub struct Generics { _p: () }
#[verifier::external_body] pub struct ItemRest { _p: () }
pub struct ItemStruct { pub attrs: Vec<Attribute>, pub ident: Ident, pub fields: Fields, pub generics: Generics }
#[verifier::external_body] pub struct Variant { _p: () }
pub struct ItemEnum { pub attrs: Vec<Attribute>, pub ident: Ident, pub variants: Vec<Variant>, pub generics: Generics }
pub struct ItemUnion { pub attrs: Vec<Attribute>, pub ident: Ident, pub fields: Fields, pub generics: Generics }
}
/// The arguments of the repr attributes in source order (name, argument), or nothing if they are
/// not of a known shape. Parsing by syn; not opened.
pub uninterp spec fn repr_ids(attrs: Seq<syn::Attribute>) -> Option<Seq<(String, Option<String>)>>;
#[verifier::external_body]
pub fn vx_repr_ids(attrs: &[syn::Attribute]) -> (r: Result<Vec<(String, Option<String>)>, String>)
    ensures r is Ok <==> repr_ids(attrs@) is Some, r is Ok ==> repr_ids(attrs@) == Some(r->Ok_0@),
{ unimplemented!() }
pub uninterp spec fn u64_of(s: Seq<char>) -> Option<u64>;
#[verifier::external_body]
pub fn vx_parse_u64(s: &String) -> (r: Result<u64, ()>)
    ensures r is Ok <==> u64_of(s@) is Some, r is Ok ==> u64_of(s@) == Some(r->Ok_0),
{ unimplemented!() }
pub open spec fn pow2(n: u64) -> bool { n != 0 && n & ((n - 1) as u64) == 0 }
#[verifier::external_body]
pub fn vx_is_pow2(n: u64) -> (r: bool) ensures r == pow2(n) { n.is_power_of_two() }

// ---------------- specification ----------------
pub enum Arg { Int(ReprType), Style(ReprStyle), Packed, Align(u64), Bad }
pub open spec fn int_arg(kind: IntKind, signed: bool) -> Arg { Arg::Int(ReprType { kind, signed }) }
/// what one repr argument states
pub open spec fn arg(id: (String, Option<String>)) -> Arg {
    let s = id.0@;
    match id.1 {
        Some(a) => if s == "align"@ && u64_of(a@) is Some && pow2(u64_of(a@)->0) { Arg::Align(u64_of(a@)->0) } else { Arg::Bad },
        None =>
            if s == "u8"@ { int_arg(IntKind::B8, false) } else if s == "i8"@ { int_arg(IntKind::B8, true) }
            else if s == "u16"@ { int_arg(IntKind::B16, false) } else if s == "i16"@ { int_arg(IntKind::B16, true) }
            else if s == "u32"@ { int_arg(IntKind::B32, false) } else if s == "i32"@ { int_arg(IntKind::B32, true) }
            else if s == "u64"@ { int_arg(IntKind::B64, false) } else if s == "i64"@ { int_arg(IntKind::B64, true) }
            else if s == "usize"@ { int_arg(IntKind::Size, false) } else if s == "isize"@ { int_arg(IntKind::Size, true) }
            else if s == "C"@ { Arg::Style(ReprStyle::C) } else if s == "transparent"@ { Arg::Style(ReprStyle::Transparent) }
            else if s == "packed"@ { Arg::Packed } else { Arg::Bad },
    }
}
pub open spec fn plain() -> Repr { Repr { style: ReprStyle::Rust, ty: None, align: None } }
pub open spec fn step(r: Repr, id: (String, Option<String>)) -> Option<Repr> {
    match arg(id) {
        Arg::Int(t) => if r.ty is None { Some(Repr { ty: Some(t), ..r }) } else { None },
        Arg::Style(s) => Some(Repr { style: s, ..r }),
        Arg::Packed => if r.align is None { Some(Repr { align: Some(ReprAlign::Packed), ..r }) } else { None },
        Arg::Align(n) => if r.align is None { Some(Repr { align: Some(ReprAlign::Align(n)), ..r }) } else { None },
        Arg::Bad => None,
    }
}
/// the representation a list of arguments states, or None if it must be rejected
pub open spec fn fold(ids: Seq<(String, Option<String>)>) -> Option<Repr>
    decreases ids.len()
{
    if ids.len() == 0 { Some(plain()) }
    else { match fold(ids.drop_last()) { None => None, Some(r) => step(r, ids.last()) } }
}
pub open spec fn stated(attrs: Seq<syn::Attribute>) -> Option<Repr> {
    match repr_ids(attrs) { None => None, Some(ids) => fold(ids) }
}
/// The fold is what the property says: every argument is honoured, none is invented.
proof fn lemma_fold_exact(ids: Seq<(String, Option<String>)>)
    ensures fold(ids) matches Some(r) ==> {
        &&& forall|i: int| 0 <= i < ids.len() ==> !(arg(#[trigger] ids[i]) is Bad)
        &&& forall|i: int| 0 <= i < ids.len() ==> (arg(#[trigger] ids[i]) matches Arg::Int(t) ==> r.ty == Some(t))
        &&& forall|i: int| 0 <= i < ids.len() ==> (arg(#[trigger] ids[i]) is Packed ==> r.align == Some(ReprAlign::Packed))
        &&& forall|i: int| 0 <= i < ids.len() ==> (arg(#[trigger] ids[i]) matches Arg::Align(n) ==> r.align == Some(ReprAlign::Align(n)) && pow2(n))
        &&& forall|i: int, j: int| 0 <= i < j < ids.len() ==> !(arg(#[trigger] ids[i]) is Int && arg(#[trigger] ids[j]) is Int)
        &&& forall|i: int, j: int| 0 <= i < j < ids.len() ==> !((arg(#[trigger] ids[i]) is Packed || arg(ids[i]) is Align) && (arg(#[trigger] ids[j]) is Packed || arg(ids[j]) is Align))
        &&& (r.ty is Some ==> exists|i: int| 0 <= i < ids.len() && arg(#[trigger] ids[i]) == Arg::Int(r.ty->0))
        &&& (r.align == Some(ReprAlign::Packed) ==> exists|i: int| 0 <= i < ids.len() && arg(#[trigger] ids[i]) == Arg::Packed)
        &&& (r.align matches Some(ReprAlign::Align(n)) ==> exists|i: int| 0 <= i < ids.len() && arg(#[trigger] ids[i]) == Arg::Align(n))
        &&& (r.style != ReprStyle::Rust ==> exists|i: int| 0 <= i < ids.len() && arg(#[trigger] ids[i]) == Arg::Style(r.style))
        &&& (r.style == ReprStyle::Rust ==> forall|i: int| 0 <= i < ids.len() ==> !(arg(#[trigger] ids[i]) is Style))
    },
    decreases ids.len()
{
    hide(arg);
    if ids.len() > 0 {
        let p = ids.drop_last();
        lemma_fold_exact(p);
        lemma_style(ids.last());
        lemma_align(ids.last());
        if fold(ids) is Some {
            assert(fold(p) is Some);
            let n = ids.len() - 1;
            assert(ids[n] == ids.last());
            assert forall|i: int| 0 <= i < p.len() implies p[i] == #[trigger] ids[i] by {}
            if fold(p)->0.ty is Some { let i = choose|i: int| 0 <= i < p.len() && arg(#[trigger] p[i]) == Arg::Int(fold(p)->0.ty->0); assert(ids[i] == p[i]); }
            if fold(p)->0.align is Some {
                if fold(p)->0.align == Some(ReprAlign::Packed) { let i = choose|i: int| 0 <= i < p.len() && arg(#[trigger] p[i]) == Arg::Packed; assert(ids[i] == p[i]); }
                else { let n = fold(p)->0.align->0->Align_0; let i = choose|i: int| 0 <= i < p.len() && arg(#[trigger] p[i]) == Arg::Align(n); assert(ids[i] == p[i]); }
            }
            if fold(p)->0.style != ReprStyle::Rust { let i = choose|i: int| 0 <= i < p.len() && arg(#[trigger] p[i]) == Arg::Style(fold(p)->0.style); assert(ids[i] == p[i]); }
        }
    }
}
proof fn lemma_style(id: (String, Option<String>)) ensures arg(id) != Arg::Style(ReprStyle::Rust) {}
proof fn lemma_align(id: (String, Option<String>)) ensures arg(id) matches Arg::Align(n) ==> pow2(n) {}
/// once rejected, always rejected
proof fn lemma_none(ids: Seq<(String, Option<String>)>, k: int)
    requires 0 <= k <= ids.len(), fold(ids.take(k)) is None,
    ensures fold(ids) is None,
    decreases ids.len() - k
{
    if k < ids.len() {
        assert(ids.take(k + 1).drop_last() =~= ids.take(k));
        lemma_none(ids, k + 1);
    } else { assert(ids.take(k) =~= ids); }
}
proof fn lemma_step(ids: Seq<(String, Option<String>)>, k: int)
    requires 0 <= k < ids.len(),
    ensures fold(ids.take(k)) is Some ==> fold(ids.take(k + 1)) == step(fold(ids.take(k))->0, ids[k]),
        fold(ids.take(k + 1)) is None ==> fold(ids) is None,
{
    assert(ids.take(k + 1).drop_last() =~= ids.take(k));
    assert(ids.take(k + 1).last() == ids[k]);
    if fold(ids.take(k + 1)) is None { lemma_none(ids, k + 1); }
}
pub open spec fn expressible(c: LayoutConfig, a: Option<ReprAlign>) -> bool {
    match a { None => true, Some(ReprAlign::Packed) => c.packed is Some, Some(ReprAlign::Align(_)) => c.aligned_n is Some }
}
// ---------------- code under contract ----------------
impl Repr {
//@fn src/bindgen/ir/repr.rs Repr::load r strlits
    ensures r is Ok <==> stated(attrs@) is Some,
        r is Ok ==> stated(attrs@) == Some(r->Ok_0),
//@opaque let mut ids = Vec::new() => let ids = match vx_repr_ids(attrs) { Ok(x) => x, Err(e) => return Err(e) };
//@opaque let iter = => ();
//@opaque for repr_attr in iter => ();
//@subst Repr::default() => Repr { style: ReprStyle::Rust, ty: None, align: None }
//@subst id.0.as_ref() => id.0.as_str()
//@subst arg.parse::<u64>() => vx_parse_u64(&arg)
//@subst align.is_power_of_two() => vx_is_pow2(align)
//@loop 0 mode=own
    repr_ids(attrs@) == Some(__s0@), fold(__s0@.take(__i0 as int)) == Some(repr),
//@loop 0 pre
    proof { lemma_step(__s0@, __k0 as int); }
//@loop 0 after
    proof { assert(__s0@.take(__s0@.len() as int) =~= __s0@); }
//@end
}

impl ReprType {
//@fn src/bindgen/ir/repr.rs ReprType::to_primitive r
    ensures r == (PrimitiveType::Integer { kind: self.kind, signed: self.signed, zeroable: true }),
//@end
}
impl LayoutConfig {
//@fn src/bindgen/config.rs LayoutConfig::ensure_safe_to_represent r
    ensures r is Ok <==> expressible(*self, Some(*align)),
//@end
}
// loaders of parts that carry no representation (syn; not opened)
impl syn::Ident { #[verifier::external_body] pub fn unraw(&self) -> String { unimplemented!() } }
#[verifier::external_body] pub fn vx_load_fields(i: &syn::Fields, path: &Path) -> Result<Vec<Field>, String> { unimplemented!() }
impl Path {
//@fn src/bindgen/ir/path.rs Path::new r
    ensures r.name@ == name@,
//@sig pub fn new(name: String) -> (r: Path)
//@subst name.into() => name
//@end
}
impl GenericParams { #[verifier::external_body] pub fn load(g: &syn::Generics) -> Result<GenericParams, String> { unimplemented!() } }
impl Cfg {
    #[verifier::external_body] pub fn load(a: &Vec<syn::Attribute>) -> Option<Cfg> { unimplemented!() }
    #[verifier::external_body] pub fn append(p: Option<&Cfg>, c: Option<Cfg>) -> Option<Cfg> { unimplemented!() }
}
impl AnnotationSet { #[verifier::external_body] pub fn load(a: &Vec<syn::Attribute>) -> Result<AnnotationSet, String> { unimplemented!() } }
impl Documentation { #[verifier::external_body] pub fn load(a: &Vec<syn::Attribute>) -> Documentation { unimplemented!() } }
/// a struct item is accepted with exactly the layout it states
pub open spec fn struct_ok(c: LayoutConfig, attrs: Seq<syn::Attribute>, s: Struct) -> bool {
    &&& stated(attrs) matches Some(r) && {
        &&& r.style == ReprStyle::C || r.style == ReprStyle::Transparent
        &&& s.alignment == r.align
        &&& s.is_transparent == (r.style == ReprStyle::Transparent && s.fields@.len() > 0)
        &&& expressible(c, r.align)
    }
}
pub open spec fn union_ok(c: LayoutConfig, attrs: Seq<syn::Attribute>, s: Union) -> bool {
    &&& stated(attrs) matches Some(r) && {
        &&& r.style == ReprStyle::C
        &&& s.alignment == r.align
        &&& expressible(c, r.align)
    }
}
/// names in struct literals only concern constants (C15)
impl Field { #[verifier::external_body] pub fn literal_name(&self) -> String { unimplemented!() } }
impl Struct {
//@fn src/bindgen/ir/structure.rs Struct::new r loops=1
    ensures r.path == path, r.export_name@ == path.name@, r.generic_params == generic_params, r.fields == fields,
        r.has_tag_field == has_tag_field, r.is_enum_variant_body == is_enum_variant_body, r.alignment == alignment,
        r.is_transparent == (is_transparent && fields@.len() > 0), r.cfg == cfg, r.annotations == annotations,
        r.documentation == documentation, r.associated_constants@.len() == 0,
//@loop 0 rty=Vec<String>
//@end
//@fn src/bindgen/ir/structure.rs Struct::load r
    ensures r is Ok ==> struct_ok(*layout_config, item.attrs@, r->Ok_0),
//@opaque let fields = match item.fields => let fields = match vx_load_fields(&item.fields, &path) { Ok(x) => x, Err(e) => return Err(e) };
//@end
//@fn src/bindgen/ir/structure.rs Item@Struct::path r
    ensures *r == self.path,
//@end
//@fn src/bindgen/ir/structure.rs Item@Struct::export_name r
    ensures r@ == self.export_name@,
//@end
//@fn src/bindgen/ir/structure.rs Item@Struct::cfg r
    ensures r is Some <==> self.cfg is Some, r is Some ==> *(r->0) == self.cfg->0,
//@end
//@fn src/bindgen/ir/structure.rs Item@Struct::annotations r
    ensures *r == self.annotations,
//@end
//@fn src/bindgen/ir/structure.rs Item@Struct::documentation r
    ensures *r == self.documentation,
//@end
//@fn src/bindgen/ir/structure.rs Struct::as_typedef r
    ensures r is Some <==> (self.is_transparent && self.fields@.len() > 0),
        r matches Some(t) ==> t.path == self.path && t.export_name@ == self.export_name@ && t.generic_params == self.generic_params
            && t.aliased == self.fields@[0].ty && t.cfg == self.cfg && t.annotations == self.annotations && t.documentation == self.documentation,
//@end
}
impl Typedef {
//@fn src/bindgen/ir/typedef.rs Typedef::new_from_struct_field r
    ensures r.path == item.path, r.export_name@ == item.export_name@, r.generic_params == item.generic_params,
        r.aliased == field.ty, r.cfg == item.cfg, r.annotations == item.annotations, r.documentation == item.documentation,
//@subst item.cfg().cloned() => (match item.cfg() { Some(x) => Some(x.clone()), None => None })
//@end
}
impl Union {
//@fn src/bindgen/ir/union.rs Union::new r
    ensures r.path == path, r.fields == fields, r.alignment == alignment, r.tuple_union == tuple_union,
//@end
//@fn src/bindgen/ir/union.rs Union::load r
    ensures r is Ok ==> union_ok(*layout_config, item.attrs@, r->Ok_0),
//@opaque let (fields, tuple_union) = => let (fields, tuple_union) = (match vx_load_fields(&item.fields, &path) { Ok(x) => x, Err(e) => return Err(e) }, false);
//@end
}

//@type src/bindgen/ir/enumeration.rs VariantBody
//@type src/bindgen/ir/enumeration.rs EnumVariant
//@type src/bindgen/ir/enumeration.rs Enum
#[verifier::external_body] pub struct Config { _p: () }
impl VariantBody {
//@fn src/bindgen/ir/enumeration.rs VariantBody::is_empty r
    ensures r == (self is Empty),
//@end
}
impl EnumVariant {
    #[verifier::external_body]
    fn load(inline_tag_field: bool, variant: &syn::Variant, generic_params: GenericParams, mod_cfg: Option<&Cfg>, self_path: &Path, enum_annotations: &AnnotationSet, config: &Config) -> Result<Self, String> { unimplemented!() }
}
/// appends the configured trailing values and the sentinel (they have no data)
#[verifier::external_body]
fn vx_trailing(variants: &mut Vec<EnumVariant>, annotations: &AnnotationSet, config: &Config)
    ensures final(variants)@.len() >= old(variants)@.len(),
        forall|i: int| 0 <= i < old(variants)@.len() ==> final(variants)@[i] == old(variants)@[i],
        forall|i: int| old(variants)@.len() <= i < final(variants)@.len() ==> (#[trigger] final(variants)@[i]).body is Empty,
{ unimplemented!() }
pub open spec fn has_data_of(v: Seq<EnumVariant>) -> bool { exists|i: int| 0 <= i < v.len() && !((#[trigger] v[i]).body is Empty) }
broadcast proof fn lemma_data_push(v: Seq<EnumVariant>, x: EnumVariant)
    ensures #[trigger] has_data_of(v.push(x)) == (has_data_of(v) || !(x.body is Empty)),
{
    let w = v.push(x);
    assert(w[v.len() as int] == x);
    if has_data_of(v) { let i = choose|i: int| 0 <= i < v.len() && !((#[trigger] v[i]).body is Empty); assert(!(w[i].body is Empty)); }
    if has_data_of(w) { let i = choose|i: int| 0 <= i < w.len() && !((#[trigger] w[i]).body is Empty); if i < v.len() { assert(!(v[i].body is Empty)); } }
}
pub open spec fn enum_ok(attrs: Seq<syn::Attribute>, e: Enum) -> bool {
    &&& stated(attrs) == Some(e.repr)
    &&& e.repr.align is None
    &&& e.repr.ty is Some || e.repr.style != ReprStyle::Rust
    &&& e.tag is Some <==> has_data_of(e.variants@)
}
impl Enum {
//@fn src/bindgen/ir/enumeration.rs Enum::new r
    ensures r.path == path, r.repr == repr, r.variants == variants, r.tag == tag,
//@end
//@fn src/bindgen/ir/enumeration.rs Enum::inline_tag_field r
    ensures r == (repr.style != ReprStyle::C),
//@end
//@fn src/bindgen/ir/enumeration.rs Enum::load r
    ensures r is Ok ==> enum_ok(item.attrs@, r->Ok_0),
//@pre
    broadcast use lemma_data_push;
//@opaque if let Some(names) = annotations.list => ();
//@opaque if config.enumeration.add_sentinel => vx_trailing(&mut variants, &annotations, config);
//@loop 0
    has_data == has_data_of(variants@),
//@end
}
} // verus!
fn main() {}
