//@include prelude.inc
//@include ty_types.inc
verus! {
//@include ty_basic.inc

// ---------------- specification ----------------
pub type Map_ = Seq<(&'static Path, &'static GenericArgument)>;

/// The argument for a type parameter named p: first mapping entry of that name.
pub open spec fn lookup_ty<'a>(m: Seq<(&'a Path, &'a GenericArgument)>, p: Path, from: int) -> Option<Type>
    decreases m.len() - from
{
    if from < 0 || from >= m.len() { None }
    else if *m[from].0 == p && *m[from].1 is Type { Some(m[from].1->Type_0) }
    else { lookup_ty(m, p, from + 1) }
}
pub open spec fn lookup_arg<'a>(m: Seq<(&'a Path, &'a GenericArgument)>, p: Path, from: int) -> Option<GenericArgument>
    decreases m.len() - from
{
    if from < 0 || from >= m.len() { None }
    else if *m[from].0 == p { Some(*m[from].1) }
    else { lookup_arg(m, p, from + 1) }
}
pub open spec fn arg_as_const(a: GenericArgument) -> Option<ConstExpr> {
    match a {
        GenericArgument::Type(Type::Path(p)) => if p.generics@.len() == 0 { Some(ConstExpr::Path(p)) } else { None },
        GenericArgument::Const(e) => Some(e),
        _ => None,
    }
}
pub open spec fn lookup_const<'a>(m: Seq<(&'a Path, &'a GenericArgument)>, p: Path, from: int) -> Option<ConstExpr>
    decreases m.len() - from
{
    if from < 0 || from >= m.len() { None }
    else if *m[from].0 == p && arg_as_const(*m[from].1) is Some { arg_as_const(*m[from].1) }
    else { lookup_const(m, p, from + 1) }
}
pub open spec fn const_sub<'a>(e: ConstExpr, m: Seq<(&'a Path, &'a GenericArgument)>) -> ConstExpr {
    match e {
        ConstExpr::Path(p) => if p.generics@.len() == 0 && lookup_const(m, p.path, 0) is Some { lookup_const(m, p.path, 0)->0 } else { e },
        _ => e,
    }
}
pub open spec fn arg_sub<'a>(a: GenericArgument, m: Seq<(&'a Path, &'a GenericArgument)>, r: GenericArgument) -> bool
    decreases a
{
    match a {
        GenericArgument::Const(e) => r == a,
        GenericArgument::Type(t) =>
            if t is Path && t->Path_0.generics@.len() == 0 && lookup_arg(m, t->Path_0.path, 0) is Some {
                r == lookup_arg(m, t->Path_0.path, 0)->0
            } else { r is Type && ty_sub(t, m, r->Type_0) },
    }
}
pub open spec fn ty_sub<'a>(t: Type, m: Seq<(&'a Path, &'a GenericArgument)>, r: Type) -> bool
    decreases t
{
    match t {
        Type::Ptr { ty, is_const, is_nullable, is_ref } =>
            r matches Type::Ptr { ty: t2, is_const: c2, is_nullable: n2, is_ref: r2 }
            && ty_sub(*ty, m, *t2) && c2 == is_const && n2 == is_nullable && r2 == is_ref,
        Type::Path(g) =>
            if lookup_ty(m, g.path, 0) is Some { r == lookup_ty(m, g.path, 0)->0 }
            else {
                r matches Type::Path(g2) && g2.path == g.path && g2.export_name@ == g.path.name@ && g2.ctype is None
                && g2.generics@.len() == g.generics@.len()
                && forall|i: int| 0 <= i < g.generics@.len() ==> arg_sub(#[trigger] g.generics@[i], m, g2.generics@[i])
            },
        Type::Primitive(p) => r == t,
        Type::Array(ty, len) =>
            r matches Type::Array(t2, l2) && ty_sub(*ty, m, *t2) && l2 == const_sub(len, m),
        Type::FuncPtr { ret, args, is_nullable, never_return } =>
            r matches Type::FuncPtr { ret: ret2, args: args2, is_nullable: n2, never_return: v2 }
            && ty_sub(*ret, m, *ret2) && n2 == is_nullable && v2 == never_return
            && args2@.len() == args@.len()
            && forall|i: int| 0 <= i < args@.len() ==> (#[trigger] args2@[i]).0 == args@[i].0 && ty_sub(args@[i].1, m, args2@[i].1),
    }
}

// ---------------- code under contract ----------------
impl ConstExpr {
//@fn src/bindgen/ir/ty.rs ConstExpr::specialize r
    ensures r == const_sub(*self, mappings@),
//@loop 0
    __s0@ == mappings@, *self is Path, path == self->Path_0, path.generics@.len() == 0,
    lookup_const(mappings@, path.path, __i0 as int) == lookup_const(mappings@, path.path, 0),
//@end
}
impl Type {
//@fn src/bindgen/ir/ty.rs Type::specialize r
    ensures ty_sub(*self, mappings@, r),
//@loop 0
    __s0@ == mappings@,
    lookup_ty(mappings@, generic_path.path, __i0 as int) == lookup_ty(mappings@, generic_path.path, 0),
//@loop 1 rty=Vec<GenericArgument>
    __s1@ == generic_path.generics@, __r1@.len() == __i1,
    forall|i: int| 0 <= i < __i1 ==> arg_sub(#[trigger] generic_path.generics@[i], mappings@, __r1@[i]),
//@loop 2 rty=Vec<(Option<String>,Type)>
    __s2@ == args@, __r2@.len() == __i2,
    forall|i: int| 0 <= i < __i2 ==> (#[trigger] __r2@[i]).0 == args@[i].0 && ty_sub(args@[i].1, mappings@, __r2@[i].1),
//@end
}
impl GenericArgument {
//@fn src/bindgen/ir/generic_path.rs GenericArgument::specialize r
    ensures arg_sub(*self, mappings@, r),
//@loop 0
    __s0@ == mappings@,
    lookup_arg(mappings@, path.path, __i0 as int) == lookup_arg(mappings@, path.path, 0),
//@end
}

// ---------------- Self ----------------
pub open spec fn arg_self(a: GenericArgument, p: Path, r: GenericArgument) -> bool
    decreases a
{
    match a {
        GenericArgument::Const(e) => r == a,
        GenericArgument::Type(t) => r is Type && ty_self(t, p, r->Type_0),
    }
}
pub open spec fn ty_self(t: Type, p: Path, r: Type) -> bool
    decreases t
{
    match t {
        Type::Ptr { ty, is_const, is_nullable, is_ref } =>
            r matches Type::Ptr { ty: t2, is_const: c2, is_nullable: n2, is_ref: r2 }
            && ty_self(*ty, p, *t2) && c2 == is_const && n2 == is_nullable && r2 == is_ref,
        Type::Path(g) =>
            r matches Type::Path(g2)
            && (if g.path.name@ == "Self"@ { g2.path == p && g2.export_name@ == p.name@ } else { g2.path == g.path && g2.export_name == g.export_name })
            && g2.ctype == g.ctype && g2.generics@.len() == g.generics@.len()
            && forall|i: int| 0 <= i < g.generics@.len() ==> arg_self(#[trigger] g.generics@[i], p, g2.generics@[i]),
        Type::Primitive(_) => r == t,
        Type::Array(ty, len) => r matches Type::Array(t2, l2) && ty_self(*ty, p, *t2) && l2 == len,
        Type::FuncPtr { ret, args, is_nullable, never_return } =>
            r matches Type::FuncPtr { ret: ret2, args: args2, is_nullable: n2, never_return: v2 }
            && ty_self(*ret, p, *ret2) && n2 == is_nullable && v2 == never_return
            && args2@.len() == args@.len()
            && forall|i: int| 0 <= i < args@.len() ==> (#[trigger] args2@[i]).0 == args@[i].0 && ty_self(args@[i].1, p, args2@[i].1),
    }
}
impl Type {
//@fn src/bindgen/ir/ty.rs Type::replace_self_with r
    ensures ty_self(*old(self), *self_ty, *final(self)),
//@loop 0 mode=mut
    forall|i: int| 0 <= i < __i0 ==> arg_self(#[trigger] __g0[i], *self_ty, __s0@[i]),
//@loop 1 mode=mut
    forall|i: int| 0 <= i < __i1 ==> (#[trigger] __s1@[i]).0 == __g1[i].0 && ty_self(__g1[i].1, *self_ty, __s1@[i].1),
//@end
}
// ---------------- parameters and arguments ----------------
/// argument i of an instantiation: the given one, or the parameter's default
pub open spec fn arg_or_default(p: GenericParam, args: Seq<GenericArgument>, i: int) -> Option<GenericArgument> {
    if i < args.len() { Some(args[i]) } else { p.default }
}
pub open spec fn callable(ps: Seq<GenericParam>, args: Seq<GenericArgument>) -> bool {
    args.len() <= ps.len() && forall|i: int| 0 <= i < ps.len() ==> #[trigger] arg_or_default(ps[i], args, i) is Some
}
/// parameter i is bound to argument i, or to its default
pub open spec fn call_seq<'a>(ps: Seq<GenericParam>, args: Seq<GenericArgument>) -> Seq<(&'a Path, &'a GenericArgument)> {
    Seq::new(ps.len(), |i: int| (&ps[i].name, &arg_or_default(ps[i], args, i)->0))
}
impl GenericParam {
//@fn src/bindgen/ir/generic_path.rs GenericParam::name r
    ensures *r == self.name,
//@end
}
impl GenericParams {
#[verifier::external_body]
pub fn len(&self) -> (r: usize) ensures r == self.0@.len() { unimplemented!() }
#[verifier::external_body]
pub fn default() -> (r: GenericParams) ensures r.0@.len() == 0 { unimplemented!() }
//@fn src/bindgen/ir/generic_path.rs GenericParams::call r panics=ok
    ensures callable(self.0@, arguments@), r@ =~= call_seq(self.0@, arguments@),
//@subst self.iter() => self.0.iter()
//@loop 0 rty=Vec<(&'out Path, &'out GenericArgument)>
    __s0@ == self.0@, __r0@.len() == __i0, arguments@.len() <= self.0@.len(),
    forall|i: int| 0 <= i < __i0 ==> *(#[trigger] __r0@[i]).0 == self.0@[i].name && Some(*__r0@[i].1) == arg_or_default(self.0@[i], arguments@, i),
    forall|i: int| 0 <= i < __i0 ==> #[trigger] arg_or_default(self.0@[i], arguments@, i) is Some,
//@end
}

// ---------------- items ----------------
//@include items_opaque.inc
//@type src/bindgen/ir/repr.rs ReprStyle derive=Clone,Copy
//@type src/bindgen/ir/repr.rs ReprType derive=Clone,Copy
//@type src/bindgen/ir/repr.rs Repr derive=Clone,Copy
//@type src/bindgen/ir/enumeration.rs VariantBody
//@type src/bindgen/ir/enumeration.rs EnumVariant
//@type src/bindgen/ir/enumeration.rs Enum
pub struct ExportConfig { pub mangle: MangleConfig }
pub struct Config { pub export: ExportConfig }
#[verifier::external_body] pub struct Library { _p: () }
impl Library { #[verifier::external_body] pub fn get_config(&self) -> &Config { unimplemented!() } }
pub mod mangle {
use super::*;
// (its own contract is property C05; here any name will do)
#[verifier::external_body]
pub fn mangle_path(path: &Path, generic_values: &[GenericArgument], config: &MangleConfig) -> Path { unimplemented!() }
#[verifier::external_body]
pub fn mangle_name(name: &str, generic_values: &[GenericArgument], config: &MangleConfig) -> String { unimplemented!() }
}

pub open spec fn field_sub<'a>(f: Field, m: Seq<(&'a Path, &'a GenericArgument)>, r: Field) -> bool {
    r.name@ == f.name@ && ty_sub(f.ty, m, r.ty) && r.cfg == f.cfg && r.annotations == f.annotations && r.documentation == f.documentation
}
pub open spec fn fields_sub<'a>(f: Seq<Field>, m: Seq<(&'a Path, &'a GenericArgument)>, r: Seq<Field>) -> bool {
    r.len() == f.len() && forall|i: int| 0 <= i < f.len() ==> field_sub(f[i], m, #[trigger] r[i])
}
pub open spec fn struct_sub<'a>(s: Struct, m: Seq<(&'a Path, &'a GenericArgument)>, r: Struct) -> bool {
    &&& fields_sub(s.fields@, m, r.fields@)
    &&& r.generic_params.0@.len() == 0
    &&& r.has_tag_field == s.has_tag_field && r.is_enum_variant_body == s.is_enum_variant_body
    &&& r.alignment == s.alignment && r.is_transparent == (s.is_transparent && s.fields@.len() > 0)
    &&& r.cfg == s.cfg && r.annotations == s.annotations && r.documentation == s.documentation
}
pub open spec fn union_sub<'a>(s: Union, m: Seq<(&'a Path, &'a GenericArgument)>, r: Union) -> bool {
    &&& fields_sub(s.fields@, m, r.fields@)
    &&& r.generic_params.0@.len() == 0
    &&& r.alignment == s.alignment && r.tuple_union == s.tuple_union
    &&& r.cfg == s.cfg && r.annotations == s.annotations && r.documentation == s.documentation
}
pub open spec fn typedef_sub<'a>(s: Typedef, m: Seq<(&'a Path, &'a GenericArgument)>, r: Typedef) -> bool {
    &&& ty_sub(s.aliased, m, r.aliased)
    &&& r.generic_params.0@.len() == 0
    &&& r.cfg == s.cfg && r.annotations == s.annotations && r.documentation == s.documentation
}
pub open spec fn body_sub<'a>(b: VariantBody, m: Seq<(&'a Path, &'a GenericArgument)>, r: VariantBody) -> bool {
    match b {
        VariantBody::Empty(a) => r == VariantBody::Empty(a),
        VariantBody::Body { name, body, inline, inline_casts } =>
            r is Body && r->name@ == name@ && struct_sub(body, m, r->body) && r->inline == inline && r->inline_casts == inline_casts,
    }
}
pub open spec fn variant_sub<'a>(v: EnumVariant, m: Seq<(&'a Path, &'a GenericArgument)>, r: EnumVariant) -> bool {
    body_sub(v.body, m, r.body) && r.export_name@ == r.name@ && r.discriminant == v.discriminant && r.cfg == v.cfg && r.documentation == v.documentation
}
pub open spec fn enum_sub<'a>(s: Enum, m: Seq<(&'a Path, &'a GenericArgument)>, r: Enum) -> bool {
    &&& r.variants@.len() == s.variants@.len()
    &&& forall|i: int| 0 <= i < s.variants@.len() ==> variant_sub(s.variants@[i], m, #[trigger] r.variants@[i])
    &&& r.generic_params.0@.len() == 0
    &&& r.repr == s.repr && (s.tag is None ==> r.tag is None) && (s.tag is Some ==> r.tag is Some && r.tag->0@ == s.tag->0@)
    &&& r.cfg == s.cfg && r.annotations == s.annotations && r.documentation == s.documentation
}
/// Sink for instantiations: its insert functions demand that what is inserted is the substitution
/// instance of the generic with the parameters bound to the arguments (or defaults).
#[verifier::external_body] pub struct Monomorphs { _p: () }
impl Monomorphs {
    #[verifier::external_body]
    pub fn insert_struct(&mut self, library: &Library, generic: &Struct, monomorph: Struct, parameters: Vec<GenericArgument>)
        requires callable(generic.generic_params.0@, parameters@), struct_sub(*generic, call_seq(generic.generic_params.0@, parameters@), monomorph),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_union(&mut self, library: &Library, generic: &Union, monomorph: Union, parameters: Vec<GenericArgument>)
        requires callable(generic.generic_params.0@, parameters@), union_sub(*generic, call_seq(generic.generic_params.0@, parameters@), monomorph),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_enum(&mut self, library: &Library, generic: &Enum, monomorph: Enum, parameters: Vec<GenericArgument>)
        requires callable(generic.generic_params.0@, parameters@), enum_sub(*generic, call_seq(generic.generic_params.0@, parameters@), monomorph),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_typedef(&mut self, library: &Library, generic: &Typedef, monomorph: Typedef, parameters: Vec<GenericArgument>)
        requires callable(generic.generic_params.0@, parameters@), typedef_sub(*generic, call_seq(generic.generic_params.0@, parameters@), monomorph),
    { unimplemented!() }
}

/// names in struct literals only concern constants (C15)
impl Field { #[verifier::external_body] pub fn literal_name(&self) -> String { unimplemented!() } }
impl Struct {
//@fn src/bindgen/ir/structure.rs Item@Struct::path r
    ensures *r == self.path,
//@end
//@fn src/bindgen/ir/structure.rs Item@Struct::export_name r
    ensures r@ == self.export_name@,
//@end
//@fn src/bindgen/ir/structure.rs Item@Struct::cfg r
    ensures self.cfg is None ==> r is None, self.cfg is Some ==> r == Some(&self.cfg->0),
//@end
//@fn src/bindgen/ir/structure.rs Item@Struct::annotations r
    ensures *r == self.annotations,
//@end
//@fn src/bindgen/ir/structure.rs Item@Struct::documentation r
    ensures *r == self.documentation,
//@end
//@fn src/bindgen/ir/structure.rs Struct::new r loops=1
    ensures r.path == path, r.export_name@ == path.name@, r.generic_params == generic_params, r.fields == fields,
        r.has_tag_field == has_tag_field, r.is_enum_variant_body == is_enum_variant_body, r.alignment == alignment,
        r.is_transparent == (is_transparent && fields@.len() > 0), r.cfg == cfg, r.annotations == annotations,
        r.documentation == documentation, r.associated_constants@.len() == 0,
//@loop 0 rty=Vec<String>
//@end
//@fn src/bindgen/ir/structure.rs Struct::specialize r
    ensures struct_sub(*self, mappings@, r),
//@loop 0 rty=Vec<Field>
    __s0@ == self.fields@, __r0@.len() == __i0,
    forall|i: int| 0 <= i < __i0 ==> field_sub(self.fields@[i], mappings@, #[trigger] __r0@[i]),
//@end
//@fn src/bindgen/ir/structure.rs Struct::instantiate_monomorph r
//@end
}
impl Union {
//@fn src/bindgen/ir/union.rs Union::new r
    ensures r.path == path, r.export_name@ == path.name@, r.generic_params == generic_params, r.fields == fields,
        r.alignment == alignment, r.tuple_union == tuple_union, r.cfg == cfg, r.annotations == annotations,
        r.documentation == documentation,
//@end
//@fn src/bindgen/ir/union.rs Union::instantiate_monomorph r
//@loop 0 rty=Vec<Field>
    __s0@ == self.fields@, __r0@.len() == __i0,
    forall|i: int| 0 <= i < __i0 ==> field_sub(self.fields@[i], mappings@, #[trigger] __r0@[i]),
//@end
}
impl Typedef {
//@fn src/bindgen/ir/typedef.rs Typedef::new r
    ensures r.path == path, r.export_name@ == path.name@, r.generic_params == generic_params, r.aliased == aliased,
        r.cfg == cfg, r.annotations == annotations, r.documentation == documentation,
//@end
//@fn src/bindgen/ir/typedef.rs Typedef::instantiate_monomorph r
//@end
//@fn src/bindgen/ir/typedef.rs Typedef::new_from_struct_field r
    ensures r.path == item.path, r.export_name@ == item.export_name@, r.generic_params == item.generic_params, r.aliased == field.ty,
        r.cfg == item.cfg, r.annotations == item.annotations, r.documentation == item.documentation,
//@end
}
impl VariantBody {
//@fn src/bindgen/ir/enumeration.rs VariantBody::specialize r
    ensures body_sub(*self, mappings@, r),
//@end
}
impl EnumVariant {
//@fn src/bindgen/ir/enumeration.rs EnumVariant::new r
    ensures r.name == name, r.export_name@ == name@, r.discriminant == discriminant, r.body == body, r.cfg == cfg, r.documentation == documentation,
//@end
//@fn src/bindgen/ir/enumeration.rs EnumVariant::specialize r
    ensures variant_sub(*self, mappings@, r),
//@end
}
impl Enum {
//@fn src/bindgen/ir/enumeration.rs Enum::new r
    ensures r.path == path, r.export_name@ == path.name@, r.generic_params == generic_params, r.repr == repr, r.variants == variants,
        r.tag == tag, r.cfg == cfg, r.annotations == annotations, r.documentation == documentation,
//@end
//@fn src/bindgen/ir/enumeration.rs Enum::instantiate_monomorph r
//@loop 0
//@loop 1 rty=Vec<EnumVariant>
    __s1@ == self.variants@, __r1@.len() == __i1,
    forall|i: int| 0 <= i < __i1 ==> variant_sub(self.variants@[i], mappings@, #[trigger] __r1@[i]),
//@end
}
} // verus!
fn main() {}
