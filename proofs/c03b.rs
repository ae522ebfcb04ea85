//@include prelude.inc
//@include ty_types.inc
verus! {
//@include ty_basic.inc
#[verifier::external_body] pub struct AnnotationSet { _p: () }
#[verifier::external_body] pub struct Documentation { _p: () }
#[verifier::external_body] pub struct Cfg { _p: () }
#[verifier::external_body] pub struct Literal { _p: () }
//@type src/bindgen/ir/repr.rs ReprAlign derive=Clone,Copy
//@type src/bindgen/ir/repr.rs ReprStyle derive=Clone,Copy
//@type src/bindgen/ir/repr.rs ReprType derive=Clone,Copy
//@type src/bindgen/ir/repr.rs Repr derive=Clone,Copy
//@type src/bindgen/ir/field.rs Field
//@type src/bindgen/ir/constant.rs Constant
//@type src/bindgen/ir/structure.rs Struct
//@type src/bindgen/ir/union.rs Union
//@type src/bindgen/ir/typedef.rs Typedef
//@type src/bindgen/ir/opaque.rs OpaqueItem
//@type src/bindgen/ir/global.rs Static
//@type src/bindgen/ir/function.rs FunctionArgument
//@type src/bindgen/ir/function.rs Function
//@type src/bindgen/ir/enumeration.rs VariantBody
//@type src/bindgen/ir/enumeration.rs EnumVariant
//@type src/bindgen/ir/enumeration.rs Enum
//@type src/bindgen/config.rs Language derive=Clone,Copy
//@type src/bindgen/config.rs Config keep=language
#[verifier::external_body] pub struct PathBuf { _p: () }
//@type src/bindgen/library.rs Library
/// src/bindgen/ir/item.rs ItemMap, by the sequence of its items in visiting order (C09)
pub struct ItemMap<T> { pub all: Vec<T> }
impl<T> ItemMap<T> {
    pub fn vx_all(&self) -> (r: &[T]) ensures r@ == self.all@ { self.all.as_slice() }
    pub fn vx_all_mut(&mut self) -> (r: &mut Vec<T>) ensures *r == old(self).all, *final(r) == final(self).all { &mut self.all }
}
/// what a type is lowered to: c03
pub uninterp spec fn lowered(t: Type, cxx: bool, r: Type) -> bool;
impl Type {
    #[verifier::external_body] pub fn simplify_standard_types(&mut self, config: &Config) ensures lowered(*old(self), config.language is Cxx, *final(self)) { unimplemented!() }
}
// ---------------- specification: the same item with every type in it lowered ----------------
pub open spec fn field_lowered(f: Field, c: bool, r: Field) -> bool { lowered(f.ty, c, r.ty) && r == (Field { ty: r.ty, ..f }) }
pub open spec fn fields_lowered(f: Seq<Field>, c: bool, r: Seq<Field>) -> bool {
    r.len() == f.len() && forall|i: int| 0 <= i < f.len() ==> field_lowered(f[i], c, #[trigger] r[i])
}
pub open spec fn arg_lowered(f: FunctionArgument, c: bool, r: FunctionArgument) -> bool { lowered(f.ty, c, r.ty) && r == (FunctionArgument { ty: r.ty, ..f }) }
pub open spec fn args_lowered(f: Seq<FunctionArgument>, c: bool, r: Seq<FunctionArgument>) -> bool {
    r.len() == f.len() && forall|i: int| 0 <= i < f.len() ==> arg_lowered(f[i], c, #[trigger] r[i])
}
pub open spec fn struct_lowered(s: Struct, c: bool, r: Struct) -> bool { fields_lowered(s.fields@, c, r.fields@) && r == (Struct { fields: r.fields, ..s }) }
pub open spec fn union_lowered(s: Union, c: bool, r: Union) -> bool { fields_lowered(s.fields@, c, r.fields@) && r == (Union { fields: r.fields, ..s }) }
pub open spec fn typedef_lowered(s: Typedef, c: bool, r: Typedef) -> bool { lowered(s.aliased, c, r.aliased) && r == (Typedef { aliased: r.aliased, ..s }) }
pub open spec fn static_lowered(s: Static, c: bool, r: Static) -> bool { lowered(s.ty, c, r.ty) && r == (Static { ty: r.ty, ..s }) }
pub open spec fn function_lowered(s: Function, c: bool, r: Function) -> bool {
    lowered(s.ret, c, r.ret) && args_lowered(s.args@, c, r.args@) && r == (Function { ret: r.ret, args: r.args, ..s })
}
pub open spec fn body_lowered(b: VariantBody, c: bool, r: VariantBody) -> bool {
    match b {
        VariantBody::Empty(_) => r == b,
        VariantBody::Body { name, body, inline, inline_casts } => match r {
            VariantBody::Body { name: n2, body: b2, inline: i2, inline_casts: c2 } => n2 == name && i2 == inline && c2 == inline_casts && struct_lowered(body, c, b2),
            _ => false,
        },
    }
}
pub open spec fn variant_lowered(v: EnumVariant, c: bool, r: EnumVariant) -> bool { body_lowered(v.body, c, r.body) && r == (EnumVariant { body: r.body, ..v }) }
pub open spec fn variants_lowered(f: Seq<EnumVariant>, c: bool, r: Seq<EnumVariant>) -> bool {
    r.len() == f.len() && forall|i: int| 0 <= i < f.len() ==> variant_lowered(f[i], c, #[trigger] r[i])
}
pub open spec fn enum_lowered(s: Enum, c: bool, r: Enum) -> bool { variants_lowered(s.variants@, c, r.variants@) && r == (Enum { variants: r.variants, ..s }) }


// ================= code under contract =================
impl Struct {
//@fn src/bindgen/ir/structure.rs Struct::simplify_standard_types r
    ensures struct_lowered(*old(self), config.language is Cxx, *final(self)),
//@loop 0 mode=mut
    forall|i: int| 0 <= i < __i0 ==> field_lowered(__g0[i], config.language is Cxx, #[trigger] __s0@[i]),
//@end
}
impl Union {
//@fn src/bindgen/ir/union.rs Union::simplify_standard_types r
    ensures union_lowered(*old(self), config.language is Cxx, *final(self)),
//@loop 0 mode=mut
    forall|i: int| 0 <= i < __i0 ==> field_lowered(__g0[i], config.language is Cxx, #[trigger] __s0@[i]),
//@end
}
impl Typedef {
//@fn src/bindgen/ir/typedef.rs Typedef::simplify_standard_types r
    ensures typedef_lowered(*old(self), config.language is Cxx, *final(self)),
//@end
}
impl Static {
//@fn src/bindgen/ir/global.rs Static::simplify_standard_types r
    ensures static_lowered(*old(self), config.language is Cxx, *final(self)),
//@end
}
impl Function {
//@fn src/bindgen/ir/function.rs Function::simplify_standard_types r
    ensures function_lowered(*old(self), config.language is Cxx, *final(self)),
//@loop 0 mode=mut
    forall|i: int| 0 <= i < __i0 ==> arg_lowered(__g0[i], config.language is Cxx, #[trigger] __s0@[i]),
//@end
}
impl EnumVariant {
//@fn src/bindgen/ir/enumeration.rs EnumVariant::simplify_standard_types r
    ensures variant_lowered(*old(self), config.language is Cxx, *final(self)),
//@end
}
impl Enum {
//@fn src/bindgen/ir/enumeration.rs Enum::simplify_standard_types r
    ensures enum_lowered(*old(self), config.language is Cxx, *final(self)),
//@loop 0 mode=mut
    forall|i: int| 0 <= i < __i0 ==> variant_lowered(__g0[i], config.language is Cxx, #[trigger] __s0@[i]),
//@end
}
pub open spec fn all_lowered(l: Library, c: bool, r: Library) -> bool {
    &&& r.enums.all@.len() == l.enums.all@.len() && forall|i: int| 0 <= i < l.enums.all@.len() ==> enum_lowered(l.enums.all@[i], c, #[trigger] r.enums.all@[i])
    &&& r.structs.all@.len() == l.structs.all@.len() && forall|i: int| 0 <= i < l.structs.all@.len() ==> struct_lowered(l.structs.all@[i], c, #[trigger] r.structs.all@[i])
    &&& r.unions.all@.len() == l.unions.all@.len() && forall|i: int| 0 <= i < l.unions.all@.len() ==> union_lowered(l.unions.all@[i], c, #[trigger] r.unions.all@[i])
    &&& r.typedefs.all@.len() == l.typedefs.all@.len() && forall|i: int| 0 <= i < l.typedefs.all@.len() ==> typedef_lowered(l.typedefs.all@[i], c, #[trigger] r.typedefs.all@[i])
    &&& r.globals.all@.len() == l.globals.all@.len() && forall|i: int| 0 <= i < l.globals.all@.len() ==> static_lowered(l.globals.all@[i], c, #[trigger] r.globals.all@[i])
    &&& r.functions@.len() == l.functions@.len() && forall|i: int| 0 <= i < l.functions@.len() ==> function_lowered(l.functions@[i], c, #[trigger] r.functions@[i])
    &&& r.opaque_items == l.opaque_items && r.config == l.config
}
impl Library {
//@fn src/bindgen/library.rs Library::simplify_standard_types r loops=6
    ensures all_lowered(*old(self), old(self).config.language is Cxx, *final(self)),
//@loop 0 mode=mut
    forall|i: int| 0 <= i < __i0 ==> struct_lowered(__g0[i], config.language is Cxx, #[trigger] __s0@[i]),
//@loop 1 mode=mut
    forall|i: int| 0 <= i < __i1 ==> enum_lowered(__g1[i], config.language is Cxx, #[trigger] __s1@[i]),
//@loop 2 mode=mut
    forall|i: int| 0 <= i < __i2 ==> union_lowered(__g2[i], config.language is Cxx, #[trigger] __s2@[i]),
//@loop 3 mode=mut
    forall|i: int| 0 <= i < __i3 ==> static_lowered(__g3[i], config.language is Cxx, #[trigger] __s3@[i]),
//@loop 4 mode=mut
    forall|i: int| 0 <= i < __i4 ==> typedef_lowered(__g4[i], config.language is Cxx, #[trigger] __s4@[i]),
//@loop 5 mode=mut
    forall|i: int| 0 <= i < __i5 ==> function_lowered(__g5[i], config.language is Cxx, #[trigger] __s5@[i]),
//@end
}
} // verus!
fn main() {}
