//@include prelude.inc
//@include ty_types.inc
verus! {
//@include ty_basic.inc
#[verifier::external_body] pub struct AnnotationSet { _p: () }
#[verifier::external_body] pub struct Documentation { _p: () }
#[verifier::external_body] pub struct Cfg { _p: () }
#[verifier::external_body] pub struct Literal { _p: () }
//@type src/bindgen/ir/repr.rs ReprAlign derive=Clone,Copy
//@type src/bindgen/ir/repr.rs ReprStyle derive=Clone,Copy
//@type src/bindgen/ir/repr.rs ReprType derive=Clone,Copy
//@type src/bindgen/ir/repr.rs Repr derive=Clone,Copy
impl PartialEq for ReprStyle { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl PartialEqSpecImpl for ReprStyle {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
//@type src/bindgen/ir/field.rs Field
//@type src/bindgen/ir/constant.rs Constant
//@type src/bindgen/ir/structure.rs Struct
//@type src/bindgen/ir/union.rs Union
//@type src/bindgen/ir/typedef.rs Typedef
//@type src/bindgen/ir/opaque.rs OpaqueItem
//@type src/bindgen/ir/global.rs Static
//@type src/bindgen/ir/function.rs FunctionArgument
//@type src/bindgen/ir/function.rs Function
//@type src/bindgen/ir/enumeration.rs VariantBody
//@type src/bindgen/ir/enumeration.rs EnumVariant
//@type src/bindgen/ir/enumeration.rs Enum
//@type src/bindgen/config.rs Style derive=Clone,Copy
//@type src/bindgen/config.rs Config keep=style
//@type src/bindgen/declarationtyperesolver.rs DeclarationTypeResolver
#[verifier::external_body] pub struct PathBuf { _p: () }
//@type src/bindgen/library.rs Library
impl Eq for Path {}
impl std::hash::Hash for Path { #[verifier::external_body] fn hash<H: std::hash::Hasher>(&self, state: &mut H) { unimplemented!() } }
pub mod ax12 {
use super::*;
pub broadcast axiom fn path_key_model() ensures #[trigger] obeys_key_model::<Path>();
}
pub use ax12::*;
//@broadcast path_key_model, vstd::std_specs::hash::group_hash_axioms
/// src/bindgen/ir/item.rs ItemMap, by the sequence of its items in visiting order (C09)
pub struct ItemMap<T> { pub all: Vec<T> }
impl<T> ItemMap<T> {
    pub fn vx_all(&self) -> (r: &[T]) ensures r@ == self.all@ { self.all.as_slice() }
    pub fn vx_all_mut(&mut self) -> (r: &mut Vec<T>) ensures *r == old(self).all, *final(r) == final(self).all { &mut self.all }
}
// ---- std::collections::hash_map::Entry ----
pub struct VacantEntry<'a, K, V> { pub m: &'a mut HashMap<K, V>, pub k: K }
pub struct OccupiedEntry<'a, K, V> { pub m: &'a mut HashMap<K, V>, pub k: K }
pub enum Entry<'a, K, V> { Vacant(VacantEntry<'a, K, V>), Occupied(OccupiedEntry<'a, K, V>) }
impl<'a, K, V> VacantEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn insert(self, v: V) -> (r: &'a mut V) ensures final(self.m)@ == old(self.m)@.insert(self.k, *final(r)), *r == v { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_entry<'a, K, V>(m: &'a mut HashMap<K, V>, k: K) -> (r: Entry<'a, K, V>)
    ensures match r {
        Entry::Vacant(e) => !old(m)@.dom().contains(k) && e.k == k && *e.m == *old(m) && *final(e.m) == *final(m),
        Entry::Occupied(e) => old(m)@.dom().contains(k) && e.k == k && *e.m == *old(m) && *final(e.m) == *final(m),
    },
{ unimplemented!() }

// ---------------- specification ----------------
pub type Decl = (Path, Option<DeclarationType>);
pub type Table = Map<Path, Option<DeclarationType>>;
/// an earlier declaration of a name wins
pub open spec fn declare(m: Table, d: Decl) -> Table { if m.dom().contains(d.0) { m } else { m.insert(d.0, d.1) } }
pub open spec fn declare_all(m: Table, ds: Seq<Decl>, n: nat) -> Table
    decreases n
{ if n == 0 || n > ds.len() { m } else { declare(declare_all(m, ds, (n - 1) as nat), ds[n - 1]) } }
/// the keyword a reference to p must carry
pub open spec fn keyword(m: Table, p: Path) -> Option<DeclarationType> { if m.dom().contains(p) { m[p] } else { None } }

/// the keyword each kind of item is defined with in C
pub open spec fn struct_decl(s: Struct) -> Decl { (s.path, if s.is_transparent { None } else { Some(DeclarationType::Struct) }) }
pub open spec fn enum_decl(e: Enum) -> Decl {
    (e.path, if e.tag is Some { Some(if e.repr.style == ReprStyle::C { DeclarationType::Struct } else { DeclarationType::Union }) }
        else if e.repr.style == ReprStyle::C && e.repr.ty is None { Some(DeclarationType::Enum) } else { None })
}
pub open spec fn union_decl(u: Union) -> Decl { (u.path, Some(DeclarationType::Union)) }
pub open spec fn typedef_decl(t: Typedef) -> Decl { (t.path, None) }
pub open spec fn opaque_decl(o: OpaqueItem) -> Decl { (o.path, Some(DeclarationType::Struct)) }
pub open spec fn struct_decls(xs: Seq<Struct>) -> Seq<Decl> { Seq::new(xs.len(), |i: int| struct_decl(xs[i])) }
pub open spec fn enum_decls(xs: Seq<Enum>) -> Seq<Decl> { Seq::new(xs.len(), |i: int| enum_decl(xs[i])) }
pub open spec fn union_decls(xs: Seq<Union>) -> Seq<Decl> { Seq::new(xs.len(), |i: int| union_decl(xs[i])) }
pub open spec fn typedef_decls(xs: Seq<Typedef>) -> Seq<Decl> { Seq::new(xs.len(), |i: int| typedef_decl(xs[i])) }
pub open spec fn opaque_decls(xs: Seq<OpaqueItem>) -> Seq<Decl> { Seq::new(xs.len(), |i: int| opaque_decl(xs[i])) }
/// all declarations, in the order of item kinds
pub open spec fn table1(l: Library) -> Table { let d = struct_decls(l.structs.all@); declare_all(Map::empty(), d, d.len()) }
pub open spec fn table2(l: Library) -> Table { let d = enum_decls(l.enums.all@); declare_all(table1(l), d, d.len()) }
pub open spec fn table3(l: Library) -> Table { let d = union_decls(l.unions.all@); declare_all(table2(l), d, d.len()) }
pub open spec fn table4(l: Library) -> Table { let d = typedef_decls(l.typedefs.all@); declare_all(table3(l), d, d.len()) }
pub open spec fn table(l: Library) -> Table { let d = opaque_decls(l.opaque_items.all@); declare_all(table4(l), d, d.len()) }

/// t with the keyword of every path in a declarator position set, and nothing else changed
pub open spec fn tagged(t: Type, m: Table, r: Type) -> bool
    decreases t
{
    match t {
        Type::Ptr { ty, is_const, is_nullable, is_ref } => match r {
            Type::Ptr { ty: ty2, is_const: c2, is_nullable: n2, is_ref: r2 } => tagged(*ty, m, *ty2) && c2 == is_const && n2 == is_nullable && r2 == is_ref,
            _ => false,
        },
        Type::Path(g) => match r {
            Type::Path(g2) => g2.ctype == keyword(m, g.path) && g2.path == g.path && g2.export_name == g.export_name && g2.generics == g.generics,
            _ => false,
        },
        Type::Primitive(_) => r == t,
        Type::Array(ty, len) => match r { Type::Array(ty2, len2) => tagged(*ty, m, *ty2) && len2 == len, _ => false },
        Type::FuncPtr { ret, args, is_nullable, never_return } => match r {
            Type::FuncPtr { ret: ret2, args: args2, is_nullable: n2, never_return: nr2 } => {
                &&& tagged(*ret, m, *ret2) && n2 == is_nullable && nr2 == never_return
                &&& args2@.len() == args@.len()
                &&& forall|i: int| 0 <= i < args@.len() ==> #[trigger] args2@[i].0 == args@[i].0 && tagged((#[trigger] args@[i]).1, m, args2@[i].1)
            },
            _ => false,
        },
    }
}
pub open spec fn field_tagged(f: Field, m: Table, r: Field) -> bool { tagged(f.ty, m, r.ty) && r == (Field { ty: r.ty, ..f }) }
pub open spec fn fields_tagged(f: Seq<Field>, m: Table, r: Seq<Field>) -> bool {
    r.len() == f.len() && forall|i: int| 0 <= i < f.len() ==> field_tagged(f[i], m, #[trigger] r[i])
}
pub open spec fn arg_tagged(f: FunctionArgument, m: Table, r: FunctionArgument) -> bool { tagged(f.ty, m, r.ty) && r == (FunctionArgument { ty: r.ty, ..f }) }
pub open spec fn args_tagged(f: Seq<FunctionArgument>, m: Table, r: Seq<FunctionArgument>) -> bool {
    r.len() == f.len() && forall|i: int| 0 <= i < f.len() ==> arg_tagged(f[i], m, #[trigger] r[i])
}
pub open spec fn struct_tagged(s: Struct, m: Table, r: Struct) -> bool { fields_tagged(s.fields@, m, r.fields@) && r == (Struct { fields: r.fields, ..s }) }
pub open spec fn union_tagged(s: Union, m: Table, r: Union) -> bool { fields_tagged(s.fields@, m, r.fields@) && r == (Union { fields: r.fields, ..s }) }
pub open spec fn typedef_tagged(s: Typedef, m: Table, r: Typedef) -> bool { tagged(s.aliased, m, r.aliased) && r == (Typedef { aliased: r.aliased, ..s }) }
pub open spec fn static_tagged(s: Static, m: Table, r: Static) -> bool { tagged(s.ty, m, r.ty) && r == (Static { ty: r.ty, ..s }) }
pub open spec fn constant_tagged(s: Constant, m: Table, r: Constant) -> bool { tagged(s.ty, m, r.ty) && r == (Constant { ty: r.ty, ..s }) }
pub open spec fn function_tagged(s: Function, m: Table, r: Function) -> bool {
    tagged(s.ret, m, r.ret) && args_tagged(s.args@, m, r.args@) && r == (Function { ret: r.ret, args: r.args, ..s })
}
pub open spec fn body_tagged(b: VariantBody, m: Table, r: VariantBody) -> bool {
    match b {
        VariantBody::Empty(_) => r == b,
        VariantBody::Body { name, body, inline, inline_casts } => match r {
            VariantBody::Body { name: n2, body: b2, inline: i2, inline_casts: c2 } => n2 == name && i2 == inline && c2 == inline_casts && struct_tagged(body, m, b2),
            _ => false,
        },
    }
}
pub open spec fn variant_tagged(v: EnumVariant, m: Table, r: EnumVariant) -> bool { body_tagged(v.body, m, r.body) && r == (EnumVariant { body: r.body, ..v }) }
pub open spec fn variants_tagged(f: Seq<EnumVariant>, m: Table, r: Seq<EnumVariant>) -> bool {
    r.len() == f.len() && forall|i: int| 0 <= i < f.len() ==> variant_tagged(f[i], m, #[trigger] r[i])
}
pub open spec fn enum_tagged(s: Enum, m: Table, r: Enum) -> bool { variants_tagged(s.variants@, m, r.variants@) && r == (Enum { variants: r.variants, ..s }) }

// ---------------- what first-wins means ----------------
/// A name's keyword is that of its first declaration; declarations made before stay.
pub proof fn lemma_first_wins(m: Table, ds: Seq<Decl>, n: nat, p: Path)
    requires n <= ds.len(),
    ensures
        m.dom().contains(p) ==> declare_all(m, ds, n).dom().contains(p) && declare_all(m, ds, n)[p] == m[p],
        !m.dom().contains(p) && (forall|i: int| 0 <= i < n ==> (#[trigger] ds[i]).0 != p) ==> !declare_all(m, ds, n).dom().contains(p),
        forall|i: int| 0 <= i < n && (#[trigger] ds[i]).0 == p && !m.dom().contains(p) && (forall|j: int| 0 <= j < i ==> (#[trigger] ds[j]).0 != p)
            ==> declare_all(m, ds, n).dom().contains(p) && declare_all(m, ds, n)[p] == ds[i].1,
    decreases n
{
    if n > 0 {
        lemma_first_wins(m, ds, (n - 1) as nat, p);
        let d = declare_all(m, ds, (n - 1) as nat);
        assert forall|i: int| 0 <= i < n && (#[trigger] ds[i]).0 == p && !m.dom().contains(p) && (forall|j: int| 0 <= j < i ==> (#[trigger] ds[j]).0 != p)
            implies declare_all(m, ds, n).dom().contains(p) && declare_all(m, ds, n)[p] == ds[i].1 by {
            if i == n - 1 { } else { }
        }
    }
}

// ---------------- the code ----------------
impl DeclarationType {
//@fn src/bindgen/declarationtyperesolver.rs DeclarationType::to_str r
    ensures self is Struct ==> r@ == "struct"@, self is Enum ==> r@ == "enum"@, self is Union ==> r@ == "union"@,
//@end
}
impl Style {
//@fn src/bindgen/config.rs Style::generate_tag r
    ensures r == !(self is Type),
//@end
//@fn src/bindgen/config.rs Style::generate_typedef r
    ensures r == !(self is Tag),
//@end
}
impl DeclarationTypeResolver {
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r.types@ == Map::<Path, Option<DeclarationType>>::empty() { unimplemented!() }
//@fn src/bindgen/declarationtyperesolver.rs DeclarationTypeResolver::insert r
    ensures final(self).types@ == declare(old(self).types@, (*path, ty)),
//@subst self.types.entry(path.vx_cl()) => vx_entry(&mut self.types, path.vx_cl())
//@end
//@fn src/bindgen/declarationtyperesolver.rs DeclarationTypeResolver::add_enum r
    ensures final(self).types@ == declare(old(self).types@, (*path, Some(DeclarationType::Enum))),
//@end
//@fn src/bindgen/declarationtyperesolver.rs DeclarationTypeResolver::add_struct r
    ensures final(self).types@ == declare(old(self).types@, (*path, Some(DeclarationType::Struct))),
//@end
//@fn src/bindgen/declarationtyperesolver.rs DeclarationTypeResolver::add_union r
    ensures final(self).types@ == declare(old(self).types@, (*path, Some(DeclarationType::Union))),
//@end
//@fn src/bindgen/declarationtyperesolver.rs DeclarationTypeResolver::add_none r
    ensures final(self).types@ == declare(old(self).types@, (*path, None)),
//@end
//@fn src/bindgen/declarationtyperesolver.rs DeclarationTypeResolver::type_for r
    ensures r == keyword(self.types@, *path),
//@end
}
impl GenericPath {
//@fn src/bindgen/ir/generic_path.rs GenericPath::ctype r
    ensures self.ctype is None ==> r is None, self.ctype is Some ==> r == Some(&self.ctype->0),
//@end
//@fn src/bindgen/ir/generic_path.rs GenericPath::resolve_declaration_types r
    ensures *final(self) == (GenericPath { ctype: keyword(resolver.types@, old(self).path), ..*old(self) }),
//@end
}
impl Type {
//@fn src/bindgen/ir/ty.rs Type::resolve_declaration_types r
    ensures tagged(*old(self), resolver.types@, *final(self)),
//@loop 0 mode=mut
    forall|i: int| 0 <= i < __i0 ==> (#[trigger] __s0@[i]).0 == __g0[i].0 && tagged(__g0[i].1, resolver.types@, __s0@[i].1),
//@end
}
impl Struct {
//@fn src/bindgen/ir/structure.rs Item@Struct::collect_declaration_types r
    ensures final(resolver).types@ == declare(old(resolver).types@, struct_decl(*self)),
//@end
//@fn src/bindgen/ir/structure.rs Item@Struct::resolve_declaration_types r
    ensures struct_tagged(*old(self), resolver.types@, *final(self)),
//@loop 0 mode=mut
    forall|i: int| 0 <= i < __i0 ==> field_tagged(__g0[i], resolver.types@, #[trigger] __s0@[i]),
//@end
}
impl Union {
//@fn src/bindgen/ir/union.rs Item@Union::collect_declaration_types r
    ensures final(resolver).types@ == declare(old(resolver).types@, union_decl(*self)),
//@end
//@fn src/bindgen/ir/union.rs Item@Union::resolve_declaration_types r
    ensures union_tagged(*old(self), resolver.types@, *final(self)),
//@loop 0 mode=mut
    forall|i: int| 0 <= i < __i0 ==> field_tagged(__g0[i], resolver.types@, #[trigger] __s0@[i]),
//@end
}
impl Typedef {
//@fn src/bindgen/ir/typedef.rs Item@Typedef::collect_declaration_types r
    ensures final(resolver).types@ == declare(old(resolver).types@, typedef_decl(*self)),
//@end
//@fn src/bindgen/ir/typedef.rs Item@Typedef::resolve_declaration_types r
    ensures typedef_tagged(*old(self), resolver.types@, *final(self)),
//@end
}
impl OpaqueItem {
//@fn src/bindgen/ir/opaque.rs Item@OpaqueItem::collect_declaration_types r
    ensures final(resolver).types@ == declare(old(resolver).types@, opaque_decl(*self)),
//@end
}
impl Static {
//@fn src/bindgen/ir/global.rs Item@Static::resolve_declaration_types r
    ensures static_tagged(*old(self), resolver.types@, *final(self)),
//@end
}
impl Constant {
//@fn src/bindgen/ir/constant.rs Item@Constant::resolve_declaration_types r
    ensures constant_tagged(*old(self), resolver.types@, *final(self)),
//@end
}
impl Function {
//@fn src/bindgen/ir/function.rs Function::resolve_declaration_types r
    ensures function_tagged(*old(self), resolver.types@, *final(self)),
//@loop 0 mode=mut
    forall|i: int| 0 <= i < __i0 ==> arg_tagged(__g0[i], resolver.types@, #[trigger] __s0@[i]),
//@end
}
impl EnumVariant {
//@fn src/bindgen/ir/enumeration.rs EnumVariant::resolve_declaration_types r
    ensures variant_tagged(*old(self), resolver.types@, *final(self)),
//@end
}
impl Enum {
//@fn src/bindgen/ir/enumeration.rs Enum::inline_tag_field r
    ensures r == (repr.style != ReprStyle::C),
//@end
//@fn src/bindgen/ir/enumeration.rs Item@Enum::collect_declaration_types r
    ensures final(resolver).types@ == declare(old(resolver).types@, enum_decl(*self)),
//@end
//@fn src/bindgen/ir/enumeration.rs Item@Enum::resolve_declaration_types r
    ensures enum_tagged(*old(self), resolver.types@, *final(self)),
//@loop 0 mode=mut
    forall|i: int| 0 <= i < __i0 ==> variant_tagged(__g0[i], resolver.types@, #[trigger] __s0@[i]),
//@end
}
pub open spec fn all_tagged(l: Library, m: Table, r: Library) -> bool {
    &&& r.enums.all@.len() == l.enums.all@.len() && forall|i: int| 0 <= i < l.enums.all@.len() ==> enum_tagged(l.enums.all@[i], m, #[trigger] r.enums.all@[i])
    &&& r.structs.all@.len() == l.structs.all@.len() && forall|i: int| 0 <= i < l.structs.all@.len() ==> struct_tagged(l.structs.all@[i], m, #[trigger] r.structs.all@[i])
    &&& r.unions.all@.len() == l.unions.all@.len() && forall|i: int| 0 <= i < l.unions.all@.len() ==> union_tagged(l.unions.all@[i], m, #[trigger] r.unions.all@[i])
    &&& r.typedefs.all@.len() == l.typedefs.all@.len() && forall|i: int| 0 <= i < l.typedefs.all@.len() ==> typedef_tagged(l.typedefs.all@[i], m, #[trigger] r.typedefs.all@[i])
    &&& r.globals.all@.len() == l.globals.all@.len() && forall|i: int| 0 <= i < l.globals.all@.len() ==> static_tagged(l.globals.all@[i], m, #[trigger] r.globals.all@[i])
    &&& r.functions@.len() == l.functions@.len() && forall|i: int| 0 <= i < l.functions@.len() ==> function_tagged(l.functions@[i], m, #[trigger] r.functions@[i])
    &&& r.opaque_items == l.opaque_items && r.config == l.config
}
impl Library {
//@fn src/bindgen/library.rs Library::resolve_declaration_types r
    ensures old(self).config.style is Type ==> *final(self) == *old(self),
        !(old(self).config.style is Type) ==> all_tagged(*old(self), table(*old(self)), *final(self)),
//@loop 0
    resolver.types@ == declare_all(Map::empty(), struct_decls(old(self).structs.all@), __i0 as nat),
//@loop 1
    resolver.types@ == declare_all(table1(*old(self)), enum_decls(old(self).enums.all@), __i1 as nat),
//@loop 2
    resolver.types@ == declare_all(table2(*old(self)), union_decls(old(self).unions.all@), __i2 as nat),
//@loop 3
    resolver.types@ == declare_all(table3(*old(self)), typedef_decls(old(self).typedefs.all@), __i3 as nat),
//@loop 4
    resolver.types@ == declare_all(table4(*old(self)), opaque_decls(old(self).opaque_items.all@), __i4 as nat),
//@loop 5
    forall|i: int| 0 <= i < __i5 ==> enum_tagged(__g5[i], resolver.types@, #[trigger] __s5@[i]),
//@loop 6
    forall|i: int| 0 <= i < __i6 ==> struct_tagged(__g6[i], resolver.types@, #[trigger] __s6@[i]),
//@loop 7
    forall|i: int| 0 <= i < __i7 ==> union_tagged(__g7[i], resolver.types@, #[trigger] __s7@[i]),
//@loop 8
    forall|i: int| 0 <= i < __i8 ==> typedef_tagged(__g8[i], resolver.types@, #[trigger] __s8@[i]),
//@loop 9
    forall|i: int| 0 <= i < __i9 ==> static_tagged(__g9[i], resolver.types@, #[trigger] __s9@[i]),
//@loop 10 mode=mut
    forall|i: int| 0 <= i < __i10 ==> function_tagged(__g10[i], resolver.types@, #[trigger] __s10@[i]),
//@end
}
} // verus!
fn main() {}
