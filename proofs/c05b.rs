//@include prelude.inc
//@include ty_types.inc
verus! {
//@include ty_basic.inc
//@include items_opaque.inc
//@type src/bindgen/ir/repr.rs ReprStyle derive=Clone,Copy
//@type src/bindgen/ir/repr.rs ReprType derive=Clone,Copy
//@type src/bindgen/ir/repr.rs Repr derive=Clone,Copy
//@type src/bindgen/ir/enumeration.rs VariantBody
//@type src/bindgen/ir/enumeration.rs EnumVariant
//@type src/bindgen/ir/enumeration.rs Enum
//@type src/bindgen/ir/opaque.rs OpaqueItem
//@type src/bindgen/ir/function.rs FunctionArgument
//@type src/bindgen/ir/function.rs Function
//@type src/bindgen/ir/global.rs Static
//@type src/bindgen/monomorph.rs Monomorphs
pub struct ExportConfig { pub mangle: MangleConfig }
pub struct Config { pub export: ExportConfig }
/// src/bindgen/ir/item.rs ItemMap, by the sequence of its items in visiting order (C09)
pub struct ItemMap<T> { pub all: Vec<T> }
/// the items after one more was offered: what C09 proves of ItemMap::try_insert
pub uninterp spec fn inserted<T>(s: Seq<T>, x: T) -> Seq<T>;
pub open spec fn inserted_all<T>(s: Seq<T>, xs: Seq<T>, n: nat) -> Seq<T>
    decreases n
{ if n == 0 || n > xs.len() { s } else { inserted(inserted_all(s, xs, (n - 1) as nat), xs[n - 1]) } }
impl<T> ItemMap<T> {
    pub fn vx_all(&self) -> (r: &[T]) ensures r@ == self.all@ { self.all.as_slice() }
    pub fn vx_all_mut(&mut self) -> (r: &mut Vec<T>) ensures *r == old(self).all, *final(r) == final(self).all { &mut self.all }
    #[verifier::external_body] pub fn vx_take_all(&mut self) -> (r: Vec<T>) ensures r@ == old(self).all@ { unimplemented!() }
    #[verifier::external_body] pub fn vx_put_all(&mut self, v: Vec<T>) ensures final(self).all@ == v@ { unimplemented!() }
    #[verifier::external_body] pub fn try_insert(&mut self, x: T) -> (r: bool) ensures final(self).all@ == inserted(old(self).all@, x) { unimplemented!() }
}
pub proof fn lemma_filter_step<A>(s: Seq<A>, n: int, f: spec_fn(A) -> bool)
    requires 0 <= n < s.len(),
    ensures s.take(n + 1).filter(f) == if f(s[n]) { s.take(n).filter(f).push(s[n]) } else { s.take(n).filter(f) },
{ reveal(Seq::filter); assert(s.take(n + 1).drop_last() =~= s.take(n)); }
//@type src/bindgen/library.rs Library keep=config,constants,globals,enums,structs,unions,opaque_items,typedefs,functions
impl Library {
    pub open spec fn cfg_(&self) -> Config { self.config }
//@fn src/bindgen/library.rs Library::get_config r
    ensures *r == self.config,
//@end
}
/// Mangled name of a generic with arguments: the function proved in c05a.
pub uninterp spec fn mangled(name: Seq<char>, args: Seq<GenericArgument>, cfg: MangleConfig) -> Seq<char>;
pub mod mangle {
use super::*;
#[verifier::external_body]
pub fn mangle_path(path: &Path, generic_values: &[GenericArgument], config: &MangleConfig) -> (r: Path)
    ensures r.name@ == mangled(path.name@, generic_values@, *config)
{ unimplemented!() }
#[verifier::external_body]
pub fn mangle_name(name: &str, generic_values: &[GenericArgument], config: &MangleConfig) -> (r: String)
    ensures r@ == mangled(name@, generic_values@, *config)
{ unimplemented!() }
}
// Derived Eq/Hash of GenericPath are structural (assumed).
impl PartialEq for GenericPath { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl Eq for GenericPath {}
impl std::hash::Hash for GenericPath { #[verifier::external_body] fn hash<H: std::hash::Hasher>(&self, state: &mut H) { unimplemented!() } }
pub mod ax5 {
use super::*;
pub broadcast axiom fn generic_path_key_model() ensures #[trigger] obeys_key_model::<GenericPath>();
pub broadcast axiom fn generic_path_ext(a: GenericPath, b: GenericPath)
    ensures (a.path.name@ == b.path.name@ && a.export_name@ == b.export_name@ && #[trigger] a.generics@ == #[trigger] b.generics@ && a.ctype == b.ctype) ==> a == b;
}
pub use ax5::*;
//@broadcast generic_path_key_model, generic_path_ext, vstd::std_specs::hash::group_hash_axioms

// ---------------- specification ----------------
/// Every registered name is the mangled name of its key: names depend on nothing else.
pub open spec fn names_ok(m: Monomorphs, cfg: MangleConfig) -> bool {
    forall|k: GenericPath| #[trigger] m.replacements@.dom().contains(k) ==>
        m.replacements@[k].name@ == mangled(k.path.name@, k.generics@, cfg)
}
/// Nothing registered or instantiated before is lost or altered.
pub open spec fn grows(a: Monomorphs, b: Monomorphs) -> bool {
    &&& forall|k: GenericPath| #![trigger a.replacements@.dom().contains(k)] #![trigger b.replacements@.dom().contains(k)] a.replacements@.dom().contains(k) ==> b.replacements@.dom().contains(k)
    &&& a.structs@.len() <= b.structs@.len() && (forall|i: int| 0 <= i < a.structs@.len() ==> b.structs@[i] == #[trigger] a.structs@[i])
    &&& a.unions@.len() <= b.unions@.len() && (forall|i: int| 0 <= i < a.unions@.len() ==> b.unions@[i] == #[trigger] a.unions@[i])
    &&& a.typedefs@.len() <= b.typedefs@.len() && (forall|i: int| 0 <= i < a.typedefs@.len() ==> b.typedefs@[i] == #[trigger] a.typedefs@[i])
    &&& a.opaques@.len() <= b.opaques@.len() && (forall|i: int| 0 <= i < a.opaques@.len() ==> b.opaques@[i] == #[trigger] a.opaques@[i])
    &&& a.enums@.len() <= b.enums@.len() && (forall|i: int| 0 <= i < a.enums@.len() ==> b.enums@[i] == #[trigger] a.enums@[i])
}
pub open spec fn has_key(m: Monomorphs, path: Path, args: Seq<GenericArgument>) -> bool {
    exists|k: GenericPath| m.replacements@.dom().contains(k) && #[trigger] is_key(k, path, args)
}
/// Every instantiation of a known generic used by t is registered.
pub proof fn key_mono(a: Monomorphs, b: Monomorphs, path: Path, args: Seq<GenericArgument>)
    requires has_key(a, path, args), grows(a, b),
    ensures has_key(b, path, args),
{
    let k = choose|k: GenericPath| a.replacements@.dom().contains(k) && #[trigger] is_key(k, path, args);
    assert(b.replacements@.dom().contains(k) && is_key(k, path, args));
}
pub open spec fn registered(t: Type, lib: Library, m: Monomorphs) -> bool
    decreases t
{
    match t {
        Type::Ptr { ty, .. } => registered(*ty, lib, m),
        Type::Path(g) => g.generics@.len() == 0 || m.replacements@.dom().contains(g) || has_key(m, g.path, g.generics@) || !lib.knows(g.path),
        Type::Primitive(_) => true,
        Type::Array(ty, _) => registered(*ty, lib, m),
        Type::FuncPtr { ret, args, .. } => registered(*ret, lib, m) && forall|i: int| 0 <= i < args@.len() ==> registered((#[trigger] args@[i]).1, lib, m),
    }
}
pub proof fn registered_mono(t: Type, lib: Library, a: Monomorphs, b: Monomorphs)
    requires registered(t, lib, a), grows(a, b),
    ensures registered(t, lib, b),
    decreases t,
{
    match t {
        Type::Ptr { ty, .. } => registered_mono(*ty, lib, a, b),
        Type::Array(ty, _) => registered_mono(*ty, lib, a, b),
        Type::FuncPtr { ret, args, .. } => {
            registered_mono(*ret, lib, a, b);
            assert forall|i: int| 0 <= i < args@.len() implies registered((#[trigger] args@[i]).1, lib, b) by { registered_mono(args@[i].1, lib, a, b); }
        }
        _ => {}
    }
}
/// r is t with every use of a registered instantiation replaced by its registered name.
pub open spec fn renamed_uses(t: Type, m: Monomorphs, r: Type) -> bool
    decreases t
{
    match t {
        Type::Ptr { ty, is_const, is_nullable, is_ref } =>
            r matches Type::Ptr { ty: t2, is_const: c2, is_nullable: n2, is_ref: r2 }
            && renamed_uses(*ty, m, *t2) && c2 == is_const && n2 == is_nullable && r2 == is_ref,
        Type::Path(g) =>
            if g.generics@.len() > 0 && m.replacements@.dom().contains(g) {
                r matches Type::Path(g2) && is_key(g2, m.replacements@[g], Seq::empty())
            } else { r == t },
        Type::Primitive(_) => r == t,
        Type::Array(ty, len) => r matches Type::Array(t2, l2) && renamed_uses(*ty, m, *t2) && l2 == len,
        Type::FuncPtr { ret, args, is_nullable, never_return } =>
            r matches Type::FuncPtr { ret: ret2, args: args2, is_nullable: n2, never_return: v2 }
            && renamed_uses(*ret, m, *ret2) && n2 == is_nullable && v2 == never_return
            && args2@.len() == args@.len()
            && forall|i: int| 0 <= i < args@.len() ==> (#[trigger] args2@[i]).0 == args@[i].0 && renamed_uses(args@[i].1, m, args2@[i].1),
    }
}

// ---------------- code under contract ----------------
/// Any item that can be looked up by name; `instantiate_monomorph` dispatches to the item kinds below.
#[verifier::external_body] pub struct ItemContainer { _p: () }
impl ItemContainer {
    #[verifier::external_body]
    pub fn instantiate_monomorph(&self, generics: &[GenericArgument], library: &Library, out: &mut Monomorphs)
        requires inv(*old(out), *library),
        ensures inv(*final(out), *library), grows(*old(out), *final(out)), has_key(*final(out), self.path_(), generics@),
    { unimplemented!() }
    pub uninterp spec fn path_(&self) -> Path;
}
impl Library {
    pub uninterp spec fn knows(&self, p: Path) -> bool;
    #[verifier::external_body]
    pub fn get_items(&self, p: &Path) -> (r: Option<Vec<ItemContainer>>)
        ensures r is Some == self.knows(*p), r is Some ==> r->0@.len() > 0 && forall|i: int| 0 <= i < r->0@.len() ==> (#[trigger] r->0@[i]).path_() == *p,
    { unimplemented!() }
}
impl GenericParams {
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.0@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.0@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: GenericParams) ensures r.0@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn call<'out>(&'out self, item_name: &str, arguments: &'out [GenericArgument]) -> Vec<(&'out Path, &'out GenericArgument)> { unimplemented!() }
}
impl Type { #[verifier::external_body] pub fn specialize(&self, mappings: &[(&Path, &GenericArgument)]) -> Type { unimplemented!() } }

impl Type {
//@fn src/bindgen/ir/ty.rs Type::add_monomorphs r
//@subst item.deref() => item
    requires inv(*old(out), *library),
    ensures inv(*final(out), *library), grows(*old(out), *final(out)), registered(*self, *library, *final(out)),
//@loop 0
    __s0@ == items@, inv(*out, *library), grows(*old(out), *out),
    __i0 > 0 ==> has_key(*out, generic.path, generic.generics@),
//@loop 1
    __s1@ == args@, inv(*out, *library), grows(*old(out), *out),
    registered(**ret, *library, *out),
    forall|i: int| 0 <= i < __i1 ==> registered((#[trigger] args@[i]).1, *library, *out),
//@loop 1 pre
    let ghost __before = *out;
//@loop 1 post
    proof {
        registered_mono(**ret, *library, __before, *out);
        assert forall|i: int| 0 <= i < __i1 implies registered((#[trigger] args@[i]).1, *library, *out) by {
            if i < __i1 - 1 { registered_mono(args@[i].1, *library, __before, *out); }
        }
    }
//@end
//@fn src/bindgen/ir/ty.rs Type::mangle_paths r
    ensures renamed_uses(*old(self), *monomorphs, *final(self)),
//@loop 0 mode=mut
    forall|i: int| 0 <= i < __i0 ==> (#[trigger] __s0@[i]).0 == __g0[i].0 && renamed_uses(__g0[i].1, *monomorphs, __s0@[i].1),
//@end
}
pub open spec fn fields_registered(fs: Seq<Field>, n: int, lib: Library, m: Monomorphs) -> bool {
    forall|i: int| 0 <= i < n ==> registered((#[trigger] fs[i]).ty, lib, m)
}
pub open spec fn fields_renamed(fs: Seq<Field>, m: Monomorphs, r: Seq<Field>) -> bool {
    r.len() == fs.len() && forall|i: int| 0 <= i < fs.len() ==> field_renamed(fs[i], m, #[trigger] r[i])
}
pub open spec fn field_renamed(f: Field, m: Monomorphs, r: Field) -> bool {
    renamed_uses(f.ty, m, r.ty) && r.name == f.name && r.cfg == f.cfg && r.annotations == f.annotations && r.documentation == f.documentation
}
/// every use in the body of a variant that is not generic any more is registered
pub open spec fn variant_registered(v: EnumVariant, lib: Library, m: Monomorphs) -> bool {
    v.body is Body && v.body->body.generic_params.0@.len() == 0 ==> fields_registered(v.body->body.fields@, v.body->body.fields@.len() as int, lib, m)
}
pub proof fn variant_mono(v: EnumVariant, lib: Library, a: Monomorphs, b: Monomorphs)
    requires variant_registered(v, lib, a), grows(a, b),
    ensures variant_registered(v, lib, b),
{
    if v.body is Body && v.body->body.generic_params.0@.len() == 0 {
        let fs = v.body->body.fields@;
        assert forall|i: int| 0 <= i < fs.len() implies registered((#[trigger] fs[i]).ty, lib, b) by { registered_mono(fs[i].ty, lib, a, b); }
    }
}
pub open spec fn variant_renamed(v: EnumVariant, m: Monomorphs, r: EnumVariant) -> bool {
    &&& r.name == v.name && r.export_name == v.export_name && r.discriminant == v.discriminant && r.cfg == v.cfg && r.documentation == v.documentation
    &&& match v.body {
        VariantBody::Empty(_) => r.body == v.body,
        VariantBody::Body { name, body, inline, inline_casts } =>
            r.body is Body && r.body->name == name && r.body->inline == inline && r.body->inline_casts == inline_casts
            && fields_renamed(body.fields@, m, r.body->body.fields@) && r.body->body.path == body.path && r.body->body.export_name == body.export_name,
    }
}
/// the variant of an instantiation: it and its body carry mangled names
pub open spec fn variant_named(v: EnumVariant, args: Seq<GenericArgument>, cfg: MangleConfig, r: EnumVariant) -> bool {
    &&& r.name@ == mangled(v.name@, args, cfg) && r.export_name@ == r.name@
    &&& v.body is Body == r.body is Body
    &&& v.body is Body ==> r.body->body.path.name@ == mangled(v.body->body.path.name@, args, cfg) && r.body->body.export_name@ == r.body->body.path.name@
}
/// every use in an item that is not generic is registered
pub open spec fn struct_ok(x: Struct, lib: Library, m: Monomorphs) -> bool { x.generic_params.0@.len() == 0 ==> fields_registered(x.fields@, x.fields@.len() as int, lib, m) }
pub open spec fn structs_ok(s: Seq<Struct>, lib: Library, m: Monomorphs) -> bool { forall|k: int| 0 <= k < s.len() ==> struct_ok(#[trigger] s[k], lib, m) }
pub open spec fn union_ok(x: Union, lib: Library, m: Monomorphs) -> bool { x.generic_params.0@.len() == 0 ==> fields_registered(x.fields@, x.fields@.len() as int, lib, m) }
pub open spec fn unions_ok(s: Seq<Union>, lib: Library, m: Monomorphs) -> bool { forall|k: int| 0 <= k < s.len() ==> union_ok(#[trigger] s[k], lib, m) }
pub open spec fn enum_ok(x: Enum, lib: Library, m: Monomorphs) -> bool { x.generic_params.0@.len() == 0 ==> forall|i: int| 0 <= i < x.variants@.len() ==> variant_registered(#[trigger] x.variants@[i], lib, m) }
pub open spec fn enums_ok(s: Seq<Enum>, lib: Library, m: Monomorphs) -> bool { forall|k: int| 0 <= k < s.len() ==> enum_ok(#[trigger] s[k], lib, m) }
pub open spec fn typedef_ok(x: Typedef, lib: Library, m: Monomorphs) -> bool { x.generic_params.0@.len() == 0 ==> registered(x.aliased, lib, m) }
pub open spec fn typedefs_ok(s: Seq<Typedef>, lib: Library, m: Monomorphs) -> bool { forall|k: int| 0 <= k < s.len() ==> typedef_ok(#[trigger] s[k], lib, m) }
pub open spec fn static_ok(x: Static, lib: Library, m: Monomorphs) -> bool { registered(x.ty, lib, m) }
pub open spec fn globals_ok(s: Seq<Static>, lib: Library, m: Monomorphs) -> bool { forall|k: int| 0 <= k < s.len() ==> static_ok(#[trigger] s[k], lib, m) }
pub open spec fn function_ok(x: Function, lib: Library, m: Monomorphs) -> bool { registered(x.ret, lib, m) && forall|i: int| 0 <= i < x.args@.len() ==> registered((#[trigger] x.args@[i]).ty, lib, m) }
pub open spec fn functions_ok(s: Seq<Function>, lib: Library, m: Monomorphs) -> bool { forall|k: int| 0 <= k < s.len() ==> function_ok(#[trigger] s[k], lib, m) }
pub proof fn struct_mono(x: Struct, lib: Library, a: Monomorphs, b: Monomorphs) requires struct_ok(x, lib, a), grows(a, b), ensures struct_ok(x, lib, b), { assert forall|i: int| 0 <= i < x.fields@.len() && x.generic_params.0@.len() == 0 implies registered((#[trigger] x.fields@[i]).ty, lib, b) by { registered_mono(x.fields@[i].ty, lib, a, b); } }
pub proof fn structs_mono(s: Seq<Struct>, lib: Library, a: Monomorphs, b: Monomorphs) requires structs_ok(s, lib, a), grows(a, b), ensures structs_ok(s, lib, b),
{ assert forall|k: int| 0 <= k < s.len() implies struct_ok(#[trigger] s[k], lib, b) by { struct_mono(s[k], lib, a, b); } }
pub proof fn union_mono(x: Union, lib: Library, a: Monomorphs, b: Monomorphs) requires union_ok(x, lib, a), grows(a, b), ensures union_ok(x, lib, b), { assert forall|i: int| 0 <= i < x.fields@.len() && x.generic_params.0@.len() == 0 implies registered((#[trigger] x.fields@[i]).ty, lib, b) by { registered_mono(x.fields@[i].ty, lib, a, b); } }
pub proof fn unions_mono(s: Seq<Union>, lib: Library, a: Monomorphs, b: Monomorphs) requires unions_ok(s, lib, a), grows(a, b), ensures unions_ok(s, lib, b),
{ assert forall|k: int| 0 <= k < s.len() implies union_ok(#[trigger] s[k], lib, b) by { union_mono(s[k], lib, a, b); } }
pub proof fn enum_mono(x: Enum, lib: Library, a: Monomorphs, b: Monomorphs) requires enum_ok(x, lib, a), grows(a, b), ensures enum_ok(x, lib, b), { assert forall|i: int| 0 <= i < x.variants@.len() && x.generic_params.0@.len() == 0 implies variant_registered(#[trigger] x.variants@[i], lib, b) by { variant_mono(x.variants@[i], lib, a, b); } }
pub proof fn enums_mono(s: Seq<Enum>, lib: Library, a: Monomorphs, b: Monomorphs) requires enums_ok(s, lib, a), grows(a, b), ensures enums_ok(s, lib, b),
{ assert forall|k: int| 0 <= k < s.len() implies enum_ok(#[trigger] s[k], lib, b) by { enum_mono(s[k], lib, a, b); } }
pub proof fn typedef_mono(x: Typedef, lib: Library, a: Monomorphs, b: Monomorphs) requires typedef_ok(x, lib, a), grows(a, b), ensures typedef_ok(x, lib, b), { if x.generic_params.0@.len() == 0 { registered_mono(x.aliased, lib, a, b); } }
pub proof fn typedefs_mono(s: Seq<Typedef>, lib: Library, a: Monomorphs, b: Monomorphs) requires typedefs_ok(s, lib, a), grows(a, b), ensures typedefs_ok(s, lib, b),
{ assert forall|k: int| 0 <= k < s.len() implies typedef_ok(#[trigger] s[k], lib, b) by { typedef_mono(s[k], lib, a, b); } }
pub proof fn static_mono(x: Static, lib: Library, a: Monomorphs, b: Monomorphs) requires static_ok(x, lib, a), grows(a, b), ensures static_ok(x, lib, b), { registered_mono(x.ty, lib, a, b); }
pub proof fn globals_mono(s: Seq<Static>, lib: Library, a: Monomorphs, b: Monomorphs) requires globals_ok(s, lib, a), grows(a, b), ensures globals_ok(s, lib, b),
{ assert forall|k: int| 0 <= k < s.len() implies static_ok(#[trigger] s[k], lib, b) by { static_mono(s[k], lib, a, b); } }
pub proof fn function_mono(x: Function, lib: Library, a: Monomorphs, b: Monomorphs) requires function_ok(x, lib, a), grows(a, b), ensures function_ok(x, lib, b), { registered_mono(x.ret, lib, a, b); assert forall|i: int| 0 <= i < x.args@.len() implies registered((#[trigger] x.args@[i]).ty, lib, b) by { registered_mono(x.args@[i].ty, lib, a, b); } }
pub proof fn functions_mono(s: Seq<Function>, lib: Library, a: Monomorphs, b: Monomorphs) requires functions_ok(s, lib, a), grows(a, b), ensures functions_ok(s, lib, b),
{ assert forall|k: int| 0 <= k < s.len() implies function_ok(#[trigger] s[k], lib, b) by { function_mono(s[k], lib, a, b); } }
pub broadcast proof fn struct_bmono(x: Struct, lib: Library, a: Monomorphs, b: Monomorphs) ensures #![trigger struct_ok(x, lib, a), struct_ok(x, lib, b)] struct_ok(x, lib, a) && grows(a, b) ==> struct_ok(x, lib, b),
{ if struct_ok(x, lib, a) && grows(a, b) { struct_mono(x, lib, a, b); } }
pub broadcast proof fn union_bmono(x: Union, lib: Library, a: Monomorphs, b: Monomorphs) ensures #![trigger union_ok(x, lib, a), union_ok(x, lib, b)] union_ok(x, lib, a) && grows(a, b) ==> union_ok(x, lib, b),
{ if union_ok(x, lib, a) && grows(a, b) { union_mono(x, lib, a, b); } }
pub broadcast proof fn enum_bmono(x: Enum, lib: Library, a: Monomorphs, b: Monomorphs) ensures #![trigger enum_ok(x, lib, a), enum_ok(x, lib, b)] enum_ok(x, lib, a) && grows(a, b) ==> enum_ok(x, lib, b),
{ if enum_ok(x, lib, a) && grows(a, b) { enum_mono(x, lib, a, b); } }
pub broadcast proof fn typedef_bmono(x: Typedef, lib: Library, a: Monomorphs, b: Monomorphs) ensures #![trigger typedef_ok(x, lib, a), typedef_ok(x, lib, b)] typedef_ok(x, lib, a) && grows(a, b) ==> typedef_ok(x, lib, b),
{ if typedef_ok(x, lib, a) && grows(a, b) { typedef_mono(x, lib, a, b); } }
/// the instantiations made so far use nothing that is not itself registered
pub open spec fn closed(m: Monomorphs, lib: Library) -> bool {
    structs_ok(m.structs@, lib, m) && unions_ok(m.unions@, lib, m) && enums_ok(m.enums@, lib, m) && typedefs_ok(m.typedefs@, lib, m)
}
pub open spec fn inv(m: Monomorphs, lib: Library) -> bool { names_ok(m, lib.config.export.mangle) && closed(m, lib) }
/// more registered names, and instantiations added that use only registered ones
pub broadcast proof fn closed_mono(a: Monomorphs, b: Monomorphs, lib: Library)
    ensures #![trigger closed(a, lib), closed(b, lib)]
        closed(a, lib) && grows(a, b)
        && (forall|k: int| a.structs@.len() <= k < b.structs@.len() ==> struct_ok(#[trigger] b.structs@[k], lib, b))
        && (forall|k: int| a.unions@.len() <= k < b.unions@.len() ==> union_ok(#[trigger] b.unions@[k], lib, b))
        && (forall|k: int| a.enums@.len() <= k < b.enums@.len() ==> enum_ok(#[trigger] b.enums@[k], lib, b))
        && (forall|k: int| a.typedefs@.len() <= k < b.typedefs@.len() ==> typedef_ok(#[trigger] b.typedefs@[k], lib, b))
        ==> closed(b, lib),
{
    if closed(a, lib) && grows(a, b) {
        structs_mono(a.structs@, lib, a, b); unions_mono(a.unions@, lib, a, b); enums_mono(a.enums@, lib, a, b); typedefs_mono(a.typedefs@, lib, a, b);
        if forall|k: int| a.structs@.len() <= k < b.structs@.len() ==> struct_ok(#[trigger] b.structs@[k], lib, b) {
            assert forall|k: int| 0 <= k < b.structs@.len() implies struct_ok(#[trigger] b.structs@[k], lib, b) by { if k < a.structs@.len() { assert(b.structs@[k] == a.structs@[k]); } }
        }
        if forall|k: int| a.unions@.len() <= k < b.unions@.len() ==> union_ok(#[trigger] b.unions@[k], lib, b) {
            assert forall|k: int| 0 <= k < b.unions@.len() implies union_ok(#[trigger] b.unions@[k], lib, b) by { if k < a.unions@.len() { assert(b.unions@[k] == a.unions@[k]); } }
        }
        if forall|k: int| a.enums@.len() <= k < b.enums@.len() ==> enum_ok(#[trigger] b.enums@[k], lib, b) {
            assert forall|k: int| 0 <= k < b.enums@.len() implies enum_ok(#[trigger] b.enums@[k], lib, b) by { if k < a.enums@.len() { assert(b.enums@[k] == a.enums@[k]); } }
        }
        if forall|k: int| a.typedefs@.len() <= k < b.typedefs@.len() ==> typedef_ok(#[trigger] b.typedefs@[k], lib, b) {
            assert forall|k: int| 0 <= k < b.typedefs@.len() implies typedef_ok(#[trigger] b.typedefs@[k], lib, b) by { if k < a.typedefs@.len() { assert(b.typedefs@[k] == a.typedefs@[k]); } }
        }
    }
}
pub open spec fn args_renamed(fs: Seq<FunctionArgument>, m: Monomorphs, r: Seq<FunctionArgument>) -> bool {
    r.len() == fs.len() && forall|i: int| 0 <= i < fs.len() ==> arg_renamed(fs[i], m, #[trigger] r[i])
}
pub open spec fn arg_renamed(f: FunctionArgument, m: Monomorphs, r: FunctionArgument) -> bool {
    renamed_uses(f.ty, m, r.ty) && r.name == f.name && r.array_length == f.array_length
}
/// names in struct literals only concern constants (C15)
impl Field { #[verifier::external_body] pub fn literal_name(&self) -> String { unimplemented!() } }
impl Struct {
//@fn src/bindgen/ir/structure.rs Item@Struct::cfg r
    ensures self.cfg is None ==> r is None, self.cfg is Some ==> r == Some(&self.cfg->0),
//@end
//@fn src/bindgen/ir/structure.rs Item@Struct::generic_params r
    ensures *r == self.generic_params,
//@end
//@fn src/bindgen/ir/item.rs Item::is_generic r
    ensures r == (self.generic_params.0@.len() > 0),
//@end
//@fn src/bindgen/ir/structure.rs Struct::add_monomorphs r
    requires inv(*old(out), *library),
    ensures inv(*final(out), *library), grows(*old(out), *final(out)),
        struct_ok(*self, *library, *final(out)),
//@loop 0
    __s0@ == self.fields@, inv(*out, *library), grows(*old(out), *out), fields_registered(self.fields@, __i0 as int, *library, *out),
//@loop 0 pre
    let ghost __before = *out;
//@loop 0 post
    proof {
        assert forall|i: int| 0 <= i < __i0 implies registered((#[trigger] self.fields@[i]).ty, *library, *out) by {
            if i < __i0 - 1 { registered_mono(self.fields@[i].ty, *library, __before, *out); }
        }
    }
//@end
//@fn src/bindgen/ir/structure.rs Struct::mangle_paths r
    ensures fields_renamed(old(self).fields@, *monomorphs, final(self).fields@),
        final(self).path == old(self).path, final(self).export_name == old(self).export_name,
//@loop 0 mode=mut
    forall|i: int| 0 <= i < __i0 ==> field_renamed(__g0[i], *monomorphs, #[trigger] __s0@[i]),
//@end
//@fn src/bindgen/ir/structure.rs Struct::new r loops=1
    ensures r.path == path, r.export_name@ == path.name@, r.generic_params == generic_params, r.fields == fields,
//@loop 0 rty=Vec<String>
//@end
//@fn src/bindgen/ir/structure.rs Struct::specialize r loops=1
    ensures r.path.name@ == mangled(self.path.name@, generic_values@, config.export.mangle), r.export_name@ == r.path.name@,
//@loop 0 rty=Vec<Field>
//@end
//@fn src/bindgen/ir/structure.rs Struct::instantiate_monomorph r
    requires inv(*old(out), *library),
    ensures inv(*final(out), *library), grows(*old(out), *final(out)), has_key(*final(out), self.path, generic_values@),
//@end
}
impl Union {
//@fn src/bindgen/ir/union.rs Item@Union::generic_params r
    ensures *r == self.generic_params,
//@end
//@fn src/bindgen/ir/item.rs Item::is_generic r
    ensures r == (self.generic_params.0@.len() > 0),
//@end
//@fn src/bindgen/ir/union.rs Union::add_monomorphs r
    requires inv(*old(out), *library),
    ensures inv(*final(out), *library), grows(*old(out), *final(out)),
        union_ok(*self, *library, *final(out)),
//@loop 0
    __s0@ == self.fields@, inv(*out, *library), grows(*old(out), *out), fields_registered(self.fields@, __i0 as int, *library, *out),
//@loop 0 pre
    let ghost __before = *out;
//@loop 0 post
    proof {
        assert forall|i: int| 0 <= i < __i0 implies registered((#[trigger] self.fields@[i]).ty, *library, *out) by {
            if i < __i0 - 1 { registered_mono(self.fields@[i].ty, *library, __before, *out); }
        }
    }
//@end
//@fn src/bindgen/ir/union.rs Union::mangle_paths r
    ensures fields_renamed(old(self).fields@, *monomorphs, final(self).fields@),
        final(self).path == old(self).path, final(self).export_name == old(self).export_name,
//@loop 0 mode=mut
    forall|i: int| 0 <= i < __i0 ==> field_renamed(__g0[i], *monomorphs, #[trigger] __s0@[i]),
//@end
//@fn src/bindgen/ir/union.rs Union::new r
    ensures r.path == path, r.export_name@ == path.name@, r.generic_params == generic_params, r.fields == fields,
//@end
//@fn src/bindgen/ir/union.rs Union::instantiate_monomorph r loops=1
    requires inv(*old(out), *library),
    ensures inv(*final(out), *library), grows(*old(out), *final(out)), has_key(*final(out), self.path, generic_values@),
//@loop 0 rty=Vec<Field>
//@end
}
impl Typedef {
//@fn src/bindgen/ir/typedef.rs Item@Typedef::generic_params r
    ensures *r == self.generic_params,
//@end
//@fn src/bindgen/ir/item.rs Item::is_generic r
    ensures r == (self.generic_params.0@.len() > 0),
//@end
//@fn src/bindgen/ir/typedef.rs Typedef::add_monomorphs r
    requires inv(*old(out), *library),
    ensures inv(*final(out), *library), grows(*old(out), *final(out)),
        typedef_ok(*self, *library, *final(out)),
//@end
//@fn src/bindgen/ir/typedef.rs Typedef::mangle_paths r
    ensures renamed_uses(old(self).aliased, *monomorphs, final(self).aliased),
        final(self).path == old(self).path, final(self).export_name == old(self).export_name,
//@end
//@fn src/bindgen/ir/typedef.rs Typedef::new r
    ensures r.path == path, r.export_name@ == path.name@, r.generic_params == generic_params, r.aliased == aliased,
//@end
//@fn src/bindgen/ir/typedef.rs Typedef::instantiate_monomorph r
    requires inv(*old(out), *library),
    ensures inv(*final(out), *library), grows(*old(out), *final(out)), has_key(*final(out), self.path, generic_values@),
//@end
}
pub open spec fn struct_renamed(a: Struct, m: Monomorphs, b: Struct) -> bool { fields_renamed(a.fields@, m, b.fields@) && b.path == a.path && b.export_name == a.export_name }
pub open spec fn structs_renamed(a: Seq<Struct>, m: Monomorphs, b: Seq<Struct>) -> bool { b.len() == a.len() && forall|k: int| 0 <= k < a.len() ==> struct_renamed(a[k], m, #[trigger] b[k]) }
pub open spec fn union_renamed(a: Union, m: Monomorphs, b: Union) -> bool { fields_renamed(a.fields@, m, b.fields@) && b.path == a.path && b.export_name == a.export_name }
pub open spec fn unions_renamed(a: Seq<Union>, m: Monomorphs, b: Seq<Union>) -> bool { b.len() == a.len() && forall|k: int| 0 <= k < a.len() ==> union_renamed(a[k], m, #[trigger] b[k]) }
pub open spec fn enum_renamed(a: Enum, m: Monomorphs, b: Enum) -> bool { b.variants@.len() == a.variants@.len() && b.path == a.path && b.export_name == a.export_name && forall|i: int| 0 <= i < a.variants@.len() ==> variant_renamed(a.variants@[i], m, #[trigger] b.variants@[i]) }
pub open spec fn enums_renamed(a: Seq<Enum>, m: Monomorphs, b: Seq<Enum>) -> bool { b.len() == a.len() && forall|k: int| 0 <= k < a.len() ==> enum_renamed(a[k], m, #[trigger] b[k]) }
pub open spec fn typedef_renamed(a: Typedef, m: Monomorphs, b: Typedef) -> bool { renamed_uses(a.aliased, m, b.aliased) && b.path == a.path && b.export_name == a.export_name }
pub open spec fn typedefs_renamed(a: Seq<Typedef>, m: Monomorphs, b: Seq<Typedef>) -> bool { b.len() == a.len() && forall|k: int| 0 <= k < a.len() ==> typedef_renamed(a[k], m, #[trigger] b[k]) }
pub open spec fn static_renamed(a: Static, m: Monomorphs, b: Static) -> bool { renamed_uses(a.ty, m, b.ty) && b.path == a.path && b.mutable == a.mutable }
pub open spec fn globals_renamed(a: Seq<Static>, m: Monomorphs, b: Seq<Static>) -> bool { b.len() == a.len() && forall|k: int| 0 <= k < a.len() ==> static_renamed(a[k], m, #[trigger] b[k]) }
pub open spec fn function_renamed(a: Function, m: Monomorphs, b: Function) -> bool { renamed_uses(a.ret, m, b.ret) && args_renamed(a.args@, m, b.args@) && b.path == a.path && b.annotations == a.annotations && b.never_return == a.never_return }
pub open spec fn functions_renamed(a: Seq<Function>, m: Monomorphs, b: Seq<Function>) -> bool { b.len() == a.len() && forall|k: int| 0 <= k < a.len() ==> function_renamed(a[k], m, #[trigger] b[k]) }
pub open spec fn structs_kept() -> spec_fn(Struct) -> bool { |x: Struct| x.generic_params.0@.len() == 0 }
pub open spec fn structs_after(l: Library, m: Monomorphs) -> Seq<Struct> { inserted_all(l.structs.all@, m.structs@, m.structs@.len()).filter(structs_kept()) }
pub open spec fn unions_kept() -> spec_fn(Union) -> bool { |x: Union| x.generic_params.0@.len() == 0 }
pub open spec fn unions_after(l: Library, m: Monomorphs) -> Seq<Union> { inserted_all(l.unions.all@, m.unions@, m.unions@.len()).filter(unions_kept()) }
pub open spec fn enums_kept() -> spec_fn(Enum) -> bool { |x: Enum| x.generic_params.0@.len() == 0 }
pub open spec fn enums_after(l: Library, m: Monomorphs) -> Seq<Enum> { inserted_all(l.enums.all@, m.enums@, m.enums@.len()).filter(enums_kept()) }
pub open spec fn typedefs_kept() -> spec_fn(Typedef) -> bool { |x: Typedef| x.generic_params.0@.len() == 0 }
pub open spec fn typedefs_after(l: Library, m: Monomorphs) -> Seq<Typedef> { inserted_all(l.typedefs.all@, m.typedefs@, m.typedefs@.len()).filter(typedefs_kept()) }
pub open spec fn opaque_items_kept() -> spec_fn(OpaqueItem) -> bool { |x: OpaqueItem| x.generic_params.0@.len() == 0 }
pub open spec fn opaque_items_after(l: Library, m: Monomorphs) -> Seq<OpaqueItem> { inserted_all(l.opaque_items.all@, m.opaques@, m.opaques@.len()).filter(opaque_items_kept()) }
/// r is l with every generic replaced by its instantiations m: each use of a known generic is registered, in the
/// items there were and in the instantiations; what is kept is what is not generic, plus the instantiations; and every
/// registered use now carries the registered name.
/// (n: the registered names of m, after its items were moved into the tables)
pub open spec fn instantiated(l: Library, m: Monomorphs, n: Monomorphs, r: Library) -> bool {
    &&& n.replacements@ == m.replacements@ && inv(m, l) && structs_ok(l.structs.all@, l, m) && unions_ok(l.unions.all@, l, m) && enums_ok(l.enums.all@, l, m) && typedefs_ok(l.typedefs.all@, l, m) && globals_ok(l.globals.all@, l, m) && functions_ok(l.functions@, l, m)
    &&& r.opaque_items.all@ == opaque_items_after(l, m)
    &&& structs_renamed(structs_after(l, m), n, r.structs.all@)
    &&& unions_renamed(unions_after(l, m), n, r.unions.all@)
    &&& enums_renamed(enums_after(l, m), n, r.enums.all@)
    &&& typedefs_renamed(typedefs_after(l, m), n, r.typedefs.all@)
    &&& globals_renamed(l.globals.all@, n, r.globals.all@) && functions_renamed(l.functions@, n, r.functions@)
    &&& r.constants == l.constants && r.config == l.config
}
impl OpaqueItem {
//@fn src/bindgen/ir/opaque.rs Item@OpaqueItem::generic_params r
    ensures *r == self.generic_params,
//@end
//@fn src/bindgen/ir/item.rs Item::is_generic r
    ensures r == (self.generic_params.0@.len() > 0),
//@end
//@fn src/bindgen/ir/opaque.rs OpaqueItem::new r
    ensures r.path == path, r.export_name@ == path.name@, r.generic_params == generic_params,
//@end
//@fn src/bindgen/ir/opaque.rs OpaqueItem::instantiate_monomorph r panics=ok
    requires inv(*old(out), *library),
    ensures inv(*final(out), *library), grows(*old(out), *final(out)), has_key(*final(out), self.path, generic_values@),
//@end
}
impl Function {
//@fn src/bindgen/ir/function.rs Function::add_monomorphs r
    requires inv(*old(out), *library),
    ensures inv(*final(out), *library), grows(*old(out), *final(out)), registered(self.ret, *library, *final(out)),
        forall|i: int| 0 <= i < self.args@.len() ==> registered((#[trigger] self.args@[i]).ty, *library, *final(out)),
//@loop 0
    __s0@ == self.args@, inv(*out, *library), grows(*old(out), *out), registered(self.ret, *library, *out),
    forall|i: int| 0 <= i < __i0 ==> registered((#[trigger] self.args@[i]).ty, *library, *out),
//@loop 0 pre
    let ghost __before = *out;
//@loop 0 post
    proof {
        registered_mono(self.ret, *library, __before, *out);
        assert forall|i: int| 0 <= i < __i0 implies registered((#[trigger] self.args@[i]).ty, *library, *out) by {
            if i < __i0 - 1 { registered_mono(self.args@[i].ty, *library, __before, *out); }
        }
    }
//@end
//@fn src/bindgen/ir/function.rs Function::mangle_paths r
    ensures renamed_uses(old(self).ret, *monomorphs, final(self).ret), args_renamed(old(self).args@, *monomorphs, final(self).args@),
        final(self).path == old(self).path, final(self).annotations == old(self).annotations, final(self).never_return == old(self).never_return,
//@loop 0 mode=mut
    forall|i: int| 0 <= i < __i0 ==> arg_renamed(__g0[i], *monomorphs, #[trigger] __s0@[i]),
//@end
}
impl Static {
//@fn src/bindgen/ir/global.rs Static::add_monomorphs r
    requires inv(*old(out), *library),
    ensures inv(*final(out), *library), grows(*old(out), *final(out)), registered(self.ty, *library, *final(out)),
//@end
//@fn src/bindgen/ir/global.rs Static::mangle_paths r
    ensures renamed_uses(old(self).ty, *monomorphs, final(self).ty), final(self).path == old(self).path, final(self).mutable == old(self).mutable,
//@end
}
impl VariantBody {
//@fn src/bindgen/ir/enumeration.rs VariantBody::specialize r
    ensures self is Body == r is Body,
        self is Body ==> r->body.path.name@ == mangled(self->body.path.name@, generic_values@, config.export.mangle) && r->body.export_name@ == r->body.path.name@,
//@end
}
impl EnumVariant {
//@fn src/bindgen/ir/enumeration.rs EnumVariant::new r
    ensures r.name == name, r.export_name@ == name@, r.discriminant == discriminant, r.body == body, r.cfg == cfg, r.documentation == documentation,
//@end
//@fn src/bindgen/ir/enumeration.rs EnumVariant::specialize r
    ensures variant_named(*self, generic_values@, config.export.mangle, r),
//@end
//@fn src/bindgen/ir/enumeration.rs EnumVariant::add_monomorphs r
    requires inv(*old(out), *library),
    ensures inv(*final(out), *library), grows(*old(out), *final(out)), variant_registered(*self, *library, *final(out)),
//@end
//@fn src/bindgen/ir/enumeration.rs EnumVariant::mangle_paths r
    ensures variant_renamed(*old(self), *monomorphs, *final(self)),
//@end
}
impl Enum {
//@fn src/bindgen/ir/enumeration.rs Item@Enum::generic_params r
    ensures *r == self.generic_params,
//@end
//@fn src/bindgen/ir/item.rs Item::is_generic r
    ensures r == (self.generic_params.0@.len() > 0),
//@end
//@fn src/bindgen/ir/enumeration.rs Enum::add_monomorphs r
    requires inv(*old(out), *library),
    ensures inv(*final(out), *library), grows(*old(out), *final(out)),
        enum_ok(*self, *library, *final(out)),
//@loop 0
    __s0@ == self.variants@, inv(*out, *library), grows(*old(out), *out),
    forall|i: int| 0 <= i < __i0 ==> variant_registered(#[trigger] self.variants@[i], *library, *out),
//@loop 0 pre
    let ghost __before = *out;
//@loop 0 post
    proof {
        assert forall|i: int| 0 <= i < __i0 implies variant_registered(#[trigger] self.variants@[i], *library, *out) by {
            if i < __i0 - 1 { variant_mono(self.variants@[i], *library, __before, *out); }
        }
    }
//@end
//@fn src/bindgen/ir/enumeration.rs Enum::mangle_paths r
    ensures final(self).variants@.len() == old(self).variants@.len(), final(self).path == old(self).path, final(self).export_name == old(self).export_name,
        forall|i: int| 0 <= i < old(self).variants@.len() ==> variant_renamed(old(self).variants@[i], *monomorphs, #[trigger] final(self).variants@[i]),
//@loop 0 mode=mut
    forall|i: int| 0 <= i < __i0 ==> variant_renamed(__g0[i], *monomorphs, #[trigger] __s0@[i]),
//@end
//@fn src/bindgen/ir/enumeration.rs Enum::new r
    ensures r.path == path, r.export_name@ == path.name@, r.generic_params == generic_params, r.variants == variants,
//@end
//@fn src/bindgen/ir/enumeration.rs Enum::instantiate_monomorph r
    requires inv(*old(out), *library),
    ensures inv(*final(out), *library), grows(*old(out), *final(out)), has_key(*final(out), self.path, generic_values@),
        final(out).enums@.len() > old(out).enums@.len(),
        final(out).enums@.last().variants@.len() == self.variants@.len(),
        forall|i: int| 0 <= i < self.variants@.len() ==> variant_named(self.variants@[i], generic_values@, library.cfg_().export.mangle, #[trigger] final(out).enums@.last().variants@[i]),
        // the bodies are instantiated too
        forall|i: int| 0 <= i < self.variants@.len() && (#[trigger] self.variants@[i]).body is Body ==> has_key(*final(out), self.variants@[i].body->body.path, generic_values@),
//@loop 0
    __s0@ == self.variants@, inv(*out, *library), grows(*old(out), *out), __mid == *out,
    forall|i: int| 0 <= i < __i0 && (#[trigger] self.variants@[i]).body is Body ==> has_key(*out, self.variants@[i].body->body.path, generic_values@),
//@loop 0 pre
    let ghost __before = *out;
//@loop 0 post
    proof {
        assert forall|i: int| 0 <= i < __i0 && (#[trigger] self.variants@[i]).body is Body implies has_key(*out, self.variants@[i].body->body.path, generic_values@) by {
            if i < __i0 - 1 { key_mono(__before, *out, self.variants@[i].body->body.path, generic_values@); }
        }
        __mid = *out;
    }
//@loop 1 rty=Vec<EnumVariant>
    __s1@ == self.variants@, __r1@.len() == __i1,
    forall|i: int| 0 <= i < __i1 ==> variant_named(self.variants@[i], generic_values@, library.cfg_().export.mangle, #[trigger] __r1@[i]),
//@pre
    let ghost mut __mid = *out;
//@post
    proof {
        assert forall|i: int| 0 <= i < self.variants@.len() && (#[trigger] self.variants@[i]).body is Body implies has_key(*out, self.variants@[i].body->body.path, generic_values@) by {
            key_mono(__mid, *out, self.variants@[i].body->body.path, generic_values@);
        }
    }
//@end
}
impl Monomorphs {
//@fn src/bindgen/monomorph.rs Monomorphs::insert_enum r
    requires inv(*old(self), *library), monomorph.path.name@ == mangled(generic.path.name@, arguments@, library.cfg_().export.mangle),
    ensures inv(*final(self), *library), grows(*old(self), *final(self)), has_key(*final(self), generic.path, arguments@),
        final(self).enums@.len() > old(self).enums@.len() && final(self).enums@[final(self).enums@.len() - 1] == monomorph,
//@pre
    broadcast use {closed_mono, struct_bmono, union_bmono, enum_bmono, typedef_bmono};
//@end
/// derived Default
#[verifier::external_body] pub fn default() -> (r: Monomorphs)
    ensures r.replacements@ == Map::<GenericPath, Path>::empty(), r.structs@.len() == 0, r.unions@.len() == 0, r.enums@.len() == 0, r.typedefs@.len() == 0, r.opaques@.len() == 0,
{ unimplemented!() }
//@fn src/bindgen/monomorph.rs Monomorphs::drain_opaques r
    ensures r@ == old(self).opaques@, *final(self) == (Monomorphs { opaques: final(self).opaques, ..*old(self) }),
//@subst mem::take(&mut self.opaques) => vx_take_vec(&mut self.opaques)
//@end
//@fn src/bindgen/monomorph.rs Monomorphs::drain_structs r
    ensures r@ == old(self).structs@, *final(self) == (Monomorphs { structs: final(self).structs, ..*old(self) }),
//@subst mem::take(&mut self.structs) => vx_take_vec(&mut self.structs)
//@end
//@fn src/bindgen/monomorph.rs Monomorphs::drain_unions r
    ensures r@ == old(self).unions@, *final(self) == (Monomorphs { unions: final(self).unions, ..*old(self) }),
//@subst mem::take(&mut self.unions) => vx_take_vec(&mut self.unions)
//@end
//@fn src/bindgen/monomorph.rs Monomorphs::drain_typedefs r
    ensures r@ == old(self).typedefs@, *final(self) == (Monomorphs { typedefs: final(self).typedefs, ..*old(self) }),
//@subst mem::take(&mut self.typedefs) => vx_take_vec(&mut self.typedefs)
//@end
//@fn src/bindgen/monomorph.rs Monomorphs::drain_enums r
    ensures r@ == old(self).enums@, *final(self) == (Monomorphs { enums: final(self).enums, ..*old(self) }),
//@subst mem::take(&mut self.enums) => vx_take_vec(&mut self.enums)
//@end
//@fn src/bindgen/monomorph.rs Monomorphs::contains r
    ensures r == self.replacements@.dom().contains(*path),
//@end
//@fn src/bindgen/monomorph.rs Monomorphs::mangle_path r
    ensures self.replacements@.dom().contains(*path) ==> r == Some(&self.replacements@[*path]), !self.replacements@.dom().contains(*path) ==> r is None,
//@end
//@fn src/bindgen/monomorph.rs Monomorphs::insert_struct r
    requires inv(*old(self), *library), monomorph.path.name@ == mangled(generic.path.name@, arguments@, library.cfg_().export.mangle),
    ensures inv(*final(self), *library), grows(*old(self), *final(self)), has_key(*final(self), generic.path, arguments@),
        // the definition carries the registered name
        final(self).structs@.len() > 0 && final(self).structs@[final(self).structs@.len() - 1] == monomorph,
//@pre
    broadcast use {closed_mono, struct_bmono, union_bmono, enum_bmono, typedef_bmono};
//@end
//@fn src/bindgen/monomorph.rs Monomorphs::insert_union r
    requires inv(*old(self), *library), monomorph.path.name@ == mangled(generic.path.name@, arguments@, library.cfg_().export.mangle),
    ensures inv(*final(self), *library), grows(*old(self), *final(self)), has_key(*final(self), generic.path, arguments@),
        final(self).unions@.len() > 0 && final(self).unions@[final(self).unions@.len() - 1] == monomorph,
//@pre
    broadcast use {closed_mono, struct_bmono, union_bmono, enum_bmono, typedef_bmono};
//@end
//@fn src/bindgen/monomorph.rs Monomorphs::insert_opaque r
    ensures
        forall|lib: Library| inv(*old(self), lib) && monomorph.path.name@ == mangled(generic.path.name@, arguments@, lib.config.export.mangle) ==> #[trigger] inv(*final(self), lib),
        grows(*old(self), *final(self)), has_key(*final(self), generic.path, arguments@),
        final(self).opaques@.len() > 0 && final(self).opaques@[final(self).opaques@.len() - 1] == monomorph,
//@pre
    broadcast use {closed_mono, struct_bmono, union_bmono, enum_bmono, typedef_bmono};
//@end
//@fn src/bindgen/monomorph.rs Monomorphs::insert_typedef r
    requires inv(*old(self), *library), monomorph.path.name@ == mangled(generic.path.name@, arguments@, library.cfg_().export.mangle),
    ensures inv(*final(self), *library), grows(*old(self), *final(self)), has_key(*final(self), generic.path, arguments@),
        final(self).typedefs@.len() > 0 && final(self).typedefs@[final(self).typedefs@.len() - 1] == monomorph,
//@pre
    broadcast use {closed_mono, struct_bmono, union_bmono, enum_bmono, typedef_bmono};
//@end
}
impl Library {
//@fn src/bindgen/library.rs Library::instantiate_monomorphs r
    ensures exists|m: Monomorphs, n: Monomorphs| #[trigger] instantiated(*old(self), m, n, *final(self)),
//@pre
    let ghost l0 = *old(self);
    let ghost mut m0: Monomorphs = arbitrary();
//@loop 0 before
    let ghost __p0 = monomorphs;
//@loop 0
    __s0@ == l0.structs.all@, *self == l0, inv(monomorphs, l0), grows(__p0, monomorphs), structs_ok(l0.structs.all@.take(__i0 as int), l0, monomorphs),
//@loop 0 pre
    let ghost __b0 = monomorphs;
//@loop 0 post
    proof {
        structs_mono(l0.structs.all@.take(__k0 as int), l0, __b0, monomorphs);
        assert(l0.structs.all@.take(__i0 as int) =~= l0.structs.all@.take(__k0 as int).push(l0.structs.all@[__k0 as int]));
    }
//@loop 0 after
    proof {
        assert(l0.structs.all@.take(l0.structs.all@.len() as int) =~= l0.structs.all@);
    }
//@loop 1 before
    let ghost __p1 = monomorphs;
//@loop 1
    __s1@ == l0.unions.all@, *self == l0, inv(monomorphs, l0), grows(__p1, monomorphs), unions_ok(l0.unions.all@.take(__i1 as int), l0, monomorphs),
//@loop 1 pre
    let ghost __b1 = monomorphs;
//@loop 1 post
    proof {
        unions_mono(l0.unions.all@.take(__k1 as int), l0, __b1, monomorphs);
        assert(l0.unions.all@.take(__i1 as int) =~= l0.unions.all@.take(__k1 as int).push(l0.unions.all@[__k1 as int]));
    }
//@loop 1 after
    proof {
        assert(l0.unions.all@.take(l0.unions.all@.len() as int) =~= l0.unions.all@);
        structs_mono(l0.structs.all@, l0, __p1, monomorphs);
    }
//@loop 2 before
    let ghost __p2 = monomorphs;
//@loop 2
    __s2@ == l0.enums.all@, *self == l0, inv(monomorphs, l0), grows(__p2, monomorphs), enums_ok(l0.enums.all@.take(__i2 as int), l0, monomorphs),
//@loop 2 pre
    let ghost __b2 = monomorphs;
//@loop 2 post
    proof {
        enums_mono(l0.enums.all@.take(__k2 as int), l0, __b2, monomorphs);
        assert(l0.enums.all@.take(__i2 as int) =~= l0.enums.all@.take(__k2 as int).push(l0.enums.all@[__k2 as int]));
    }
//@loop 2 after
    proof {
        assert(l0.enums.all@.take(l0.enums.all@.len() as int) =~= l0.enums.all@);
        structs_mono(l0.structs.all@, l0, __p2, monomorphs);
        unions_mono(l0.unions.all@, l0, __p2, monomorphs);
    }
//@loop 3 before
    let ghost __p3 = monomorphs;
//@loop 3
    __s3@ == l0.typedefs.all@, *self == l0, inv(monomorphs, l0), grows(__p3, monomorphs), typedefs_ok(l0.typedefs.all@.take(__i3 as int), l0, monomorphs),
//@loop 3 pre
    let ghost __b3 = monomorphs;
//@loop 3 post
    proof {
        typedefs_mono(l0.typedefs.all@.take(__k3 as int), l0, __b3, monomorphs);
        assert(l0.typedefs.all@.take(__i3 as int) =~= l0.typedefs.all@.take(__k3 as int).push(l0.typedefs.all@[__k3 as int]));
    }
//@loop 3 after
    proof {
        assert(l0.typedefs.all@.take(l0.typedefs.all@.len() as int) =~= l0.typedefs.all@);
        structs_mono(l0.structs.all@, l0, __p3, monomorphs);
        unions_mono(l0.unions.all@, l0, __p3, monomorphs);
        enums_mono(l0.enums.all@, l0, __p3, monomorphs);
    }
//@loop 4 before
    let ghost __p4 = monomorphs;
//@loop 4
    __s4@ == l0.globals.all@, *self == l0, inv(monomorphs, l0), grows(__p4, monomorphs), globals_ok(l0.globals.all@.take(__i4 as int), l0, monomorphs),
//@loop 4 pre
    let ghost __b4 = monomorphs;
//@loop 4 post
    proof {
        globals_mono(l0.globals.all@.take(__k4 as int), l0, __b4, monomorphs);
        assert(l0.globals.all@.take(__i4 as int) =~= l0.globals.all@.take(__k4 as int).push(l0.globals.all@[__k4 as int]));
    }
//@loop 4 after
    proof {
        assert(l0.globals.all@.take(l0.globals.all@.len() as int) =~= l0.globals.all@);
        structs_mono(l0.structs.all@, l0, __p4, monomorphs);
        unions_mono(l0.unions.all@, l0, __p4, monomorphs);
        enums_mono(l0.enums.all@, l0, __p4, monomorphs);
        typedefs_mono(l0.typedefs.all@, l0, __p4, monomorphs);
    }
//@loop 5 before
    let ghost __p5 = monomorphs;
//@loop 5
    __s5@ == l0.functions@, *self == l0, inv(monomorphs, l0), grows(__p5, monomorphs), functions_ok(l0.functions@.take(__i5 as int), l0, monomorphs),
//@loop 5 pre
    let ghost __b5 = monomorphs;
//@loop 5 post
    proof {
        functions_mono(l0.functions@.take(__k5 as int), l0, __b5, monomorphs);
        assert(l0.functions@.take(__i5 as int) =~= l0.functions@.take(__k5 as int).push(l0.functions@[__k5 as int]));
    }
//@loop 5 after
    proof {
        assert(l0.functions@.take(l0.functions@.len() as int) =~= l0.functions@);
        structs_mono(l0.structs.all@, l0, __p5, monomorphs);
        unions_mono(l0.unions.all@, l0, __p5, monomorphs);
        enums_mono(l0.enums.all@, l0, __p5, monomorphs);
        typedefs_mono(l0.typedefs.all@, l0, __p5, monomorphs);
        globals_mono(l0.globals.all@, l0, __p5, monomorphs);
        m0 = monomorphs;
    }
//@loop 6 before
    let ghost __l6 = *self;
//@loop 6 mode=own
    __s6@ == m0.structs@, *self == (Library { structs: self.structs, ..__l6 }), self.structs.all@ == inserted_all(l0.structs.all@, m0.structs@, __i6 as nat),
//@loop 7 before
    let ghost __l7 = *self;
//@loop 7 mode=own
    __s7@ == m0.unions@, *self == (Library { unions: self.unions, ..__l7 }), self.unions.all@ == inserted_all(l0.unions.all@, m0.unions@, __i7 as nat),
//@loop 8 before
    let ghost __l8 = *self;
//@loop 8 mode=own
    __s8@ == m0.opaques@, *self == (Library { opaque_items: self.opaque_items, ..__l8 }), self.opaque_items.all@ == inserted_all(l0.opaque_items.all@, m0.opaques@, __i8 as nat),
//@loop 9 before
    let ghost __l9 = *self;
//@loop 9 mode=own
    __s9@ == m0.typedefs@, *self == (Library { typedefs: self.typedefs, ..__l9 }), self.typedefs.all@ == inserted_all(l0.typedefs.all@, m0.typedefs@, __i9 as nat),
//@loop 10 before
    let ghost __l10 = *self;
//@loop 10 mode=own
    __s10@ == m0.enums@, *self == (Library { enums: self.enums, ..__l10 }), self.enums.all@ == inserted_all(l0.enums.all@, m0.enums@, __i10 as nat),
//@loop 11 rty=Vec<OpaqueItem>
    __s11@ == inserted_all(l0.opaque_items.all@, m0.opaques@, m0.opaques@.len()), __r11@ == __s11@.take(__i11 as int).filter(opaque_items_kept()),
//@loop 11 pre
    proof { lemma_filter_step(__s11@, __i11 as int, opaque_items_kept()); }
//@loop 11 after
    proof { assert(__s11@.take(__s11@.len() as int) =~= __s11@); }
//@loop 12 rty=Vec<Struct>
    __s12@ == inserted_all(l0.structs.all@, m0.structs@, m0.structs@.len()), __r12@ == __s12@.take(__i12 as int).filter(structs_kept()),
//@loop 12 pre
    proof { lemma_filter_step(__s12@, __i12 as int, structs_kept()); }
//@loop 12 after
    proof { assert(__s12@.take(__s12@.len() as int) =~= __s12@); }
//@loop 13 rty=Vec<Union>
    __s13@ == inserted_all(l0.unions.all@, m0.unions@, m0.unions@.len()), __r13@ == __s13@.take(__i13 as int).filter(unions_kept()),
//@loop 13 pre
    proof { lemma_filter_step(__s13@, __i13 as int, unions_kept()); }
//@loop 13 after
    proof { assert(__s13@.take(__s13@.len() as int) =~= __s13@); }
//@loop 14 rty=Vec<Enum>
    __s14@ == inserted_all(l0.enums.all@, m0.enums@, m0.enums@.len()), __r14@ == __s14@.take(__i14 as int).filter(enums_kept()),
//@loop 14 pre
    proof { lemma_filter_step(__s14@, __i14 as int, enums_kept()); }
//@loop 14 after
    proof { assert(__s14@.take(__s14@.len() as int) =~= __s14@); }
//@loop 15 rty=Vec<Typedef>
    __s15@ == inserted_all(l0.typedefs.all@, m0.typedefs@, m0.typedefs@.len()), __r15@ == __s15@.take(__i15 as int).filter(typedefs_kept()),
//@loop 15 pre
    proof { lemma_filter_step(__s15@, __i15 as int, typedefs_kept()); }
//@loop 15 after
    proof { assert(__s15@.take(__s15@.len() as int) =~= __s15@); }
//@loop 16 mode=mut
    monomorphs.replacements == m0.replacements, forall|i: int| 0 <= i < __i16 ==> union_renamed(__g16[i], monomorphs, #[trigger] __s16@[i]),
//@loop 17 mode=mut
    monomorphs.replacements == m0.replacements, forall|i: int| 0 <= i < __i17 ==> struct_renamed(__g17[i], monomorphs, #[trigger] __s17@[i]),
//@loop 18 mode=mut
    monomorphs.replacements == m0.replacements, forall|i: int| 0 <= i < __i18 ==> enum_renamed(__g18[i], monomorphs, #[trigger] __s18@[i]),
//@loop 19 mode=mut
    monomorphs.replacements == m0.replacements, forall|i: int| 0 <= i < __i19 ==> typedef_renamed(__g19[i], monomorphs, #[trigger] __s19@[i]),
//@loop 20 mode=mut
    monomorphs.replacements == m0.replacements, forall|i: int| 0 <= i < __i20 ==> static_renamed(__g20[i], monomorphs, #[trigger] __s20@[i]),
//@loop 21 mode=mut
    monomorphs.replacements == m0.replacements, forall|i: int| 0 <= i < __i21 ==> function_renamed(__g21[i], monomorphs, #[trigger] __s21@[i]),
//@post
    proof {
        assert(instantiated(l0, m0, monomorphs, *self));
    }
//@end
}
} // verus!
fn main() {}
