//@include prelude.inc
use std::cmp::Ordering;
//@include ty_types.inc
verus! {
//@include ty_basic.inc
#[verifier::external_body] pub struct AnnotationSet { _p: () }
#[verifier::external_body] pub struct Documentation { _p: () }
#[verifier::external_body] pub struct Cfg { _p: () }
//@type src/bindgen/ir/repr.rs ReprAlign derive=Clone,Copy
//@type src/bindgen/ir/repr.rs ReprStyle derive=Clone,Copy
//@type src/bindgen/ir/repr.rs ReprType derive=Clone,Copy
//@type src/bindgen/ir/repr.rs Repr derive=Clone,Copy
//@include literal.inc
//@type src/bindgen/ir/field.rs Field
//@type src/bindgen/ir/constant.rs Constant
//@type src/bindgen/ir/structure.rs Struct
//@type src/bindgen/ir/union.rs Union
//@type src/bindgen/ir/typedef.rs Typedef
//@type src/bindgen/ir/opaque.rs OpaqueItem
//@type src/bindgen/ir/global.rs Static
//@type src/bindgen/ir/function.rs FunctionArgument
//@type src/bindgen/ir/function.rs Function
//@type src/bindgen/ir/enumeration.rs VariantBody
//@type src/bindgen/ir/enumeration.rs EnumVariant
//@type src/bindgen/ir/enumeration.rs Enum
//@type src/bindgen/ir/item.rs ItemContainer
//@type src/bindgen/dependencies.rs Dependencies
impl Eq for Path {}
impl std::hash::Hash for Path { #[verifier::external_body] fn hash<H: std::hash::Hasher>(&self, state: &mut H) { unimplemented!() } }
pub mod ax8 {
use super::*;
pub broadcast axiom fn path_key_model() ensures #[trigger] obeys_key_model::<Path>();
}
pub use ax8::*;
//@broadcast path_key_model, vstd::std_specs::hash::group_hash_axioms

// ---------------- the library: what a path stands for (C09) ----------------
/// src/bindgen/ir/item.rs ItemMap, by the sequence of its items in visiting order (C09)
pub struct ItemMap<T> { pub all: Vec<T> }
impl<T> ItemMap<T> {
    pub fn vx_all(&self) -> (r: &[T]) ensures r@ == self.all@ { self.all.as_slice() }
    #[verifier::external_body]
    pub fn to_vec(&self) -> (r: Vec<T>) ensures r@ == self.all@ { unimplemented!() }
}
#[verifier::external_body] pub struct PathBuf { _p: () }
#[verifier::external_body] pub struct Error { _p: () }
//@type src/bindgen/config.rs Language derive=Clone,Copy
impl PartialEq for Language { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl PartialEqSpecImpl for Language {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
//@type src/bindgen/config.rs SortKey derive=Clone,Copy
//@type src/bindgen/config.rs ItemType derive=Clone,Copy
//@type src/bindgen/config.rs FunctionConfig keep=sort_by
//@type src/bindgen/config.rs ConstantConfig keep=sort_by
//@type src/bindgen/config.rs ExportConfig keep=include,item_types
//@type src/bindgen/config.rs Config keep=language,sort_by,function,constant,export
//@type src/bindgen/library.rs Library
//@type src/bindgen/bindings.rs Bindings drop=struct_fileds_memo,noop,source_files,package_version
impl ExportConfig {
    pub open spec fn enabled(&self, t: ItemType) -> bool { self.item_types@.len() == 0 || self.item_types@.contains(t) }
    #[verifier::external_body]
    pub fn should_generate(&self, t: ItemType) -> (r: bool) ensures r == self.enabled(t) { unimplemented!() }
}
impl Bindings {
    /// constructor: puts its arguments in the fields of the same name (C18 reads it)
    #[verifier::external_body]
    pub fn new(config: Config, struct_map: ItemMap<Struct>, enum_map: ItemMap<Enum>, typedef_map: ItemMap<Typedef>, constants: Vec<Constant>, globals: Vec<Static>,
        items: Vec<ItemContainer>, functions: Vec<Function>, source_files: Vec<PathBuf>, noop: bool, package_version: String) -> (r: Bindings)
        ensures r == (Bindings { config, struct_map, enum_map, typedef_map, globals, constants, items, functions }),
    { unimplemented!() }
}
impl Path {
    #[verifier::external_body]
    pub fn new(name: String) -> (r: Path) ensures r.name == name { unimplemented!() }
    /// #[derive(Ord)]
    #[verifier::external_body]
    pub fn cmp(&self, o: &Path) -> (r: Ordering) ensures r == path_cmp(*self, *o) { unimplemented!() }
}
pub open spec fn fn_cmp_f() -> spec_fn(Function, Function) -> Ordering { |a: Function, b: Function| fn_cmp(a, b) }
pub open spec fn fn_cmp(a: Function, b: Function) -> Ordering { path_cmp(a.path, b.path) }
pub open spec fn const_cmp_f() -> spec_fn(Constant, Constant) -> Ordering { |a: Constant, b: Constant| const_cmp(a, b) }
pub open spec fn const_cmp(a: Constant, b: Constant) -> Ordering { path_cmp(a.path, b.path) }
pub open spec fn static_cmp_f() -> spec_fn(Static, Static) -> Ordering { |a: Static, b: Static| static_cmp(a, b) }
pub open spec fn static_cmp(a: Static, b: Static) -> Ordering { path_cmp(a.path, b.path) }
pub uninterp spec fn path_cmp(a: Path, b: Path) -> Ordering;
/// slice::sort_by (std) is a stable sort; the comparison it is given is verified against `c`
#[verifier::external_body]
pub fn vx_sort_by<T, F: Fn(&T, &T) -> Ordering>(v: &mut Vec<T>, f: F, Ghost(c): Ghost<spec_fn(T, T) -> Ordering>)
    requires forall|a: T, b: T| f.requires((&a, &b)), forall|a: T, b: T, o: Ordering| f.ensures((&a, &b), o) ==> o == c(a, b),
    ensures exists|p: Seq<int>| #[trigger] stable_by(old(v)@, final(v)@, p, c),
{ unimplemented!() }
pub open spec fn perm(p: Seq<int>, n: int) -> bool {
    p.len() == n && p.no_duplicates() && forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n
}
pub open spec fn stable_by<T>(a: Seq<T>, b: Seq<T>, p: Seq<int>, c: spec_fn(T, T) -> Ordering) -> bool {
    &&& b.len() == a.len() && perm(p, a.len() as int)
    &&& forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == a[p[i]]
    &&& forall|i: int, j: int| 0 <= i < j < b.len() ==> (#[trigger] c(b[i], b[j]) is Less || (c(b[i], b[j]) is Equal && #[trigger] p[i] < #[trigger] p[j]))
}
impl Library {
    /// the passes before the dependencies are collected (each under contract where its property is)
    #[verifier::external_body] fn transfer_annotations(&mut self) ensures final(self).config == old(self).config { unimplemented!() }
    #[verifier::external_body] fn simplify_standard_types(&mut self) ensures final(self).config == old(self).config { unimplemented!() }
    #[verifier::external_body] fn instantiate_monomorphs(&mut self) ensures final(self).config == old(self).config { unimplemented!() }
    #[verifier::external_body] fn remove_excluded(&mut self) ensures final(self).config == old(self).config { unimplemented!() }
    #[verifier::external_body] fn resolve_declaration_types(&mut self) ensures final(self).config == old(self).config { unimplemented!() }
    #[verifier::external_body] fn rename_items(&mut self) ensures final(self).config == old(self).config { unimplemented!() }
    pub uninterp spec fn items_of(&self, p: Path) -> Option<Seq<ItemContainer>>;
    #[verifier::external_body]
    pub fn get_items(&self, p: &Path) -> (r: Option<Vec<ItemContainer>>)
        ensures r is Some <==> self.items_of(*p) is Some, r is Some ==> self.items_of(*p) == Some(r->0@),
    { unimplemented!() }
}
impl GenericParams {
    #[verifier::external_body] pub fn default() -> (r: GenericParams) ensures r.0@ == Seq::<GenericParam>::empty() { unimplemented!() }
}

// ---------------- specification: references, reachability ----------------
pub type PathPred = spec_fn(Path) -> bool;
pub open spec fn is_param(ps: Seq<GenericParam>, p: Path) -> bool { exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).name == p }
/// t refers to p (in any position, also inside generic arguments and function pointers)
pub open spec fn ty_ref(t: Type, ps: Seq<GenericParam>, p: Path) -> bool
    decreases t
{
    match t {
        Type::Ptr { ty, .. } => ty_ref(*ty, ps, p),
        Type::Path(g) => (g.path == p && !is_param(ps, p)) || (exists|i: int| 0 <= i < g.generics@.len() && arg_ref(#[trigger] g.generics@[i], ps, p)),
        Type::Primitive(_) => false,
        Type::Array(ty, _) => ty_ref(*ty, ps, p),
        Type::FuncPtr { ret, args, .. } => ty_ref(*ret, ps, p) || (exists|i: int| 0 <= i < args@.len() && ty_ref((#[trigger] args@[i]).1, ps, p)),
    }
}
pub open spec fn arg_ref(a: GenericArgument, ps: Seq<GenericParam>, p: Path) -> bool
    decreases a
{ match a { GenericArgument::Type(t) => ty_ref(t, ps, p), GenericArgument::Const(_) => false } }
/// the items an expression names itself (struct literals, associated constants, casts)
pub open spec fn lit_self(l: Literal) -> PathPred {
    match l {
        Literal::Struct { path, .. } => one(path),
        Literal::Path { associated_to: Some(a), .. } => one(a.0),
        Literal::Cast { ty, .. } => ty_r(ty, no_params()),
        _ => nothing(),
    }
}
pub open spec fn lits_f(xs: Seq<Literal>) -> IdxPred { |i: int| lit_self(xs[i]) }
pub open spec fn no_params() -> Seq<GenericParam> { Seq::empty() }
pub type IdxPred = spec_fn(int) -> PathPred;
/// some element lo <= i < hi refers to p
pub open spec fn upto(f: IdxPred, lo: int, hi: int) -> PathPred { |p: Path| exists|i: int| lo <= i < hi && #[trigger] f(i)(p) }
pub open spec fn or_(a: PathPred, b: PathPred) -> PathPred { |p: Path| a(p) || b(p) }
pub open spec fn nothing() -> PathPred { |p: Path| false }
pub open spec fn ty_r(t: Type, ps: Seq<GenericParam>) -> PathPred { |p: Path| ty_ref(t, ps, p) }
/// items named anywhere in a constant's value
pub open spec fn lit_r(l: Literal) -> PathPred { upto(lits_f(preorder(l)), 0, preorder(l).len() as int) }
pub open spec fn one(q: Path) -> PathPred { |p: Path| p == q }
pub open spec fn const_r(c: Constant) -> PathPred { or_(ty_r(c.ty, no_params()), lit_r(c.value)) }
pub open spec fn fields_f(fs: Seq<Field>, ps: Seq<GenericParam>) -> IdxPred { |i: int| ty_r(fs[i].ty, ps) }
pub open spec fn consts_f(cs: Seq<Constant>) -> IdxPred { |i: int| const_r(cs[i]) }
/// the tag of an enum variant's body names the enum's own tag, which is not an item
pub open spec fn first_field(s: Struct) -> int { if s.has_tag_field { 1 } else { 0 } }
pub open spec fn struct_r(s: Struct) -> PathPred {
    or_(upto(fields_f(s.fields@, s.generic_params.0@), first_field(s), s.fields@.len() as int), upto(consts_f(s.associated_constants@), 0, s.associated_constants@.len() as int))
}
pub open spec fn variant_r(v: EnumVariant) -> PathPred {
    or_(match v.body { VariantBody::Body { body, .. } => struct_r(body), VariantBody::Empty(_) => nothing() },
        match v.discriminant { Some(d) => lit_r(d), None => nothing() })
}
pub open spec fn variants_f(vs: Seq<EnumVariant>) -> IdxPred { |i: int| variant_r(vs[i]) }
/// what an item's definition refers to
pub open spec fn item_r(i: ItemContainer) -> PathPred {
    match i {
        ItemContainer::Constant(c) => const_r(c),
        ItemContainer::Static(s) => ty_r(s.ty, no_params()),
        ItemContainer::OpaqueItem(_) => nothing(),
        ItemContainer::Struct(s) => struct_r(s),
        ItemContainer::Union(u) => upto(fields_f(u.fields@, u.generic_params.0@), 0, u.fields@.len() as int),
        ItemContainer::Enum(e) => upto(variants_f(e.variants@), 0, e.variants@.len() as int),
        ItemContainer::Typedef(t) => ty_r(t.aliased, t.generic_params.0@),
    }
}
pub open spec fn items_f(xs: Seq<ItemContainer>) -> IdxPred { |i: int| item_r(xs[i]) }
pub open spec fn items_r(xs: Seq<ItemContainer>) -> PathPred { upto(items_f(xs), 0, xs.len() as int) }
pub open spec fn args_f(xs: Seq<FunctionArgument>) -> IdxPred { |i: int| ty_r(xs[i].ty, no_params()) }
pub open spec fn fn_r(f: Function) -> PathPred { or_(ty_r(f.ret, no_params()), upto(args_f(f.args@), 0, f.args@.len() as int)) }
pub open spec fn gargs_f(xs: Seq<GenericArgument>, ps: Seq<GenericParam>) -> IdxPred { |i: int| garg_r(xs[i], ps) }
pub open spec fn garg_r(a: GenericArgument, ps: Seq<GenericParam>) -> PathPred { |p: Path| arg_ref(a, ps, p) }
pub open spec fn fpargs_f(xs: Seq<(Option<String>, Type)>, ps: Seq<GenericParam>) -> IdxPred { |i: int| ty_r(xs[i].1, ps) }

pub open spec fn known(lib: Library, p: Path) -> bool { lib.items_of(p) is Some }
/// the definition of a refers to b
pub open spec fn edge(lib: Library, a: Path, b: Path) -> bool { known(lib, a) && items_r(lib.items_of(a)->0)(b) }
pub open spec fn walk(lib: Library, s: Seq<Path>) -> bool { s.len() >= 2 && forall|i: int| 0 <= i < s.len() - 1 ==> edge(lib, #[trigger] s[i], s[i + 1]) }
/// a refers to b, directly or through other items
pub open spec fn reach(lib: Library, a: Path, b: Path) -> bool { exists|s: Seq<Path>| #[trigger] walk(lib, s) && s[0] == a && s.last() == b }
pub open spec fn from(lib: Library, r: PathPred, p: Path) -> bool { exists|q: Path| #[trigger] r(q) && (q == p || reach(lib, q, p)) }
/// the items of the given paths, one path after the other
pub open spec fn flat(lib: Library, ps: Seq<Path>) -> Seq<ItemContainer>
    decreases ps.len()
{ if ps.len() == 0 { Seq::empty() } else { flat(lib, ps.drop_last()) + lib.items_of(ps.last())->0 } }
pub open spec fn before(ps: Seq<Path>, q: Path, i: int) -> bool { exists|j: int| 0 <= j < i && #[trigger] ps[j] == q }
pub open spec fn ext_by(lib: Library, a: Dependencies, b: Dependencies, r: PathPred, ps: Seq<Path>) -> bool {
    &&& ps.no_duplicates()
    // only what is needed, and not yet emitted
    &&& forall|i: int| 0 <= i < ps.len() ==> !a.items@.contains(#[trigger] ps[i]) && known(lib, ps[i]) && from(lib, r, ps[i])
    &&& forall|p: Path| #[trigger] b.items@.contains(p) <==> (a.items@.contains(p) || before(ps, p, ps.len() as int))
    &&& b.order@ == a.order@ + flat(lib, ps)
    // everything referred to is there, and comes first unless there is a cycle
    &&& forall|i: int, q: Path| 0 <= i < ps.len() && #[trigger] edge(lib, ps[i], q) && known(lib, q) ==>
        a.items@.contains(q) || before(ps, q, i) || (before(ps, q, ps.len() as int) && reach(lib, q, ps[i]))
}
/// b is a plus the items reachable from r that a did not have, each once and in dependency order
pub open spec fn ext(lib: Library, a: Dependencies, b: Dependencies, r: PathPred) -> bool {
    &&& exists|ps: Seq<Path>| ext_by(lib, a, b, r, ps)
    &&& forall|p: Path| #[trigger] r(p) && known(lib, p) ==> b.items@.contains(p)
}

// ---------------- specification: layers and roots ----------------
/// the value names no item
pub open spec fn prim_ty(t: Type) -> bool { match t { Type::Primitive(_) => true, Type::Ptr { ty, .. } => *ty is Primitive, _ => false } }
pub open spec fn names_none(l: Literal) -> bool { !(l is Struct) && !(l is Path && l->associated_to is Some) && (l is Cast ==> prim_ty(l->Cast_ty)) }
pub open spec fn lit_free(l: Literal) -> bool { forall|i: int| 0 <= i < preorder(l).len() ==> names_none(#[trigger] preorder(l)[i]) }
pub open spec fn variant_free(v: EnumVariant) -> bool { v.discriminant is Some ==> lit_free(v.discriminant->0) }
pub open spec fn standalone(e: Enum) -> bool { e.tag is None && forall|i: int| 0 <= i < e.variants@.len() ==> variant_free(#[trigger] e.variants@[i]) }
pub open spec fn layer(i: ItemContainer) -> int {
    match i {
        ItemContainer::Enum(e) => if standalone(e) { 0 } else { 2 },
        ItemContainer::OpaqueItem(_) => 1,
        _ => 2,
    }
}
/// plain enums first, then opaque items by name, everything else equal
pub open spec fn item_cmp_f() -> spec_fn(ItemContainer, ItemContainer) -> Ordering { |a: ItemContainer, b: ItemContainer| item_cmp(a, b) }
pub open spec fn item_cmp(a: ItemContainer, b: ItemContainer) -> Ordering {
    if layer(a) < layer(b) { Ordering::Less } else if layer(a) > layer(b) { Ordering::Greater }
    else { match (a, b) { (ItemContainer::OpaqueItem(x), ItemContainer::OpaqueItem(y)) => path_cmp(x.path, y.path), _ => Ordering::Equal } }
}
/// b is a with plain enums and opaque items moved to the front, and nothing else moved
pub open spec fn layered(a: Seq<ItemContainer>, b: Seq<ItemContainer>, p: Seq<int>) -> bool {
    &&& b.len() == a.len() && perm(p, a.len() as int)
    &&& forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == a[p[i]]
    &&& forall|i: int, j: int| 0 <= i < j < b.len() ==> layer(b[i]) <= layer(b[j])
        && (layer(b[i]) == layer(b[j]) && layer(b[i]) != 1 ==> #[trigger] p[i] < #[trigger] p[j])
}
broadcast proof fn lemma_layered(a: Seq<ItemContainer>, b: Seq<ItemContainer>, p: Seq<int>)
    requires #[trigger] stable_by(a, b, p, item_cmp_f()), ensures layered(a, b, p)
{
    let c = item_cmp_f();
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies layer(b[i]) <= layer(b[j]) && (layer(b[i]) == layer(b[j]) && layer(b[i]) != 1 ==> #[trigger] p[i] < #[trigger] p[j]) by {
        assert(c(b[i], b[j]) == item_cmp(b[i], b[j]));
    }
}
pub open spec fn fns_f(xs: Seq<Function>) -> IdxPred { |i: int| fn_r(xs[i]) }
pub open spec fn statics_f(xs: Seq<Static>) -> IdxPred { |i: int| ty_r(xs[i].ty, no_params()) }
pub open spec fn include_f(xs: Seq<String>) -> IdxPred { |i: int| one(Path { name: xs[i] }) }
pub open spec fn roots1(l: Library) -> PathPred { upto(fns_f(l.functions@), 0, l.functions@.len() as int) }
pub open spec fn roots2(l: Library) -> PathPred { or_(roots1(l), upto(statics_f(l.globals.all@), 0, l.globals.all@.len() as int)) }
pub open spec fn roots3(l: Library) -> PathPred { or_(roots2(l), upto(consts_f(l.constants.all@), 0, l.constants.all@.len() as int)) }
/// what functions, globals, constants and export.include name
pub open spec fn roots(l: Library) -> PathPred { or_(roots3(l), upto(include_f(l.config.export.include@), 0, l.config.export.include@.len() as int)) }
/// the emitted items are exactly those reachable from the roots, each once, dependencies first, then layered
pub open spec fn emitted(lib: Library, items: Seq<ItemContainer>, d0: Dependencies, d1: Dependencies, ps: Seq<Path>, p: Seq<int>) -> bool {
    &&& d0.order@.len() == 0 && forall|q: Path| !(#[trigger] d0.items@.contains(q))
    &&& ext_by(lib, d0, d1, roots(lib), ps)
    &&& forall|q: Path| #[trigger] roots(lib)(q) && known(lib, q) ==> before(ps, q, ps.len() as int)
    &&& layered(flat(lib, ps), items, p)
}
/// the list of a kind: all of it (in order, or sorted by name), or nothing if the kind is disabled
pub open spec fn picked<T>(on: bool, src: Seq<T>, out: Seq<T>, c: spec_fn(T, T) -> Ordering) -> bool {
    if on { out == src || exists|p: Seq<int>| #[trigger] stable_by(src, out, p, c) } else { out.len() == 0 }
}
pub open spec fn lists(l: Library, b: Bindings) -> bool {
    &&& picked(l.config.export.enabled(ItemType::Constants), l.constants.all@, b.constants@, const_cmp_f())
    &&& picked(l.config.export.enabled(ItemType::Globals), l.globals.all@, b.globals@, static_cmp_f())
    &&& picked(l.config.export.enabled(ItemType::Functions), l.functions@, b.functions@, fn_cmp_f())
}
/// Enum::load and specialize set `tag` exactly for enums with data
pub open spec fn wf_item(i: ItemContainer) -> bool { i is Enum && i->Enum_0.tag is None ==> forall|k: int| 0 <= k < i->Enum_0.variants@.len() ==> (#[trigger] i->Enum_0.variants@[k]).body is Empty }
/// an item that is moved forward refers to nothing, so everything still follows what it refers to
proof fn lemma_layers_keep(a: Seq<ItemContainer>, b: Seq<ItemContainer>, p: Seq<int>, i: int, j: int, q: Path)
    requires layered(a, b, p), 0 <= i < b.len(), 0 <= j < b.len(), p[j] < p[i], item_r(b[i])(q), wf_item(b[i]),
    ensures j < i,
{
    if layer(b[i]) < 2 { lemma_layer_free(b[i], q); }
    if i < j { assert(p[i] < p[j]); }
}
proof fn lemma_layer_free(x: ItemContainer, q: Path)
    requires layer(x) < 2, wf_item(x), ensures !item_r(x)(q)
{
    match x {
        ItemContainer::Enum(e) => {
            if item_r(x)(q) {
                let f = variants_f(e.variants@);
                let i = choose|i: int| 0 <= i < e.variants@.len() && #[trigger] f(i)(q);
                let v = e.variants@[i];
                assert(variant_r(v)(q));
                assert(variant_free(v));
                let l = v.discriminant->0;
                assert(lit_r(l)(q));
                let g = lits_f(preorder(l));
                let k = choose|k: int| 0 <= k < preorder(l).len() && #[trigger] g(k)(q);
                let m = preorder(l)[k];
                assert(names_none(m));
                assert(lit_self(m)(q));
                if m is Cast { reveal_with_fuel(ty_ref, 3); assert(ty_ref(m->Cast_ty, no_params(), q)); }
            }
        }
        _ => {}
    }
}
// ---------------- lemmas ----------------
proof fn lemma_reach_edge(lib: Library, a: Path, b: Path)
    requires edge(lib, a, b), ensures reach(lib, a, b)
{ let s = seq![a, b]; assert(walk(lib, s)) by { assert forall|i: int| 0 <= i < s.len() - 1 implies edge(lib, #[trigger] s[i], s[i + 1]) by { assert(i == 0); } } assert(s[0] == a && s.last() == b); }
proof fn lemma_reach_step(lib: Library, a: Path, b: Path, c: Path)
    requires edge(lib, a, b), reach(lib, b, c), ensures reach(lib, a, c)
{
    let s = choose|s: Seq<Path>| #[trigger] walk(lib, s) && s[0] == b && s.last() == c;
    let t = seq![a] + s;
    assert forall|i: int| 0 <= i < t.len() - 1 implies edge(lib, #[trigger] t[i], t[i + 1]) by {
        if i > 0 { assert(t[i] == s[i - 1]); assert(t[i + 1] == s[i]); assert(edge(lib, s[i - 1], s[i - 1 + 1])); } else { assert(t[1] == s[0]); }
    }
    assert(walk(lib, t)); assert(t[0] == a && t.last() == c);
}
proof fn lemma_flat_add(lib: Library, a: Seq<Path>, b: Seq<Path>)
    ensures flat(lib, a + b) == flat(lib, a) + flat(lib, b),
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(flat(lib, a) + flat(lib, b) =~= flat(lib, a)); }
    else {
        lemma_flat_add(lib, a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(flat(lib, a) + flat(lib, b.drop_last()) + lib.items_of(b.last())->0 =~= flat(lib, a) + (flat(lib, b.drop_last()) + lib.items_of(b.last())->0));
    }
}
proof fn lemma_before_add(a: Seq<Path>, b: Seq<Path>, q: Path)
    ensures before(a + b, q, (a + b).len() as int) <==> before(a, q, a.len() as int) || before(b, q, b.len() as int),
        forall|i: int| 0 <= i <= a.len() ==> (before(a + b, q, i) <==> #[trigger] before(a, q, i)),
        forall|i: int| 0 <= i <= b.len() ==> (#[trigger] before(b, q, i) ==> before(a + b, q, a.len() + i)),
        forall|i: int| 0 <= i <= b.len() && before(a, q, a.len() as int) ==> #[trigger] before(a + b, q, a.len() + i),
{
    let c = a + b;
    assert forall|i: int| 0 <= i <= a.len() implies (before(c, q, i) <==> #[trigger] before(a, q, i)) by {
        if before(c, q, i) { let j = choose|j: int| 0 <= j < i && #[trigger] c[j] == q; assert(a[j] == q); }
        if before(a, q, i) { let j = choose|j: int| 0 <= j < i && #[trigger] a[j] == q; assert(c[j] == q); }
    }
    assert forall|i: int| 0 <= i <= b.len() && #[trigger] before(b, q, i) implies before(c, q, a.len() + i) by {
        let j = choose|j: int| 0 <= j < i && #[trigger] b[j] == q; assert(c[a.len() + j] == q);
    }
    assert forall|i: int| 0 <= i <= b.len() && before(a, q, a.len() as int) implies #[trigger] before(c, q, a.len() + i) by {
        let j = choose|j: int| 0 <= j < a.len() && #[trigger] a[j] == q; assert(c[j] == q);
    }
    if before(c, q, c.len() as int) {
        let j = choose|j: int| 0 <= j < c.len() && #[trigger] c[j] == q;
        if j < a.len() { assert(a[j] == q); } else { assert(b[j - a.len()] == q); }
    }
    if before(b, q, b.len() as int) { assert(before(c, q, (a.len() + b.len()) as int)); }
}
proof fn lemma_from_mono(lib: Library, r: PathPred, s: PathPred, p: Path)
    requires from(lib, r, p), forall|q: Path| #[trigger] r(q) ==> s(q), ensures from(lib, s, p)
{ let q = choose|q: Path| #[trigger] r(q) && (q == p || reach(lib, q, p)); assert(s(q)); }
proof fn lemma_nothing(lib: Library, a: Dependencies, r: PathPred)
    requires forall|p: Path| #[trigger] r(p) && known(lib, p) ==> a.items@.contains(p),
    ensures ext(lib, a, a, r),
{
    let ps = Seq::<Path>::empty();
    assert(a.order@ + flat(lib, ps) =~= a.order@);
    assert(ext_by(lib, a, a, r, ps));
}
proof fn lemma_nothing_one(lib: Library, a: Dependencies, b: Dependencies, q: Path)
    requires !known(lib, q) || a.items@.contains(q), b.items@ == a.items@, b.order@ == a.order@, ensures ext(lib, a, b, one(q))
{
    let ps = Seq::<Path>::empty();
    assert(a.order@ + flat(lib, ps) =~= a.order@);
    assert(ext_by(lib, a, b, one(q), ps));
}
proof fn lemma_then(lib: Library, a: Dependencies, b: Dependencies, c: Dependencies, r1: PathPred, r2: PathPred, r: PathPred)
    requires ext(lib, a, b, r1), ext(lib, b, c, r2), forall|p: Path| #![trigger r(p)] #![trigger r1(p)] #![trigger r2(p)] r(p) <==> (r1(p) || r2(p)),
    ensures ext(lib, a, c, r),
{
    let p1 = choose|ps: Seq<Path>| ext_by(lib, a, b, r1, ps);
    let p2 = choose|ps: Seq<Path>| ext_by(lib, b, c, r2, ps);
    lemma_then_by(lib, a, b, c, r1, r2, r, p1, p2);
    assert forall|p: Path| #[trigger] r(p) && known(lib, p) implies c.items@.contains(p) by {
        if r1(p) { assert(b.items@.contains(p)); assert(c.items@.contains(p)); }
    }
}
proof fn lemma_then_by(lib: Library, a: Dependencies, b: Dependencies, c: Dependencies, r1: PathPred, r2: PathPred, r: PathPred, p1: Seq<Path>, p2: Seq<Path>)
    requires ext_by(lib, a, b, r1, p1), ext_by(lib, b, c, r2, p2), forall|p: Path| #[trigger] r1(p) ==> r(p), forall|p: Path| #[trigger] r2(p) ==> r(p),
    ensures ext_by(lib, a, c, r, p1 + p2),
{
    hide(from); hide(reach); hide(edge); hide(flat);
    let ps = p1 + p2;
    let n1 = p1.len() as int;
    let n2 = p2.len() as int;
    lemma_flat_add(lib, p1, p2);
    assert(c.order@ =~= a.order@ + flat(lib, ps));
    assert forall|i: int| 0 <= i < ps.len() implies !a.items@.contains(#[trigger] ps[i]) && known(lib, ps[i]) && from(lib, r, ps[i]) by {
        if i < n1 { assert(ps[i] == p1[i]); lemma_from_mono(lib, r1, r, p1[i]); }
        else { assert(ps[i] == p2[i - n1]); lemma_from_mono(lib, r2, r, p2[i - n1]); assert(!b.items@.contains(p2[i - n1])); }
    }
    assert(ps.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < ps.len() && 0 <= j < ps.len() && i != j implies ps[i] != ps[j] by {
            if i < n1 && j >= n1 { assert(before(p1, p1[i], n1)); assert(b.items@.contains(p1[i])); assert(!b.items@.contains(p2[j - n1])); }
            if j < n1 && i >= n1 { assert(before(p1, p1[j], n1)); assert(b.items@.contains(p1[j])); assert(!b.items@.contains(p2[i - n1])); }
            if i < n1 && j < n1 { assert(p1[i] != p1[j]); }
            if i >= n1 && j >= n1 { assert(p2[i - n1] != p2[j - n1]); }
        }
    }
    assert forall|p: Path| #[trigger] c.items@.contains(p) <==> (a.items@.contains(p) || before(ps, p, ps.len() as int)) by {
        lemma_before_add(p1, p2, p);
        assert(b.items@.contains(p) <==> (a.items@.contains(p) || before(p1, p, n1)));
    }
    assert forall|i: int, q: Path| 0 <= i < ps.len() && #[trigger] edge(lib, ps[i], q) && known(lib, q) implies
        a.items@.contains(q) || before(ps, q, i) || (before(ps, q, ps.len() as int) && reach(lib, q, ps[i])) by {
        lemma_before_add(p1, p2, q);
        if i < n1 {
            assert(ps[i] == p1[i]); assert(edge(lib, p1[i], q));
            assert(before(ps, q, i) <==> before(p1, q, i));
        } else {
            let k = i - n1;
            assert(ps[i] == p2[k]); assert(edge(lib, p2[k], q));
            if b.items@.contains(q) && !a.items@.contains(q) { assert(before(p1, q, n1)); assert(before(ps, q, n1 + k)); }
            if before(p2, q, k) { assert(before(ps, q, n1 + k)); }
        }
    }
}
/// visiting a path: mark it, visit what its items refer to, then emit its items
proof fn lemma_visit(lib: Library, a: Dependencies, m: Dependencies, b: Dependencies, c: Dependencies, path: Path)
    requires known(lib, path), !a.items@.contains(path),
        m.items@ == a.items@.insert(path), m.order@ == a.order@,
        ext(lib, m, b, items_r(lib.items_of(path)->0)),
        c.items@ == b.items@, c.order@ == b.order@ + lib.items_of(path)->0,
    ensures ext(lib, a, c, one(path)),
{
    let r1 = items_r(lib.items_of(path)->0);
    let p1 = choose|ps: Seq<Path>| ext_by(lib, m, b, r1, ps);
    lemma_visit_by(lib, a, m, b, c, path, p1);
    assert(m.items@.contains(path)); assert(b.items@.contains(path));
}
proof fn lemma_visit_by(lib: Library, a: Dependencies, m: Dependencies, b: Dependencies, c: Dependencies, path: Path, p1: Seq<Path>)
    requires known(lib, path), !a.items@.contains(path),
        m.items@ == a.items@.insert(path), m.order@ == a.order@,
        ext_by(lib, m, b, items_r(lib.items_of(path)->0), p1),
        forall|p: Path| items_r(lib.items_of(path)->0)(p) && #[trigger] known(lib, p) ==> b.items@.contains(p),
        c.items@ == b.items@, c.order@ == b.order@ + lib.items_of(path)->0,
    ensures ext_by(lib, a, c, one(path), p1.push(path)),
{
    let r1 = items_r(lib.items_of(path)->0);
    let ps = p1.push(path);
    let n = p1.len() as int;
    assert(ps =~= p1 + seq![path]);
    lemma_flat_add(lib, p1, seq![path]);
    assert(seq![path].drop_last() =~= Seq::<Path>::empty());
    assert(flat(lib, seq![path]) =~= lib.items_of(path)->0) by { reveal_with_fuel(flat, 3); }
    assert(c.order@ =~= a.order@ + flat(lib, ps));
    assert forall|i: int| 0 <= i < n implies reach(lib, path, #[trigger] p1[i]) by {
        assert(from(lib, r1, p1[i]));
        let q = choose|q: Path| #[trigger] r1(q) && (q == p1[i] || reach(lib, q, p1[i]));
        assert(r1(q)); assert(edge(lib, path, q));
        if q == p1[i] { lemma_reach_edge(lib, path, q); } else { lemma_reach_step(lib, path, q, p1[i]); }
    }
    assert forall|i: int| 0 <= i < ps.len() implies !a.items@.contains(#[trigger] ps[i]) && known(lib, ps[i]) && from(lib, one(path), ps[i]) by {
        assert(one(path)(path));
        if i < n { assert(ps[i] == p1[i]); assert(!m.items@.contains(p1[i])); }
    }
    assert(ps.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < ps.len() && 0 <= j < ps.len() && i != j implies ps[i] != ps[j] by {
            if i < n { assert(!m.items@.contains(p1[i])); }
            if j < n { assert(!m.items@.contains(p1[j])); }
            if i < n && j < n { assert(p1[i] != p1[j]); }
        }
    }
    assert forall|p: Path| #[trigger] c.items@.contains(p) <==> (a.items@.contains(p) || before(ps, p, ps.len() as int)) by {
        lemma_before_add(p1, seq![path], p);
        assert(b.items@.contains(p) <==> (m.items@.contains(p) || before(p1, p, n)));
        if p == path { assert(ps[n] == p); }
        if before(seq![path], p, 1) { assert(p == path); }
    }
    assert forall|i: int, q: Path| 0 <= i < ps.len() && #[trigger] edge(lib, ps[i], q) && known(lib, q) implies
        a.items@.contains(q) || before(ps, q, i) || (before(ps, q, ps.len() as int) && reach(lib, q, ps[i])) by {
        lemma_before_add(p1, seq![path], q);
        assert(ps[n] == path);
        if i < n {
            assert(ps[i] == p1[i]); assert(edge(lib, p1[i], q));
            if q == path { assert(before(ps, q, ps.len() as int)); }
        } else {
            assert(ps[i] == path);
            assert(b.items@.contains(q));
            if q == path { lemma_reach_edge(lib, path, path); assert(before(ps, q, ps.len() as int)); }
            else if !a.items@.contains(q) { assert(!m.items@.contains(q)); assert(before(p1, q, n)); assert(before(ps, q, n)); }
        }
    }
}
proof fn lemma_zero(lib: Library, a: Dependencies, f: IdxPred, lo: int)
    ensures ext(lib, a, a, upto(f, lo, lo))
{ lemma_nothing(lib, a, upto(f, lo, lo)); }
proof fn lemma_next(lib: Library, a: Dependencies, b: Dependencies, c: Dependencies, f: IdxPred, lo: int, hi: int)
    requires lo <= hi, ext(lib, a, b, upto(f, lo, hi)), ext(lib, b, c, f(hi)),
    ensures ext(lib, a, c, upto(f, lo, hi + 1)),
{
    let r1 = upto(f, lo, hi); let r2 = f(hi); let r = upto(f, lo, hi + 1);
    assert forall|p: Path| #![trigger r(p)] #![trigger r1(p)] #![trigger r2(p)] r(p) <==> (r1(p) || r2(p)) by {
        if r(p) { let i = choose|i: int| lo <= i < hi + 1 && #[trigger] f(i)(p); if i < hi { assert(f(i)(p)); } }
        if r1(p) { let i = choose|i: int| lo <= i < hi && #[trigger] f(i)(p); assert(f(i)(p)); }
        if r2(p) { assert(f(hi)(p)); }
    }
    lemma_then(lib, a, b, c, r1, r2, r);
}
broadcast proof fn lemma_or(lib: Library, a: Dependencies, b: Dependencies, c: Dependencies, r1: PathPred, r2: PathPred)
    requires #[trigger] ext(lib, a, b, r1), #[trigger] ext(lib, b, c, r2), ensures ext(lib, a, c, #[trigger] or_(r1, r2))
{
    let r = or_(r1, r2);
    lemma_then(lib, a, b, c, r1, r2, r);
}
broadcast proof fn lemma_or_l(lib: Library, a: Dependencies, b: Dependencies, r: PathPred)
    requires #[trigger] ext(lib, a, b, r), ensures ext(lib, a, b, #[trigger] or_(r, nothing()))
{ lemma_nothing(lib, b, nothing()); lemma_or(lib, a, b, b, r, nothing()); }
broadcast proof fn lemma_or_r(lib: Library, a: Dependencies, b: Dependencies, r: PathPred)
    requires #[trigger] ext(lib, a, b, r), ensures ext(lib, a, b, #[trigger] or_(nothing(), r))
{ lemma_nothing(lib, a, nothing()); lemma_or(lib, a, a, b, nothing(), r); }
pub open spec fn same(r1: PathPred, r: PathPred) -> bool { forall|p: Path| #![trigger r(p)] #![trigger r1(p)] r(p) <==> r1(p) }
broadcast proof fn lemma_same(lib: Library, a: Dependencies, b: Dependencies, r1: PathPred, r: PathPred)
    requires #[trigger] ext(lib, a, b, r1), #[trigger] same(r1, r),
    ensures ext(lib, a, b, r),
{
    lemma_nothing(lib, b, r1);
    lemma_then(lib, a, b, b, r1, r1, r);
}
proof fn lemma_emitted(lib: Library, d0: Dependencies, d1: Dependencies, items: Seq<ItemContainer>)
    requires ext(lib, d0, d1, roots(lib)), d0.order@.len() == 0, forall|q: Path| !(#[trigger] d0.items@.contains(q)),
        exists|p: Seq<int>| #[trigger] layered(d1.order@, items, p),
    ensures exists|ps: Seq<Path>, p: Seq<int>| #[trigger] emitted(lib, items, d0, d1, ps, p)
{
    let ps = choose|ps: Seq<Path>| ext_by(lib, d0, d1, roots(lib), ps);
    let p = choose|p: Seq<int>| #[trigger] layered(d1.order@, items, p);
    assert(d1.order@ =~= flat(lib, ps));
    assert forall|q: Path| #[trigger] roots(lib)(q) && known(lib, q) implies before(ps, q, ps.len() as int) by { assert(d1.items@.contains(q)); }
    assert(emitted(lib, items, d0, d1, ps, p));
}
/// what a type refers to, the way the traversal takes it apart
proof fn lemma_ty_r(t: Type, ps: Seq<GenericParam>)
    ensures
        match t {
            Type::Ptr { ty, .. } => same(ty_r(*ty, ps), ty_r(t, ps)),
            Type::Path(g) => same(if is_param(ps, g.path) { upto(gargs_f(g.generics@, ps), 0, g.generics@.len() as int) } else { or_(upto(gargs_f(g.generics@, ps), 0, g.generics@.len() as int), one(g.path)) }, ty_r(t, ps)),
            Type::Primitive(_) => same(nothing(), ty_r(t, ps)),
            Type::Array(ty, _) => same(ty_r(*ty, ps), ty_r(t, ps)),
            Type::FuncPtr { ret, args, .. } => same(or_(ty_r(*ret, ps), upto(fpargs_f(args@, ps), 0, args@.len() as int)), ty_r(t, ps)),
        }
{
    match t {
        Type::Path(g) => {
            let f = gargs_f(g.generics@, ps);
            let u = upto(f, 0, g.generics@.len() as int);
            assert forall|p: Path| #[trigger] u(p) <==> (exists|i: int| 0 <= i < g.generics@.len() && arg_ref(#[trigger] g.generics@[i], ps, p)) by {
                if u(p) { let i = choose|i: int| 0 <= i < g.generics@.len() && #[trigger] f(i)(p); assert(arg_ref(g.generics@[i], ps, p)); }
                if exists|i: int| 0 <= i < g.generics@.len() && arg_ref(#[trigger] g.generics@[i], ps, p) {
                    let i = choose|i: int| 0 <= i < g.generics@.len() && arg_ref(#[trigger] g.generics@[i], ps, p); assert(f(i)(p));
                }
            }
        }
        Type::FuncPtr { ret, args, .. } => {
            let f = fpargs_f(args@, ps);
            let u = upto(f, 0, args@.len() as int);
            assert forall|p: Path| #[trigger] u(p) <==> (exists|i: int| 0 <= i < args@.len() && ty_ref((#[trigger] args@[i]).1, ps, p)) by {
                if u(p) { let i = choose|i: int| 0 <= i < args@.len() && #[trigger] f(i)(p); assert(ty_ref(args@[i].1, ps, p)); }
                if exists|i: int| 0 <= i < args@.len() && ty_ref((#[trigger] args@[i]).1, ps, p) {
                    let i = choose|i: int| 0 <= i < args@.len() && ty_ref((#[trigger] args@[i]).1, ps, p); assert(f(i)(p));
                }
            }
        }
        _ => {}
    }
}
// ---------------- code under contract ----------------
impl ItemContainer {
    /// `item.deref().add_dependencies(..)`: dispatch of the trait method to the item's kind
    #[verifier::exec_allows_no_decreases_clause]
    pub fn vx_add_dependencies(&self, library: &Library, out: &mut Dependencies)
        ensures ext(*library, *old(out), *final(out), item_r(*self)),
    {
        match self {
            ItemContainer::Constant(x) => x.add_dependencies(library, out),
            ItemContainer::Static(x) => x.add_dependencies(library, out),
            ItemContainer::OpaqueItem(x) => x.add_dependencies(library, out),
            ItemContainer::Struct(x) => x.add_dependencies(library, out),
            ItemContainer::Union(x) => x.add_dependencies(library, out),
            ItemContainer::Enum(x) => x.add_dependencies(library, out),
            ItemContainer::Typedef(x) => x.add_dependencies(library, out),
        }
    }
}
impl Literal {
    /// Literal::visit is under contract in c15: it calls the visitor on exactly these, in this order
    #[verifier::external_body]
    pub fn vx_preorder(&self) -> (r: Vec<&Literal>)
        ensures r@.len() == preorder(*self).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == preorder(*self)[i],
    { unimplemented!() }
//@fn src/bindgen/ir/constant.rs Literal::has_dependencies r
    ensures r == !lit_free(*self),
//@loop 0
    __s0@.len() == preorder(*self).len(), forall|i: int| 0 <= i < __s0@.len() ==> *(#[trigger] __s0@[i]) == preorder(*self)[i],
    !has_dependencies ==> forall|i: int| 0 <= i < __i0 ==> names_none(#[trigger] preorder(*self)[i]),
    has_dependencies ==> exists|i: int| 0 <= i < preorder(*self).len() && !names_none(#[trigger] preorder(*self)[i]),
//@end
//@fn src/bindgen/ir/constant.rs Literal::add_dependencies r
    ensures ext(*library, *old(out), *final(out), lit_r(*self)),
//@pre
    proof { lemma_zero(*library, *out, lits_f(preorder(*self)), 0); }
//@loop 0
    __s0@.len() == preorder(*self).len(), forall|i: int| 0 <= i < __s0@.len() ==> *(#[trigger] __s0@[i]) == preorder(*self)[i],
    ext(*library, *old(out), *out, upto(lits_f(preorder(*self)), 0, __i0 as int)),
//@loop 0 pre
    let ghost __b = *out;
    proof { lemma_nothing(*library, *out, nothing()); }
//@loop 0 post
    proof { lemma_next(*library, *old(out), __b, *out, lits_f(preorder(*self)), 0, __i0 - 1); }
//@end
}
impl Constant {
//@fn src/bindgen/ir/constant.rs Item@Constant::add_dependencies r
    ensures ext(*library, *old(out), *final(out), const_r(*self)),
//@pre
    broadcast use lemma_or;
//@end
}
impl Static {
//@fn src/bindgen/ir/global.rs Item@Static::add_dependencies r
    ensures ext(*library, *old(out), *final(out), ty_r(self.ty, no_params())),
//@end
}
impl OpaqueItem {
//@fn src/bindgen/ir/opaque.rs Item@OpaqueItem::add_dependencies r
    ensures ext(*library, *old(out), *final(out), nothing()),
//@sig fn add_dependencies(&self, library: &Library, out: &mut Dependencies)
//@pre
    proof { lemma_nothing(*library, *out, nothing()); }
//@end
}
impl Typedef {
//@fn src/bindgen/ir/typedef.rs Item@Typedef::add_dependencies r
    ensures ext(*library, *old(out), *final(out), ty_r(self.aliased, self.generic_params.0@)),
//@end
}
impl Union {
//@fn src/bindgen/ir/union.rs Item@Union::add_dependencies r
    ensures ext(*library, *old(out), *final(out), upto(fields_f(self.fields@, self.generic_params.0@), 0, self.fields@.len() as int)),
//@pre
    proof { lemma_zero(*library, *out, fields_f(self.fields@, self.generic_params.0@), 0); }
//@loop 0
    __s0@ == self.fields@, ext(*library, *old(out), *out, upto(fields_f(self.fields@, self.generic_params.0@), 0, __i0 as int)),
//@loop 0 pre
    let ghost __b = *out;
//@loop 0 post
    proof { lemma_next(*library, *old(out), __b, *out, fields_f(self.fields@, self.generic_params.0@), 0, __i0 - 1); }
//@end
}
impl EnumVariant {
//@fn src/bindgen/ir/enumeration.rs EnumVariant::add_dependencies r
    ensures ext(*library, *old(out), *final(out), variant_r(*self)),
//@pre
    broadcast use lemma_or, lemma_or_l, lemma_or_r;
    proof { lemma_nothing(*library, *out, nothing()); }
//@end
}
impl Enum {
//@fn src/bindgen/ir/enumeration.rs Enum::is_standalone r
    ensures r == standalone(*self),
//@loop 0
    __s0@ == self.variants@, !__r0 ==> forall|i: int| 0 <= i < __i0 ==> variant_free(#[trigger] __s0@[i]), __r0 ==> exists|i: int| 0 <= i < __s0@.len() && !variant_free(#[trigger] __s0@[i]),
//@end
//@fn src/bindgen/ir/enumeration.rs Item@Enum::add_dependencies r
    ensures ext(*library, *old(out), *final(out), upto(variants_f(self.variants@), 0, self.variants@.len() as int)),
//@pre
    proof { lemma_zero(*library, *out, variants_f(self.variants@), 0); }
//@loop 0
    __s0@ == self.variants@, ext(*library, *old(out), *out, upto(variants_f(self.variants@), 0, __i0 as int)),
//@loop 0 pre
    let ghost __b = *out;
//@loop 0 post
    proof { lemma_next(*library, *old(out), __b, *out, variants_f(self.variants@), 0, __i0 - 1); }
//@end
}
impl Struct {
//@fn src/bindgen/ir/structure.rs Item@Struct::add_dependencies r
    ensures ext(*library, *old(out), *final(out), struct_r(*self)),
//@loop 0 mode=iter
    __it0.wf(), __it0.s@ == self.fields@, !__it0.rev, self.fields@.len() == 0 || __it0.i >= first_field(*self),
    ext(*library, *old(out), *out, upto(fields_f(self.fields@, self.generic_params.0@), first_field(*self), __it0.i as int))
//@loop 0 before
    proof {
        if self.fields@.len() == 0 { lemma_nothing(*library, *out, upto(fields_f(self.fields@, self.generic_params.0@), first_field(*self), __it0.i as int)); }
        else { lemma_zero(*library, *out, fields_f(self.fields@, self.generic_params.0@), first_field(*self)); }
    }
//@loop 0 pre
    let ghost __b = *out;
//@loop 0 post
    proof { lemma_next(*library, *old(out), __b, *out, fields_f(self.fields@, self.generic_params.0@), first_field(*self), __it0.i - 1); }
//@loop 1 before
    let ghost __m = *out;
    proof { lemma_zero(*library, *out, consts_f(self.associated_constants@), 0); }
//@loop 1
    __s1@ == self.associated_constants@,
    ext(*library, *old(out), __m, upto(fields_f(self.fields@, self.generic_params.0@), first_field(*self), self.fields@.len() as int)),
    ext(*library, __m, *out, upto(consts_f(self.associated_constants@), 0, __i1 as int)),
//@loop 1 pre
    let ghost __b = *out;
//@loop 1 post
    proof { lemma_next(*library, __m, __b, *out, consts_f(self.associated_constants@), 0, __i1 - 1); }
//@loop 1 after
    proof { lemma_or(*library, *old(out), __m, *out, upto(fields_f(self.fields@, self.generic_params.0@), first_field(*self), self.fields@.len() as int), upto(consts_f(self.associated_constants@), 0, self.associated_constants@.len() as int)); }
//@end
}
impl Function {
//@fn src/bindgen/ir/function.rs Function::add_dependencies r
    ensures ext(*library, *old(out), *final(out), fn_r(*self)),
//@loop 0 before
    let ghost __m = *out;
    proof { lemma_zero(*library, *out, args_f(self.args@), 0); }
//@loop 0
    __s0@ == self.args@, ext(*library, *old(out), __m, ty_r(self.ret, no_params())), ext(*library, __m, *out, upto(args_f(self.args@), 0, __i0 as int)),
//@loop 0 pre
    let ghost __b = *out;
//@loop 0 post
    proof { lemma_next(*library, __m, __b, *out, args_f(self.args@), 0, __i0 - 1); }
//@loop 0 after
    proof { lemma_or(*library, *old(out), __m, *out, ty_r(self.ret, no_params()), upto(args_f(self.args@), 0, self.args@.len() as int)); }
//@end
}
impl GenericParam {
//@fn src/bindgen/ir/generic_path.rs GenericParam::name r
    ensures *r == self.name,
//@end
}
impl Type {
//@fn src/bindgen/ir/ty.rs Type::is_primitive_or_ptr_primitive r
    ensures r == prim_ty(*self),
//@subst ty.as_ref() => (&**ty)
//@end
//@fn src/bindgen/ir/ty.rs Type::add_dependencies r
    ensures ext(*library, *old(out), *final(out), ty_r(*self, no_params())),
//@end
//@fn src/bindgen/ir/ty.rs Type::add_dependencies_ignoring_generics r
    ensures ext(*library, *old(out), *final(out), ty_r(*self, generic_params.0@)),
//@pre
    broadcast use lemma_same, lemma_or;
    proof { lemma_ty_r(*self, generic_params.0@); lemma_nothing(*library, *out, nothing()); }
//@loop 0 before
    proof { lemma_zero(*library, *out, gargs_f(generic.generics@, generic_params.0@), 0); }
//@loop 0
    __s0@ == generic.generics@, ext(*library, *old(out), *out, upto(gargs_f(generic.generics@, generic_params.0@), 0, __i0 as int)),
//@loop 0 pre
    let ghost __b = *out;
    proof { lemma_nothing(*library, *out, nothing()); }
//@loop 0 post
    proof {
        let r = gargs_f(generic.generics@, generic_params.0@)(__i0 - 1);
        match generic.generics@[__i0 - 1] {
            GenericArgument::Type(t) => lemma_same(*library, __b, *out, ty_r(t, generic_params.0@), r),
            GenericArgument::Const(_) => lemma_nothing(*library, __b, r),
        }
        lemma_next(*library, *old(out), __b, *out, gargs_f(generic.generics@, generic_params.0@), 0, __i0 - 1);
    }
//@loop 1
    __s1@ == generic_params.0@, !__r1 ==> forall|i: int| 0 <= i < __i1 ==> (#[trigger] __s1@[i]).name != *path, __r1 ==> is_param(generic_params.0@, *path),
//@loop 2 before
    let ghost __m = *out;
    proof { lemma_zero(*library, *out, fpargs_f(args@, generic_params.0@), 0); }
//@loop 2
    __s2@ == args@, ext(*library, *old(out), __m, ty_r(**ret, generic_params.0@)), ext(*library, __m, *out, upto(fpargs_f(args@, generic_params.0@), 0, __i2 as int)),
//@loop 2 pre
    let ghost __b = *out;
//@loop 2 post
    proof { lemma_next(*library, __m, __b, *out, fpargs_f(args@, generic_params.0@), 0, __i2 - 1); }
//@loop 2 after
    proof { lemma_or(*library, *old(out), __m, *out, ty_r(**ret, generic_params.0@), upto(fpargs_f(args@, generic_params.0@), 0, args@.len() as int)); }
//@end
}
impl Dependencies {
//@fn src/bindgen/dependencies.rs Dependencies::new r
    ensures r.order@.len() == 0, forall|p: Path| !(#[trigger] r.items@.contains(p)),
//@end
//@fn src/bindgen/dependencies.rs Dependencies::add r
    ensures ext(*library, *old(self), *final(self), one(*path)),
//@pre
    let ghost mut __m = *self; let ghost mut __n = *self;
    proof { if !known(*library, *path) || self.items@.contains(*path) { lemma_nothing(*library, *self, one(*path)); } }
//@loop 0 before
    proof { __m = *self; lemma_zero(*library, *self, items_f(items@), 0); }
//@loop 0
    __s0@ == items@, ext(*library, __m, *self, upto(items_f(items@), 0, __i0 as int)),
//@loop 0 pre
    let ghost __b = *self;
//@loop 0 post
    proof { lemma_next(*library, __m, __b, *self, items_f(items@), 0, __i0 - 1); }
//@loop 0 after
    proof { __n = *self; }
//@loop 1 mode=own
    __s1@ == library.items_of(*path)->0, self.items@ == __n.items@, self.order@ == __n.order@ + __s1@.take(__i1 as int),
//@loop 1 post
    proof { assert(__s1@.take(__i1 as int) =~= __s1@.take(__i1 - 1).push(__s1@[__i1 - 1])); }
//@loop 1 after
    proof { assert(__s1@.take(__s1@.len() as int) =~= __s1@); lemma_visit(*library, *old(self), __m, __n, *self, *path); }
//@subst item.deref().add_dependencies( => item.vx_add_dependencies(
//@end
//@fn src/bindgen/dependencies.rs Dependencies::sort r
    ensures exists|p: Seq<int>| #[trigger] layered(old(self).order@, final(self).order@, p), final(self).items@ == old(self).items@,
//@post
    proof {
        let p = choose|p: Seq<int>| #[trigger] stable_by(old(self).order@, self.order@, p, item_cmp_f());
        lemma_layered(old(self).order@, self.order@, p);
    }
//@sort ItemContainer => item_cmp
//@end
}
impl Library {
//@fn src/bindgen/library.rs Library::generate r
    ensures r is Ok,
        exists|lib: Library, d0: Dependencies, d1: Dependencies, ps: Seq<Path>, p: Seq<int>| lib.config == self.config && lists(lib, r->Ok_0) && #[trigger] emitted(lib, r->Ok_0.items@, d0, d1, ps, p),
//@subst item.deref().add_dependencies( => item.vx_add_dependencies(
//@pre
    hide(ext); hide(upto); hide(or_); hide(layered); hide(one); hide(emitted); hide(flat);
    let ghost mut d0: Dependencies = arbitrary(); let ghost mut lib: Library = self;
    let ghost mut m1: Dependencies = arbitrary(); let ghost mut m2: Dependencies = arbitrary(); let ghost mut m3: Dependencies = arbitrary();
    let ghost mut __m: Dependencies = arbitrary(); let ghost mut __n: Dependencies = arbitrary();
//@loop 0 before
    proof { lib = __me; d0 = dependencies; lemma_zero(__me, dependencies, fns_f(__me.functions@), 0); }
//@loop 0
    __s0@ == __me.functions@, ext(__me, d0, dependencies, upto(fns_f(__me.functions@), 0, __i0 as int)),
//@loop 0 pre
    let ghost __b = dependencies;
//@loop 0 post
    proof { lemma_next(__me, d0, __b, dependencies, fns_f(__me.functions@), 0, __i0 - 1); }
//@loop 1 before
    proof { m1 = dependencies; lemma_zero(__me, dependencies, statics_f(__me.globals.all@), 0); }
//@loop 1
    __s1@ == __me.globals.all@, ext(__me, m1, dependencies, upto(statics_f(__me.globals.all@), 0, __i1 as int)),
//@loop 1 pre
    let ghost __b = dependencies;
//@loop 1 post
    proof { lemma_next(__me, m1, __b, dependencies, statics_f(__me.globals.all@), 0, __i1 - 1); }
//@loop 1 after
    proof { lemma_or(__me, d0, m1, dependencies, roots1(__me), upto(statics_f(__me.globals.all@), 0, __me.globals.all@.len() as int)); }
//@loop 2 before
    proof { m2 = dependencies; lemma_zero(__me, dependencies, consts_f(__me.constants.all@), 0); }
//@loop 2
    __s2@ == __me.constants.all@, ext(__me, m2, dependencies, upto(consts_f(__me.constants.all@), 0, __i2 as int)),
//@loop 2 pre
    let ghost __b = dependencies;
//@loop 2 post
    proof { lemma_next(__me, m2, __b, dependencies, consts_f(__me.constants.all@), 0, __i2 - 1); }
//@loop 2 after
    proof { lemma_or(__me, d0, m2, dependencies, roots2(__me), upto(consts_f(__me.constants.all@), 0, __me.constants.all@.len() as int)); }
//@loop 3 before
    proof { m3 = dependencies; lemma_zero(__me, dependencies, include_f(__me.config.export.include@), 0); }
//@loop 3
    __s3@ == __me.config.export.include@, ext(__me, m3, dependencies, upto(include_f(__me.config.export.include@), 0, __i3 as int)),
//@loop 3 pre
    let ghost __b = dependencies;
//@loop 3 post
    proof { let q = Path { name: *name }; if !known(__me, q) || __b.items@.contains(q) { assert(dependencies.items@ =~= __b.items@); lemma_nothing_one(__me, __b, dependencies, q); } }
    proof { lemma_next(__me, m3, __b, dependencies, include_f(__me.config.export.include@), 0, __i3 - 1); }
//@loop 3 after
    proof { lemma_or(__me, d0, m3, dependencies, roots3(__me), upto(include_f(__me.config.export.include@), 0, __me.config.export.include@.len() as int)); lib = __me; __m = dependencies; }
//@loop 4 before
    proof { __m = dependencies; lemma_zero(__me, dependencies, items_f(items@), 0); }
//@loop 4
    __s4@ == items@, ext(__me, __m, dependencies, upto(items_f(items@), 0, __i4 as int)),
//@loop 4 pre
    let ghost __c = dependencies;
//@loop 4 post
    proof { lemma_next(__me, __m, __c, dependencies, items_f(items@), 0, __i4 - 1); }
//@loop 4 after
    proof { __n = dependencies; }
//@loop 5 mode=own
    __s5@ == __me.items_of(Path { name: *name })->0, dependencies.items@ == __n.items@, dependencies.order@ == __n.order@ + __s5@.take(__i5 as int),
//@loop 5 post
    proof { assert(__s5@.take(__i5 as int) =~= __s5@.take(__i5 - 1).push(__s5@[__i5 - 1])); }
//@loop 5 after
    proof { assert(__s5@.take(__s5@.len() as int) =~= __s5@); lemma_visit(__me, __b, __m, __n, dependencies, Path { name: *name }); }
//@post
    proof {
        lemma_emitted(lib, d0, __m, __ret->Ok_0.items@);
    }
//@sort Function => fn_cmp
//@sort Constant => const_cmp
//@sort Static => static_cmp
//@end
}
} // verus!
fn main() {}
