//@include prelude.inc
//@include ty_types.inc
verus! {
#[verifier::external_body] pub struct Cfg { _p: () }
//@type src/bindgen/ir/constant.rs Constant keep=path,cfg
//@type src/bindgen/ir/global.rs Static keep=path,cfg
//@type src/bindgen/ir/opaque.rs OpaqueItem keep=path,cfg
//@type src/bindgen/ir/structure.rs Struct keep=path,cfg
//@type src/bindgen/ir/union.rs Union keep=path,cfg
//@type src/bindgen/ir/enumeration.rs Enum keep=path,cfg
//@type src/bindgen/ir/typedef.rs Typedef keep=path,cfg
//@type src/bindgen/ir/function.rs Function keep=path
//@type src/bindgen/ir/item.rs ItemContainer
//@type src/bindgen/config.rs ItemType derive=Clone,Copy
impl PartialEq for ItemType { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl PartialEqSpecImpl for ItemType {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
//@type src/bindgen/config.rs ExportConfig keep=item_types,exclude
//@type src/bindgen/config.rs Config keep=export
//@type src/bindgen/library.rs Library keep=config,constants,globals,enums,structs,unions,opaque_items,typedefs,functions
#[verifier::external_body]
pub fn vx_contains<T: PartialEq>(v: &Vec<T>, x: &T) -> (r: bool) ensures r == v@.contains(*x) { unimplemented!() }
impl Clone for Constant { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Static { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for OpaqueItem { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Struct { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Union { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Enum { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Typedef { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

// ---------------- specification ----------------
pub trait Item: Sized {
    spec fn spath(&self) -> Path;
    spec fn scontainer(&self) -> ItemContainer;
}
impl Item for Constant { open spec fn spath(&self) -> Path { self.path } open spec fn scontainer(&self) -> ItemContainer { ItemContainer::Constant(*self) } }
impl Item for Static { open spec fn spath(&self) -> Path { self.path } open spec fn scontainer(&self) -> ItemContainer { ItemContainer::Static(*self) } }
impl Item for OpaqueItem { open spec fn spath(&self) -> Path { self.path } open spec fn scontainer(&self) -> ItemContainer { ItemContainer::OpaqueItem(*self) } }
impl Item for Struct { open spec fn spath(&self) -> Path { self.path } open spec fn scontainer(&self) -> ItemContainer { ItemContainer::Struct(*self) } }
impl Item for Union { open spec fn spath(&self) -> Path { self.path } open spec fn scontainer(&self) -> ItemContainer { ItemContainer::Union(*self) } }
impl Item for Enum { open spec fn spath(&self) -> Path { self.path } open spec fn scontainer(&self) -> ItemContainer { ItemContainer::Enum(*self) } }
impl Item for Typedef { open spec fn spath(&self) -> Path { self.path } open spec fn scontainer(&self) -> ItemContainer { ItemContainer::Typedef(*self) } }
pub open spec fn named<T: Item>(p: Path) -> spec_fn(T) -> bool { |x: T| x.spath() == p }
pub open spec fn containers<T: Item>(s: Seq<T>) -> Seq<ItemContainer> { s.map_values(|x: T| x.scontainer()) }
/// src/bindgen/ir/item.rs ItemMap, by the sequence of its items in visiting order; the contracts are
/// those proved for the real table in c09.rs
pub struct ItemMap<T> { pub all: Vec<T> }
impl<T: Item> ItemMap<T> {
    #[verifier::external_body]
    pub fn get_items(&self, path: &Path) -> (r: Option<Vec<ItemContainer>>)
        ensures r is Some <==> self.all@.filter(named::<T>(*path)).len() > 0,
            r is Some ==> r->0@ == containers(self.all@.filter(named::<T>(*path))),
    { unimplemented!() }
    #[verifier::external_body] pub fn extend_with(&mut self, o: &ItemMap<T>) ensures *final(self) == merged(*old(self), *o) { unimplemented!() }
    #[verifier::external_body] pub fn vx_take_all(&mut self) -> (r: Vec<T>) ensures r@ == old(self).all@ { unimplemented!() }
    #[verifier::external_body] pub fn vx_put_all(&mut self, v: Vec<T>) ensures final(self).all@ == v@ { unimplemented!() }
}
/// the items of two sources: c09's ins_all
pub uninterp spec fn merged<T>(a: ItemMap<T>, b: ItemMap<T>) -> ItemMap<T>;
#[verifier::external_body] pub struct FilePathBuf { _p: () }
/// Vec::extend_from_slice copies the elements
pub trait VxExtend<T> { fn vx_extend(&mut self, s: &Vec<T>); }
impl<T> VxExtend<T> for Vec<T> { #[verifier::external_body] fn vx_extend(&mut self, s: &Vec<T>) ensures final(self)@ == old(self)@ + s@ { unimplemented!() } }
//@type src/bindgen/parser.rs Parse
pub trait VxVecAll<T> { fn vx_take_all(&mut self) -> Vec<T>; fn vx_put_all(&mut self, v: Vec<T>); }
impl<T> VxVecAll<T> for Vec<T> {
    #[verifier::external_body] fn vx_take_all(&mut self) -> (r: Vec<T>) ensures r@ == old(self)@ { unimplemented!() }
    #[verifier::external_body] fn vx_put_all(&mut self, v: Vec<T>) ensures final(self)@ == v@ { unimplemented!() }
}
pub open spec fn enabled(c: ExportConfig, t: ItemType) -> bool { c.item_types@.len() == 0 || c.item_types@.contains(t) }
/// the items of one kind that a lookup may return
pub open spec fn of_kind<T: Item>(l: Library, t: ItemType, m: ItemMap<T>, p: Path) -> Seq<ItemContainer> {
    if enabled(l.config.export, t) { containers(m.all@.filter(named::<T>(p))) } else { Seq::empty() }
}
/// a name is looked up as an enum, struct, union, opaque item and type alias, in this order; kinds that are
/// not generated are passed over
pub open spec fn lookup(l: Library, p: Path) -> Seq<ItemContainer> {
    let e = of_kind(l, ItemType::Enums, l.enums, p);
    let s = of_kind(l, ItemType::Structs, l.structs, p);
    let u = of_kind(l, ItemType::Unions, l.unions, p);
    let o = of_kind(l, ItemType::OpaqueItems, l.opaque_items, p);
    let t = of_kind(l, ItemType::Typedefs, l.typedefs, p);
    if e.len() > 0 { e } else if s.len() > 0 { s } else if u.len() > 0 { u } else if o.len() > 0 { o } else { t }
}
/// the name is listed in export.exclude
pub open spec fn excluded(l: Library, p: Path) -> bool { exists|i: int| 0 <= i < l.config.export.exclude@.len() && (#[trigger] l.config.export.exclude@[i])@ == p.name@ }
pub open spec fn not_excluded<T: Item>(l: Library) -> spec_fn(T) -> bool { |x: T| !excluded(l, x.spath()) }
pub open spec fn fn_not_excluded(l: Library) -> spec_fn(Function) -> bool { |x: Function| !excluded(l, x.path) }
pub proof fn lemma_filter_step<A>(s: Seq<A>, n: int, f: spec_fn(A) -> bool)
    requires 0 <= n < s.len(),
    ensures s.take(n + 1).filter(f) == if f(s[n]) { s.take(n).filter(f).push(s[n]) } else { s.take(n).filter(f) },
{ reveal(Seq::filter); assert(s.take(n + 1).drop_last() =~= s.take(n)); }

// ================= code under contract =================
impl Path {
//@fn src/bindgen/ir/path.rs Path::name r
    ensures r@ == self.name@,
//@end
}
impl Constant {
//@fn src/bindgen/ir/constant.rs Item@Constant::path r
    ensures *r == self.spath(),
//@end
//@fn src/bindgen/ir/constant.rs Item@Constant::cfg r
    ensures r is Some <==> self.cfg is Some, r is Some ==> *r->0 == self.cfg->0,
//@end
//@fn src/bindgen/ir/constant.rs Item@Constant::container r
    ensures r == self.scontainer(),
//@end
}
impl Static {
//@fn src/bindgen/ir/global.rs Item@Static::path r
    ensures *r == self.spath(),
//@end
//@fn src/bindgen/ir/global.rs Item@Static::cfg r
    ensures r is Some <==> self.cfg is Some, r is Some ==> *r->0 == self.cfg->0,
//@end
//@fn src/bindgen/ir/global.rs Item@Static::container r
    ensures r == self.scontainer(),
//@end
}
impl OpaqueItem {
//@fn src/bindgen/ir/opaque.rs Item@OpaqueItem::path r
    ensures *r == self.spath(),
//@end
//@fn src/bindgen/ir/opaque.rs Item@OpaqueItem::cfg r
    ensures r is Some <==> self.cfg is Some, r is Some ==> *r->0 == self.cfg->0,
//@end
//@fn src/bindgen/ir/opaque.rs Item@OpaqueItem::container r
    ensures r == self.scontainer(),
//@end
}
impl Struct {
//@fn src/bindgen/ir/structure.rs Item@Struct::path r
    ensures *r == self.spath(),
//@end
//@fn src/bindgen/ir/structure.rs Item@Struct::cfg r
    ensures r is Some <==> self.cfg is Some, r is Some ==> *r->0 == self.cfg->0,
//@end
//@fn src/bindgen/ir/structure.rs Item@Struct::container r
    ensures r == self.scontainer(),
//@end
}
impl Union {
//@fn src/bindgen/ir/union.rs Item@Union::path r
    ensures *r == self.spath(),
//@end
//@fn src/bindgen/ir/union.rs Item@Union::cfg r
    ensures r is Some <==> self.cfg is Some, r is Some ==> *r->0 == self.cfg->0,
//@end
//@fn src/bindgen/ir/union.rs Item@Union::container r
    ensures r == self.scontainer(),
//@end
}
impl Enum {
//@fn src/bindgen/ir/enumeration.rs Item@Enum::path r
    ensures *r == self.spath(),
//@end
//@fn src/bindgen/ir/enumeration.rs Item@Enum::cfg r
    ensures r is Some <==> self.cfg is Some, r is Some ==> *r->0 == self.cfg->0,
//@end
//@fn src/bindgen/ir/enumeration.rs Item@Enum::container r
    ensures r == self.scontainer(),
//@end
}
impl Typedef {
//@fn src/bindgen/ir/typedef.rs Item@Typedef::path r
    ensures *r == self.spath(),
//@end
//@fn src/bindgen/ir/typedef.rs Item@Typedef::cfg r
    ensures r is Some <==> self.cfg is Some, r is Some ==> *r->0 == self.cfg->0,
//@end
//@fn src/bindgen/ir/typedef.rs Item@Typedef::container r
    ensures r == self.scontainer(),
//@end
}
impl Function {
//@fn src/bindgen/ir/function.rs Function::path r
    ensures *r == self.path,
//@end
}
impl ExportConfig {
//@fn src/bindgen/config.rs ExportConfig::should_generate r
    ensures r == enabled(*self, item_type),
//@subst self.item_types.contains(&item_type) => vx_contains(&self.item_types, &item_type)
//@end
}
impl Parse {
//@fn src/bindgen/parser.rs Parse::extend_with r
    ensures
        final(self).constants == merged(old(self).constants, other.constants),
        final(self).globals == merged(old(self).globals, other.globals),
        final(self).enums == merged(old(self).enums, other.enums),
        final(self).structs == merged(old(self).structs, other.structs),
        final(self).unions == merged(old(self).unions, other.unions),
        final(self).opaque_items == merged(old(self).opaque_items, other.opaque_items),
        final(self).typedefs == merged(old(self).typedefs, other.typedefs),
        final(self).functions@ == old(self).functions@ + other.functions@,
//@subst .extend_from_slice( => .vx_extend(
//@end
}
impl Library {
//@fn src/bindgen/library.rs Library::get_items r
    ensures r is Some <==> lookup(*self, *p).len() > 0, r is Some ==> r->0@ == lookup(*self, *p),
//@end
//@fn src/bindgen/library.rs Library::remove_excluded
    ensures final(self).config == old(self).config,
        final(self).functions@ == old(self).functions@.filter(fn_not_excluded(*old(self))),
        final(self).enums.all@ == old(self).enums.all@.filter(not_excluded::<Enum>(*old(self))),
        final(self).structs.all@ == old(self).structs.all@.filter(not_excluded::<Struct>(*old(self))),
        final(self).unions.all@ == old(self).unions.all@.filter(not_excluded::<Union>(*old(self))),
        final(self).opaque_items.all@ == old(self).opaque_items.all@.filter(not_excluded::<OpaqueItem>(*old(self))),
        final(self).typedefs.all@ == old(self).typedefs.all@.filter(not_excluded::<Typedef>(*old(self))),
        final(self).globals.all@ == old(self).globals.all@.filter(not_excluded::<Static>(*old(self))),
        final(self).constants.all@ == old(self).constants.all@.filter(not_excluded::<Constant>(*old(self))),
//@subst y == x.path().name() => y.as_str() == x.path().name()
//@loop 0 rty=Vec<Function>
    __s0@ == old(self).functions@, __r0@ == __s0@.take(__i0 as int).filter(fn_not_excluded(*old(self))),
//@loop 0 pre
    proof { lemma_filter_step(__s0@, __i0 as int, fn_not_excluded(*old(self))); }
//@loop 0 after
    proof { assert(__s0@.take(__s0@.len() as int) =~= __s0@); }
//@loop 1
    __s1@ == config.export.exclude@,
    !__r1 ==> forall|i: int| 0 <= i < __i1 ==> (#[trigger] __s1@[i])@ != x.path.name@,
    __r1 ==> excluded(*old(self), x.path),
//@loop 2 rty=Vec<Enum>
    __s2@ == old(self).enums.all@, __r2@ == __s2@.take(__i2 as int).filter(not_excluded::<Enum>(*old(self))),
//@loop 2 pre
    proof { lemma_filter_step(__s2@, __i2 as int, not_excluded::<Enum>(*old(self))); }
//@loop 2 after
    proof { assert(__s2@.take(__s2@.len() as int) =~= __s2@); }
//@loop 3
    __s3@ == config.export.exclude@,
    !__r3 ==> forall|i: int| 0 <= i < __i3 ==> (#[trigger] __s3@[i])@ != x.path.name@,
    __r3 ==> excluded(*old(self), x.path),
//@loop 4 rty=Vec<Struct>
    __s4@ == old(self).structs.all@, __r4@ == __s4@.take(__i4 as int).filter(not_excluded::<Struct>(*old(self))),
//@loop 4 pre
    proof { lemma_filter_step(__s4@, __i4 as int, not_excluded::<Struct>(*old(self))); }
//@loop 4 after
    proof { assert(__s4@.take(__s4@.len() as int) =~= __s4@); }
//@loop 5
    __s5@ == config.export.exclude@,
    !__r5 ==> forall|i: int| 0 <= i < __i5 ==> (#[trigger] __s5@[i])@ != x.path.name@,
    __r5 ==> excluded(*old(self), x.path),
//@loop 6 rty=Vec<Union>
    __s6@ == old(self).unions.all@, __r6@ == __s6@.take(__i6 as int).filter(not_excluded::<Union>(*old(self))),
//@loop 6 pre
    proof { lemma_filter_step(__s6@, __i6 as int, not_excluded::<Union>(*old(self))); }
//@loop 6 after
    proof { assert(__s6@.take(__s6@.len() as int) =~= __s6@); }
//@loop 7
    __s7@ == config.export.exclude@,
    !__r7 ==> forall|i: int| 0 <= i < __i7 ==> (#[trigger] __s7@[i])@ != x.path.name@,
    __r7 ==> excluded(*old(self), x.path),
//@loop 8 rty=Vec<OpaqueItem>
    __s8@ == old(self).opaque_items.all@, __r8@ == __s8@.take(__i8 as int).filter(not_excluded::<OpaqueItem>(*old(self))),
//@loop 8 pre
    proof { lemma_filter_step(__s8@, __i8 as int, not_excluded::<OpaqueItem>(*old(self))); }
//@loop 8 after
    proof { assert(__s8@.take(__s8@.len() as int) =~= __s8@); }
//@loop 9
    __s9@ == config.export.exclude@,
    !__r9 ==> forall|i: int| 0 <= i < __i9 ==> (#[trigger] __s9@[i])@ != x.path.name@,
    __r9 ==> excluded(*old(self), x.path),
//@loop 10 rty=Vec<Typedef>
    __s10@ == old(self).typedefs.all@, __r10@ == __s10@.take(__i10 as int).filter(not_excluded::<Typedef>(*old(self))),
//@loop 10 pre
    proof { lemma_filter_step(__s10@, __i10 as int, not_excluded::<Typedef>(*old(self))); }
//@loop 10 after
    proof { assert(__s10@.take(__s10@.len() as int) =~= __s10@); }
//@loop 11
    __s11@ == config.export.exclude@,
    !__r11 ==> forall|i: int| 0 <= i < __i11 ==> (#[trigger] __s11@[i])@ != x.path.name@,
    __r11 ==> excluded(*old(self), x.path),
//@loop 12 rty=Vec<Static>
    __s12@ == old(self).globals.all@, __r12@ == __s12@.take(__i12 as int).filter(not_excluded::<Static>(*old(self))),
//@loop 12 pre
    proof { lemma_filter_step(__s12@, __i12 as int, not_excluded::<Static>(*old(self))); }
//@loop 12 after
    proof { assert(__s12@.take(__s12@.len() as int) =~= __s12@); }
//@loop 13
    __s13@ == config.export.exclude@,
    !__r13 ==> forall|i: int| 0 <= i < __i13 ==> (#[trigger] __s13@[i])@ != x.path.name@,
    __r13 ==> excluded(*old(self), x.path),
//@loop 14 rty=Vec<Constant>
    __s14@ == old(self).constants.all@, __r14@ == __s14@.take(__i14 as int).filter(not_excluded::<Constant>(*old(self))),
//@loop 14 pre
    proof { lemma_filter_step(__s14@, __i14 as int, not_excluded::<Constant>(*old(self))); }
//@loop 14 after
    proof { assert(__s14@.take(__s14@.len() as int) =~= __s14@); }
//@loop 15
    __s15@ == config.export.exclude@,
    !__r15 ==> forall|i: int| 0 <= i < __i15 ==> (#[trigger] __s15@[i])@ != x.path.name@,
    __r15 ==> excluded(*old(self), x.path),
//@end
}
} // verus!
fn main() {}
