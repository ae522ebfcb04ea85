//@include prelude.inc
//@broadcast lemma_opt, lemma_empty
//@include ty_types.inc
verus! {
//@include ty_basic.inc
#[verifier::external_body] pub struct Cfg { _p: () }
#[verifier::external_body] pub struct AnnotationSet { _p: () }
#[verifier::external_body] pub struct Documentation { _p: () }
#[verifier::external_body] pub struct LayoutConfig { _p: () }
#[verifier::external_body] pub struct Constant { _p: () }
#[verifier::external_body] pub struct Struct { _p: () }
#[verifier::external_body] pub struct Union { _p: () }
#[verifier::external_body] pub struct Enum { _p: () }
#[verifier::external_body] pub struct Typedef { _p: () }
#[verifier::external_body] pub struct OpaqueItem { _p: () }
//@type src/bindgen/ir/function.rs FunctionArgument
//@type src/bindgen/ir/function.rs Function
//@type src/bindgen/ir/global.rs Static
//@type src/bindgen/config.rs ParseConfig keep=extra_bindings
pub struct Config { pub parse: ParseConfig, pub layout: LayoutConfig, pub vx_bitflags: bool }

// ---------------- syn (dependency): the parts of the syntax tree that selection looks at ----------------
// Same constructors and fields as syn 2 (those read); `Punctuated` lists are vectors of their elements,
// token trees are opaque, and the constructors this code treats alike (`_ =>`) are one `Other`.
pub mod syn {
use super::*;
#[verifier::external_body] pub struct Tokens { _p: () }
pub struct TypePath { pub path: Path }
pub enum Type { Path(TypePath), Other(Tokens) }
#[verifier::external_body] pub struct Expr_ { _p: () }
#[verifier::external_body] pub struct Generics { _p: () }
#[verifier::external_body] pub struct FnArgs { _p: () }
#[verifier::external_body] pub struct ReturnType { _p: () }
#[verifier::external_body] pub struct Path { _p: () }
pub struct Ident { pub s: String }
impl Ident { #[verifier::external_body] pub fn unraw(&self) -> (r: &Ident) ensures r.s@ == unraw_of(self.s@) { unimplemented!() } }
impl VxOwned for Ident { type O = String; open spec fn owned_rel(&self, o: String) -> bool { o@ == self.s@ } }
/// IdentExt::unraw: the identifier without r#
pub uninterp spec fn unraw_of(s: Seq<char>) -> Seq<char>;
impl Path {
    /// the path is this single identifier
    pub uninterp spec fn word(&self, n: Seq<char>) -> bool;
    pub uninterp spec fn single(&self) -> Option<Ident>;
    #[verifier::external_body] pub fn is_ident(&self, n: &str) -> (r: bool) ensures r == self.word(n@) { unimplemented!() }
    #[verifier::external_body] pub fn get_ident(&self) -> (r: Option<&Ident>) ensures r is Some <==> self.single() is Some, r is Some ==> *r->0 == self.single()->0 { unimplemented!() }
}
pub struct LitStr { pub s: String }
impl LitStr { #[verifier::external_body] pub fn value(&self) -> (r: String) ensures r@ == self.s@ { unimplemented!() } }
pub enum Lit { Str(LitStr), Other(Tokens) }
pub struct ExprLit { pub lit: Lit }
pub enum Expr { Lit(ExprLit), Other(Tokens) }
pub struct MetaNameValue { pub path: Path, pub value: Expr }
pub struct MetaList { pub path: Path, pub tokens: Tokens }
impl MetaList {
    /// the arguments read as paths separated by commas, if they are
    pub uninterp spec fn paths(&self) -> Option<Seq<Path>>;
    /// the arguments read as `name = value` pairs separated by commas, if they are
    pub uninterp spec fn pairs(&self) -> Option<Seq<MetaNameValue>>;
    /// the arguments read as token streams separated by commas, if they are
    pub uninterp spec fn streams(&self) -> Option<Seq<Tokens>>;
    #[verifier::external_body] pub fn vx_paths(&self) -> (r: Result<Vec<Path>, String>) ensures r is Ok <==> self.paths() is Some, r is Ok ==> r->Ok_0@ == self.paths()->0 { unimplemented!() }
    #[verifier::external_body] pub fn vx_pairs(&self) -> (r: Result<Vec<MetaNameValue>, String>) ensures r is Ok <==> self.pairs() is Some, r is Ok ==> r->Ok_0@ == self.pairs()->0 { unimplemented!() }
    #[verifier::external_body] pub fn vx_streams(&self) -> (r: Result<Vec<Tokens>, String>) ensures r is Ok <==> self.streams() is Some, r is Ok ==> r->Ok_0@ == self.streams()->0 { unimplemented!() }
}
pub uninterp spec fn as_path(t: Tokens) -> Option<Path>;
#[verifier::external_body] pub fn vx_parse_path(t: Tokens) -> (r: Result<Path, String>) ensures r is Ok <==> as_path(t) is Some, r is Ok ==> r->Ok_0 == as_path(t)->0 { unimplemented!() }
pub enum Meta { Path(Path), List(MetaList), NameValue(MetaNameValue) }
pub struct Attribute { pub meta: Meta }
pub struct Abi { pub name: Option<LitStr> }
pub enum Visibility { Public(Tokens), Other(Tokens) }
pub struct Signature { pub abi: Option<Abi>, pub ident: Ident, pub inputs: FnArgs, pub variadic: Option<Tokens>, pub output: ReturnType }
pub struct ItemFn { pub attrs: Vec<Attribute>, pub sig: Signature }
pub struct ImplItemFn { pub attrs: Vec<Attribute>, pub sig: Signature }
pub struct ImplItemConst { pub attrs: Vec<Attribute>, pub vis: Visibility, pub ident: Ident, pub ty: Type, pub expr: Expr_ }
pub struct ItemStatic { pub attrs: Vec<Attribute>, pub ident: Ident, pub ty: Type, pub mutability: StaticMutability }
pub enum StaticMutability { Mut(Tokens), None }
pub struct ItemConst { pub attrs: Vec<Attribute>, pub vis: Visibility, pub ident: Ident, pub ty: Type, pub expr: Expr_ }
pub struct ItemStruct { pub attrs: Vec<Attribute>, pub ident: Ident, pub generics: Generics, pub body: Tokens }
pub struct ItemUnion { pub attrs: Vec<Attribute>, pub ident: Ident, pub generics: Generics, pub body: Tokens }
pub struct ItemEnum { pub attrs: Vec<Attribute>, pub ident: Ident, pub generics: Generics, pub body: Tokens }
pub struct ItemType { pub attrs: Vec<Attribute>, pub ident: Ident, pub generics: Generics, pub body: Tokens }
pub struct ItemMod { pub attrs: Vec<Attribute>, pub body: Tokens }
pub struct ItemMacro { pub attrs: Vec<Attribute>, pub body: Tokens }
pub struct ForeignItemFn { pub attrs: Vec<Attribute>, pub sig: Signature }
pub enum ForeignItem { Fn(ForeignItemFn), Other(Tokens) }
pub struct ItemForeignMod { pub attrs: Vec<Attribute>, pub abi: Abi, pub items: Vec<ForeignItem> }
pub enum ImplItem { Const(ImplItemConst), Fn(ImplItemFn), Other(Tokens) }
pub struct ItemImpl { pub attrs: Vec<Attribute>, pub self_ty: Box<Type>, pub items: Vec<ImplItem> }
/// an item of a kind that is never bound (with its attributes)
pub struct OtherItem { pub attrs: Vec<Attribute>, pub body: Tokens }
pub enum Item {
    Const(ItemConst), Enum(ItemEnum), Fn(ItemFn), ForeignMod(ItemForeignMod), Impl(ItemImpl), Macro(ItemMacro), Mod(ItemMod),
    Static(ItemStatic), Struct(ItemStruct), Type(ItemType), Union(ItemUnion), Other(OtherItem),
}
pub open spec fn item_at(i: Item) -> Seq<Attribute> {
        match i {
            Item::Const(i) => i.attrs@, Item::Enum(i) => i.attrs@, Item::Fn(i) => i.attrs@, Item::ForeignMod(i) => i.attrs@,
            Item::Impl(i) => i.attrs@, Item::Macro(i) => i.attrs@, Item::Mod(i) => i.attrs@, Item::Static(i) => i.attrs@,
            Item::Struct(i) => i.attrs@, Item::Type(i) => i.attrs@, Item::Union(i) => i.attrs@, Item::Other(i) => i.attrs@,
        }
}
impl Item {
    /// SynAttributeHelpers::attrs for syn::Item
    #[verifier::external_body] pub fn vx_attrs(&self) -> (r: &[Attribute]) ensures r@ == item_at(*self) { unimplemented!() }
}
}

// ================= specification: which attributes mean what =================
/// `#[name]`
pub open spec fn word(a: syn::Attribute, n: Seq<char>) -> bool { a.meta matches syn::Meta::Path(p) && p.word(n) }
/// `#[unsafe(name)]`
pub open spec fn unsafe_word(a: syn::Attribute, n: Seq<char>) -> bool {
    a.meta matches syn::Meta::List(l) && l.path.word("unsafe"@) && l.paths() is Some
        && exists|i: int| 0 <= i < l.paths()->0.len() && (#[trigger] l.paths()->0[i]).word(n)
}
pub open spec fn text_of(e: syn::Expr) -> Option<Seq<char>> {
    match e { syn::Expr::Lit(l) => match l.lit { syn::Lit::Str(s) => Some(s.s@), _ => None }, _ => None }
}
/// `#[name = "text"]`
pub open spec fn value(a: syn::Attribute, n: Seq<char>) -> Option<Seq<char>> {
    match a.meta { syn::Meta::NameValue(v) => if v.path.word(n) { text_of(v.value) } else { None }, _ => None }
}
/// the first `name = "text"` among the pairs
pub open spec fn first_pair(v: Seq<syn::MetaNameValue>, n: Seq<char>) -> Option<Seq<char>>
    decreases v.len()
{
    if v.len() == 0 { None }
    else if first_pair(v.drop_last(), n) is Some { first_pair(v.drop_last(), n) }
    else if v.last().path.word(n) { text_of(v.last().value) } else { None }
}
/// `#[unsafe(name = "text")]`
pub open spec fn unsafe_value(a: syn::Attribute, n: Seq<char>) -> Option<Seq<char>> {
    match a.meta {
        syn::Meta::List(l) => if l.path.word("unsafe"@) && l.pairs() is Some { first_pair(l.pairs()->0, n) } else { None },
        _ => None,
    }
}
pub open spec fn some_word(s: Seq<syn::Attribute>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && word(#[trigger] s[i], n) }
pub open spec fn some_unsafe_word(s: Seq<syn::Attribute>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && unsafe_word(#[trigger] s[i], n) }
pub open spec fn first_value(s: Seq<syn::Attribute>, n: Seq<char>) -> Option<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { None }
    else if first_value(s.drop_last(), n) is Some { first_value(s.drop_last(), n) }
    else { value(s.last(), n) }
}
pub open spec fn first_unsafe_value(s: Seq<syn::Attribute>, n: Seq<char>) -> Option<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { None }
    else if first_unsafe_value(s.drop_last(), n) is Some { first_unsafe_value(s.drop_last(), n) }
    else { unsafe_value(s.last(), n) }
}
pub open spec fn no_mangle(s: Seq<syn::Attribute>) -> bool { some_word(s, "no_mangle"@) || some_unsafe_word(s, "no_mangle"@) }
/// the linker symbol of an item: its export_name, or its own name if it is not mangled
pub open spec fn symbol(s: Seq<syn::Attribute>, ident: Seq<char>) -> Option<Seq<char>> {
    if first_value(s, "export_name"@) is Some { first_value(s, "export_name"@) }
    else if first_unsafe_value(s, "export_name"@) is Some { first_unsafe_value(s, "export_name"@) }
    else if no_mangle(s) { Some(syn::unraw_of(ident)) }
    else { None }
}
pub open spec fn is_sym(r: Option<String>, s: Option<Seq<char>>) -> bool { (r is Some <==> s is Some) && (r is Some ==> r->0@ == s->0) }
/// ignored: `#[test]`, `#[cfg(test)]`, or the documentation line `cbindgen:ignore`
pub open spec fn cfg_test(v: Seq<syn::Tokens>) -> bool {
    exists|k: int| 0 <= k < v.len() && #[trigger] names_test(v, k)
}
pub open spec fn names_test(v: Seq<syn::Tokens>, k: int) -> bool {
    syn::as_path(v[k]) is Some && syn::as_path(v[k])->0.word("test"@) && forall|j: int| 0 <= j < k ==> syn::as_path(#[trigger] v[j]) is Some
}
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn vx_trim(s: &str) -> (r: &str) ensures r@ == trimmed(s@) { unimplemented!() }
pub open spec fn skips(m: syn::Meta) -> bool {
    match m {
        syn::Meta::Path(p) => p.word("test"@),
        syn::Meta::List(l) => l.path.word("cfg"@) && l.streams() is Some && cfg_test(l.streams()->0),
        syn::Meta::NameValue(v) => v.path.word("doc"@) && text_of(v.value) is Some && trimmed(text_of(v.value)->0) == "cbindgen:ignore"@,
    }
}
pub open spec fn skipped(s: Seq<syn::Attribute>) -> bool { exists|i: int| 0 <= i < s.len() && skips((#[trigger] s[i]).meta) }
/// the calling conventions of C
pub open spec fn abi_c(a: syn::Abi) -> bool { a.name is Some && (a.name->0.s@ == "C"@ || a.name->0.s@ == "C-unwind"@) }
pub open spec fn abi_cmse(a: syn::Abi) -> bool { a.name is Some && (a.name->0.s@ == "cmse-nonsecure-entry"@ || a.name->0.s@ == "cmse-nonsecure-call"@) }
pub open spec fn c_abi(a: Option<syn::Abi>) -> bool { a is Some && (abi_c(a->0) || abi_cmse(a->0) || a->0.name is None) }

// ================= specification: what is bound =================
pub struct Env { pub cfg: Config, pub bc: Seq<char>, pub cn: Seq<char>, pub mc: Option<Cfg> }
pub open spec fn oc(c: Option<&Cfg>) -> Option<Cfg> { match c { Some(c) => Some(*c), None => None } }
pub open spec fn op(c: Option<&Path>) -> Option<Path> { match c { Some(c) => Some(*c), None => None } }
/// functions, statics and constants are taken from the crate itself and from extra_bindings
pub open spec fn top(p: ParseConfig, cn: Seq<char>, bc: Seq<char>) -> bool {
    cn == bc || exists|i: int| 0 <= i < p.extra_bindings@.len() && (#[trigger] p.extra_bindings@[i])@ == cn
}
// loading of a selected item: functions of the item (assumed deterministic); None: not representable
pub uninterp spec fn fn_load(sym: Seq<char>, st: Option<Path>, sig: syn::Signature, ext: bool, attrs: Seq<syn::Attribute>, mc: Option<Cfg>) -> Option<Function>;
pub uninterp spec fn static_load(sym: Seq<char>, item: syn::ItemStatic, mc: Option<Cfg>) -> Option<Static>;
pub uninterp spec fn const_load(name: Seq<char>, mc: Option<Cfg>, ty: syn::Type, e: syn::Expr_, attrs: Seq<syn::Attribute>, assoc: Option<Path>) -> Option<Constant>;
pub uninterp spec fn struct_load(l: LayoutConfig, item: syn::ItemStruct, mc: Option<Cfg>) -> Option<Struct>;
pub uninterp spec fn union_load(l: LayoutConfig, item: syn::ItemUnion, mc: Option<Cfg>) -> Option<Union>;
pub uninterp spec fn enum_load(c: Config, item: syn::ItemEnum, mc: Option<Cfg>) -> Option<Enum>;
pub uninterp spec fn typedef_load(item: syn::ItemType, mc: Option<Cfg>) -> Option<Typedef>;
pub uninterp spec fn opaque_load(name: Seq<char>, g: syn::Generics, attrs: Seq<syn::Attribute>, mc: Option<Cfg>) -> Option<OpaqueItem>;
pub uninterp spec fn cfg_of(attrs: Seq<syn::Attribute>) -> Option<Cfg>;
pub uninterp spec fn cfg_both(a: Option<Cfg>, b: Option<Cfg>) -> Option<Cfg>;
pub open spec fn loaded<T>(r: Result<T, String>, o: Option<T>) -> bool { match o { Some(x) => r matches Ok(y) && y == x, None => r is Err } }

pub open spec fn fn_decl(e: Env, sym: Option<Seq<char>>, st: Option<Path>, sig: syn::Signature, attrs: Seq<syn::Attribute>) -> Seq<Function> {
    if top(e.cfg.parse, e.cn, e.bc) && c_abi(sig.abi) && sym is Some { opt_seq(fn_load(sym->0, st, sig, false, attrs, e.mc)) } else { Seq::empty() }
}
pub open spec fn foreign_fn(e: Env, mc: Option<Cfg>, i: syn::ForeignItem) -> Seq<Function> {
    match i {
        syn::ForeignItem::Fn(f) => if skipped(f.attrs@) { Seq::empty() } else { opt_seq(fn_load(syn::unraw_of(f.sig.ident.s@), None, f.sig, true, f.attrs@, mc)) },
        _ => Seq::empty(),
    }
}
pub open spec fn foreign_fns(e: Env, mc: Option<Cfg>, v: Seq<syn::ForeignItem>) -> Seq<Function>
    decreases v.len()
{ if v.len() == 0 { Seq::empty() } else { foreign_fns(e, mc, v.drop_last()) + foreign_fn(e, mc, v.last()) } }
pub open spec fn impl_fn(e: Env, st: Path, i: syn::ImplItem) -> Seq<Function> {
    match i {
        syn::ImplItem::Fn(m) => if skipped(m.attrs@) { Seq::empty() } else { fn_decl(e, symbol(m.attrs@, m.sig.ident.s@), Some(st), m.sig, m.attrs@) },
        _ => Seq::empty(),
    }
}
pub open spec fn impl_fns(e: Env, st: Path, v: Seq<syn::ImplItem>) -> Seq<Function>
    decreases v.len()
{ if v.len() == 0 { Seq::empty() } else { impl_fns(e, st, v.drop_last()) + impl_fn(e, st, v.last()) } }
/// `impl Name { .. }`: the name
pub open spec fn impl_name(i: syn::ItemImpl) -> Option<Seq<char>> {
    match *i.self_ty { syn::Type::Path(p) => match p.path.single() { Some(x) => Some(syn::unraw_of(x.s@)), None => None }, _ => None }
}
pub uninterp spec fn path_of(s: Seq<char>) -> Path;
/// the functions an item of the source stands for
pub open spec fn item_fns(e: Env, i: syn::Item) -> Seq<Function> {
    if skipped(syn::item_at(i)) { Seq::empty() } else { match i {
        syn::Item::Fn(f) => fn_decl(e, symbol(f.attrs@, f.sig.ident.s@), None, f.sig, f.attrs@),
        syn::Item::ForeignMod(m) =>
            if (abi_c(m.abi) || m.abi.name is None) && top(e.cfg.parse, e.cn, e.bc) { foreign_fns(e, cfg_both(e.mc, cfg_of(m.attrs@)), m.items@) } else { Seq::empty() },
        syn::Item::Impl(m) => match impl_name(m) {
            Some(n) => impl_fns(Env { mc: cfg_both(e.mc, cfg_of(m.attrs@)), ..e }, path_of(n), m.items@),
            None => Seq::empty(),
        },
        _ => Seq::empty(),
    } }
}
pub open spec fn item_static(e: Env, s: syn::ItemStatic) -> Seq<Static> {
    if top(e.cfg.parse, e.cn, e.bc) && symbol(s.attrs@, s.ident.s@) is Some { opt_seq(static_load(symbol(s.attrs@, s.ident.s@)->0, s, e.mc)) } else { Seq::empty() }
}
pub open spec fn item_const(e: Env, c: syn::ItemConst) -> Seq<Constant> {
    if top(e.cfg.parse, e.cn, e.bc) && c.vis is Public { opt_seq(const_load(syn::unraw_of(c.ident.s@), e.mc, c.ty, c.expr, c.attrs@, None)) } else { Seq::empty() }
}
pub open spec fn item_statics(e: Env, i: syn::Item) -> Seq<Static> {
    if skipped(syn::item_at(i)) { Seq::empty() } else { match i { syn::Item::Static(s) => item_static(e, s), _ => Seq::empty() } }
}
pub open spec fn item_unions(e: Env, i: syn::Item) -> Seq<Union> {
    if skipped(syn::item_at(i)) { Seq::empty() } else { match i { syn::Item::Union(s) => opt_seq(union_load(e.cfg.layout, s, e.mc)), _ => Seq::empty() } }
}
pub open spec fn item_enums(e: Env, i: syn::Item) -> Seq<Enum> {
    if skipped(syn::item_at(i)) { Seq::empty() } else { match i { syn::Item::Enum(s) => opt_seq(enum_load(e.cfg, s, e.mc)), _ => Seq::empty() } }
}
pub open spec fn item_types(e: Env, i: syn::Item) -> Seq<Typedef> {
    if skipped(syn::item_at(i)) { Seq::empty() } else { match i { syn::Item::Type(s) => opt_seq(typedef_load(s, e.mc)), _ => Seq::empty() } }
}
pub open spec fn item_mods<'a>(i: &'a syn::Item) -> Seq<&'a syn::ItemMod> {
    if skipped(syn::item_at(*i)) { Seq::empty() } else { match i { syn::Item::Mod(s) => seq![s], _ => Seq::empty() } }
}
pub open spec fn all_fns(e: Env, v: Seq<syn::Item>) -> Seq<Function> decreases v.len()
{ if v.len() == 0 { Seq::empty() } else { all_fns(e, v.drop_last()) + item_fns(e, v.last()) } }
pub open spec fn all_statics(e: Env, v: Seq<syn::Item>) -> Seq<Static> decreases v.len()
{ if v.len() == 0 { Seq::empty() } else { all_statics(e, v.drop_last()) + item_statics(e, v.last()) } }
pub open spec fn all_unions(e: Env, v: Seq<syn::Item>) -> Seq<Union> decreases v.len()
{ if v.len() == 0 { Seq::empty() } else { all_unions(e, v.drop_last()) + item_unions(e, v.last()) } }
pub open spec fn all_enums(e: Env, v: Seq<syn::Item>) -> Seq<Enum> decreases v.len()
{ if v.len() == 0 { Seq::empty() } else { all_enums(e, v.drop_last()) + item_enums(e, v.last()) } }
pub open spec fn all_types(e: Env, v: Seq<syn::Item>) -> Seq<Typedef> decreases v.len()
{ if v.len() == 0 { Seq::empty() } else { all_types(e, v.drop_last()) + item_types(e, v.last()) } }
pub open spec fn all_mods<'a>(v: Seq<syn::Item>) -> Seq<&'a syn::ItemMod> decreases v.len()
{ if v.len() == 0 { Seq::empty() } else { all_mods(v.drop_last()) + item_mods(&v.last()) } }

proof fn lemma_take<T>(v: Seq<T>, i: int)
    requires 0 <= i < v.len(),
    ensures v.take(i + 1).drop_last() == v.take(i), v.take(i + 1).last() == v[i],
{ assert(v.take(i + 1).drop_last() =~= v.take(i)); }
proof fn lemma_all<T>(s: Seq<T>) ensures s.take(s.len() as int) == s { assert(s.take(s.len() as int) =~= s); }

proof fn lemma_prefix_value(v: Seq<syn::Attribute>, i: int, n: Seq<char>)
    requires 0 <= i <= v.len(), first_value(v.take(i), n) is Some,
    ensures first_value(v, n) == first_value(v.take(i), n),
    decreases v.len()
{
    if i == v.len() { assert(v.take(i) =~= v); }
    else { assert(v.drop_last().take(i) =~= v.take(i)); lemma_prefix_value(v.drop_last(), i, n); }
}
proof fn lemma_prefix_unsafe(v: Seq<syn::Attribute>, i: int, n: Seq<char>)
    requires 0 <= i <= v.len(), first_unsafe_value(v.take(i), n) is Some,
    ensures first_unsafe_value(v, n) == first_unsafe_value(v.take(i), n),
    decreases v.len()
{
    if i == v.len() { assert(v.take(i) =~= v); }
    else { assert(v.drop_last().take(i) =~= v.take(i)); lemma_prefix_unsafe(v.drop_last(), i, n); }
}
proof fn lemma_prefix_pair(v: Seq<syn::MetaNameValue>, i: int, n: Seq<char>)
    requires 0 <= i <= v.len(), first_pair(v.take(i), n) is Some,
    ensures first_pair(v, n) == first_pair(v.take(i), n),
    decreases v.len()
{
    if i == v.len() { assert(v.take(i) =~= v); }
    else { assert(v.drop_last().take(i) =~= v.take(i)); lemma_prefix_pair(v.drop_last(), i, n); }
}

/// the constant an associated constant stands for
pub open spec fn assoc_one(p: Path, mc: Option<Cfg>, c: syn::ImplItemConst) -> Seq<Constant> {
    if c.vis is Public { opt_seq(const_load(syn::unraw_of(c.ident.s@) + p.name@, mc, c.ty, c.expr, c.attrs@, Some(p))) } else { Seq::empty() }
}
pub open spec fn assoc_all(p: Path, mc: Option<Cfg>, v: Seq<&syn::ImplItemConst>) -> Seq<Constant> decreases v.len()
{ if v.len() == 0 { Seq::empty() } else { assoc_all(p, mc, v.drop_last()) + assoc_one(p, mc, *v.last()) } }
pub open spec fn with_path(p: Path, v: Seq<Constant>) -> Seq<(Path, Constant)> { v.map_values(|c: Constant| (p, c)) }
/// the associated constants of an impl block that are not ignored
pub open spec fn impl_consts<'a>(v: Seq<syn::ImplItem>) -> Seq<&'a syn::ImplItemConst> decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else {
        impl_consts(v.drop_last()) + match v.last() { syn::ImplItem::Const(c) => if skipped(c.attrs@) { Seq::empty() } else { seq![&c] }, _ => Seq::empty() }
    }
}
pub uninterp spec fn ty_load(t: syn::Type) -> Option<Option<Type>>;
pub open spec fn root_path(t: Type) -> Option<Path>
    decreases t
{ match t { Type::Ptr { ty, .. } => root_path(*ty), Type::Path(g) => Some(g.path), _ => None } }
pub open spec fn root_of(t: syn::Type) -> Option<Path> { match ty_load(t) { Some(Some(x)) => root_path(x), _ => None } }
pub open spec fn assoc_post(a: Parse, b: Parse, p: Path, v: Seq<Constant>) -> bool {
    &&& b.structs.log@ == a.structs.log@
    &&& has_path(a.structs.log@, p) ==> b.constants.log@ == a.constants.log@ && b.structs.assoc@ == a.structs.assoc@ + with_path(p, v)
    &&& !has_path(a.structs.log@, p) ==> b.constants.log@ == a.constants.log@ + v && b.structs.assoc@ == a.structs.assoc@
    &&& b == (Parse { structs: b.structs, constants: b.constants, ..a })
}

pub mod seqs {
use vstd::prelude::*;
pub open spec fn opt_seq<T>(o: Option<T>) -> Seq<T> { match o { Some(x) => seq![x], None => Seq::empty() } }
pub broadcast proof fn lemma_opt<T>(a: Seq<T>, o: Option<T>)
    ensures #[trigger] (a + opt_seq(o)) == (match o { Some(x) => a.push(x), None => a }),
{ assert(a + opt_seq(o) =~= (match o { Some(x) => a.push(x), None => a })); }
pub broadcast proof fn lemma_empty<T>(a: Seq<T>)
    ensures #[trigger] (a + Seq::<T>::empty()) == a,
{ assert(a + Seq::<T>::empty() =~= a); }
}
pub use seqs::*;
pub proof fn lemma_assoc<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>)
    ensures a + b + c == a + (b + c),
{ assert(a + b + c =~= a + (b + c)); }

// ---------------- the tables (C09) and the loaders: assumed contracts ----------------
/// ItemMap, by the items handed to try_insert, in order (what it keeps of them is C09)
pub struct ItemMap<T> { pub log: Ghost<Seq<T>>, pub assoc: Ghost<Seq<(Path, Constant)>> }
impl<T> ItemMap<T> {
    #[verifier::external_body]
    pub fn try_insert(&mut self, x: T) -> (r: bool) ensures final(self).log@ == old(self).log@.push(x), final(self).assoc@ == old(self).assoc@ { unimplemented!() }
}
pub uninterp spec fn has_path(s: Seq<Struct>, p: Path) -> bool;
impl ItemMap<Struct> {
    /// for_items_mut over the structs of this name, adding the constant to each; whether there was one
    #[verifier::external_body]
    pub fn vx_add_assoc(&mut self, p: &Path, c: &Constant) -> (r: bool)
        ensures final(self).log@ == old(self).log@, r == has_path(old(self).log@, *p),
            final(self).assoc@ == if r { old(self).assoc@.push((*p, *c)) } else { old(self).assoc@ } { unimplemented!() }
}
//@type src/bindgen/parser.rs Parse drop=source_files,package_version
#[verifier::external_body] pub fn vx_path(s: String) -> (r: Path) ensures r == path_of(s@), r.name@ == s@ { unimplemented!() }
impl Function {
    #[verifier::external_body]
    pub fn load(path: Path, st: Option<&Path>, sig: &syn::Signature, ext: bool, attrs: &[syn::Attribute], mc: Option<&Cfg>) -> (r: Result<Function, String>)
        ensures loaded(r, fn_load(path.name@, op(st), *sig, ext, attrs@, oc(mc))) { unimplemented!() }
}
impl Static {
    #[verifier::external_body]
    pub fn load(path: Path, item: &syn::ItemStatic, mc: Option<&Cfg>) -> (r: Result<Static, String>) ensures loaded(r, static_load(path.name@, *item, oc(mc))) { unimplemented!() }
}
impl Constant {
    #[verifier::external_body]
    pub fn load(path: Path, mc: Option<&Cfg>, ty: &syn::Type, e: &syn::Expr_, attrs: &[syn::Attribute], assoc: Option<Path>) -> (r: Result<Constant, String>)
        ensures loaded(r, const_load(path.name@, oc(mc), *ty, *e, attrs@, assoc)) { unimplemented!() }
}
impl Struct {
    #[verifier::external_body]
    pub fn load(l: &LayoutConfig, item: &syn::ItemStruct, mc: Option<&Cfg>) -> (r: Result<Struct, String>) ensures loaded(r, struct_load(*l, *item, oc(mc))) { unimplemented!() }
}
impl Union {
    #[verifier::external_body]
    pub fn load(l: &LayoutConfig, item: &syn::ItemUnion, mc: Option<&Cfg>) -> (r: Result<Union, String>) ensures loaded(r, union_load(*l, *item, oc(mc))) { unimplemented!() }
}
impl Enum {
    #[verifier::external_body]
    pub fn load(item: &syn::ItemEnum, mc: Option<&Cfg>, c: &Config) -> (r: Result<Enum, String>) ensures loaded(r, enum_load(*c, *item, oc(mc))) { unimplemented!() }
}
impl Typedef {
    #[verifier::external_body]
    pub fn load(item: &syn::ItemType, mc: Option<&Cfg>) -> (r: Result<Typedef, String>) ensures loaded(r, typedef_load(*item, oc(mc))) { unimplemented!() }
}
impl OpaqueItem {
    #[verifier::external_body]
    pub fn load(path: Path, g: &syn::Generics, attrs: &[syn::Attribute], mc: Option<&Cfg>) -> (r: Result<OpaqueItem, String>)
        ensures loaded(r, opaque_load(path.name@, *g, attrs@, oc(mc))) { unimplemented!() }
}
impl Type {
    #[verifier::external_body]
    pub fn load(t: &syn::Type) -> (r: Result<Option<Type>, String>) ensures loaded(r, ty_load(*t)) { unimplemented!() }
//@fn src/bindgen/ir/ty.rs Type::get_root_path r
    ensures r == root_path(*self),
//@loop 0
    root_path(*current) == root_path(*self),
//@end
}
impl Cfg {
    #[verifier::external_body]
    pub fn load(attrs: &[syn::Attribute]) -> (r: Option<Cfg>) ensures r == cfg_of(attrs@) { unimplemented!() }
    #[verifier::external_body]
    pub fn append(a: Option<&Cfg>, b: Option<Cfg>) -> (r: Option<Cfg>) ensures r == cfg_both(oc(a), b) { unimplemented!() }
}

// ================= code under contract =================
//@fn src/bindgen/utilities.rs SynAttributeHelpers::attr_name_value_lookup|#filter_map r
    ensures is_sym(r, value(*attr, name@)),
//@sig pub fn lookup_one(attr: &syn::Attribute, name: &str) -> (r: Option<String>)
//@end
//@fn src/bindgen/utilities.rs SynAttributeHelpers::unsafe_attr_name_value_lookup|#filter_map r
    ensures is_sym(r, unsafe_value(*attr, name@)),
//@sig pub fn unsafe_lookup_one(attr: &syn::Attribute, name: &str) -> (r: Option<String>)
//@opaque let parser = syn::punctuated => ();
//@subst list.parse_args_with(parser) => list.vx_pairs()
//@loop 0 mode=own
    first_pair(__s0@.take(__i0 as int), name@) is None,
//@loop 0 pre
    proof {
        lemma_take(__s0@, __k0 as int);
        if first_pair(__s0@.take(__k0 + 1), name@) is Some { lemma_prefix_pair(__s0@, __k0 + 1, name@); }
    }
//@loop 0 after
    proof { lemma_all(__s0@); }
//@end
//@fn src/bindgen/utilities.rs is_skip_item_attr r
    ensures r == skips(*attr),
//@opaque let parser = syn::punctuated => ();
//@subst list.parse_args_with(parser) => list.vx_streams()
//@subst syn::parse2::<syn::Path>(token) => syn::vx_parse_path(token)
//@subst content.value().trim() => vx_trim(content.value().as_str())
//@loop 0 mode=own
    forall|j: int| 0 <= j < __i0 ==> syn::as_path(#[trigger] __s0@[j]) is Some && !syn::as_path(__s0@[j])->0.word("test"@),
//@loop 0 pre
    proof { let _ = names_test(__s0@, __k0 as int); let _ = __s0@[__k0 as int]; }
//@end
pub trait SynAttributeHelpers {
    spec fn at(&self) -> Seq<syn::Attribute>;
    fn attrs(&self) -> (r: &[syn::Attribute]) ensures r@ == self.at();
//@fn src/bindgen/utilities.rs SynAttributeHelpers::has_attr_word r novis
    ensures r == some_word(self.at(), name@),
//@loop 0
    __r0 ==> some_word(self.at(), name@),
    !__r0 ==> forall|j: int| 0 <= j < __i0 ==> !word(#[trigger] self.at()[j], name@),
//@loop 0 pre
    proof { let _ = word(self.at()[__i0 as int], name@); }
//@end
//@fn src/bindgen/utilities.rs SynAttributeHelpers::has_unsafe_attr_word r novis
    ensures r == some_unsafe_word(self.at(), name@),
//@subst unsafe_list.parse_args_with(syn::punctuated::Punctuated::parse_terminated) => unsafe_list.vx_paths()
//@subst : syn::punctuated::Punctuated<syn::Path, Token![,]> => : Vec<syn::Path>
//@loop 0
    forall|j: int| 0 <= j < __i0 ==> !unsafe_word(#[trigger] self.at()[j], name@),
//@loop 1
    __r1 ==> exists|k: int| 0 <= k < __s1@.len() && (#[trigger] __s1@[k]).word(name@),
    !__r1 ==> forall|j: int| 0 <= j < __i1 ==> !(#[trigger] __s1@[j]).word(name@),
//@end
//@fn src/bindgen/utilities.rs SynAttributeHelpers::is_no_mangle r novis
    ensures r == no_mangle(self.at()),
//@end
//@fn src/bindgen/utilities.rs SynAttributeHelpers::attr_name_value_lookup r novis
    ensures is_sym(r, first_value(self.at(), name@)),
//@lift lookup_one($, name)
//@loop 0 rty=Option<String>
    is_sym(__r0, first_value(self.at().take(__i0 as int), name@)),
//@loop 0 pre
    proof { lemma_take(self.at(), __i0 as int); }
//@loop 0 after
    proof { lemma_all(self.at()); if __r0 is Some { lemma_prefix_value(self.at(), __i0 as int, name@); } }
//@end
//@fn src/bindgen/utilities.rs SynAttributeHelpers::unsafe_attr_name_value_lookup r novis
    ensures is_sym(r, first_unsafe_value(self.at(), name@)),
//@lift unsafe_lookup_one($, name)
//@loop 0 rty=Option<String>
    is_sym(__r0, first_unsafe_value(self.at().take(__i0 as int), name@)),
//@loop 0 pre
    proof { lemma_take(self.at(), __i0 as int); }
//@loop 0 after
    proof { lemma_all(self.at()); if __r0 is Some { lemma_prefix_unsafe(self.at(), __i0 as int, name@); } }
//@end
//@fn src/bindgen/utilities.rs SynAttributeHelpers::should_skip_parsing r novis
    ensures r == skipped(self.at()),
//@loop 0
    forall|j: int| 0 <= j < __i0 ==> !skips((#[trigger] self.at()[j]).meta),
//@end
}
impl SynAttributeHelpers for syn::ItemFn {
    open spec fn at(&self) -> Seq<syn::Attribute> { self.attrs@ }
    fn attrs(&self) -> (r: &[syn::Attribute]) { self.attrs.as_slice() }
}
impl SynAttributeHelpers for syn::ImplItemFn {
    open spec fn at(&self) -> Seq<syn::Attribute> { self.attrs@ }
    fn attrs(&self) -> (r: &[syn::Attribute]) { self.attrs.as_slice() }
}
impl SynAttributeHelpers for syn::ImplItemConst {
    open spec fn at(&self) -> Seq<syn::Attribute> { self.attrs@ }
    fn attrs(&self) -> (r: &[syn::Attribute]) { self.attrs.as_slice() }
}
impl SynAttributeHelpers for syn::ItemStatic {
    open spec fn at(&self) -> Seq<syn::Attribute> { self.attrs@ }
    fn attrs(&self) -> (r: &[syn::Attribute]) { self.attrs.as_slice() }
}
impl SynAttributeHelpers for Vec<syn::Attribute> {
    open spec fn at(&self) -> Seq<syn::Attribute> { self@ }
    fn attrs(&self) -> (r: &[syn::Attribute]) { self.as_slice() }
}
impl SynAttributeHelpers for [syn::Attribute] {
    open spec fn at(&self) -> Seq<syn::Attribute> { self@ }
    fn attrs(&self) -> (r: &[syn::Attribute]) { self }
}
impl SynAttributeHelpers for syn::Item {
    open spec fn at(&self) -> Seq<syn::Attribute> { syn::item_at(*self) }
    fn attrs(&self) -> (r: &[syn::Attribute]) { self.vx_attrs() }
}
pub trait SynItemHelpers {
    spec fn sym(&self) -> Option<Seq<char>>;
    fn exported_name(&self) -> (r: Option<String>) ensures is_sym(r, self.sym());
}
impl SynItemHelpers for syn::ItemFn {
    open spec fn sym(&self) -> Option<Seq<char>> { symbol(self.attrs@, self.sig.ident.s@) }
//@fn src/bindgen/utilities.rs SynItemHelpers@ItemFn::exported_name r novis
//@end
}
impl SynItemHelpers for syn::ImplItemFn {
    open spec fn sym(&self) -> Option<Seq<char>> { symbol(self.attrs@, self.sig.ident.s@) }
//@fn src/bindgen/utilities.rs SynItemHelpers@ImplItemFn::exported_name r novis
//@end
}
impl SynItemHelpers for syn::ItemStatic {
    open spec fn sym(&self) -> Option<Seq<char>> { symbol(self.attrs@, self.ident.s@) }
//@fn src/bindgen/utilities.rs SynItemHelpers@ItemStatic::exported_name r novis
//@end
}
pub trait SynAbiHelpers {
    spec fn c(&self) -> bool;
    spec fn cmse(&self) -> bool;
    spec fn omitted(&self) -> bool;
    fn is_c(&self) -> (r: bool) ensures r == self.c();
    fn is_cmse(&self) -> (r: bool) ensures r == self.cmse();
    fn is_omitted(&self) -> (r: bool) ensures r == self.omitted();
}
impl SynAbiHelpers for syn::Abi {
    open spec fn c(&self) -> bool { abi_c(*self) }
    open spec fn cmse(&self) -> bool { abi_cmse(*self) }
    open spec fn omitted(&self) -> bool { self.name is None }
//@fn src/bindgen/utilities.rs SynAbiHelpers@Abi::is_c r novis strlits
//@end
//@fn src/bindgen/utilities.rs SynAbiHelpers@Abi::is_cmse r novis strlits
//@end
//@fn src/bindgen/utilities.rs SynAbiHelpers@Abi::is_omitted r novis
//@end
}
impl SynAbiHelpers for Option<syn::Abi> {
    open spec fn c(&self) -> bool { *self is Some && abi_c(self->0) }
    open spec fn cmse(&self) -> bool { *self is Some && abi_cmse(self->0) }
    open spec fn omitted(&self) -> bool { *self is Some && self->0.name is None }
//@fn src/bindgen/utilities.rs SynAbiHelpers@Option::is_c r novis
//@end
//@fn src/bindgen/utilities.rs SynAbiHelpers@Option::is_cmse r novis
//@end
//@fn src/bindgen/utilities.rs SynAbiHelpers@Option::is_omitted r novis
//@end
}
#[verifier::external_body] pub fn vx_cat(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { a + b }
/// == on strings
#[verifier::external_body] pub fn vx_same(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
impl ParseConfig {
//@fn src/bindgen/config.rs ParseConfig::should_generate_top_level_item r
    ensures r == top(*self, crate_name@, binding_crate_name@),
//@subst dep == crate_name => vx_same(dep.as_str(), crate_name)
//@loop 0
    __r0 ==> top(*self, crate_name@, binding_crate_name@),
    !__r0 ==> forall|j: int| 0 <= j < __i0 ==> (#[trigger] self.extra_bindings@[j])@ != crate_name@,
//@end
}
impl Parse {
    /// expands `bitflags!` (assumed: only structs, opaque types and constants come of it)
    #[verifier::external_body]
    pub fn load_builtin_macro(&mut self, config: &Config, crate_name: &str, mod_cfg: Option<&Cfg>, item: &syn::ItemMacro)
        ensures final(self).functions == old(self).functions, final(self).globals == old(self).globals, final(self).unions == old(self).unions,
            final(self).enums == old(self).enums, final(self).typedefs == old(self).typedefs { unimplemented!() }
//@fn src/bindgen/parser.rs Parse::load_fn_declaration r
    ensures
        final(self).functions@ == old(self).functions@ + fn_decl(Env { cfg: *config, bc: binding_crate_name@, cn: crate_name@, mc: oc(mod_cfg) }, named_symbol.sym(), op(self_type), *sig, attrs@),
        *final(self) == (Parse { functions: final(self).functions, ..*old(self) }),
//@sig pub fn load_fn_declaration<T: SynItemHelpers>(&mut self, config: &Config, binding_crate_name: &str, crate_name: &str, mod_cfg: Option<&Cfg>, named_symbol: &T, self_type: Option<&Path>, sig: &syn::Signature, attrs: &[syn::Attribute])
//@opaque let loggable_item_name = => ();
//@subst Path::new( => vx_path(
//@end
//@fn src/bindgen/parser.rs Parse::load_syn_fn r
    ensures
        final(self).functions@ == old(self).functions@ + fn_decl(Env { cfg: *config, bc: binding_crate_name@, cn: crate_name@, mc: oc(mod_cfg) }, symbol(item.attrs@, item.sig.ident.s@), None, item.sig, item.attrs@),
        *final(self) == (Parse { functions: final(self).functions, ..*old(self) }),
//@end
//@fn src/bindgen/parser.rs Parse::load_syn_method r
    ensures
        final(self).functions@ == old(self).functions@ + fn_decl(Env { cfg: *config, bc: binding_crate_name@, cn: crate_name@, mc: oc(mod_cfg) }, symbol(item.attrs@, item.sig.ident.s@), Some(*self_type), item.sig, item.attrs@),
        *final(self) == (Parse { functions: final(self).functions, ..*old(self) }),
//@end
//@fn src/bindgen/parser.rs Parse::load_syn_static r
    ensures
        final(self).globals.log@ == old(self).globals.log@ + item_static(Env { cfg: *config, bc: binding_crate_name@, cn: crate_name@, mc: oc(mod_cfg) }, *item),
        *final(self) == (Parse { globals: final(self).globals, ..*old(self) }),
//@subst Path::new( => vx_path(
//@end
//@fn src/bindgen/parser.rs Parse::load_syn_const r
    ensures
        final(self).constants.log@ == old(self).constants.log@ + item_const(Env { cfg: *config, bc: binding_crate_name@, cn: crate_name@, mc: oc(mod_cfg) }, *item),
        *final(self) == (Parse { constants: final(self).constants, ..*old(self) }),
//@opaque let full_name = => ();
//@subst Path::new( => vx_path(
//@end
//@fn src/bindgen/parser.rs Parse::load_opaque r
    ensures
        final(self).opaque_items.log@ == old(self).opaque_items.log@ + opt_seq(opaque_load(syn::unraw_of(ident.s@), *generics, attrs@, oc(mod_cfg))),
        *final(self) == (Parse { opaque_items: final(self).opaque_items, ..*old(self) }),
//@subst Path::new( => vx_path(
//@end
//@fn src/bindgen/parser.rs Parse::load_syn_struct r
    ensures
        final(self).structs.log@ == old(self).structs.log@ + opt_seq(struct_load(config.layout, *item, oc(mod_cfg))),
        final(self).opaque_items.log@ == old(self).opaque_items.log@ + (if struct_load(config.layout, *item, oc(mod_cfg)) is Some { Seq::empty() } else { opt_seq(opaque_load(syn::unraw_of(item.ident.s@), item.generics, item.attrs@, oc(mod_cfg))) }),
        *final(self) == (Parse { structs: final(self).structs, opaque_items: final(self).opaque_items, ..*old(self) }),
//@end
//@fn src/bindgen/parser.rs Parse::load_syn_union r
    ensures
        final(self).unions.log@ == old(self).unions.log@ + opt_seq(union_load(config.layout, *item, oc(mod_cfg))),
        final(self).opaque_items.log@ == old(self).opaque_items.log@ + (if union_load(config.layout, *item, oc(mod_cfg)) is Some { Seq::empty() } else { opt_seq(opaque_load(syn::unraw_of(item.ident.s@), item.generics, item.attrs@, oc(mod_cfg))) }),
        *final(self) == (Parse { unions: final(self).unions, opaque_items: final(self).opaque_items, ..*old(self) }),
//@end
//@fn src/bindgen/parser.rs Parse::load_syn_enum r
    ensures
        final(self).enums.log@ == old(self).enums.log@ + opt_seq(enum_load(*config, *item, oc(mod_cfg))),
        final(self).opaque_items.log@ == old(self).opaque_items.log@ + (if enum_load(*config, *item, oc(mod_cfg)) is Some { Seq::empty() } else { opt_seq(opaque_load(syn::unraw_of(item.ident.s@), item.generics, item.attrs@, oc(mod_cfg))) }),
        *final(self) == (Parse { enums: final(self).enums, opaque_items: final(self).opaque_items, ..*old(self) }),
//@end
//@fn src/bindgen/parser.rs Parse::load_syn_ty r
    ensures
        final(self).typedefs.log@ == old(self).typedefs.log@ + opt_seq(typedef_load(*item, oc(mod_cfg))),
        final(self).opaque_items.log@ == old(self).opaque_items.log@ + (if typedef_load(*item, oc(mod_cfg)) is Some { Seq::empty() } else { opt_seq(opaque_load(syn::unraw_of(item.ident.s@), item.generics, item.attrs@, oc(mod_cfg))) }),
        *final(self) == (Parse { typedefs: final(self).typedefs, opaque_items: final(self).opaque_items, ..*old(self) }),
//@end
//@fn src/bindgen/parser.rs Parse::load_syn_foreign_mod r
    ensures
        final(self).functions@ == old(self).functions@ + (if (abi_c(item.abi) || item.abi.name is None) && top(config.parse, crate_name@, binding_crate_name@) { foreign_fns(Env { cfg: *config, bc: binding_crate_name@, cn: crate_name@, mc: oc(mod_cfg) }, cfg_both(oc(mod_cfg), cfg_of(item.attrs@)), item.items@) } else { Seq::empty() }),
        *final(self) == (Parse { functions: final(self).functions, ..*old(self) }),
//@subst Path::new( => vx_path(
//@subst item.attrs) => (item.attrs).vx_sl())
//@loop 0
    self.functions@ == old(self).functions@ + (if top(config.parse, crate_name@, binding_crate_name@) { foreign_fns(Env { cfg: *config, bc: binding_crate_name@, cn: crate_name@, mc: oc(mod_cfg0) }, cfg_both(oc(mod_cfg0), cfg_of(item.attrs@)), item.items@.take(__i0 as int)) } else { Seq::empty() }),
    *self == (Parse { functions: self.functions, ..*old(self) }),
//@loop 0 pre
    proof { lemma_take(item.items@, __k0 as int); let e = Env { cfg: *config, bc: binding_crate_name@, cn: crate_name@, mc: oc(mod_cfg0) }; let m = cfg_both(oc(mod_cfg0), cfg_of(item.attrs@)); lemma_assoc(old(self).functions@, foreign_fns(e, m, item.items@.take(__k0 as int)), foreign_fn(e, m, item.items@[__k0 as int])); }
//@loop 0 after
    proof { lemma_all(item.items@); }
//@pre
    let ghost mod_cfg0 = mod_cfg;
//@end
//@fn src/bindgen/parser.rs Parse::load_syn_assoc_consts r
    ensures
        root_of(*impl_ty) is None ==> *final(self) == *old(self),
        root_of(*impl_ty) is Some ==> assoc_post(*old(self), *final(self), root_of(*impl_ty)->0, assoc_all(root_of(*impl_ty)->0, oc(mod_cfg), items@)),
//@sig pub fn load_syn_assoc_consts<'a>(&mut self, crate_name: &str, mod_cfg: Option<&Cfg>, impl_ty: &syn::Type, items: Vec<&'a syn::ImplItemConst>)
//@subst vx_to_owned(&*item.ident.unraw()) + impl_path.name() => vx_cat(vx_to_owned(&*item.ident.unraw()), impl_path.name())
//@opaque self.structs.for_items_mut( => any = self.structs.vx_add_assoc(&impl_path, &constant);
//@subst Path::new( => vx_path(
//@loop 0
    assoc_post(*old(self), *self, impl_path, assoc_all(impl_path, oc(mod_cfg), items@.take(__i0 as int))),
//@loop 0 pre
    proof {
        lemma_take(items@, __k0 as int);
        let a = assoc_all(impl_path, oc(mod_cfg), items@.take(__k0 as int)); let b = assoc_one(impl_path, oc(mod_cfg), *items@[__k0 as int]);
        lemma_assoc(old(self).constants.log@, a, b);
        assert(with_path(impl_path, a + b) =~= with_path(impl_path, a) + with_path(impl_path, b));
        lemma_assoc(old(self).structs.assoc@, with_path(impl_path, a), with_path(impl_path, b));
        if b.len() == 0 { assert(with_path(impl_path, b) =~= Seq::empty()); } else { assert(with_path(impl_path, b) =~= seq![(impl_path, b[0])]); }
        let o = if b.len() == 0 { None } else { Some((impl_path, b[0])) };
        assert(with_path(impl_path, b) == opt_seq(o));
    }
//@loop 0 after
    proof { lemma_all(items@); }
//@end
//@fn src/bindgen/parser.rs Parse::load_syn_assoc_consts_from_impl r lazy
    ensures
        root_of(*item_impl.self_ty) is None ==> *final(self) == *old(self),
        root_of(*item_impl.self_ty) is Some ==> assoc_post(*old(self), *final(self), root_of(*item_impl.self_ty)->0,
            assoc_all(root_of(*item_impl.self_ty)->0, cfg_both(oc(mod_cfg), cfg_of(item_impl.attrs@)), impl_consts(item_impl.items@))),
//@loop 0 rty=Vec<&syn::ImplItemConst>
    __r0@ == impl_consts(item_impl.items@.take(__i0 as int)),
//@loop 0 pre
    proof { lemma_take(item_impl.items@, __i0 as int); }
//@loop 0 after
    proof { lemma_all(item_impl.items@); }
//@end
//@fn src/bindgen/parser.rs Parse::load_syn_crate_mod r
    ensures
        final(self).functions@ == old(self).functions@ + all_fns(Env { cfg: *config, bc: binding_crate_name@, cn: crate_name@, mc: oc(mod_cfg) }, items@),
        final(self).globals.log@ == old(self).globals.log@ + all_statics(Env { cfg: *config, bc: binding_crate_name@, cn: crate_name@, mc: oc(mod_cfg) }, items@),
        final(self).unions.log@ == old(self).unions.log@ + all_unions(Env { cfg: *config, bc: binding_crate_name@, cn: crate_name@, mc: oc(mod_cfg) }, items@),
        final(self).enums.log@ == old(self).enums.log@ + all_enums(Env { cfg: *config, bc: binding_crate_name@, cn: crate_name@, mc: oc(mod_cfg) }, items@),
        final(self).typedefs.log@ == old(self).typedefs.log@ + all_types(Env { cfg: *config, bc: binding_crate_name@, cn: crate_name@, mc: oc(mod_cfg) }, items@),
        r@ == all_mods(items@),
//@subst Path::new( => vx_path(
//@pre
    let ghost e = Env { cfg: *config, bc: binding_crate_name@, cn: crate_name@, mc: oc(mod_cfg) };
//@loop 0
    self.functions@ == old(self).functions@ + all_fns(e, items@.take(__i0 as int)),
    self.globals.log@ == old(self).globals.log@ + all_statics(e, items@.take(__i0 as int)),
    self.unions.log@ == old(self).unions.log@ + all_unions(e, items@.take(__i0 as int)),
    self.enums.log@ == old(self).enums.log@ + all_enums(e, items@.take(__i0 as int)),
    self.typedefs.log@ == old(self).typedefs.log@ + all_types(e, items@.take(__i0 as int)),
    nested_modules@ == all_mods(items@.take(__i0 as int)),
//@loop 0 pre
    let ghost s0 = *self;
    proof {
        lemma_take(items@, __k0 as int);
        let p = items@.take(__k0 as int); let x = items@[__k0 as int];
        lemma_assoc(old(self).functions@, all_fns(e, p), item_fns(e, x));
        lemma_assoc(old(self).globals.log@, all_statics(e, p), item_statics(e, x));
        lemma_assoc(old(self).unions.log@, all_unions(e, p), item_unions(e, x));
        lemma_assoc(old(self).enums.log@, all_enums(e, p), item_enums(e, x));
        lemma_assoc(old(self).typedefs.log@, all_types(e, p), item_types(e, x));
    }
//@loop 0 after
    proof { lemma_all(items@); }
//@loop 1
    true,
//@loop 2
    self.functions@ == s0.functions@ + impl_fns(em, path_of(nm), item_impl.items@.take(__i2 as int)),
    *self == (Parse { functions: self.functions, ..s0 }),
//@loop 2 post
    proof { lemma_take(item_impl.items@, __i2 - 1); lemma_assoc(s0.functions@, impl_fns(em, path_of(nm), item_impl.items@.take(__i2 - 1)), impl_fn(em, path_of(nm), item_impl.items@[__i2 - 1])); }
//@loop 2 before
    let ghost nm = syn::unraw_of(type_name.s@);
    let ghost em = Env { mc: cfg_both(e.mc, cfg_of(item_impl.attrs@)), ..e };
//@loop 2 after
    proof { lemma_all(item_impl.items@); }
//@loop 3 mode=own
    self.functions == s1.functions, self.globals == s1.globals, self.unions == s1.unions, self.enums == s1.enums, self.typedefs == s1.typedefs,
//@loop 3 before
    let ghost s1 = *self;
//@end
}
} // verus!
fn main() {}
