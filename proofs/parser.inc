// The parser's walk over files, modules and crates: stand-ins for syn, cargo metadata and the file
// system (what of them this code reads).
#[verifier::external_body] pub struct FsPath { _p: () }
pub type FilePath = FsPath;
pub type FilePathBuf = FsPath;
impl Clone for FsPath { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl std::hash::Hash for FsPath { #[verifier::external_body] fn hash<H: std::hash::Hasher>(&self, h: &mut H) { unimplemented!() } }
impl PartialEq for FsPath { #[verifier::external_body] fn eq(&self, o: &FsPath) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
impl Eq for FsPath {}
pub axiom fn axiom_key() ensures obeys_key_model::<FsPath>(), obeys_key_model::<String>();
pub uninterp spec fn parent_of(p: FsPath) -> Option<FsPath>;
pub uninterp spec fn stem_of(p: FsPath) -> Option<Seq<char>>;
pub uninterp spec fn joined(p: FsPath, s: Seq<char>) -> FsPath;
pub uninterp spec fn ends_in(p: FsPath, s: Seq<char>) -> bool;
/// a part of a path: text
pub struct OsStr { pub s: String }
impl OsStr { #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some ==> r->0@ == self.s@ { unimplemented!() } }
pub trait VxSeg { spec fn seg(&self) -> Seq<char>; }
impl VxSeg for String { open spec fn seg(&self) -> Seq<char> { self@ } }
impl<'a> VxSeg for &'a String { open spec fn seg(&self) -> Seq<char> { (*self)@ } }
impl<'a> VxSeg for &'a str { open spec fn seg(&self) -> Seq<char> { (*self)@ } }
impl<'a> VxSeg for &'a OsStr { open spec fn seg(&self) -> Seq<char> { self.s@ } }
impl VxOwned for FsPath { type O = FsPath; open spec fn owned_rel(&self, o: FsPath) -> bool { o == *self } }
impl FsPath {
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<&FsPath>) ensures r is Some <==> parent_of(*self) is Some, r is Some ==> *r->0 == parent_of(*self)->0 { unimplemented!() }
    #[verifier::external_body] pub fn file_stem(&self) -> (r: Option<&OsStr>) ensures r is Some <==> stem_of(*self) is Some, r is Some ==> r->0.s@ == stem_of(*self)->0 { unimplemented!() }
    #[verifier::external_body] pub fn join<S: VxSeg>(&self, s: S) -> (r: FsPath) ensures r == joined(*self, s.seg()) { unimplemented!() }
    #[verifier::external_body] pub fn ends_with(&self, s: &str) -> (r: bool) ensures r == ends_in(*self, s@) { unimplemented!() }
    pub fn as_path(&self) -> (r: &FsPath) ensures *r == *self { self }
    #[verifier::external_body] pub fn to_path_buf(&self) -> (r: FsPath) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] pub fn to_string_lossy(&self) -> (r: Text) { unimplemented!() }
}
pub struct Text { pub s: String }
impl Text { #[verifier::external_body] pub fn into(self) -> (r: String) { unimplemented!() } }
/// The file system: which files exist, what the Rust files contain, and which were opened (in order).
/// It does not change during a run.
pub struct Fs { pub opened: Ghost<Seq<FsPath>>, pub world: Ghost<World> }
pub struct World { pub exists: spec_fn(FsPath) -> bool, pub text: spec_fn(FsPath) -> Seq<char> }
pub struct FileH { pub p: Ghost<FsPath> }
pub struct IoErr { }
impl Fs {
    #[verifier::external_body]
    pub fn exists<P: VxPath>(&self, p: P) -> (r: bool) ensures r == (self.world@.exists)(p.pv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn open<P: VxPath>(&mut self, p: P) -> (r: Result<FileH, IoErr>)
        ensures final(self).world@ == old(self).world@, final(self).opened@ == old(self).opened@.push(p.pv()), r is Ok ==> r->Ok_0.p@ == p.pv()
    { unimplemented!() }
}
pub trait VxPath: Sized { spec fn pv(&self) -> FsPath; }
impl VxPath for FsPath { open spec fn pv(&self) -> FsPath { *self } }
impl<'a, T: VxPath> VxPath for &'a T { open spec fn pv(&self) -> FsPath { (**self).pv() } }
impl FileH {
    #[verifier::external_body]
    pub fn vx_read(&mut self, s: &mut String, fs: &Fs) -> (r: Result<usize, IoErr>)
        ensures final(self).p@ == old(self).p@, r is Ok ==> final(s)@ == old(s)@ + (fs.world@.text)(old(self).p@)
    { unimplemented!() }
}
pub trait VxUnwrap { type T; fn vx_unwrap_ok(self) -> (r: Self::T); }
impl<T> VxUnwrap for Option<T> { type T = T; #[verifier::external_body] fn vx_unwrap_ok(self) -> (r: T) ensures self is Some, r == self->0 { self.unwrap() } }
pub open spec fn has_text(v: Seq<String>, t: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == t }
pub trait VxHas { fn contains(&self, s: &String) -> (r: bool); }
impl VxHas for Vec<String> { #[verifier::external_body] fn contains(&self, s: &String) -> (r: bool) ensures r == has_text(self@, s@) { unimplemented!() } }
/// A-add on depths (no overflow), and `String + &str`
pub trait VxAdd<B>: Sized { spec fn sum(&self, b: B, r: Self) -> bool; }
impl VxAdd<usize> for usize { open spec fn sum(&self, b: usize, r: usize) -> bool { r == *self + b } }
impl<'a> VxAdd<&'a str> for String { open spec fn sum(&self, b: &'a str, r: String) -> bool { r@ == self@ + b@ } }
#[verifier::external_body] pub fn vx_add<B, A: VxAdd<B>>(a: A, b: B) -> (r: A) ensures a.sum(b, r) { unimplemented!() }
#[verifier::external_body] pub fn vx_path_deref(x: &Option<FsPath>) -> (r: Option<&FsPath>) ensures r is Some <==> x is Some, r is Some ==> *r->0 == x->0 { unimplemented!() }
// ---- std::collections::hash_map::Entry ----
pub struct VacantEntry<'a, K, V> { pub m: &'a mut HashMap<K, V>, pub k: K }
pub struct OccupiedEntry<'a, K, V> { pub m: &'a mut HashMap<K, V>, pub k: K }
pub enum Entry<'a, K, V> { Vacant(VacantEntry<'a, K, V>), Occupied(OccupiedEntry<'a, K, V>) }
impl<'a, K, V> VacantEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn insert(self, v: V) -> (r: &'a mut V) ensures final(self.m)@ == old(self.m)@.insert(self.k, *final(r)), *r == v { unimplemented!() }
}
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn get(self) -> (r: &'a V) ensures old(self.m)@.dom().contains(self.k), *r == old(self.m)@[self.k], *final(self.m) == *old(self.m) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_entry<'a, K, V>(m: &'a mut HashMap<K, V>, k: K) -> (r: Entry<'a, K, V>)
    ensures match r {
        Entry::Vacant(e) => !old(m)@.dom().contains(k) && e.k == k && *e.m == *old(m) && *final(e.m) == *final(m),
        Entry::Occupied(e) => old(m)@.dom().contains(k) && e.k == k && *e.m == *old(m) && *final(e.m) == *final(m),
    },
{ unimplemented!() }
// ---- syn ----
pub mod syn {
use super::*;
#[verifier::external_body] pub struct Tokens { _p: () }
#[verifier::external_body] pub struct Item { _p: () }
#[verifier::external_body] pub struct Path { _p: () }
impl Path {
    pub uninterp spec fn word(&self, n: Seq<char>) -> bool;
    #[verifier::external_body] pub fn is_ident(&self, n: &str) -> (r: bool) ensures r == self.word(n@) { unimplemented!() }
}
pub struct Ident { pub s: String }
pub uninterp spec fn unraw_of(s: Seq<char>) -> Seq<char>;
impl Ident { #[verifier::external_body] pub fn unraw(&self) -> (r: &Ident) ensures r.s@ == unraw_of(self.s@) { unimplemented!() } }
impl VxOwned for Ident { type O = String; open spec fn owned_rel(&self, o: String) -> bool { o@ == self.s@ } }
pub struct LitStr { pub s: String }
impl LitStr { #[verifier::external_body] pub fn value(&self) -> (r: String) ensures r@ == self.s@ { unimplemented!() } }
pub enum Lit { Str(LitStr), Other(Tokens) }
pub struct ExprLit { pub lit: Lit, pub attrs: Tokens }
pub enum Expr { Lit(ExprLit), Other(Tokens) }
pub struct MetaNameValue { pub path: Path, pub value: Expr, pub eq_token: Tokens }
pub enum Meta { Path(Path), List(Tokens), NameValue(MetaNameValue) }
pub struct Attribute { pub meta: Meta }
/// `name` of `#[name]`, `#[name(..)]` and `#[name = ..]`
pub uninterp spec fn attr_path(a: Attribute) -> Path;
pub axiom fn axiom_attr_path(a: Attribute) ensures a.meta matches Meta::NameValue(v) ==> attr_path(a) == v.path;
impl Attribute { #[verifier::external_body] pub fn path(&self) -> (r: &Path) ensures *r == attr_path(*self) { unimplemented!() } }
/// the first `#[name = "text"]` (SynAttributeHelpers::attr_name_value_lookup, proved in c19.rs)
pub open spec fn first_value(s: Seq<Attribute>, n: Seq<char>) -> Option<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { None }
    else if first_value(s.drop_last(), n) is Some { first_value(s.drop_last(), n) }
    else { match s.last().meta { Meta::NameValue(v) => if v.path.word(n) { match v.value { Expr::Lit(l) => match l.lit { Lit::Str(t) => Some(t.s@), _ => None }, _ => None } } else { None }, _ => None } }
}
pub proof fn lemma_first_prefix(s: Seq<Attribute>, k: int, n: Seq<char>)
    requires 0 <= k <= s.len(),
    ensures first_value(s.take(k), n) is Some ==> first_value(s, n) == first_value(s.take(k), n),
    decreases s.len() - k
{
    if k == s.len() { assert(s.take(k) =~= s); }
    else { assert(s.take(k + 1).drop_last() =~= s.take(k)); lemma_first_prefix(s, k + 1, n); }
}
impl ItemMod { #[verifier::external_body] pub fn attr_name_value_lookup(&self, n: &str) -> (r: Option<String>) ensures r is Some <==> first_value(self.attrs@, n@) is Some, r is Some ==> r->0@ == first_value(self.attrs@, n@)->0 { unimplemented!() } }
pub struct ItemMod { pub attrs: Vec<Attribute>, pub ident: Ident, pub content: Option<(Tokens, Vec<Item>)> }
pub struct File { pub items: Vec<Item> }
pub struct Error { }
impl Clone for Item { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
/// the items of a source text
pub uninterp spec fn items_of(s: Seq<char>) -> Seq<Item>;
#[verifier::external_body] pub fn parse_file(s: &str) -> (r: Result<File, Error>) ensures r is Ok ==> r->Ok_0.items@ == items_of(s@) { unimplemented!() }
}
pub enum Error { CargoExpand(String, ExpandErr), ParseCannotOpenFile { crate_name: String, src_path: String }, ParseSyntaxError { crate_name: String, src_path: String, error: syn::Error } }
#[verifier::external_body] pub struct ExpandErr { _p: () }
#[verifier::external_body] pub struct Cfg { _p: () }
impl Clone for Cfg { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl Cfg {
    pub uninterp spec fn joined(s: Seq<Cfg>) -> Option<Cfg>;
    pub uninterp spec fn of_attrs(s: Seq<syn::Attribute>) -> Option<Cfg>;
    #[verifier::external_body] pub fn join(s: &Vec<Cfg>) -> (r: Option<Cfg>) ensures r == Cfg::joined(s@) { unimplemented!() }
    #[verifier::external_body] pub fn load(s: &Vec<syn::Attribute>) -> (r: Option<Cfg>) ensures r == Cfg::of_attrs(s@) { unimplemented!() }
}
// ---- cargo metadata ----
//@type src/bindgen/cargo/cargo.rs PackageRef
impl Clone for PackageRef { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct Cargo { _p: () }
#[verifier::external_body] pub struct Profile { _p: () }
impl Clone for Profile { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Profile {}
impl Cargo {
    pub uninterp spec fn src_of(&self, p: PackageRef) -> Option<FsPath>;
    pub uninterp spec fn deps_of(&self, p: PackageRef) -> Seq<(PackageRef, Option<Cfg>)>;
    pub uninterp spec fn root(&self) -> PackageRef;
    pub uninterp spec fn expansion(&self, p: PackageRef, a: bool, d: bool, f: Option<Vec<String>>, profile: Profile) -> Seq<char>;
    #[verifier::external_body] pub fn find_crate_src(&self, p: &PackageRef) -> (r: Option<FsPath>) ensures r == self.src_of(*p) { unimplemented!() }
    #[verifier::external_body] pub fn dependencies(&self, p: &PackageRef) -> (r: Vec<(PackageRef, Option<Cfg>)>) ensures r@ == self.deps_of(*p) { unimplemented!() }
    #[verifier::external_body] pub fn binding_crate_ref(&self) -> (r: PackageRef) ensures r == self.root() { unimplemented!() }
    #[verifier::external_body] pub fn binding_crate_name(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] pub fn expand_crate(&self, p: &PackageRef, a: bool, d: bool, f: &Option<Vec<String>>, profile: Profile) -> (r: Result<String, ExpandErr>) ensures r is Ok ==> r->Ok_0@ == self.expansion(*p, a, d, *f, profile) { unimplemented!() }
}
//@type src/bindgen/config.rs ParseExpandConfig
//@type src/bindgen/config.rs ParseConfig keep=parse_deps,include,exclude,expand,clean
pub type ParseResult = Result<Parse, Error>;
impl ParseConfig { #[verifier::external_body] pub fn default() -> (r: ParseConfig) { unimplemented!() } }
pub trait VxKeys<K> { fn vx_keys(&self) -> (r: Vec<&K>); }
impl<V> VxKeys<FsPath> for HashMap<FsPath, V> {
    #[verifier::external_body]
    fn vx_keys(&self) -> (r: Vec<&FsPath>)
        ensures forall|k: FsPath| self@.dom().contains(k) <==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]) == k,
    { unimplemented!() }
}
