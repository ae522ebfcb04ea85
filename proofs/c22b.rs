//@include prelude.inc
verus! {
//@include parser.inc
//@gsubst .extend_from_slice( => .vx_extend(
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct ItemMap<T> { _p: std::marker::PhantomData<T> }
impl<T> ItemMap<T> {
    #[verifier::external_body] pub fn extend_with(&mut self, o: &ItemMap<T>) { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: ItemMap<T>) { unimplemented!() }
}
#[verifier::external_body] pub struct Constant { _p: () }
#[verifier::external_body] pub struct Static { _p: () }
#[verifier::external_body] pub struct Enum { _p: () }
#[verifier::external_body] pub struct Struct { _p: () }
#[verifier::external_body] pub struct Union { _p: () }
#[verifier::external_body] pub struct OpaqueItem { _p: () }
#[verifier::external_body] pub struct Typedef { _p: () }
#[verifier::external_body] pub struct Function { _p: () }
impl Clone for Function { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
//@type src/bindgen/config.rs Config keep=parse,config_path,only_target_dependencies
pub type StdPathBuf = FsPath;
pub type PathBuf = FsPath;
pub mod path { pub type PathBuf = super::FsPath; }
/// Default::default() of some type
#[verifier::external_body] pub fn vx_default<T>() -> (r: T) { unimplemented!() }
#[verifier::external_body] pub fn vx_is_running() -> (r: bool) { unimplemented!() }
#[verifier::external_body] pub struct ItemContainer { _p: () }
#[verifier::external_body] pub struct FieldMemo { _p: () }
//@type src/bindgen/parser.rs Parse
//@type src/bindgen/parser.rs Parser
impl Clone for Config { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// Vec::extend_from_slice copies the elements
pub trait VxExt<T> { fn vx_extend(&mut self, o: &[T]); }
impl<T> VxExt<T> for Vec<T> { #[verifier::external_body] fn vx_extend(&mut self, o: &[T]) ensures final(self)@ == old(self)@ + o@ { unimplemented!() } }
/// String::clone_from
pub trait VxCloneFrom { fn clone_from(&mut self, o: &String); }

// ---------------- specification ----------------
pub open spec fn keys(p: Parser) -> Set<FsPath> { p.cache_src@.dom() }
/// everything opened meanwhile has been remembered, and everything remembered was opened
pub open spec fn tracked(p0: Parser, f0: Fs, p: Parser, f: Fs) -> bool {
    keys(p0).subset_of(keys(p)) && keys(p).subset_of(f.opened@.to_set()) && f.opened@.to_set() =~= f0.opened@.to_set().union(keys(p))
}
pub open spec fn started(p: Parser, f: Fs) -> bool { keys(p).subset_of(f.opened@.to_set()) }
proof fn lemma_trans(p0: Parser, f0: Fs, p1: Parser, f1: Fs, p2: Parser, f2: Fs)
    requires tracked(p0, f0, p1, f1), tracked(p1, f1, p2, f2),
    ensures tracked(p0, f0, p2, f2),
{ assert(f2.opened@.to_set() =~= f0.opened@.to_set().union(keys(p2))); }
broadcast proof fn lemma_to_set_push(s: Seq<FsPath>, x: FsPath)
    ensures #[trigger] s.push(x).to_set() == s.to_set().insert(x),
{
    assert(s.push(x).to_set() =~= s.to_set().insert(x)) by {
        assert forall|y: FsPath| s.to_set().insert(x).contains(y) implies s.push(x).to_set().contains(y) by {
            if y == x { assert(s.push(x)[s.len() as int] == x); }
            else { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x)[i] == y); }
        }
    }
}
impl Parse {
    #[verifier::external_body]
    pub fn load_syn_crate_mod<'a>(&mut self, config: &Config, binding_crate_name: &str, crate_name: &str, mod_cfg: Option<&Cfg>, items: &'a [syn::Item]) -> (r: Vec<&'a syn::ItemMod>)
    { unimplemented!() }
    #[verifier::external_body] pub fn new() -> (r: Parse) ensures r.source_files@.len() == 0 { unimplemented!() }
}
impl<'a> Parser<'a> {
//@fn src/bindgen/parser.rs Parser::parse_mod r fs unwrap_ok nat panics=ok
    requires started(*old(self), *old(__fs)),
    ensures r is Ok ==> tracked(*old(self), *old(__fs), *final(self), *final(__fs)),
//@sig fn parse_mod(&mut self, pkg: &PackageRef, mod_path: &FilePath, depth: usize, __fs: &mut Fs) -> (r: Result<(), Error>)
//@pre
    broadcast use lemma_to_set_push;
    let ghost p0 = *self; let ghost f0 = *__fs;
//@subst self.cache_src.entry( => vx_entry(&mut self.cache_src, 
//@end
//@fn src/bindgen/parser.rs Parser::process_mod r fs unwrap_ok nat panics=ok loops=3
    requires started(*old(self), *old(__fs)),
    ensures r is Ok ==> tracked(*old(self), *old(__fs), *final(self), *final(__fs)),
//@sig fn process_mod(&mut self, pkg: &PackageRef, mod_dir: Option<&FilePath>, submod_dir: Option<&FilePath>, items: &[syn::Item], depth: usize, is_inline: bool, is_in_mod_rs: bool, __fs: &mut Fs) -> (r: Result<(), Error>)
//@subst vx_as_deref( => vx_path_deref(
//@pre
    let ghost p0 = *self; let ghost f0 = *__fs;
    proof { assert(f0.opened@.to_set().union(keys(p0)) =~= f0.opened@.to_set()); }
//@loop 0
    tracked(p0, f0, *self, *__fs),
//@loop 0 mode=own
//@loop 0 pre
    let ghost mut pa = *self; let ghost mut fa = *__fs;
//@loop 0 post
    proof { if keys(*self) != keys(pa) || *__fs != fa { lemma_trans(p0, f0, pa, fa, *self, *__fs); } }
//@loop 1
    keys(*self) == keys(pa), *__fs == fa,
//@loop 2
    keys(*self) == keys(pa), *__fs == fa,
//@end
    #[verifier::external_body] fn should_parse_dependency(&self, pkg_name: &str) -> (r: bool) { unimplemented!() }
//@fn src/bindgen/parser.rs Parser::parse_expand_crate r fs unwrap_ok nat panics=ok
    requires started(*old(self), *old(__fs)),
    ensures r is Ok ==> tracked(*old(self), *old(__fs), *final(self), *final(__fs)),
//@sig fn parse_expand_crate(&mut self, pkg: &PackageRef, __fs: &mut Fs) -> (r: Result<(), Error>)
//@end
//@fn src/bindgen/parser.rs Parser::parse_crate r fs unwrap_ok nat panics=ok loops=1
    requires started(*old(self), *old(__fs)),
    ensures r is Ok ==> tracked(*old(self), *old(__fs), *final(self), *final(__fs)),
//@sig fn parse_crate(&mut self, pkg: &PackageRef, __fs: &mut Fs) -> (r: Result<(), Error>)
//@pre
    let ghost p0 = *self; let ghost f0 = *__fs;
    proof { assert(f0.opened@.to_set().union(keys(p0)) =~= f0.opened@.to_set()); }
//@loop 0 mode=own
//@loop 0
    tracked(p0, f0, *self, *__fs),
//@loop 0 pre
    let ghost pa = *self; let ghost fa = *__fs;
//@loop 0 post
    proof { if keys(*self) != keys(pa) || *__fs != fa { lemma_trans(p0, f0, pa, fa, *self, *__fs); } }
//@end
}
/// what a parse lists
pub open spec fn lists(v: Seq<FsPath>, f0: Fs, f: Fs) -> bool {
    v.to_set().subset_of(f.opened@.to_set()) && f.opened@.to_set() =~= f0.opened@.to_set().union(v.to_set())
}
//@fn src/bindgen/parser.rs parse_src r fs unwrap_ok nat panics=ok loops=1
    ensures r is Ok ==> lists(r->Ok_0.source_files@, *old(__fs), *final(__fs)),
//@sig fn parse_src(src_file: &FilePath, config: &Config, __fs: &mut Fs) -> (r: ParseResult)
//@pre
    let ghost f0 = *__fs;
//@loop 0
    __r0@.len() == __i0, forall|j: int| 0 <= j < __i0 ==> __r0@[j] == *(#[trigger] __s0@[j]),
//@loop 0 after
    proof {
        assert forall|k: FsPath| __r0@.to_set().contains(k) <==> keys(context).contains(k) by {
            if __r0@.to_set().contains(k) { let j = choose|j: int| 0 <= j < __r0@.len() && __r0@[j] == k; assert(*__s0@[j] == k); }
            if keys(context).contains(k) { let j = choose|j: int| 0 <= j < __s0@.len() && *(#[trigger] __s0@[j]) == k; assert(__r0@[j] == k); }
        }
        assert(__r0@.to_set() =~= keys(context));
    }
//@end
//@fn src/bindgen/parser.rs parse_lib r fs unwrap_ok nat panics=ok loops=1
    ensures r is Ok ==> lists(r->Ok_0.source_files@, *old(__fs), *final(__fs)),
//@sig fn parse_lib(lib: Cargo, config: &Config, __fs: &mut Fs) -> (r: ParseResult)
//@pre
    let ghost f0 = *__fs;
//@loop 0
    __r0@.len() == __i0, forall|j: int| 0 <= j < __i0 ==> __r0@[j] == *(#[trigger] __s0@[j]),
//@loop 0 after
    proof {
        assert forall|k: FsPath| __r0@.to_set().contains(k) <==> keys(context).contains(k) by {
            if __r0@.to_set().contains(k) { let j = choose|j: int| 0 <= j < __r0@.len() && __r0@[j] == k; assert(*__s0@[j] == k); }
            if keys(context).contains(k) { let j = choose|j: int| 0 <= j < __s0@.len() && *(#[trigger] __s0@[j]) == k; assert(__r0@[j] == k); }
        }
        assert(__r0@.to_set() =~= keys(context));
    }
//@end
broadcast proof fn lemma_set_add(a: Seq<FsPath>, b: Seq<FsPath>)
    ensures #[trigger] (a + b).to_set() == a.to_set().union(b.to_set()),
{
    assert forall|k: FsPath| a.to_set().union(b.to_set()).contains(k) implies (a + b).to_set().contains(k) by {
        if a.contains(k) { let j = choose|j: int| 0 <= j < a.len() && a[j] == k; assert((a + b)[j] == k); }
        else { let j = choose|j: int| 0 <= j < b.len() && b[j] == k; assert((a + b)[a.len() + j] == k); }
    }
    assert((a + b).to_set() =~= a.to_set().union(b.to_set()));
}
impl Parse {
//@fn src/bindgen/parser.rs Parse::extend_with r
    ensures final(self).source_files@ == old(self).source_files@ + other.source_files@,
//@end
}
//@type src/bindgen/library.rs Library
//@type src/bindgen/bindings.rs Bindings drop=struct_fileds_memo
impl Library {
//@fn src/bindgen/library.rs Library::new r
    ensures r.source_files == source_files, r.config == config,
//@end
    /// the passes over the items leave the list of files and the configuration alone
    #[verifier::external_body]
    pub fn generate(self, __fs: &mut Fs) -> (r: Result<Bindings, Error>)
        ensures *final(__fs) == *old(__fs), r is Ok ==> r->Ok_0.source_files == self.source_files && r->Ok_0.config.config_path == self.config.config_path && !r->Ok_0.noop
    { unimplemented!() }
}
impl Bindings {
//@fn src/bindgen/bindings.rs Bindings::new r
    ensures r.source_files == source_files, r.noop == noop, r.config == config,
//@subst struct_fileds_memo: Default::default(), => 
//@end
}
impl Cargo {
    #[verifier::external_body]
    pub fn load(dir: &FsPath, lock: Option<&FsPath>, name: Option<&str>, deps: bool, clean: bool, only: bool, meta: Option<&FsPath>) -> (r: Result<Cargo, Error>) { unimplemented!() }
}
impl Parse { #[verifier::external_body] pub fn add_std_types(&mut self) ensures final(self).source_files == old(self).source_files { unimplemented!() } }
impl Clone for Cargo { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@type src/bindgen/builder.rs Builder
impl Builder {
//@fn src/bindgen/builder.rs Builder::generate r fs loops=1
    ensures
        // every file that was opened is listed, besides the files the caller named
        r is Ok && !r->Ok_0.noop ==> ({
            let l = r->Ok_0.source_files@.to_set();
            final(__fs).opened@.to_set().subset_of(old(__fs).opened@.to_set().union(l)) && l.subset_of(final(__fs).opened@.to_set().union(self.srcs@.to_set()))
        }),
        r is Ok ==> r->Ok_0.config.config_path == self.config.config_path,
//@sig fn generate(self, __fs: &mut Fs) -> (r: Result<Bindings, Error>)
//@subst std::env::var("_CBINDGEN_IS_RUNNING").is_ok() => vx_is_running()
//@subst Default::default() => vx_default()
//@subst vx_as_deref(&self.lockfile) => vx_path_deref(&self.lockfile)
//@pre
    broadcast use lemma_set_add;
    let ghost f0 = *__fs;
//@loop 0 before
    proof { assert(result.source_files@.to_set() =~= Set::<FsPath>::empty()); }
//@loop 0
    lists(result.source_files@, f0, *__fs),
//@end
}
} // verus!
fn main() {}
