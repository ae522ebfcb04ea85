//@include prelude.inc
verus! {
//@include parser.inc
//@include crates_pre.inc
pub struct Parse { pub log: Ghost<Seq<Ev>>, pub source_files: Vec<FsPath>, pub package_version: String }
//@type src/bindgen/parser.rs Parser
// ---------------- specification: which file a module is in ----------------
pub open spec fn path_attr(s: Seq<syn::Attribute>) -> Option<Seq<char>> { syn::first_value(s, "path"@) }
/// what #[path] is relative to
pub open spec fn path_base(d: Dir) -> Option<FsPath> { if d.inline && !d.modrs { d.sub } else { d.mod_dir } }
pub open spec fn mod_file(w: World, d: Dir, m: syn::ItemMod) -> Option<(FsPath, bool)> {
    if d.mod_dir is None || d.sub is None { None }
    else {
        let p1 = joined(d.sub->0, name_of(m) + ".rs"@);
        let p2 = joined(joined(d.sub->0, name_of(m)), "mod.rs"@);
        if some_path(m.attrs@) { match path_attr(m.attrs@) { Some(t) => Some((joined(path_base(d)->0, t), true)), None => None } }
        else if (w.exists)(p1) { Some((p1, false)) } else if (w.exists)(p2) { Some((p2, false)) } else { None }
    }
}
pub open spec fn some_path(s: Seq<syn::Attribute>) -> bool { exists|i: int| 0 <= i < s.len() && syn::attr_path(#[trigger] s[i]).word("path"@) }
pub open spec fn inline_dir(d: Dir, m: syn::ItemMod) -> Dir {
    match path_attr(m.attrs@) {
        Some(t) => nd(Dir { mod_dir: join_opt(path_base(d), t), sub: join_opt(path_base(d), t), inline: true, modrs: d.modrs }),
        None => nd(Dir { mod_dir: join_opt(d.mod_dir, name_of(m)), sub: join_opt(d.sub, name_of(m)), inline: true, modrs: d.modrs }),
    }
}
/// without a directory (an expanded crate) the rest does not matter
pub open spec fn nd(d: Dir) -> Dir { if d.mod_dir is None { Dir { mod_dir: None, sub: None, inline: false, modrs: false } } else { d } }
pub open spec fn file_ok(w: World, d: Dir, m: syn::ItemMod, f: Option<(FsPath, bool)>) -> bool { f == mod_file(w, d, m) }
// the conditions of the modules: c06b.rs
pub open spec fn ns(st: Seq<Cfg>) -> Seq<Cfg> { Seq::empty() }
pub open spec fn ext_attrs(st: Seq<Cfg>, a: Seq<syn::Attribute>) -> Seq<Cfg> { st }
pub open spec fn jn(st: Seq<Cfg>) -> Option<Cfg> { None }
pub open spec fn shown(c: Option<&Cfg>) -> Option<Cfg> { None }
// ---------------- specification: which dependencies are read ----------------
pub open spec fn is_std(s: Seq<char>) -> bool { s == "std"@ || s == "std_unicode"@ || s == "alloc"@ || s == "collections"@ || s == "core"@ || s == "proc_macro"@ }
pub open spec fn wanted(c: ParseConfig, parsed: Set<Seq<char>>, n: Seq<char>) -> bool {
    !parsed.contains(n) && c.parse_deps
        && (has_text(c.expand.crates@, n) || ((match c.include { Some(v) => has_text(v@, n), None => true }) && !is_std(n) && !has_text(c.exclude@, n)))
}
pub open spec fn dep_ok(c: Config, parsed: Set<Seq<char>>, n: Seq<char>, taken: bool) -> bool { taken == wanted(c.parse, parsed, n) }
//@type src/bindgen/parser.rs STD_CRATES array
pub struct VxTable;
pub const STD_CRATES: VxTable = VxTable;
/// comparing texts with ==
pub axiom fn axiom_text_eq()
    ensures
        <String as PartialEqSpec<str>>::obeys_eq_spec(), forall|a: String, b: &str| #[trigger] <String as PartialEqSpec<str>>::eq_spec(&a, b) == (a@ == b@),
        <str as PartialEqSpec<String>>::obeys_eq_spec(), forall|a: &str, b: String| #[trigger] <str as PartialEqSpec<String>>::eq_spec(a, &b) == (a@ == b@);
impl VxTable { #[verifier::external_body] pub fn contains(&self, x: &&str) -> (r: bool) ensures r == STD_CRATES_spec().contains(x@) { unimplemented!() } }
proof fn lemma_std(s: Seq<char>)
    ensures STD_CRATES_spec().contains(s) == is_std(s),
{
    let t = STD_CRATES_spec();
    if t.contains(s) { let i = choose|i: int| 0 <= i < t.len() && t[i] == s; }
    if is_std(s) { assert(exists|i: int| 0 <= i < t.len() && #[trigger] t[i] == s) by { assert(t[0] == t[0] && t[1] == t[1] && t[2] == t[2] && t[3] == t[3] && t[4] == t[4] && t[5] == t[5]); } }
}
//@include walk.inc
impl<'a> Parser<'a> {
//@fn src/bindgen/parser.rs Parser::should_parse_dependency r panics=ok loops=3
    ensures r == wanted(self.config.parse, self.parsed_crates@, pkg_name@),
//@sig fn should_parse_dependency(&self, pkg_name: &str) -> (r: bool)
//@pre
    proof { lemma_std(pkg_name@); axiom_text_eq(); }
//@loop 0
    !__r0 ==> forall|j: int| 0 <= j < __i0 ==> (#[trigger] self.config.parse.expand.crates@[j])@ != pkg_name@,
    __r0 ==> has_text(self.config.parse.expand.crates@, pkg_name@),
//@loop 1
    !__r1 ==> forall|j: int| 0 <= j < __i1 ==> (#[trigger] include@[j])@ != pkg_name@,
    __r1 ==> has_text(include@, pkg_name@),
//@loop 2
    !__r2 ==> forall|j: int| 0 <= j < __i2 ==> (#[trigger] self.config.parse.exclude@[j])@ != pkg_name@,
    __r2 ==> has_text(self.config.parse.exclude@, pkg_name@),
//@end
}
//@include crates.inc
} // verus!
fn main() {}
