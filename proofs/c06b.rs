//@include prelude.inc
verus! {
//@include parser.inc
//@include crates_pre.inc
pub struct Parse { pub log: Ghost<Seq<Ev>>, pub source_files: Vec<FsPath>, pub package_version: String }
//@type src/bindgen/parser.rs Parser
// ---------------- specification: the conditions of a module are those of everything around it ----------------
// Which file a module is in does not matter here (c19c.rs).
pub open spec fn nd(d: Dir) -> Dir { Dir { mod_dir: None, sub: None, inline: false, modrs: false } }
pub open spec fn inline_dir(d: Dir, m: syn::ItemMod) -> Dir { nd(d) }
pub open spec fn file_ok(w: World, d: Dir, m: syn::ItemMod, f: Option<(FsPath, bool)>) -> bool { true }
pub open spec fn path_attr(s: Seq<syn::Attribute>) -> Option<Seq<char>> { None }
pub open spec fn ns(st: Seq<Cfg>) -> Seq<Cfg> { st }
pub open spec fn ext_attrs(st: Seq<Cfg>, a: Seq<syn::Attribute>) -> Seq<Cfg> { match Cfg::of_attrs(a) { Some(c) => st.push(c), None => st } }
/// the items of a module are loaded under the conjunction of the stack
pub open spec fn jn(st: Seq<Cfg>) -> Option<Cfg> { Cfg::joined(st) }
pub open spec fn shown(c: Option<&Cfg>) -> Option<Cfg> { match c { Some(c) => Some(*c), None => None } }
// which dependencies are read: c19c.rs
pub open spec fn dep_ok(c: Config, parsed: Set<Seq<char>>, n: Seq<char>, taken: bool) -> bool { taken ==> !parsed.contains(n) }
//@include walk.inc
impl<'a> Parser<'a> { #[verifier::external_body] fn should_parse_dependency(&self, pkg_name: &str) -> (r: bool) ensures r ==> !self.parsed_crates@.contains(pkg_name@) { unimplemented!() } }
//@include crates.inc
} // verus!
fn main() {}
