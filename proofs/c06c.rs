//@include prelude.inc
verus! {
//@type src/bindgen/ir/cfg.rs Cfg
pub mod syn {
use super::*;
#[verifier::external_body] pub struct Tokens { _p: () }
#[verifier::external_body] pub struct Path { _p: () }
impl Path {
    /// the path is this single identifier
    pub uninterp spec fn word(&self, n: Seq<char>) -> bool;
    #[verifier::external_body] pub fn is_ident(&self, n: &str) -> (r: bool) ensures r == self.word(n@) { unimplemented!() }
}
pub struct MetaList { pub path: Path, pub tokens: Tokens }
impl MetaList {
    /// the condition between the parentheses (impl Parse for Cfg), if it is one
    pub uninterp spec fn cfg(&self) -> Option<Cfg>;
    #[verifier::external_body] pub fn vx_cfg(&self) -> (r: Option<Cfg>) ensures r == self.cfg() { unimplemented!() }
}
pub enum Meta { Path(Path), List(MetaList), NameValue(Tokens) }
pub struct Attribute { pub meta: Meta }
/// a text read as the inside of an attribute (syn::parse_str)
pub uninterp spec fn meta_of(s: Seq<char>) -> Option<Meta>;
#[verifier::external_body] pub fn vx_meta(s: &String) -> (r: Result<Meta, ()>) ensures r is Ok <==> meta_of(s@) is Some, r is Ok ==> r->Ok_0 == meta_of(s@)->0 { unimplemented!() }
}
//@type src/bindgen/cargo/cargo_metadata.rs Dependency
// ---------------- specification ----------------
/// the condition of one `#[cfg(...)]`
pub open spec fn cond(a: syn::Attribute) -> Option<Cfg> { match a.meta { syn::Meta::List(l) => if l.path.word("cfg"@) { l.cfg() } else { None }, _ => None } }
/// the conditions of an item, in order
pub open spec fn conds(a: Seq<syn::Attribute>) -> Seq<Cfg>
    decreases a.len()
{ if a.len() == 0 { Seq::empty() } else { match cond(a.last()) { Some(c) => conds(a.drop_last()).push(c), None => conds(a.drop_last()) } } }
pub type Opts = spec_fn((Seq<char>, Option<Seq<char>>)) -> bool;
/// rustc's meaning of a condition
pub open spec fn rust_cfg(c: Cfg, o: spec_fn((Seq<char>, Option<Seq<char>>)) -> bool) -> bool
    decreases c
{
    match c {
        Cfg::Boolean(n) => o((n@, None)),
        Cfg::Named(n, v) => o((n@, Some(v@))),
        Cfg::Any(xs) => exists|i: int| 0 <= i < xs@.len() && rust_cfg(#[trigger] xs@[i], o),
        Cfg::All(xs) => forall|i: int| 0 <= i < xs@.len() ==> rust_cfg(#[trigger] xs@[i], o),
        Cfg::Not(x) => !rust_cfg(*x, o),
    }
}
pub open spec fn all_of(xs: Seq<Cfg>, o: spec_fn((Seq<char>, Option<Seq<char>>)) -> bool) -> bool { forall|i: int| 0 <= i < xs.len() ==> rust_cfg(#[trigger] xs[i], o) }
/// C06: the condition is that of all `#[cfg]` attributes together, whatever the options are
pub open spec fn means(r: Option<Cfg>, xs: Seq<Cfg>) -> bool {
    &&& r is None <==> xs.len() == 0
    &&& r is Some ==> forall|o: spec_fn((Seq<char>, Option<Seq<char>>)) -> bool| #[trigger] rust_cfg(r->0, o) == all_of(xs, o)
}
/// the condition of a dependency: `[target.'cfg(...)'.dependencies]`, or the name of a target
pub open spec fn dep_cond(t: Option<String>, r: Option<Cfg>) -> bool {
    match t {
        None => r is None,
        Some(s) => match syn::meta_of(s@) {
            None => r matches Some(Cfg::Boolean(n)) && n@ == s@,
            Some(syn::Meta::List(l)) => r == if l.path.word("cfg"@) { l.cfg() } else { None },
            Some(_) => r is None,
        },
    }
}
#[verifier::external_body] pub fn vx_pop(v: &mut Vec<Cfg>) -> (r: Option<Cfg>) ensures old(v)@.len() > 0 ==> r == Some(old(v)@.last()) { v.pop() }
impl Cfg {
//@fn src/bindgen/ir/cfg.rs Cfg::load r loops=1
    ensures means(r, conds(attrs@)),
//@subst syn::Meta::List(meta @ syn::MetaList { path, .. }) = &attr.meta => syn::Meta::List(meta) = &attr.meta
//@subst path.is_ident( => meta.path.is_ident(
//@subst meta.parse_args().ok() => meta.vx_cfg()
//@subst configs.pop() => vx_pop(&mut configs)
//@loop 0 before
    proof { assert(configs@ =~= conds(attrs@.take(0))); }
//@loop 0
    __s0@ == attrs@, configs@ == conds(attrs@.take(__i0 as int)),
//@loop 0 pre
    proof { assert(attrs@.take(__k0 + 1).drop_last() =~= attrs@.take(__k0 as int)); }
//@loop 0 after
    proof { assert(attrs@.take(attrs@.len() as int) =~= attrs@); }
    let ghost all = configs@;
//@post
    proof {
        let xs = conds(attrs@);
        if __ret is Some {
            assert forall|o: spec_fn((Seq<char>, Option<Seq<char>>)) -> bool| #[trigger] rust_cfg(__ret->0, o) == all_of(xs, o) by {
                if xs.len() == 1 { assert(xs[0] == __ret->0); assert(all_of(xs, o) == rust_cfg(xs[0], o)); } else { assert(__ret->0 is All); let v = __ret->0->All_0; assert(v@ == xs); assert(rust_cfg(__ret->0, o) == forall|i: int| 0 <= i < v@.len() ==> rust_cfg(#[trigger] v@[i], o)); }
            }
        }
    }
//@end
//@fn src/bindgen/ir/cfg.rs Cfg::load_metadata r
    ensures dep_cond(dependency.target, r),
//@subst syn::parse_str::<syn::Meta>(target) => syn::vx_meta(target)
//@subst meta.parse_args().ok() => meta.vx_cfg()
//@end
}
} // verus!
fn main() {}
