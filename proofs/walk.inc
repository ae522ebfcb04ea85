// The walk of the parser, as a relation between what is loaded (in order) and the crate, its modules
// and their files. Each template says what of it is compared: file_ok, ext_attrs, ext_opt, jn.
pub struct Ev { pub cfg: Option<Cfg>, pub cr: Seq<char>, pub items: Seq<syn::Item> }
pub struct Dir { pub mod_dir: Option<FsPath>, pub sub: Option<FsPath>, pub inline: bool, pub modrs: bool }
pub open spec fn own(p: Option<&FsPath>) -> Option<FsPath> { match p { Some(p) => Some(*p), None => None } }
/// the modules declared by some items (those that are followed)
pub uninterp spec fn nested_of(items: Seq<syn::Item>) -> Seq<syn::ItemMod>;
pub open spec fn name_of(m: syn::ItemMod) -> Seq<char> { syn::unraw_of(m.ident.s@) }
pub open spec fn join_opt(p: Option<FsPath>, s: Seq<char>) -> Option<FsPath> { match p { Some(p) => Some(joined(p, s)), None => None } }
pub open spec fn file_dir(p: FsPath, top: bool) -> Dir {
    let modrs = top || ends_in(p, "mod.rs"@);
    nd(Dir { mod_dir: parent_of(p), sub: if modrs { parent_of(p) } else { Some(joined(parent_of(p)->0, stem_of(p)->0)) }, inline: false, modrs })
}
/// a file was read (a name for the solver to find it by; always true)
pub open spec fn read(p: FsPath, top: bool) -> bool { true }
/// items: first the items themselves, then each module in turn
pub open spec fn walk_items(w: World, seg: Seq<Ev>, st: Seq<Cfg>, cr: Seq<char>, d: Dir, items: Seq<syn::Item>) -> bool
    decreases seg.len(), 0int
{
    seg.len() > 0 && seg[0] == (Ev { cfg: jn(st), cr, items }) && walk_mods(w, seg.skip(1), st, cr, d, nested_of(items), nested_of(items).len())
}
pub open spec fn walk_mods(w: World, seg: Seq<Ev>, st: Seq<Cfg>, cr: Seq<char>, d: Dir, ms: Seq<syn::ItemMod>, n: nat) -> bool
    decreases seg.len(), 3 + n
{
    if n == 0 || n > ms.len() { seg.len() == 0 }
    else { exists|k: int| 0 <= k <= seg.len() && walk_mods(w, #[trigger] seg.take(k), st, cr, d, ms, (n - 1) as nat) && walk_mod(w, seg.skip(k), ext_attrs(st, ms[n - 1].attrs@), cr, d, ms[n - 1]) }
}
pub open spec fn walk_mod(w: World, seg: Seq<Ev>, st: Seq<Cfg>, cr: Seq<char>, d: Dir, m: syn::ItemMod) -> bool
    decreases seg.len(), 2int
{
    match m.content {
        Some(c) => walk_items(w, seg, st, cr, inline_dir(d, m), c.1@),
        None => (seg.len() == 0 && file_ok(w, d, m, None)) || exists|p: FsPath, top: bool| #[trigger] read(p, top) && file_ok(w, d, m, Some((p, top))) && walk_file(w, seg, st, cr, p, top),
    }
}
pub open spec fn walk_file(w: World, seg: Seq<Ev>, st: Seq<Cfg>, cr: Seq<char>, p: FsPath, top: bool) -> bool
    decreases seg.len(), 1int
{ walk_items(w, seg, st, cr, file_dir(p, top), syn::items_of((w.text)(p))) }
proof fn lemma_mods_step(w: World, a: Seq<Ev>, b: Seq<Ev>, st: Seq<Cfg>, cr: Seq<char>, d: Dir, ms: Seq<syn::ItemMod>, n: nat)
    requires n < ms.len(), walk_mods(w, a, st, cr, d, ms, n), walk_mod(w, b, ext_attrs(st, ms[n as int].attrs@), cr, d, ms[n as int]),
    ensures walk_mods(w, a + b, st, cr, d, ms, n + 1),
{
    let s = a + b;
    assert(s.take(a.len() as int) =~= a);
    assert(s.skip(a.len() as int) =~= b);
}
/// what the parser has loaded since an earlier state
pub open spec fn since(a: Parser, b: Parser) -> Seq<Ev> { b.out.log@.skip(a.out.log@.len() as int) }
pub open spec fn later(a: Parser, b: Parser) -> bool { a.out.log@.is_prefix_of(b.out.log@) }
proof fn lemma_since(a: Parser, b: Parser, c: Parser)
    requires later(a, b), later(b, c),
    ensures later(a, c), since(a, c) == since(a, b) + since(b, c),
{
    assert(c.out.log@.take(a.out.log@.len() as int) =~= a.out.log@);
    assert(since(a, c) =~= since(a, b) + since(b, c));
}
proof fn lemma_since_none(a: Parser, b: Parser)
    requires a.out.log@ == b.out.log@,
    ensures later(a, b), since(a, b) == Seq::<Ev>::empty(),
{ assert(since(a, b) =~= Seq::<Ev>::empty()); assert(a.out.log@.is_prefix_of(b.out.log@)); }
proof fn lemma_since_one(a: Parser, b: Parser, e: Ev)
    requires b.out.log@ == a.out.log@.push(e),
    ensures later(a, b), since(a, b) == seq![e],
{ assert(since(a, b) =~= seq![e]); assert(a.out.log@.is_prefix_of(b.out.log@)); }
/// remembered files hold their items
pub open spec fn cache_ok(p: Parser, w: World) -> bool { forall|f: FsPath| #[trigger] p.cache_src@.dom().contains(f) ==> p.cache_src@[f]@ == syn::items_of((w.text)(f)) }
pub open spec fn kept(a: Parser, b: Parser) -> bool { b.parsed_crates == a.parsed_crates && b.cache_expanded_crate == a.cache_expanded_crate }
pub open spec fn frame(a: Parser, fa: Fs, b: Parser, fb: Fs) -> bool {
    a.lib == b.lib && a.config == b.config && a.binding_crate_name == b.binding_crate_name && ns(b.cfg_stack@) == ns(a.cfg_stack@) && fb.world == fa.world && cache_ok(b, fb.world@)
}
impl Parse {
    #[verifier::external_body]
    pub fn load_syn_crate_mod<'a>(&mut self, config: &Config, binding_crate_name: &str, crate_name: &str, mod_cfg: Option<&Cfg>, items: &'a [syn::Item]) -> (r: Vec<&'a syn::ItemMod>)
        ensures
            final(self).log@ == old(self).log@.push(Ev { cfg: shown(mod_cfg), cr: crate_name@, items: items@ }),
            r@.len() == nested_of(items@).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == nested_of(items@)[i],
    { unimplemented!() }
    #[verifier::external_body] pub fn new() -> (r: Parse) ensures r.log@.len() == 0 { unimplemented!() }
}
proof fn lemma_path_attr(s: Seq<syn::Attribute>, i: int)
    requires 0 <= i < s.len(),
    ensures s.take(i + 1).drop_last() == s.take(i), s.take(i + 1).last() == s[i],
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
impl<'a> Parser<'a> {
//@fn src/bindgen/parser.rs Parser::parse_mod r fs unwrap_ok nat panics=ok
    requires cache_ok(*old(self), old(__fs).world@),
    ensures r is Ok ==> later(*old(self), *final(self)) && frame(*old(self), *old(__fs), *final(self), *final(__fs)) && kept(*old(self), *final(self))
            && read(*mod_path, depth == 0) && walk_file(old(__fs).world@, since(*old(self), *final(self)), ns(old(self).cfg_stack@), pkg.name@, *mod_path, depth == 0),
//@sig fn parse_mod(&mut self, pkg: &PackageRef, mod_path: &FilePath, depth: usize, __fs: &mut Fs) -> (r: Result<(), Error>)
//@subst self.cache_src.entry( => vx_entry(&mut self.cache_src, 
//@pre
    let ghost p0 = *self;
    proof { let t = (__fs.world@.text)(*mod_path); assert(""@ + t =~= t) by { reveal_strlit(""); } assert(Seq::<char>::empty() + t =~= t); }
//@end
//@fn src/bindgen/parser.rs Parser::process_mod r fs unwrap_ok nat panics=ok loops=3
    requires cache_ok(*old(self), old(__fs).world@), mod_dir is Some <==> submod_dir is Some,
    ensures r is Ok ==> later(*old(self), *final(self)) && frame(*old(self), *old(__fs), *final(self), *final(__fs)) && kept(*old(self), *final(self))
            && walk_items(old(__fs).world@, since(*old(self), *final(self)), ns(old(self).cfg_stack@), pkg.name@, nd(Dir { mod_dir: own(mod_dir), sub: own(submod_dir), inline: is_inline, modrs: is_in_mod_rs }), items@),
//@sig fn process_mod(&mut self, pkg: &PackageRef, mod_dir: Option<&FilePath>, submod_dir: Option<&FilePath>, items: &[syn::Item], depth: usize, is_inline: bool, is_in_mod_rs: bool, __fs: &mut Fs) -> (r: Result<(), Error>)
//@subst vx_as_deref( => vx_path_deref(
//@pre
    let ghost p0 = *self; let ghost f0 = *__fs; let ghost w = __fs.world@; let ghost st = ns(self.cfg_stack@);
    let ghost d = nd(Dir { mod_dir: own(mod_dir), sub: own(submod_dir), inline: is_inline, modrs: is_in_mod_rs });
    let ghost ms = nested_of(items@);
    let ghost mut p1 = *self;
//@loop 0 before
    proof { p1 = *self; lemma_since_one(p0, p1, Ev { cfg: jn(st), cr: pkg.name@, items: items@ }); lemma_since_none(p1, p1); }
//@loop 0 mode=own
//@loop 0
    later(p1, *self), frame(p0, f0, *self, *__fs), kept(p0, *self), walk_mods(w, since(p1, *self), st, pkg.name@, d, ms, __i0 as nat),
//@loop 0 pre
    let ghost pa = *self; let ghost mut done = false;
    proof { lemma_since_none(pa, pa); }
//@loop 0 post
    proof {
        let i = __i0 - 1;
        assert(ns(self.cfg_stack@) =~= st);
        lemma_since(p1, pa, *self);
        lemma_mods_step(w, since(p1, pa), since(pa, *self), st, pkg.name@, d, ms, i as nat);
    }
//@loop 1
    !__r1 ==> forall|j: int| 0 <= j < __i1 ==> !syn::attr_path(#[trigger] item.attrs@[j]).word("path"@),
    __r1 ==> exists|j: int| 0 <= j < __i1 && syn::attr_path(#[trigger] item.attrs@[j]).word("path"@),
//@loop 2
    later(pa, *self), since(pa, *self).len() == 0, self.out.log@ == pa.out.log@, self.cache_src@ == pa.cache_src@, ns(self.cfg_stack@) == ext_attrs(st, item.attrs@), self.lib == pa.lib, self.config == pa.config, self.binding_crate_name == pa.binding_crate_name, kept(pa, *self), __fs.world@ == w,
    !path_attr_found, path_attr(item.attrs@.take(__i2 as int)) is None,
//@loop 2 pre
    proof { lemma_path_attr(item.attrs@, __k2 as int); syn::lemma_first_prefix(item.attrs@, __k2 + 1, "path"@); syn::axiom_attr_path(item.attrs@[__k2 as int]); }
//@loop 2 before
    proof { assert(item.attrs@.take(0).len() == 0); }
//@loop 2 after
    proof { assert(item.attrs@.take(item.attrs@.len() as int) =~= item.attrs@); }
//@post
    proof { lemma_since(p0, p1, *self); assert(since(p0, *self).skip(1) =~= since(p1, *self)); assert(ms.take(ms.len() as int) =~= ms); }
//@end
}
