// ---------------- crates: the crate itself, then its dependencies in turn ----------------
pub struct Env { pub lib: Cargo, pub cfg: Config, pub w: World }
pub open spec fn ext_opt(st: Seq<Cfg>, c: Option<Cfg>) -> Seq<Cfg> { ns(match c { Some(c) => st.push(c), None => st }) }
pub open spec fn expanded(e: Env, pkg: PackageRef) -> Seq<char> { e.lib.expansion(pkg, e.cfg.parse.expand.all_features, e.cfg.parse.expand.default_features, e.cfg.parse.expand.features, e.cfg.parse.expand.profile) }
pub open spec fn walk_root(e: Env, seg: Seq<Ev>, st: Seq<Cfg>, pkg: PackageRef) -> bool {
    if has_text(e.cfg.parse.expand.crates@, pkg.name@) { walk_items(e.w, seg, st, pkg.name@, nd(Dir { mod_dir: None, sub: None, inline: false, modrs: true }), syn::items_of(expanded(e, pkg))) }
    else { match e.lib.src_of(pkg) { Some(p) => walk_file(e.w, seg, st, pkg.name@, p, true), None => seg.len() == 0 } }
}
pub open spec fn walk_crate(n: nat, e: Env, seg: Seq<Ev>, st: Seq<Cfg>, s: Set<Seq<char>>, s2: Set<Seq<char>>, pkg: PackageRef) -> bool
    decreases n, 0nat
{
    n > 0 && exists|k: int| 0 <= k <= seg.len() && walk_root(e, #[trigger] seg.take(k), st, pkg)
        && walk_deps((n - 1) as nat, e, seg.skip(k), st, s.insert(pkg.name@), s2, e.lib.deps_of(pkg), e.lib.deps_of(pkg).len())
}
/// the first i dependencies
pub open spec fn walk_deps(n: nat, e: Env, seg: Seq<Ev>, st: Seq<Cfg>, s: Set<Seq<char>>, s2: Set<Seq<char>>, ds: Seq<(PackageRef, Option<Cfg>)>, i: nat) -> bool
    decreases n, i + 1
{
    if i == 0 || i > ds.len() { seg.len() == 0 && s == s2 }
    else { exists|k: int, sm: Set<Seq<char>>| 0 <= k <= seg.len() && #[trigger] cut(seg, k, sm) && walk_deps(n, e, seg.take(k), st, s, sm, ds, (i - 1) as nat) && walk_dep(n, e, seg.skip(k), st, sm, s2, ds[i - 1]) }
}
pub open spec fn cut(seg: Seq<Ev>, k: int, sm: Set<Seq<char>>) -> bool { true }
pub open spec fn walk_dep(n: nat, e: Env, seg: Seq<Ev>, st: Seq<Cfg>, s: Set<Seq<char>>, s2: Set<Seq<char>>, d: (PackageRef, Option<Cfg>)) -> bool
    decreases n, 1nat
{
    (dep_ok(e.cfg, s, d.0.name@, false) && seg.len() == 0 && s == s2) || (dep_ok(e.cfg, s, d.0.name@, true) && walk_crate(n, e, seg, ext_opt(st, d.1), s, s2, d.0))
}
// a longer bound on the depth changes nothing
proof fn lemma_crate_more(n: nat, m: nat, e: Env, seg: Seq<Ev>, st: Seq<Cfg>, s: Set<Seq<char>>, s2: Set<Seq<char>>, pkg: PackageRef)
    requires walk_crate(n, e, seg, st, s, s2, pkg), n <= m,
    ensures walk_crate(m, e, seg, st, s, s2, pkg),
    decreases n, 0nat
{
    let k = choose|k: int| 0 <= k <= seg.len() && walk_root(e, #[trigger] seg.take(k), st, pkg)
        && walk_deps((n - 1) as nat, e, seg.skip(k), st, s.insert(pkg.name@), s2, e.lib.deps_of(pkg), e.lib.deps_of(pkg).len());
    lemma_deps_more((n - 1) as nat, (m - 1) as nat, e, seg.skip(k), st, s.insert(pkg.name@), s2, e.lib.deps_of(pkg), e.lib.deps_of(pkg).len());
}
proof fn lemma_deps_more(n: nat, m: nat, e: Env, seg: Seq<Ev>, st: Seq<Cfg>, s: Set<Seq<char>>, s2: Set<Seq<char>>, ds: Seq<(PackageRef, Option<Cfg>)>, i: nat)
    requires walk_deps(n, e, seg, st, s, s2, ds, i), n <= m,
    ensures walk_deps(m, e, seg, st, s, s2, ds, i),
    decreases n, i + 1
{
    if i > 0 && i <= ds.len() {
        let (k, sm) = choose|k: int, sm: Set<Seq<char>>| 0 <= k <= seg.len() && #[trigger] cut(seg, k, sm) && walk_deps(n, e, seg.take(k), st, s, sm, ds, (i - 1) as nat) && walk_dep(n, e, seg.skip(k), st, sm, s2, ds[i - 1]);
        lemma_deps_more(n, m, e, seg.take(k), st, s, sm, ds, (i - 1) as nat);
        lemma_dep_more(n, m, e, seg.skip(k), st, sm, s2, ds[i - 1]);
        assert(cut(seg, k, sm));
    }
}
proof fn lemma_dep_more(n: nat, m: nat, e: Env, seg: Seq<Ev>, st: Seq<Cfg>, s: Set<Seq<char>>, s2: Set<Seq<char>>, d: (PackageRef, Option<Cfg>))
    requires walk_dep(n, e, seg, st, s, s2, d), n <= m,
    ensures walk_dep(m, e, seg, st, s, s2, d),
    decreases n, 1nat
{
    if dep_ok(e.cfg, s, d.0.name@, true) && walk_crate(n, e, seg, ext_opt(st, d.1), s, s2, d.0) { lemma_crate_more(n, m, e, seg, ext_opt(st, d.1), s, s2, d.0); }
}
/// with some bound on the depth
pub open spec fn walks_crate(e: Env, seg: Seq<Ev>, st: Seq<Cfg>, s: Set<Seq<char>>, s2: Set<Seq<char>>, pkg: PackageRef) -> bool { exists|n: nat| #[trigger] walk_crate(n, e, seg, st, s, s2, pkg) }
pub open spec fn walks_deps(e: Env, seg: Seq<Ev>, st: Seq<Cfg>, s: Set<Seq<char>>, s2: Set<Seq<char>>, ds: Seq<(PackageRef, Option<Cfg>)>, i: nat) -> bool { exists|n: nat| #[trigger] walk_deps(n, e, seg, st, s, s2, ds, i) }
proof fn lemma_dep_skipped(e: Env, seg: Seq<Ev>, st: Seq<Cfg>, s: Set<Seq<char>>, s2: Set<Seq<char>>, ds: Seq<(PackageRef, Option<Cfg>)>, i: nat)
    requires i < ds.len(), walks_deps(e, seg, st, s, s2, ds, i), dep_ok(e.cfg, s2, ds[i as int].0.name@, false),
    ensures walks_deps(e, seg, st, s, s2, ds, i + 1),
{
    let n = choose|n: nat| #[trigger] walk_deps(n, e, seg, st, s, s2, ds, i);
    assert(seg.take(seg.len() as int) =~= seg);
    assert(cut(seg, seg.len() as int, s2));
    assert(walk_dep(n, e, seg.skip(seg.len() as int), st, s2, s2, ds[i as int]));
    assert(walk_deps(n, e, seg, st, s, s2, ds, i + 1));
}
proof fn lemma_dep_taken(e: Env, a: Seq<Ev>, b: Seq<Ev>, st: Seq<Cfg>, s: Set<Seq<char>>, sm: Set<Seq<char>>, s2: Set<Seq<char>>, ds: Seq<(PackageRef, Option<Cfg>)>, i: nat)
    requires i < ds.len(), walks_deps(e, a, st, s, sm, ds, i), dep_ok(e.cfg, sm, ds[i as int].0.name@, true), walks_crate(e, b, ext_opt(st, ds[i as int].1), sm, s2, ds[i as int].0),
    ensures walks_deps(e, a + b, st, s, s2, ds, i + 1),
{
    let n = choose|n: nat| #[trigger] walk_deps(n, e, a, st, s, sm, ds, i);
    let m = choose|m: nat| #[trigger] walk_crate(m, e, b, ext_opt(st, ds[i as int].1), sm, s2, ds[i as int].0);
    let x = if n > m { n } else { m };
    lemma_deps_more(n, x, e, a, st, s, sm, ds, i);
    lemma_crate_more(m, x, e, b, ext_opt(st, ds[i as int].1), sm, s2, ds[i as int].0);
    let seg = a + b; let k = a.len() as int;
    assert(seg.take(k) =~= a); assert(seg.skip(k) =~= b);
    assert(cut(seg, k, sm));
    assert(walk_dep(x, e, b, st, sm, s2, ds[i as int]));
    assert(walk_deps(x, e, seg, st, s, s2, ds, i + 1));
}
proof fn lemma_crate(e: Env, a: Seq<Ev>, b: Seq<Ev>, st: Seq<Cfg>, s: Set<Seq<char>>, s2: Set<Seq<char>>, pkg: PackageRef)
    requires walk_root(e, a, st, pkg), walks_deps(e, b, st, s.insert(pkg.name@), s2, e.lib.deps_of(pkg), e.lib.deps_of(pkg).len()),
    ensures walks_crate(e, a + b, st, s, s2, pkg),
{
    let n = choose|n: nat| #[trigger] walk_deps(n, e, b, st, s.insert(pkg.name@), s2, e.lib.deps_of(pkg), e.lib.deps_of(pkg).len());
    let seg = a + b; let k = a.len() as int;
    assert(seg.take(k) =~= a); assert(seg.skip(k) =~= b);
    assert(walk_crate((n + 1) as nat, e, seg, st, s, s2, pkg));
}
/// a crate is expanded once
pub open spec fn once(p: Parser) -> bool { forall|n: Seq<char>| #[trigger] p.cache_expanded_crate@.dom().contains(n) ==> p.parsed_crates@.contains(n) }
pub open spec fn env(p: Parser, fs: Fs) -> Env { Env { lib: p.lib->0, cfg: *p.config, w: fs.world@ } }
impl<'a> Parser<'a> {
//@fn src/bindgen/parser.rs Parser::parse_expand_crate r fs unwrap_ok nat panics=ok
    requires cache_ok(*old(self), old(__fs).world@), old(self).lib is Some, !old(self).cache_expanded_crate@.dom().contains(pkg.name@),
    ensures r is Ok ==> later(*old(self), *final(self)) && frame(*old(self), *old(__fs), *final(self), *final(__fs)) && final(self).parsed_crates == old(self).parsed_crates
            && final(self).cache_expanded_crate@.dom() =~= old(self).cache_expanded_crate@.dom().insert(pkg.name@)
            && walk_items(old(__fs).world@, since(*old(self), *final(self)), ns(old(self).cfg_stack@), pkg.name@, nd(Dir { mod_dir: None, sub: None, inline: false, modrs: true }), syn::items_of(expanded(env(*old(self), *old(__fs)), *pkg))),
//@sig fn parse_expand_crate(&mut self, pkg: &PackageRef, __fs: &mut Fs) -> (r: Result<(), Error>)
//@end
//@fn src/bindgen/parser.rs Parser::parse_crate r fs unwrap_ok nat panics=ok loops=1
    requires cache_ok(*old(self), old(__fs).world@), old(self).lib is Some, once(*old(self)), !old(self).parsed_crates@.contains(pkg.name@),
    ensures r is Ok ==> later(*old(self), *final(self)) && frame(*old(self), *old(__fs), *final(self), *final(__fs)) && once(*final(self))
            && walks_crate(env(*old(self), *old(__fs)), since(*old(self), *final(self)), ns(old(self).cfg_stack@), old(self).parsed_crates@, final(self).parsed_crates@, *pkg),
//@sig fn parse_crate(&mut self, pkg: &PackageRef, __fs: &mut Fs) -> (r: Result<(), Error>)
//@pre
    let ghost p0 = *self; let ghost f0 = *__fs; let ghost e = env(*self, *__fs); let ghost st = ns(self.cfg_stack@); let ghost mut p1 = *self;
    let ghost ds = e.lib.deps_of(*pkg);
    proof { lemma_since_none(p0, p0); }
//@loop 0 mode=own
//@loop 0 before
    proof { p1 = *self; lemma_since_none(p1, p1); assert(p1.parsed_crates@ =~= p0.parsed_crates@.insert(pkg.name@)); assert(walk_deps(0, e, since(p1, p1), st, p1.parsed_crates@, p1.parsed_crates@, ds, 0)); }
//@loop 0
    later(p1, *self), frame(p0, f0, *self, *__fs), once(*self), walks_deps(e, since(p1, *self), st, p1.parsed_crates@, self.parsed_crates@, ds, __i0 as nat),
//@loop 0 pre
    let ghost pa = *self;
    proof { if dep_ok(e.cfg, self.parsed_crates@, ds[__k0 as int].0.name@, false) { lemma_dep_skipped(e, since(p1, *self), st, p1.parsed_crates@, self.parsed_crates@, ds, __k0 as nat); } }
//@loop 0 post
    proof {
        let i = __i0 - 1;
        assert(ns(self.cfg_stack@) =~= st);
        lemma_since(p1, pa, *self);
        lemma_dep_taken(e, since(p1, pa), since(pa, *self), st, p1.parsed_crates@, pa.parsed_crates@, self.parsed_crates@, ds, i as nat);
    }
//@post
    proof { lemma_since(p0, p1, *self); lemma_crate(e, since(p0, p1), since(p1, *self), st, p0.parsed_crates@, self.parsed_crates@, *pkg); }
//@end
}
/// the trace of a whole parse
pub open spec fn trace(p: Parse) -> Seq<Ev> { p.log@ }
//@fn src/bindgen/parser.rs parse_src r fs unwrap_ok nat panics=ok loops=1
    ensures r is Ok ==> stem_of(*src_file) is Some && walk_file(old(__fs).world@, trace(r->Ok_0), ns(Seq::<Cfg>::empty()), stem_of(*src_file)->0, *src_file, true),
//@sig fn parse_src(src_file: &FilePath, config: &Config, __fs: &mut Fs) -> (r: ParseResult)
//@pre
    let ghost w = __fs.world@; let ghost mut t = Seq::<Ev>::empty();
//@loop 0 before
    proof { t = context.out.log@; assert(t.skip(0) =~= t); assert(context.cfg_stack@ == context.cfg_stack@); }
//@loop 0
    context.out.log@ == t,
//@end
//@fn src/bindgen/parser.rs parse_lib r fs unwrap_ok nat panics=ok loops=1
    ensures r is Ok ==> exists|s: Set<Seq<char>>| #[trigger] walks_crate(Env { lib, cfg: *config, w: old(__fs).world@ }, trace(r->Ok_0), ns(Seq::<Cfg>::empty()), Set::<Seq<char>>::empty(), s, lib.root()),
//@sig fn parse_lib(lib: Cargo, config: &Config, __fs: &mut Fs) -> (r: ParseResult)
//@pre
    let ghost w = __fs.world@; let ghost mut t = Seq::<Ev>::empty();
//@loop 0 before
    proof { t = context.out.log@; assert(t.skip(0) =~= t); assert(walks_crate(Env { lib, cfg: *config, w }, t, ns(Seq::<Cfg>::empty()), Set::<Seq<char>>::empty(), context.parsed_crates@, lib.root())); }
//@loop 0
    context.out.log@ == t, walks_crate(Env { lib, cfg: *config, w }, t, ns(Seq::<Cfg>::empty()), Set::<Seq<char>>::empty(), context.parsed_crates@, lib.root()),
//@post
    proof { assert(trace(__ret->Ok_0) == t); }
//@end
