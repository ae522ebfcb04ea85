//@include prelude.inc
//@gsubst SourceWriter<F> => SourceWriter
verus! {
//@include writer_stub.inc
//@type src/bindgen/config.rs Language derive=Clone,Copy
impl PartialEq for Language { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl PartialEqSpecImpl for Language {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
//@type src/bindgen/config.rs Config keep=language,defines
//@type src/bindgen/ir/cfg.rs DefineKey
//@type src/bindgen/ir/cfg.rs Cfg
//@type src/bindgen/ir/cfg.rs Condition
impl Clone for Cfg { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl Clone for Condition { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl<'a> PartialEq for DefineKey<'a> { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl<'a> PartialEqSpecImpl for DefineKey<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { key_eq(*self, *o) }
}
pub trait VxMapIter<K, V> {
    spec fn mview(&self) -> Map<K, V>;
    /// the entries of a table, each once, in an unspecified order
    fn vx_map_iter<'a>(&'a self) -> (r: Vec<(&'a K, &'a V)>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> self.mview().contains_key(*(#[trigger] r@[i]).0) && self.mview()[*r@[i].0] == *r@[i].1,
            forall|k: K| #[trigger] self.mview().contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]).0 == k;
}
impl VxMapIter<String, String> for HashMap<String, String> {
    open spec fn mview(&self) -> Map<String, String> { self@ }
    #[verifier::external_body]
    fn vx_map_iter<'a>(&'a self) -> (r: Vec<(&'a String, &'a String)>) { unimplemented!() }
}

// ---------------- strings ----------------
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
/// the pieces of s around every c
pub open spec fn pieces(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len()
{
    if !s.contains(c) { seq![s] }
    else {
        let i = s.index_of_first(c)->0;
        if 0 <= i < s.len() { seq![s.take(i)] + pieces(s.skip(i + 1), c) } else { seq![s] }
    }
}
pub struct VxSplit<'a> { pub s: &'a str, pub p: Ghost<Seq<Seq<char>>>, pub i: Ghost<int> }
impl<'a> VxSplit<'a> {
    pub open spec fn left(&self) -> Seq<Seq<char>> { self.p@.skip(self.i@) }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures final(self).p == old(self).p,
            (0 <= old(self).i@ < old(self).p@.len()) ==> r is Some && r->0@ == old(self).p@[old(self).i@] && final(self).i@ == old(self).i@ + 1,
            !(0 <= old(self).i@ < old(self).p@.len()) ==> r is None && final(self).i == old(self).i,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_contains(s: &str, c: char) -> (r: bool) ensures r == s@.contains(c) { unimplemented!() }
#[verifier::external_body]
pub fn vx_trim(s: &str) -> (r: &str) ensures r@ == trimmed(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_split(s: &str, c: char) -> (r: VxSplit<'_>) ensures r.p@ == pieces(s@, c), r.i@ == 0 { unimplemented!() }
/// blanks are not '=', so trimming removes none of them
pub axiom fn axiom_trim_eq(s: Seq<char>)
    ensures trimmed(s).contains('=') == s.contains('=');

// ---------------- specification ----------------
pub open spec fn key_eq(a: DefineKey, b: DefineKey) -> bool {
    match (a, b) {
        (DefineKey::Boolean(x), DefineKey::Boolean(y)) => x@ == y@,
        (DefineKey::Named(x, u), DefineKey::Named(y, v)) => x@ == y@ && u@ == v@,
        _ => false,
    }
}
/// the option a `[defines]` key stands for: `name`, or `name = value` with exactly one `=`
pub open spec fn key_opt(k: Seq<char>) -> (Seq<char>, Option<Seq<char>>) {
    let p = pieces(trimmed(k), '=');
    if k.contains('=') && p.len() == 2 { (trimmed(p[0]), Some(trimmed(p[1]))) } else { (k, None) }
}
pub open spec fn opt_of(d: DefineKey) -> (Seq<char>, Option<Seq<char>>) {
    match d { DefineKey::Boolean(x) => (x@, None), DefineKey::Named(x, v) => (x@, Some(v@)) }
}
/// some entry of the table stands for option o and gives it the define d
pub open spec fn entry(m: Map<String, String>, o: (Seq<char>, Option<Seq<char>>), d: String) -> bool {
    exists|k: String| m.contains_key(k) && #[trigger] m[k] == d && key_opt(k@) == o
}
pub open spec fn has_entry(m: Map<String, String>, o: (Seq<char>, Option<Seq<char>>)) -> bool {
    exists|k: String| #[trigger] m.contains_key(k) && key_opt(k@) == o
}
/// whether anything of the cfg is left once options without an entry are dropped
pub open spec fn kept(c: Cfg, m: Map<String, String>) -> bool
    decreases c
{
    match c {
        Cfg::Boolean(n) => has_entry(m, (n@, None)),
        Cfg::Named(n, v) => has_entry(m, (n@, Some(v@))),
        Cfg::Any(xs) => xs@.len() == 0 || exists|i: int| 0 <= i < xs@.len() && kept(#[trigger] xs@[i], m),
        Cfg::All(xs) => xs@.len() == 0 || exists|i: int| 0 <= i < xs@.len() && kept(#[trigger] xs@[i], m),
        Cfg::Not(x) => kept(*x, m),
    }
}
/// an interpretation of options that agrees with one of defines through the table
pub open spec fn agrees(m: Map<String, String>, opts: spec_fn((Seq<char>, Option<Seq<char>>)) -> bool, env: spec_fn(Seq<char>) -> bool) -> bool {
    forall|k: String| #[trigger] m.contains_key(k) ==> env(m[k]@) == opts(key_opt(k@))
}
/// Rust's meaning of the cfg, over what is kept
pub open spec fn truth(c: Cfg, m: Map<String, String>, opts: spec_fn((Seq<char>, Option<Seq<char>>)) -> bool) -> bool
    decreases c
{
    match c {
        Cfg::Boolean(n) => opts((n@, None)),
        Cfg::Named(n, v) => opts((n@, Some(v@))),
        Cfg::Any(xs) => exists|i: int| 0 <= i < xs@.len() && kept(xs@[i], m) && truth(#[trigger] xs@[i], m, opts),
        Cfg::All(xs) => forall|i: int| 0 <= i < xs@.len() && kept(xs@[i], m) ==> truth(#[trigger] xs@[i], m, opts),
        Cfg::Not(x) => !truth(*x, m, opts),
    }
}
/// the preprocessor's meaning of a condition
pub open spec fn holds(c: Condition, env: spec_fn(Seq<char>) -> bool) -> bool
    decreases c
{
    match c {
        Condition::Define(d) => env(d@),
        Condition::Any(xs) => exists|i: int| 0 <= i < xs@.len() && holds(#[trigger] xs@[i], env),
        Condition::All(xs) => forall|i: int| 0 <= i < xs@.len() ==> holds(#[trigger] xs@[i], env),
        Condition::Not(x) => !holds(*x, env),
    }
}
pub open spec fn same_meaning(r: Condition, c: Cfg, m: Map<String, String>) -> bool {
    forall|opts: spec_fn((Seq<char>, Option<Seq<char>>)) -> bool, env: spec_fn(Seq<char>) -> bool|
        #[trigger] agrees(m, opts, env) ==> holds(r, env) == truth(c, m, opts)
}
/// every option has an entry
pub open spec fn all_known(c: Cfg, m: Map<String, String>) -> bool
    decreases c
{
    match c {
        Cfg::Boolean(n) => has_entry(m, (n@, None)),
        Cfg::Named(n, v) => has_entry(m, (n@, Some(v@))),
        Cfg::Any(xs) => forall|i: int| 0 <= i < xs@.len() ==> all_known(#[trigger] xs@[i], m),
        Cfg::All(xs) => forall|i: int| 0 <= i < xs@.len() ==> all_known(#[trigger] xs@[i], m),
        Cfg::Not(x) => all_known(*x, m),
    }
}
/// Rust's meaning of the whole cfg
pub open spec fn rust_cfg(c: Cfg, opts: spec_fn((Seq<char>, Option<Seq<char>>)) -> bool) -> bool
    decreases c
{
    match c {
        Cfg::Boolean(n) => opts((n@, None)),
        Cfg::Named(n, v) => opts((n@, Some(v@))),
        Cfg::Any(xs) => exists|i: int| 0 <= i < xs@.len() && rust_cfg(#[trigger] xs@[i], opts),
        Cfg::All(xs) => forall|i: int| 0 <= i < xs@.len() ==> rust_cfg(#[trigger] xs@[i], opts),
        Cfg::Not(x) => !rust_cfg(*x, opts),
    }
}
/// C06, first half: with every option known, what is kept is the whole cfg.
proof fn lemma_all_known(c: Cfg, m: Map<String, String>, opts: spec_fn((Seq<char>, Option<Seq<char>>)) -> bool)
    requires all_known(c, m),
    ensures kept(c, m), truth(c, m, opts) == rust_cfg(c, opts),
    decreases c
{
    match c {
        Cfg::Boolean(n) => {}
        Cfg::Named(n, v) => {}
        Cfg::Any(xs) => {
            assert forall|i: int| 0 <= i < xs@.len() implies kept(#[trigger] xs@[i], m) && truth(xs@[i], m, opts) == rust_cfg(xs@[i], opts) by { lemma_all_known(xs@[i], m, opts); }
            if xs@.len() > 0 { assert(kept(xs@[0], m)); }
            if truth(c, m, opts) { let i = choose|i: int| 0 <= i < xs@.len() && kept(xs@[i], m) && truth(#[trigger] xs@[i], m, opts); assert(rust_cfg(xs@[i], opts)); }
            if rust_cfg(c, opts) { let i = choose|i: int| 0 <= i < xs@.len() && rust_cfg(#[trigger] xs@[i], opts); assert(kept(xs@[i], m)); assert(truth(xs@[i], m, opts)); }
        }
        Cfg::All(xs) => {
            assert forall|i: int| 0 <= i < xs@.len() implies kept(#[trigger] xs@[i], m) && truth(xs@[i], m, opts) == rust_cfg(xs@[i], opts) by { lemma_all_known(xs@[i], m, opts); }
            if xs@.len() > 0 { assert(kept(xs@[0], m)); }
            if truth(c, m, opts) { assert forall|i: int| 0 <= i < xs@.len() implies rust_cfg(#[trigger] xs@[i], opts) by { assert(kept(xs@[i], m)); assert(truth(xs@[i], m, opts)); } }
            if rust_cfg(c, opts) { assert forall|i: int| 0 <= i < xs@.len() && kept(xs@[i], m) implies truth(#[trigger] xs@[i], m, opts) by { assert(rust_cfg(xs@[i], opts)); } }
        }
        Cfg::Not(x) => { lemma_all_known(*x, m, opts); }
    }
}
/// how a condition is written: fully parenthesised, in the syntax of the language
pub open spec fn ctext(c: Condition, cy: bool) -> Seq<char>
    decreases c
{
    match c {
        Condition::Define(d) => if cy { d@ } else { "defined("@ + d@ + ")"@ },
        Condition::Any(xs) => if xs@.len() == 0 { if cy { "False"@ } else { "0"@ } } else { "("@ + clist(xs@, xs@.len() as int, if cy { " or "@ } else { " || "@ }, cy) + ")"@ },
        Condition::All(xs) => if xs@.len() == 0 { if cy { "True"@ } else { "1"@ } } else { "("@ + clist(xs@, xs@.len() as int, if cy { " and "@ } else { " && "@ }, cy) + ")"@ },
        Condition::Not(x) => (if cy { "not "@ } else { "!"@ }) + ctext(*x, cy),
    }
}
pub open spec fn clist(xs: Seq<Condition>, n: int, sep: Seq<char>, cy: bool) -> Seq<char>
    decreases xs, 0nat, n
{
    if n <= 0 || n > xs.len() { Seq::empty() }
    else { clist(xs, n - 1, sep, cy) + (if n > 1 { sep } else { Seq::empty() }) + ctext(xs[n - 1], cy) }
}

pub open spec fn w_clist(out: Seq<char>, xs: Seq<Condition>, n: int, sep: Seq<char>, cy: bool) -> Seq<char>
    decreases n
{
    if n <= 0 || n > xs.len() { out }
    else { (if n > 1 { w_clist(out, xs, n - 1, sep, cy) + sep } else { w_clist(out, xs, n - 1, sep, cy) }) + ctext(xs[n - 1], cy) }
}
proof fn cat3(o: Seq<char>, x: Seq<char>, y: Seq<char>)
    ensures o + x + y == o + (x + y),
{ assert(o + x + y =~= o + (x + y)); }
proof fn cat4(o: Seq<char>, x: Seq<char>, y: Seq<char>, z: Seq<char>)
    ensures o + x + y + z == o + (x + y + z),
{ assert(o + x + y + z =~= o + (x + y + z)); }
proof fn lemma_clist(out: Seq<char>, xs: Seq<Condition>, n: int, sep: Seq<char>, cy: bool)
    requires n <= xs.len(),
    ensures w_clist(out, xs, n, sep, cy) == out + clist(xs, n, sep, cy),
    decreases n
{
    let e = Seq::<char>::empty();
    if n <= 0 { assert(out + e =~= out); }
    else {
        lemma_clist(out, xs, n - 1, sep, cy);
        let g = clist(xs, n - 1, sep, cy);
        let c = if n > 1 { sep } else { e };
        cat4(out, g, c, ctext(xs[n - 1], cy));
        assert(out + g + e =~= out + g);
    }
}
/// r holds, in order, the conditions of exactly the kept ones among the first n of xs
pub open spec fn picked(r: Seq<Condition>, p: Seq<int>, xs: Seq<Cfg>, n: int, m: Map<String, String>) -> bool {
    &&& r.len() == p.len()
    &&& forall|j: int| 0 <= j < p.len() ==> 0 <= #[trigger] p[j] < n && kept(xs[p[j]], m) && same_meaning(r[j], xs[p[j]], m)
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> p[i] < p[j]
    &&& forall|i: int| 0 <= i < n && kept(#[trigger] xs[i], m) ==> exists|j: int| 0 <= j < p.len() && #[trigger] p[j] == i
}
pub open spec fn any_meaning(r: Seq<Condition>, xs: Seq<Cfg>, m: Map<String, String>) -> bool {
    forall|opts: spec_fn((Seq<char>, Option<Seq<char>>)) -> bool, env: spec_fn(Seq<char>) -> bool| #[trigger] agrees(m, opts, env) ==>
        ((exists|i: int| 0 <= i < r.len() && holds(#[trigger] r[i], env)) == (exists|i: int| 0 <= i < xs.len() && kept(xs[i], m) && truth(#[trigger] xs[i], m, opts)))
}
pub open spec fn all_meaning(r: Seq<Condition>, xs: Seq<Cfg>, m: Map<String, String>) -> bool {
    forall|opts: spec_fn((Seq<char>, Option<Seq<char>>)) -> bool, env: spec_fn(Seq<char>) -> bool| #[trigger] agrees(m, opts, env) ==>
        ((forall|i: int| 0 <= i < r.len() ==> holds(#[trigger] r[i], env)) == (forall|i: int| 0 <= i < xs.len() && kept(xs[i], m) ==> truth(#[trigger] xs[i], m, opts)))
}
proof fn lemma_pick(r: Seq<Condition>, p: Seq<int>, xs: Seq<Cfg>, n: int, m: Map<String, String>, x: Option<Condition>)
    requires picked(r, p, xs, n, m), 0 <= n < xs.len(), x is Some <==> kept(xs[n], m), x is Some ==> same_meaning(x->0, xs[n], m),
    ensures x is Some ==> picked(r.push(x->0), p.push(n), xs, n + 1, m), x is None ==> picked(r, p, xs, n + 1, m),
{
    if x is Some {
        let q = p.push(n);
        assert forall|i: int| 0 <= i < n + 1 && kept(#[trigger] xs[i], m) implies exists|j: int| 0 <= j < q.len() && #[trigger] q[j] == i by {
            if i == n { assert(q[p.len() as int] == i); }
            else { let j = choose|j: int| 0 <= j < p.len() && #[trigger] p[j] == i; assert(q[j] == i); }
        }
    }
}
proof fn lemma_any(r: Seq<Condition>, p: Seq<int>, xs: Seq<Cfg>, m: Map<String, String>)
    requires picked(r, p, xs, xs.len() as int, m),
    ensures any_meaning(r, xs, m), r.len() == 0 <==> !(exists|i: int| 0 <= i < xs.len() && kept(#[trigger] xs[i], m)),
{
    assert forall|opts: spec_fn((Seq<char>, Option<Seq<char>>)) -> bool, env: spec_fn(Seq<char>) -> bool| #[trigger] agrees(m, opts, env) implies
        ((exists|i: int| 0 <= i < r.len() && holds(#[trigger] r[i], env)) == (exists|i: int| 0 <= i < xs.len() && kept(xs[i], m) && truth(#[trigger] xs[i], m, opts))) by {
        if exists|i: int| 0 <= i < r.len() && holds(#[trigger] r[i], env) {
            let i = choose|i: int| 0 <= i < r.len() && holds(#[trigger] r[i], env);
            let j = p[i];
            assert(kept(xs[j], m) && truth(xs[j], m, opts));
        }
        if exists|i: int| 0 <= i < xs.len() && kept(xs[i], m) && truth(#[trigger] xs[i], m, opts) {
            let i = choose|i: int| 0 <= i < xs.len() && kept(xs[i], m) && truth(#[trigger] xs[i], m, opts);
            let j = choose|j: int| 0 <= j < p.len() && #[trigger] p[j] == i;
            assert(holds(r[j], env));
        }
    }
    if r.len() > 0 { assert(kept(xs[p[0]], m)); }
}
proof fn lemma_all(r: Seq<Condition>, p: Seq<int>, xs: Seq<Cfg>, m: Map<String, String>)
    requires picked(r, p, xs, xs.len() as int, m),
    ensures all_meaning(r, xs, m), r.len() == 0 <==> !(exists|i: int| 0 <= i < xs.len() && kept(#[trigger] xs[i], m)),
{
    assert forall|opts: spec_fn((Seq<char>, Option<Seq<char>>)) -> bool, env: spec_fn(Seq<char>) -> bool| #[trigger] agrees(m, opts, env) implies
        ((forall|i: int| 0 <= i < r.len() ==> holds(#[trigger] r[i], env)) == (forall|i: int| 0 <= i < xs.len() && kept(xs[i], m) ==> truth(#[trigger] xs[i], m, opts))) by {
        if forall|i: int| 0 <= i < r.len() ==> holds(#[trigger] r[i], env) {
            assert forall|i: int| 0 <= i < xs.len() && kept(xs[i], m) implies truth(#[trigger] xs[i], m, opts) by {
                let j = choose|j: int| 0 <= j < p.len() && #[trigger] p[j] == i;
                assert(holds(r[j], env));
            }
        }
        if forall|i: int| 0 <= i < xs.len() && kept(xs[i], m) ==> truth(#[trigger] xs[i], m, opts) {
            assert forall|i: int| 0 <= i < r.len() implies holds(#[trigger] r[i], env) by { let j = p[i]; assert(truth(xs[j], m, opts)); }
        }
    }
    if r.len() > 0 { assert(kept(xs[p[0]], m)); }
}

// ---------------- code under contract ----------------
impl<'a> DefineKey<'a> {
//@fn src/bindgen/ir/cfg.rs DefineKey::load r
//@subst key.contains('=') => vx_contains(key, '=')
//@subst key.trim().split('=') => vx_split(vx_trim(key), '=')
//@subst n.trim() => vx_trim(n)
//@subst v.trim() => vx_trim(v)
    ensures opt_of(r) == key_opt(key@),
//@pre
    proof { axiom_trim_eq(key@); reveal_with_fuel(pieces, 3); }
//@end
}
impl Cfg {
//@fn src/bindgen/ir/cfg.rs Cfg::join r
    ensures r is None <==> cfgs@.len() == 0,
        r is Some ==> r->0 is All && (r->0)->All_0@ == cfgs@,
//@end
//@fn src/bindgen/ir/cfg.rs Cfg::append r
    ensures
        parent is None && child is None ==> r is None,
        parent is None && child is Some ==> r == child,
        parent is Some && child is None ==> r is Some && r->0 == *parent->0,
        parent is Some && child is Some ==> r is Some && r->0 is All && (r->0)->All_0@ =~= seq![*parent->0, child->0],
//@end
//@fn src/bindgen/ir/cfg.rs ToCondition@Cfg::to_condition r
    ensures r is Some <==> kept(*self, config.defines@),
        r is Some ==> same_meaning(r->0, *self, config.defines@),
//@loop 0 mode=map ; rty=Option<(&String,&String)>
    __r0 is None ==> (forall|j: int| 0 <= j < __i0 ==> key_opt((#[trigger] __s0@[j]).0@) != (cfg_name@, None::<Seq<char>>)),
    __r0 is Some ==> config.defines@.contains_key(*(__r0->0).0) && config.defines@[*(__r0->0).0] == *(__r0->0).1 && key_opt((__r0->0).0@) == (cfg_name@, None::<Seq<char>>),
//@loop 0 after
    proof { if __r0 is Some { assert(has_entry(config.defines@, (cfg_name@, None::<Seq<char>>))); assert(kept(*self, config.defines@)); } else { assert(config.defines.mview() == config.defines@); assert forall|k: String| config.defines@.contains_key(k) implies key_opt(k@) != (cfg_name@, None::<Seq<char>>) by { assert(config.defines.mview().contains_key(k)); let i = choose|i: int| 0 <= i < __s0@.len() && *(#[trigger] __s0@[i]).0 == k; } assert(!has_entry(config.defines@, (cfg_name@, None::<Seq<char>>))); } }
//@loop 1 mode=map ; rty=Option<(&String,&String)>
    __r1 is None ==> (forall|j: int| 0 <= j < __i1 ==> key_opt((#[trigger] __s1@[j]).0@) != (cfg_name@, Some(cfg_value@))),
    __r1 is Some ==> config.defines@.contains_key(*(__r1->0).0) && config.defines@[*(__r1->0).0] == *(__r1->0).1 && key_opt((__r1->0).0@) == (cfg_name@, Some(cfg_value@)),
//@loop 1 after
    proof { if __r1 is Some { assert(has_entry(config.defines@, (cfg_name@, Some(cfg_value@)))); } else { assert(config.defines.mview() == config.defines@); assert forall|k: String| config.defines@.contains_key(k) implies key_opt(k@) != (cfg_name@, Some(cfg_value@)) by { assert(config.defines.mview().contains_key(k)); let i = choose|i: int| 0 <= i < __s1@.len() && *(#[trigger] __s1@[i]).0 == k; } assert(!has_entry(config.defines@, (cfg_name@, Some(cfg_value@)))); } }
//@loop 2 rty=Vec<Condition>
    __s2@ == children@, picked(__r2@, __p2, children@, __i2 as int, config.defines@),
//@loop 2 before
    let ghost mut __p2 = Seq::<int>::empty();
//@loop 2 pre
    let ghost __q2 = __r2@;
//@loop 2 post
    proof {
        lemma_pick(__q2, __p2, children@, __k2 as int, config.defines@, __o2);
        if __o2 is Some { __p2 = __p2.push(__k2 as int); assert(__r2@ == __q2.push(__o2->0)); }
    }
//@loop 2 after
    proof { lemma_any(__r2@, __p2, children@, config.defines@); assert(__r2@.len() > 0 ==> kept(*self, config.defines@)); }
//@loop 3 rty=Vec<Condition>
    __s3@ == children@, picked(__r3@, __p3, children@, __i3 as int, config.defines@),
//@loop 3 before
    let ghost mut __p3 = Seq::<int>::empty();
//@loop 3 pre
    let ghost __q3 = __r3@;
//@loop 3 post
    proof {
        lemma_pick(__q3, __p3, children@, __k3 as int, config.defines@, __o3);
        if __o3 is Some { __p3 = __p3.push(__k3 as int); assert(__r3@ == __q3.push(__o3->0)); }
    }
//@loop 3 after
    proof { lemma_all(__r3@, __p3, children@, config.defines@); assert(__r3@.len() > 0 <==> kept(*self, config.defines@)); }
//@end
}
impl Condition {
//@fn src/bindgen/ir/cfg.rs Condition::write r strip_generics
    ensures final(out).txt() == old(out).txt() + ctext(*self, config.language is Cython),
//@loop 0
    __s0@ == conditions@, conditions@.len() > 0, out.txt() == w_clist(old(out).txt() + "("@, conditions@, __i0 as int, if config.language is Cython { " or "@ } else { " || "@ }, config.language is Cython),
//@loop 0 after
    proof { lemma_clist(old(out).txt() + "("@, conditions@, conditions@.len() as int, if config.language is Cython { " or "@ } else { " || "@ }, config.language is Cython);
        cat4(old(out).txt(), "("@, clist(conditions@, conditions@.len() as int, if config.language is Cython { " or "@ } else { " || "@ }, config.language is Cython), ")"@); }
//@loop 1
    __s1@ == conditions@, conditions@.len() > 0, out.txt() == w_clist(old(out).txt() + "("@, conditions@, __i1 as int, if config.language is Cython { " and "@ } else { " && "@ }, config.language is Cython),
//@loop 1 after
    proof { lemma_clist(old(out).txt() + "("@, conditions@, conditions@.len() as int, if config.language is Cython { " and "@ } else { " && "@ }, config.language is Cython);
        cat4(old(out).txt(), "("@, clist(conditions@, conditions@.len() as int, if config.language is Cython { " and "@ } else { " && "@ }, config.language is Cython), ")"@); }
//@pre
    proof {
        match self {
            Condition::Define(d) => { cat4(out.txt(), "defined("@, d@, ")"@); }
            Condition::Not(x) => { cat3(out.txt(), if config.language is Cython { "not "@ } else { "!"@ }, ctext(**x, config.language is Cython)); }
            _ => {}
        }
    }
//@end
}
/// the opening of a conditional around an item, and its close: both or none
pub open spec fn open_cond(c: Option<Condition>, cy: bool) -> Seq<char> {
    if c is None { Seq::empty() }
    else if cy { "IF "@ + ctext(c->0, cy) + brace_open() }
    else { "#if "@ + ctext(c->0, cy) + " "@ }
}
pub open spec fn close_cond(c: Option<Condition>, cy: bool) -> Seq<char> {
    if c is None { Seq::empty() } else if cy { brace_close(false) } else { " "@ + "#endif"@ }
}
pub trait ConditionWrite: Sized {
    spec fn cond(&self) -> Option<Condition>;
    fn write_before(&self, config: &Config, out: &mut SourceWriter)
        ensures final(out).txt() =~= old(out).txt() + open_cond(self.cond(), config.language is Cython);
    fn write_after(&self, config: &Config, out: &mut SourceWriter)
        ensures final(out).txt() =~= old(out).txt() + close_cond(self.cond(), config.language is Cython);
}
impl ConditionWrite for Option<Condition> {
    open spec fn cond(&self) -> Option<Condition> { *self }
//@fn src/bindgen/ir/cfg.rs ConditionWrite@Option::write_before r strip_generics
//@end
//@fn src/bindgen/ir/cfg.rs ConditionWrite@Option::write_after r strip_generics
//@end
}
} // verus!
fn main() {}
