//@include prelude.inc
//@include ty_types.inc
verus! {
//@include itemmap.inc
#[verifier::external_body] pub struct Cfg { _p: () }
#[verifier::external_body] pub struct ItemContainer { _p: () }
/// src/bindgen/ir/item.rs Item, as far as the table looks at its items
pub trait Item: Sized {
    spec fn spath(&self) -> Path;
    spec fn scfg(&self) -> bool;
    spec fn scontainer(&self) -> ItemContainer;
    fn path(&self) -> (r: &Path) ensures *r == self.spath();
    fn cfg(&self) -> (r: Option<&Cfg>) ensures r is Some <==> self.scfg();
    fn container(&self) -> (r: ItemContainer) ensures r == self.scontainer();
}
//@type src/bindgen/ir/item.rs ItemValue
//@type src/bindgen/ir/item.rs ItemMap

// ---------------- specification ----------------
/// what is kept under one name
pub ghost enum Group<T> { Cfg(Seq<T>), Single(T) }
pub type Ents<T> = Seq<(Path, Group<T>)>;
pub open spec fn grp<T: Item>(v: ItemValue<T>) -> Group<T> { match v { ItemValue::Cfg(x) => Group::Cfg(x@), ItemValue::Single(x) => Group::Single(x) } }
pub open spec fn ents_of<T: Item>(s: Seq<(Path, ItemValue<T>)>) -> Ents<T> { Seq::new(s.len(), |i: int| (s[i].0, grp(s[i].1))) }
pub open spec fn ents<T: Item>(m: ItemMap<T>) -> Ents<T> { ents_of(m.data.es@) }
pub open spec fn members<T>(g: Group<T>) -> Seq<T> { match g { Group::Cfg(s) => s, Group::Single(x) => seq![x] } }
/// all items in visiting order
pub open spec fn flat<T>(es: Ents<T>, n: nat) -> Seq<T>
    decreases n
{ if n == 0 || n > es.len() { Seq::empty() } else { flat(es, (n - 1) as nat) + members(es[n - 1].1) } }
pub open spec fn all_items<T>(es: Ents<T>) -> Seq<T> { flat(es, es.len()) }
pub open spec fn keys_distinct<T>(es: Ents<T>) -> bool { forall|i: int, j: int| 0 <= i < es.len() && 0 <= j < es.len() && i != j ==> (#[trigger] es[i]).0 != (#[trigger] es[j]).0 }
/// every group belongs to its key, is non-empty and is cfg'd exactly if it is a Cfg group
pub open spec fn grouped<T: Item>(e: (Path, Group<T>)) -> bool {
    match e.1 {
        Group::Cfg(s) => s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).spath() == e.0 && s[i].scfg(),
        Group::Single(x) => x.spath() == e.0 && !x.scfg(),
    }
}
pub open spec fn wf<T: Item>(es: Ents<T>) -> bool { keys_distinct(es) && forall|i: int| 0 <= i < es.len() ==> grouped(#[trigger] es[i]) }
pub open spec fn accepted<T: Item>(es: Ents<T>, x: T) -> bool {
    !has_key(es, x.spath()) || (x.scfg() && es[key_at(es, x.spath())].1 is Cfg)
}
pub open spec fn ins<T: Item>(es: Ents<T>, x: T) -> Ents<T> {
    let p = x.spath();
    if has_key(es, p) {
        match es[key_at(es, p)].1 {
            Group::Cfg(s) => if x.scfg() { es.update(key_at(es, p), (p, Group::Cfg(s.push(x)))) } else { es },
            Group::Single(_) => es,
        }
    } else {
        es.push((p, if x.scfg() { Group::Cfg(seq![x]) } else { Group::Single(x) }))
    }
}
pub open spec fn ins_all<T: Item>(es: Ents<T>, xs: Seq<T>) -> Ents<T>
    decreases xs.len()
{ if xs.len() == 0 { es } else { ins(ins_all(es, xs.drop_last()), xs.last()) } }

/// exec and spec view of the map agree on which key is where
pub proof fn lemma_ents_key<T: Item>(s: Seq<(Path, ItemValue<T>)>, p: Path)
    ensures has_key(s, p) == has_key(ents_of(s), p),
        keys_distinct(ents_of(s)) && has_key(s, p) ==> key_at(s, p) == key_at(ents_of(s), p),
{
    let e = ents_of(s);
    if has_key(s, p) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == p; assert(e[i].0 == p); }
    if has_key(e, p) { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == p; assert(s[i].0 == p); }
    if keys_distinct(e) && has_key(s, p) { let i = key_at(s, p); let j = key_at(e, p); assert(e[i].0 == p); assert(e[j].0 == p); }
}
/// the table's invariant is kept by every insertion
pub proof fn lemma_ins_wf<T: Item>(es: Ents<T>, x: T)
    requires wf(es),
    ensures wf(ins(es, x)), accepted(es, x) || ins(es, x) == es,
{
    let p = x.spath();
    let r = ins(es, x);
    if has_key(es, p) {
        let k = key_at(es, p);
        assert(0 <= k < es.len() && es[k].0 == p);
        assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies (#[trigger] r[i]).0 != (#[trigger] r[j]).0 by { assert(r[i].0 == es[i].0); assert(r[j].0 == es[j].0); }
        assert forall|i: int| 0 <= i < r.len() implies grouped(#[trigger] r[i]) by { assert(grouped(es[i])); assert(grouped(es[k])); }
    } else {
        assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies (#[trigger] r[i]).0 != (#[trigger] r[j]).0 by {
            if i < es.len() { assert(r[i] == es[i]); }
            if j < es.len() { assert(r[j] == es[j]); }
        }
        assert forall|i: int| 0 <= i < r.len() implies grouped(#[trigger] r[i]) by { if i < es.len() { assert(grouped(es[i])); } }
    }
}
pub proof fn lemma_ins_all_wf<T: Item>(es: Ents<T>, xs: Seq<T>)
    requires wf(es),
    ensures wf(ins_all(es, xs)),
    decreases xs.len(),
{ if xs.len() > 0 { lemma_ins_all_wf(es, xs.drop_last()); lemma_ins_wf(ins_all(es, xs.drop_last()), xs.last()); } }

// ---- property: what a history of insertions keeps ----
pub open spec fn named<T: Item>(p: Path) -> spec_fn(T) -> bool { |x: T| x.spath() == p }
pub open spec fn with_cfg<T: Item>() -> spec_fn(T) -> bool { |x: T| x.scfg() }
/// the first item of a name is kept and, if it carries a cfg, every further one that carries a cfg
pub open spec fn kept<T: Item>(xs: Seq<T>, p: Path) -> Option<Group<T>> {
    let s = xs.filter(named::<T>(p));
    if s.len() == 0 { None } else if s[0].scfg() { Some(Group::Cfg(s.filter(with_cfg::<T>()))) } else { Some(Group::Single(s[0])) }
}
pub open spec fn found<T>(es: Ents<T>, p: Path) -> Option<Group<T>> { if has_key(es, p) { Some(es[key_at(es, p)].1) } else { None } }
/// names in the order of their first item
pub open spec fn first_names<T: Item>(xs: Seq<T>) -> Seq<Path>
    decreases xs.len()
{ if xs.len() == 0 { Seq::empty() } else { let f = first_names(xs.drop_last()); if f.contains(xs.last().spath()) { f } else { f.push(xs.last().spath()) } } }
pub open spec fn keys<T>(es: Ents<T>) -> Seq<Path> { Seq::new(es.len(), |i: int| es[i].0) }
pub proof fn lemma_filter_step<A>(s: Seq<A>, f: spec_fn(A) -> bool)
    requires s.len() > 0,
    ensures s.filter(f) == if f(s.last()) { s.drop_last().filter(f).push(s.last()) } else { s.drop_last().filter(f) },
{ reveal(Seq::filter); }
pub proof fn lemma_has_keys<T>(es: Ents<T>, p: Path)
    ensures has_key(es, p) == keys(es).contains(p),
{
    if has_key(es, p) { let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == p; assert(keys(es)[i] == p); }
    if keys(es).contains(p) { let i = choose|i: int| 0 <= i < keys(es).len() && keys(es)[i] == p; assert(es[i].0 == p); }
}
/// C09: the table after any history of insertions
pub proof fn lemma_history<T: Item>(xs: Seq<T>, p: Path)
    ensures found(ins_all(Seq::<(Path, Group<T>)>::empty(), xs), p) == kept(xs, p),
        keys(ins_all(Seq::<(Path, Group<T>)>::empty(), xs)) == first_names(xs),
    decreases xs.len(),
{
    let e0 = Seq::<(Path, Group<T>)>::empty();
    if xs.len() == 0 {
        reveal(Seq::filter);
        assert(keys(ins_all(e0, xs)) =~= first_names(xs));
        assert(!has_key(e0, p));
    } else {
        let ys = xs.drop_last();
        let x = xs.last();
        let q = x.spath();
        lemma_history(ys, p);
        lemma_history(ys, q);
        let es = ins_all(e0, ys);
        lemma_ins_all_wf(e0, ys);
        let r = ins(es, x);
        lemma_ins_wf(es, x);
        lemma_filter_step(xs, named::<T>(p));
        lemma_filter_step(xs, named::<T>(q));
        lemma_has_keys(es, q);
        let sp = ys.filter(named::<T>(p));
        if has_key(es, q) {
            let k = key_at(es, q);
            assert(0 <= k < es.len() && es[k].0 == q);
            assert(keys(r) =~= keys(es));
            assert(r[k].0 == q);
            assert(has_key(r, q));
            if has_key(es, p) { let i = key_at(es, p); assert(es[i].0 == p); assert(r[i].0 == p); let j = key_at(r, p); assert(r[j].0 == p); assert(i == j); }
            if has_key(r, p) { let j = key_at(r, p); assert(r[j].0 == p); assert(es[j].0 == p); }
            if p == q {
                assert(sp.len() > 0);
                assert(xs.filter(named::<T>(p)) == sp.push(x));
                assert(sp.push(x)[0] == sp[0]);
                lemma_filter_step(sp.push(x), with_cfg::<T>());
                assert(sp.push(x).drop_last() =~= sp);
            }
        } else {
            assert(keys(r) =~= keys(es).push(q));
            assert(r[es.len() as int].0 == q);
            if has_key(es, p) { let i = key_at(es, p); assert(es[i].0 == p); assert(r[i].0 == p); let j = key_at(r, p); assert(r[j].0 == p); assert(i == j); }
            if p == q {
                let j = key_at(r, p); assert(has_key(r, p)); assert(r[j].0 == p); assert(j == es.len());
                assert(sp.len() == 0);
                assert(sp.push(x) =~= seq![x]);
                lemma_filter_step(seq![x], with_cfg::<T>());
                assert(seq![x].drop_last() =~= Seq::<T>::empty());
                assert(Seq::<T>::empty().filter(with_cfg::<T>()) =~= Seq::<T>::empty()) by { reveal(Seq::filter); }
                assert(Seq::<T>::empty().push(x) =~= seq![x]);
            } else if has_key(r, p) { let j = key_at(r, p); assert(r[j].0 == p); assert(r[j] == es[j]); assert(has_key(es, p)); }
        }
    }
}

// ---- property: rebuilding a table whose items still belong to their names changes nothing ----
pub proof fn lemma_ins_all_push<T: Item>(es: Ents<T>, xs: Seq<T>, x: T)
    ensures ins_all(es, xs.push(x)) == ins(ins_all(es, xs), x),
{ assert(xs.push(x).drop_last() =~= xs); }
pub proof fn lemma_rebuild_group<T: Item>(es: Ents<T>, n: nat, m: nat)
    requires wf(es), 0 < n <= es.len(), es[n - 1].1 is Cfg, 0 < m <= members(es[n - 1].1).len(),
        ins_all(Seq::<(Path, Group<T>)>::empty(), flat(es, (n - 1) as nat)) == es.take(n - 1),
    ensures ins_all(Seq::<(Path, Group<T>)>::empty(), flat(es, (n - 1) as nat) + members(es[n - 1].1).take(m as int))
        == es.take(n - 1).push((es[n - 1].0, Group::Cfg(members(es[n - 1].1).take(m as int)))),
    decreases m,
{
    let e0 = Seq::<(Path, Group<T>)>::empty();
    let f = flat(es, (n - 1) as nat);
    let s = members(es[n - 1].1);
    let key = es[n - 1].0;
    let base = es.take(n - 1);
    assert(grouped(es[n - 1]));
    let x = s[m - 1];
    assert(x.spath() == key && x.scfg());
    assert(s.take(m as int) =~= s.take(m - 1).push(x));
    assert(f + s.take(m as int) =~= (f + s.take(m - 1)).push(x));
    lemma_ins_all_push(e0, f + s.take(m - 1), x);
    if m == 1 {
        assert(f + s.take(0) =~= f);
        assert(!has_key(base, key)) by { if has_key(base, key) { let i = key_at(base, key); assert(base[i].0 == key); assert(es[i].0 == key); } }
        assert(s.take(1) =~= seq![x]);
    } else {
        lemma_rebuild_group(es, n, (m - 1) as nat);
        let b = base.push((key, Group::Cfg(s.take(m - 1))));
        assert(b[n - 1].0 == key);
        let k = key_at(b, key);
        assert(has_key(b, key));
        assert(b[k].0 == key);
        assert(k == n - 1) by { if k < n - 1 { assert(es[k].0 == key); } }
        assert(b.update(k, (key, Group::Cfg(s.take(m - 1).push(x)))) =~= base.push((key, Group::Cfg(s.take(m as int)))));
    }
}
pub proof fn lemma_rebuild<T: Item>(es: Ents<T>, n: nat)
    requires wf(es), n <= es.len(),
    ensures ins_all(Seq::<(Path, Group<T>)>::empty(), flat(es, n)) == es.take(n as int),
    decreases n,
{
    let e0 = Seq::<(Path, Group<T>)>::empty();
    if n == 0 { assert(es.take(0) =~= e0); } else {
        lemma_rebuild(es, (n - 1) as nat);
        let base = es.take(n - 1);
        let key = es[n - 1].0;
        assert(grouped(es[n - 1]));
        match es[n - 1].1 {
            Group::Cfg(s) => {
                lemma_rebuild_group(es, n, s.len());
                assert(s.take(s.len() as int) =~= s);
                assert(es.take(n as int) =~= base.push(es[n - 1]));
            }
            Group::Single(x) => {
                let f = flat(es, (n - 1) as nat);
                assert(f + seq![x] =~= f.push(x));
                lemma_ins_all_push(e0, f, x);
                assert(!has_key(base, key)) by { if has_key(base, key) { let i = key_at(base, key); assert(base[i].0 == key); assert(es[i].0 == key); } }
                assert(es.take(n as int) =~= base.push(es[n - 1]));
            }
        }
    }
}
/// C09: rebuild of a well-formed table is the identity
pub proof fn lemma_rebuild_identity<T: Item>(es: Ents<T>)
    requires wf(es),
    ensures ins_all(Seq::<(Path, Group<T>)>::empty(), all_items(es)) == es,
{ lemma_rebuild(es, es.len()); assert(es.take(es.len() as int) =~= es); }

// ---- filter ----
pub open spec fn stays<T>(f: spec_fn(T) -> bool) -> spec_fn(T) -> bool { |x: T| !f(x) }
pub open spec fn filt<T>(es: Ents<T>, f: spec_fn(T) -> bool, n: nat) -> Ents<T>
    decreases n
{
    if n == 0 || n > es.len() { Seq::empty() } else {
        let r = filt(es, f, (n - 1) as nat);
        match es[n - 1].1 {
            Group::Cfg(s) => if s.filter(stays(f)).len() > 0 { r.push((es[n - 1].0, Group::Cfg(s.filter(stays(f))))) } else { r },
            Group::Single(x) => if f(x) { r } else { r.push(es[n - 1]) },
        }
    }
}
pub proof fn lemma_flat_push<T>(es: Ents<T>, e: (Path, Group<T>), n: nat)
    requires n <= es.len(),
    ensures flat(es.push(e), n) == flat(es, n), n == es.len() ==> flat(es.push(e), (n + 1) as nat) == flat(es, n) + members(e.1),
    decreases n,
{ if n > 0 { lemma_flat_push(es, e, (n - 1) as nat); assert(es.push(e)[n - 1] == es[n - 1]); } if n == es.len() { assert(es.push(e)[n as int] == e); } }
pub proof fn lemma_filter_cat<A>(a: Seq<A>, b: Seq<A>, f: spec_fn(A) -> bool)
    ensures (a + b).filter(f) == a.filter(f) + b.filter(f),
{ Seq::filter_distributes_over_add(a, b, f); }
pub proof fn lemma_filter_sub<A>(s: Seq<A>, f: spec_fn(A) -> bool, i: int)
    requires 0 <= i < s.filter(f).len(),
    ensures exists|j: int| 0 <= j < s.len() && s[j] == s.filter(f)[i], f(s.filter(f)[i]),
    decreases s.len(),
{
    if s.len() == 0 { reveal(Seq::filter); } else {
        lemma_filter_step(s, f);
        let d = s.drop_last();
        if i < d.filter(f).len() {
            lemma_filter_sub(d, f, i);
            let j = choose|j: int| 0 <= j < d.len() && d[j] == d.filter(f)[i];
            assert(s[j] == s.filter(f)[i]);
        } else { assert(s[s.len() - 1] == s.filter(f)[i]); }
    }
}
/// C09: filtering removes exactly the items named, and keeps the others in order
pub proof fn lemma_filt_items<T>(es: Ents<T>, f: spec_fn(T) -> bool, n: nat)
    requires n <= es.len(),
    ensures all_items(filt(es, f, n)) == flat(es, n).filter(stays(f)),
    decreases n,
{
    if n == 0 { reveal(Seq::filter); assert(all_items(filt(es, f, 0)) =~= flat(es, 0).filter(stays(f))); } else {
        lemma_filt_items(es, f, (n - 1) as nat);
        let r = filt(es, f, (n - 1) as nat);
        let m = members(es[n - 1].1);
        lemma_filter_cat(flat(es, (n - 1) as nat), m, stays(f));
        match es[n - 1].1 {
            Group::Cfg(s) => {
                lemma_flat_push(r, (es[n - 1].0, Group::Cfg(s.filter(stays(f)))), r.len());
                if s.filter(stays(f)).len() == 0 { assert(s.filter(stays(f)) =~= Seq::empty()); assert(all_items(r) + s.filter(stays(f)) =~= all_items(r)); }
            }
            Group::Single(x) => {
                lemma_filter_step(seq![x], stays(f));
                assert(seq![x].drop_last() =~= Seq::<T>::empty());
                assert(Seq::<T>::empty().filter(stays(f)) =~= Seq::<T>::empty()) by { reveal(Seq::filter); }
                assert(Seq::<T>::empty().push(x) =~= seq![x]);
                lemma_flat_push(r, es[n - 1], r.len());
                if f(x) { assert(all_items(r) + Seq::<T>::empty() =~= all_items(r)); }
            }
        }
    }
}
/// and leaves a well-formed table
pub proof fn lemma_filt_wf<T: Item>(es: Ents<T>, f: spec_fn(T) -> bool, n: nat)
    requires wf(es), n <= es.len(),
    ensures wf(filt(es, f, n)), forall|i: int| 0 <= i < filt(es, f, n).len() ==> exists|j: int| 0 <= j < n && (#[trigger] filt(es, f, n)[i]).0 == (#[trigger] es[j]).0,
    decreases n,
{
    if n > 0 {
        lemma_filt_wf(es, f, (n - 1) as nat);
        let q = filt(es, f, (n - 1) as nat);
        let r = filt(es, f, n);
        assert(grouped(es[n - 1]));
        if let Group::Cfg(s) = es[n - 1].1 {
            let k = s.filter(stays(f));
            assert forall|i: int| 0 <= i < k.len() implies (#[trigger] k[i]).spath() == es[n - 1].0 && k[i].scfg() by {
                lemma_filter_sub(s, stays(f), i);
                let j = choose|j: int| 0 <= j < s.len() && s[j] == k[i];
                assert(s[j].spath() == es[n - 1].0);
            }
        }
        assert(r.len() == q.len() || (r.len() == q.len() + 1 && r =~= q.push(r[q.len() as int]) && r[q.len() as int].0 == es[n - 1].0));
        assert forall|i: int| 0 <= i < r.len() implies exists|j: int| 0 <= j < n && (#[trigger] r[i]).0 == (#[trigger] es[j]).0 by {
            if i < q.len() { let j = choose|j: int| 0 <= j < n - 1 && (#[trigger] q[i]).0 == (#[trigger] es[j]).0; assert(r[i] == q[i]); assert(r[i].0 == es[j].0); } else { assert(r[i].0 == es[n - 1].0); }
        }
        assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies (#[trigger] r[i]).0 != (#[trigger] r[j]).0 by {
            if i < q.len() && j < q.len() { assert(r[i] == q[i] && r[j] == q[j]); }
            else if i < q.len() { let a = choose|a: int| 0 <= a < n - 1 && (#[trigger] q[i]).0 == (#[trigger] es[a]).0; assert(r[i] == q[i]); assert(r[j].0 == es[n - 1].0); }
            else if j < q.len() { let a = choose|a: int| 0 <= a < n - 1 && (#[trigger] q[j]).0 == (#[trigger] es[a]).0; assert(r[j] == q[j]); assert(r[i].0 == es[n - 1].0); }
        }
        assert forall|i: int| 0 <= i < r.len() implies grouped(#[trigger] r[i]) by { if i < q.len() { assert(r[i] == q[i]); assert(grouped(q[i])); } }
    }
}
// ---- lookup: the items kept under a name are exactly the items of that name ----
pub proof fn lemma_named_all<T: Item>(s: Seq<T>, p: Path, q: Path)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).spath() == q,
    ensures s.filter(named::<T>(p)) == if p == q { s } else { Seq::empty() },
    decreases s.len(),
{
    if s.len() == 0 { reveal(Seq::filter); assert(s =~= Seq::empty()); } else {
        lemma_filter_step(s, named::<T>(p));
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).spath() == q by { assert(d[i] == s[i]); }
        lemma_named_all(d, p, q);
        assert(s[s.len() - 1].spath() == q);
        if p == q { assert(d.push(s.last()) =~= s); }
    }
}
pub proof fn lemma_found_filter<T: Item>(es: Ents<T>, p: Path, n: nat)
    requires wf(es), n <= es.len(),
    ensures flat(es, n).filter(named::<T>(p)) == if has_key(es, p) && key_at(es, p) < n { members(es[key_at(es, p)].1) } else { Seq::empty() },
    decreases n,
{
    if n == 0 { reveal(Seq::filter); } else {
        lemma_found_filter(es, p, (n - 1) as nat);
        let e = es[n - 1];
        assert(grouped(e));
        lemma_filter_cat(flat(es, (n - 1) as nat), members(e.1), named::<T>(p));
        lemma_named_all(members(e.1), p, e.0);
        let m = members(e.1);
        assert(Seq::<T>::empty() + m =~= m);
        assert(flat(es, (n - 1) as nat).filter(named::<T>(p)) + Seq::<T>::empty() =~= flat(es, (n - 1) as nat).filter(named::<T>(p)));
        if e.0 == p { assert(has_key(es, p)); let k = key_at(es, p); assert(es[k].0 == p); assert(k == n - 1); }
        else if has_key(es, p) { let k = key_at(es, p); assert(es[k].0 == p); assert(k != n - 1); }
    }
}
pub open spec fn containers<T: Item>(s: Seq<T>) -> Seq<ItemContainer> { s.map_values(|x: T| x.scontainer()) }
// ---- callbacks: nothing is assumed about what they do ----
pub struct Caller<T> { pub calls: Ghost<Seq<T>> }
impl<T> Caller<T> {
    #[verifier::external_body]
    pub fn call(&mut self, x: &T) ensures final(self).calls@ == old(self).calls@.push(*x) { unimplemented!() }
}
/// a callback that may change the item: what it was given and what it left
pub struct MutCaller<T> { pub calls: Ghost<Seq<(T, T)>> }
impl<T> MutCaller<T> {
    #[verifier::external_body]
    pub fn call(&mut self, x: &mut T) ensures final(self).calls@ == old(self).calls@.push((*old(x), *final(x))) { unimplemented!() }
}
/// a predicate (Fn: a function of the item)
#[verifier::reject_recursive_types(T)]
pub struct Pred<T> { pub f: Ghost<spec_fn(T) -> bool> }
impl<T> Pred<T> {
    #[verifier::external_body]
    pub fn call(&self, x: &T) -> (r: bool) ensures r == (self.f@)(*x) { unimplemented!() }
}
pub open spec fn pairs<T>(a: Seq<T>, b: Seq<T>) -> Seq<(T, T)> { Seq::new(a.len(), |i: int| (a[i], b[i])) }
pub open spec fn same_shape_g<T>(a: Group<T>, b: Group<T>) -> bool {
    match (a, b) { (Group::Cfg(s), Group::Cfg(t)) => s.len() == t.len(), (Group::Single(_), Group::Single(_)) => true, _ => false }
}
pub open spec fn same_shape<T>(a: Ents<T>, b: Ents<T>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0 == (#[trigger] b[i]).0 && same_shape_g(a[i].1, b[i].1)
}
pub open spec fn shaped<T: Item>(a: ItemValue<T>, b: ItemValue<T>) -> bool { same_shape_g(grp(a), grp(b)) }
pub open spec fn vals<T: Item>(s: Seq<(Path, ItemValue<T>)>) -> Seq<ItemValue<T>> { Seq::new(s.len(), |i: int| s[i].1) }
pub open spec fn flatv<T: Item>(vs: Seq<ItemValue<T>>, n: nat) -> Seq<T>
    decreases n
{ if n == 0 || n > vs.len() { Seq::empty() } else { flatv(vs, (n - 1) as nat) + members(grp(vs[n - 1])) } }
pub proof fn lemma_flatv<T: Item>(s: Seq<(Path, ItemValue<T>)>, n: nat)
    requires n <= s.len(),
    ensures flat(ents_of(s), n) == flatv(vals(s), n),
    decreases n,
{ if n > 0 { lemma_flatv(s, (n - 1) as nat); } }
pub proof fn lemma_flatv_upd<T: Item>(vs: Seq<ItemValue<T>>, k: int, v: ItemValue<T>, n: nat)
    requires 0 <= n <= k < vs.len(),
    ensures flatv(vs.update(k, v), n) == flatv(vs, n),
    decreases n,
{ if n > 0 { lemma_flatv_upd(vs, k, v, (n - 1) as nat); } }
#[verifier::external_body]
pub fn vx_extend<T: Clone>(v: &mut Vec<T>, s: &Vec<T>) ensures final(v)@ == old(v)@ + s@ { v.extend_from_slice(s) }
pub trait VxVecAll<T> { fn vx_take_all(&mut self) -> Vec<T>; fn vx_put_all(&mut self, v: Vec<T>); }
impl<T> VxVecAll<T> for Vec<T> {
    #[verifier::external_body] fn vx_take_all(&mut self) -> (r: Vec<T>) ensures r@ == old(self)@ { unimplemented!() }
    #[verifier::external_body] fn vx_put_all(&mut self, v: Vec<T>) ensures final(self)@ == v@ { unimplemented!() }
}

// ================= code under contract =================
//@gsubst self.data.values() => self.data.vx_values()
impl<T: Item + Clone> ItemMap<T> {
    /// std::mem::take: the old value, leaving ItemMap::default(), an empty table
    #[verifier::external_body]
    fn vx_take(&mut self) -> (r: ItemMap<T>) ensures r == *old(self), ents(*final(self)) == Seq::<(Path, Group<T>)>::empty() { unimplemented!() }
    /// C-forall: `m.for_all_items(|x| ..)` runs its closure on all_items(m) in order (contract of
    /// ItemMap::for_all_items below)
    #[verifier::external_body]
    fn vx_all(&self) -> (r: &[T]) ensures r@ == all_items(ents(*self)) { unimplemented!() }
//@fn src/bindgen/ir/item.rs ItemMap::try_insert r
    requires wf(ents(*old(self))),
    ensures r == accepted(ents(*old(self)), item), ents(*final(self)) == ins(ents(*old(self)), item), wf(ents(*final(self))),
//@pre
    proof { lemma_ents_key(self.data.es@, item.spath()); lemma_ins_wf(ents(*self), item);
        let es = self.data.es@; let k = key_at(es, item.spath());
        if has_key(es, item.spath()) { assert(es.update(k, (item.spath(), es[k].1)) =~= es); } }
//@post
    proof { assert(ents(*self) =~= ins(ents(*old(self)), item)); }
//@end
//@fn src/bindgen/ir/item.rs ItemMap::rebuild
    requires wf(ents(*old(self))),
    ensures ents(*final(self)) == ents(*old(self)),
//@subst mem::take(self) => self.vx_take()
//@subst let old = => let before =
//@subst (old).vx_all() => (before).vx_all()
//@pre
    proof { lemma_rebuild_identity(ents(*self)); }
//@loop 0
    __s0@ == all_items(ents(before)), ents(before) == ents(*old(self)),
    wf(ents(*self)), ents(*self) == ins_all(Seq::<(Path, Group<T>)>::empty(), __s0@.take(__i0 as int)),
//@loop 0 pre
    proof { assert(__s0@.take(__k0 + 1) =~= __s0@.take(__k0 as int).push(__s0@[__k0 as int])); lemma_ins_all_push(Seq::<(Path, Group<T>)>::empty(), __s0@.take(__k0 as int), __s0@[__k0 as int]); }
//@loop 0 after
    proof { assert(__s0@.take(__s0@.len() as int) =~= __s0@); }
//@end
//@fn src/bindgen/ir/item.rs ItemMap::extend_with
    requires wf(ents(*old(self))),
    ensures ents(*final(self)) == ins_all(ents(*old(self)), all_items(ents(*other))), wf(ents(*final(self))),
//@loop 0
    __s0@ == all_items(ents(*other)),
    wf(ents(*self)), ents(*self) == ins_all(ents(*old(self)), __s0@.take(__i0 as int)),
//@loop 0 pre
    proof { assert(__s0@.take(__k0 + 1) =~= __s0@.take(__k0 as int).push(__s0@[__k0 as int])); lemma_ins_all_push(ents(*old(self)), __s0@.take(__k0 as int), __s0@[__k0 as int]); }
//@loop 0 after
    proof { assert(__s0@.take(__s0@.len() as int) =~= __s0@); }
//@end
//@fn src/bindgen/ir/item.rs ItemMap::to_vec r
    ensures r@ == all_items(ents(*self)),
//@subst result.extend_from_slice(items) => vx_extend(&mut result, items)
//@loop 0
    __s0@.len() == self.data.es@.len(), forall|i: int| 0 <= i < __s0@.len() ==> *(#[trigger] __s0@[i]) == self.data.es@[i].1,
    result@ == flat(ents(*self), __i0 as nat),
//@loop 0 pre
    proof { let e = ents(*self)[__k0 as int]; assert(e.1 == grp(*__s0@[__k0 as int])); if let Group::Single(x) = e.1 { assert(result@ + seq![x] =~= result@.push(x)); } }
//@end
//@fn src/bindgen/ir/item.rs ItemMap::get_items r
    requires wf(ents(*self)),
    ensures r is Some <==> all_items(ents(*self)).filter(named::<T>(*path)).len() > 0,
        r is Some ==> r->0@ == containers(all_items(ents(*self)).filter(named::<T>(*path))),
//@pre
    proof { lemma_ents_key(self.data.es@, *path); lemma_found_filter(ents(*self), *path, ents(*self).len());
        if has_key(ents(*self), *path) { let g = ents(*self)[key_at(ents(*self), *path)]; assert(grouped(g)); assert forall|x: T| containers(#[trigger] seq![x]) =~= seq![x.scontainer()] by {} } }
//@post
    proof { if __ret is Some { assert(__ret->0@ =~= containers(all_items(ents(*self)).filter(named::<T>(*path)))); } }
//@loop 0
    __s0@ == items@, __r0@ =~= containers(items@.take(__i0 as int)),
//@end
//@fn src/bindgen/ir/item.rs ItemMap::filter
    requires wf(ents(*old(self))),
    ensures ents(*final(self)) == filt(ents(*old(self)), callback.f@, ents(*old(self)).len()), wf(ents(*final(self))),
        all_items(ents(*final(self))) == all_items(ents(*old(self))).filter(stays(callback.f@)),
//@sig pub fn filter(&mut self, callback: Pred<T>)
//@subst callback(item) => callback.call(item)
//@pre
    proof { lemma_filt_wf(ents(*self), callback.f@, ents(*self).len()); lemma_filt_items(ents(*self), callback.f@, ents(*self).len()); }
//@loop 0 rty=Vec<(Path, ItemValue<T>)>
    __s0@ == old(self).data.es@, ents_of(__r0@) == filt(ents(*old(self)), callback.f@, __i0 as nat),
//@loop 0 pre
    let ghost __o0 = __r0@;
//@loop 0 post
    proof {
        let e = ents(*old(self))[__i0 - 1];
        if __r0@.len() > __o0.len() { assert(ents_of(__r0@) =~= ents_of(__o0).push((e.0, grp(__r0@.last().1)))); }
        assert(ents_of(__r0@) == filt(ents(*old(self)), callback.f@, __i0 as nat));
    }
//@loop 1 rty=Vec<T>
    __r1@ == __s1@.take(__i1 as int).filter(stays(callback.f@)),
//@loop 1 pre
    proof { let a = __s1@.take(__i1 + 1); lemma_filter_step(a, stays(callback.f@)); assert(a.drop_last() =~= __s1@.take(__i1 as int)); }
//@loop 1 after
    proof { assert(__s1@.take(__s1@.len() as int) =~= __s1@); }
//@end
//@fn src/bindgen/ir/item.rs ItemMap::for_all_items
    ensures final(callback).calls@ == old(callback).calls@ + all_items(ents(*self)),
//@sig pub fn for_all_items(&self, callback: &mut Caller<T>)
//@subst callback(item) => callback.call(item)
//@pre
    let ghost mut __c = callback.calls@;
    proof { assert(callback.calls@ + flat(ents(*self), 0) =~= callback.calls@); }
//@loop 0
    __s0@.len() == self.data.es@.len(), forall|i: int| 0 <= i < __s0@.len() ==> *(#[trigger] __s0@[i]) == self.data.es@[i].1,
    callback.calls@ == old(callback).calls@ + flat(ents(*self), __i0 as nat),
//@loop 0 pre
    proof { __c = callback.calls@; let e = ents(*self)[__k0 as int]; assert(e.1 == grp(*__s0@[__k0 as int])); }
//@loop 0 post
    proof { let e = ents(*self)[__i0 - 1]; assert(callback.calls@ =~= __c + members(e.1));
        assert(__c + members(e.1) =~= old(callback).calls@ + (flat(ents(*self), (__i0 - 1) as nat) + members(e.1))); }
//@loop 1
    __s1@ == items@, callback.calls@ =~= __c + items@.take(__i1 as int),
//@end
//@fn src/bindgen/ir/item.rs ItemMap::for_items
    requires keys_distinct(ents(*self)),
    ensures final(callback).calls@ == old(callback).calls@ + match found(ents(*self), *path) { Some(g) => members(g), None => Seq::empty() },
//@sig pub fn for_items(&self, path: &Path, callback: &mut Caller<T>)
//@subst callback(item) => callback.call(item)
//@pre
    proof { lemma_ents_key(self.data.es@, *path); }
//@post
    proof { assert(callback.calls@ =~= old(callback).calls@ + match found(ents(*self), *path) { Some(g) => members(g), None => Seq::empty() }); }
//@loop 0
    __s0@ == items@, callback.calls@ =~= old(callback).calls@ + items@.take(__i0 as int),
//@end
//@fn src/bindgen/ir/item.rs ItemMap::for_items_mut
    requires keys_distinct(ents(*old(self))),
    ensures same_shape(ents(*old(self)), ents(*final(self))),
        match found(ents(*old(self)), *path) {
            Some(g) => ents(*final(self)) == ents(*old(self)).update(key_at(ents(*old(self)), *path), (*path, ents(*final(self))[key_at(ents(*old(self)), *path)].1))
                && final(callback).calls@ == old(callback).calls@ + pairs(members(g), members(ents(*final(self))[key_at(ents(*old(self)), *path)].1)),
            None => *final(callback) == *old(callback) && ents(*final(self)) == ents(*old(self)),
        },
//@sig pub fn for_items_mut(&mut self, path: &Path, callback: &mut MutCaller<T>)
//@subst callback(item) => callback.call(item)
//@pre
    proof { lemma_ents_key(self.data.es@, *path); }
//@post
    proof {
        let a = ents(*old(self)); let b = ents(*self); let k = key_at(a, *path);
        if has_key(a, *path) {
            assert(b =~= a.update(k, (*path, b[k].1)));
            assert(callback.calls@ =~= old(callback).calls@ + pairs(members(a[k].1), members(b[k].1)));
        }
    }
//@loop 0 mode=mut
    callback.calls@ =~= old(callback).calls@ + pairs(__g0.take(__i0 as int), __s0@.take(__i0 as int)),
//@end
//@fn src/bindgen/ir/item.rs ItemMap::for_all_items_mut
    ensures same_shape(ents(*old(self)), ents(*final(self))),
        final(callback).calls@ == old(callback).calls@ + pairs(all_items(ents(*old(self))), all_items(ents(*final(self)))),
//@sig pub fn for_all_items_mut(&mut self, callback: &mut MutCaller<T>)
//@subst callback(item) => callback.call(item)
//@subst self.data.values_mut() => self.data.vx_values_mut()
//@pre
    let ghost mut __c = callback.calls@;
    let ghost mut __old: Seq<ItemValue<T>> = Seq::empty();
    let ghost mut __b: Seq<ItemValue<T>> = Seq::empty();
    let ghost mut __new: Seq<ItemValue<T>> = Seq::empty();
    let ghost __es = self.data.es@;
//@post
    proof { lemma_flatv(__es, __es.len()); lemma_flatv(self.data.es@, __es.len()); assert(__old =~= vals(__es)); assert(__new =~= vals(self.data.es@)); 
        assert forall|i: int| 0 <= i < __es.len() implies (#[trigger] ents_of(__es)[i]).0 == (#[trigger] ents(*self)[i]).0 && same_shape_g(ents_of(__es)[i].1, ents(*self)[i].1) by { assert(shaped(__old[i], __new[i])); } }
//@loop 0 mode=mut
    __old == __g0, __b == __s0@, __c == callback.calls@, callback.calls@ == old(callback).calls@ + pairs(flatv(__g0, __i0 as nat), flatv(__s0@, __i0 as nat)),
    flatv(__g0, __i0 as nat).len() == flatv(__s0@, __i0 as nat).len(),
    forall|j: int| 0 <= j < __i0 ==> shaped(#[trigger] __g0[j], __s0@[j]),
//@loop 0 before
    proof { __old = __s0@; __b = __s0@; assert(callback.calls@ + pairs(flatv(__g0, 0), flatv(__s0@, 0)) =~= callback.calls@); }
//@loop 0 post
    proof {
        let k = __i0 - 1;
        assert(__s0@ =~= __b.update(k, __s0@[k]));
        lemma_flatv_upd(__b, k, __s0@[k], k as nat);
        assert forall|j: int| 0 <= j < __i0 implies shaped(#[trigger] __g0[j], __s0@[j]) by { if j < k { assert(__s0@[j] == __b[j]); } }
        let a = flatv(__g0, k as nat); let b = members(grp(__g0[k])); let c = flatv(__s0@, k as nat); let d = members(grp(__s0@[k]));
        assert(pairs(a + b, c + d) =~= pairs(a, c) + pairs(b, d));
        assert(callback.calls@ =~= __c + pairs(b, d));
        assert((old(callback).calls@ + pairs(a, c)) + pairs(b, d) =~= old(callback).calls@ + (pairs(a, c) + pairs(b, d)));
        __c = callback.calls@; __b = __s0@;
    }
//@loop 0 after
    proof { __new = __s0@; }
//@loop 1 mode=mut
    callback.calls@ =~= __c + pairs(__g1.take(__i1 as int), __s1@.take(__i1 as int)),
//@end
}
} // verus!
fn main() {}
