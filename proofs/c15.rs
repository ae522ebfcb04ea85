//@include prelude.inc
//@include ty_types.inc
verus! {
//@include ty_basic.inc
#[verifier::external_body] pub struct Cfg { _p: () }
#[verifier::external_body] pub struct AnnotationSet { _p: () }
#[verifier::external_body] pub struct Documentation { _p: () }
//@include literal.inc
//@type src/bindgen/ir/constant.rs Constant

// ================= specification =================
/// The calls a visit made, with the visitor's answers: the parts of the expression in pre-order,
/// all of them unless some call answered `false`, which is then the last one.
pub open spec fn visited(p: Seq<Literal>, t: Seq<(Literal, bool)>, r: bool) -> bool {
    &&& t.len() <= p.len()
    &&& forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).0 == p[i]
    &&& forall|i: int| 0 <= i < t.len() ==> ((#[trigger] t[i]).1 <==> (r || i < t.len() - 1))
    &&& r ==> t.len() == p.len()
    &&& !r ==> t.len() > 0
}
proof fn lemma_join(p: Seq<Literal>, q: Seq<Literal>, t: Seq<(Literal, bool)>, u: Seq<(Literal, bool)>, r: bool)
    requires visited(p, t, true), visited(q, u, r),
    ensures visited(p + q, t + u, r),
{
    let w = t + u;
    assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).0 == (p + q)[i] && (w[i].1 <==> (r || i < w.len() - 1)) by {
        if i < t.len() { assert(w[i] == t[i]); } else { assert(w[i] == u[i - t.len()]); }
    }
}
proof fn lemma_stop(p: Seq<Literal>, q: Seq<Literal>, t: Seq<(Literal, bool)>)
    requires visited(p, t, false),
    ensures visited(p + q, t, false),
{}
/// what a visitor saw between two states
pub open spec fn since(a: Visitor, b: Visitor) -> Seq<(Literal, bool)> { b.calls@.skip(a.calls@.len() as int) }
pub open spec fn saw(a: Visitor, b: Visitor, p: Seq<Literal>, r: bool) -> bool {
    &&& a.calls@.len() <= b.calls@.len() && b.calls@.take(a.calls@.len() as int) == a.calls@
    &&& visited(p, since(a, b), r)
}
pub broadcast proof fn lemma_saw_join(a: Visitor, b: Visitor, c: Visitor, p: Seq<Literal>, q: Seq<Literal>, r: bool)
    requires #[trigger] saw(a, b, p, true), #[trigger] saw(b, c, q, r),
    ensures saw(a, c, p + q, r),
{
    lemma_join(p, q, since(a, b), since(b, c), r);
    assert(b.calls@ == c.calls@.take(b.calls@.len() as int));
    assert(since(a, c) =~= since(a, b) + since(b, c));
    assert(c.calls@.take(a.calls@.len() as int) =~= b.calls@.take(a.calls@.len() as int));
}
pub broadcast proof fn lemma_saw_stop(a: Visitor, b: Visitor, p: Seq<Literal>, q: Seq<Literal>)
    requires #[trigger] saw(a, b, p, false),
    ensures saw(a, b, #[trigger] (p + q), false),
{ lemma_stop(p, q, since(a, b)); }
/// the elements before k, then the rest
proof fn lemma_pre_items(xs: Seq<Literal>, k: nat, n: nat)
    requires k <= n <= xs.len(),
    ensures exists|q: Seq<Literal>| #[trigger] (pre_items(xs, k) + q) == pre_items(xs, n),
    decreases n - k
{
    if k == n { assert(pre_items(xs, k) + Seq::empty() =~= pre_items(xs, n)); }
    else {
        lemma_pre_items(xs, k, (n - 1) as nat);
        let q = choose|q: Seq<Literal>| #[trigger] (pre_items(xs, k) + q) == pre_items(xs, (n - 1) as nat);
        assert(pre_items(xs, k) + (q + preorder(xs[n - 1])) =~= (pre_items(xs, k) + q) + preorder(xs[n - 1]));
    }
}
proof fn lemma_pre_fields(xs: Seq<LiteralStructField>, k: nat, n: nat)
    requires k <= n <= xs.len(),
    ensures exists|q: Seq<Literal>| #[trigger] (pre_fields(xs, k) + q) == pre_fields(xs, n),
    decreases n - k
{
    if k == n { assert(pre_fields(xs, k) + Seq::empty() =~= pre_fields(xs, n)); }
    else {
        lemma_pre_fields(xs, k, (n - 1) as nat);
        let q = choose|q: Seq<Literal>| #[trigger] (pre_fields(xs, k) + q) == pre_fields(xs, (n - 1) as nat);
        assert(pre_fields(xs, k) + (q + preorder(xs[n - 1].value)) =~= (pre_fields(xs, k) + q) + preorder(xs[n - 1].value));
    }
}
pub broadcast proof fn lemma_saw_prefix_items(a: Visitor, b: Visitor, h: Seq<Literal>, xs: Seq<Literal>, k: nat)
    requires k <= xs.len(), #[trigger] saw(a, b, h + pre_items(xs, k), false),
    ensures saw(a, b, h + pre_items(xs, xs.len()), false),
{
    lemma_pre_items(xs, k, xs.len());
    let q = choose|q: Seq<Literal>| #[trigger] (pre_items(xs, k) + q) == pre_items(xs, xs.len());
    lemma_saw_stop(a, b, h + pre_items(xs, k), q);
    assert(h + pre_items(xs, k) + q =~= h + (pre_items(xs, k) + q));
}
pub broadcast proof fn lemma_saw_prefix_fields(a: Visitor, b: Visitor, h: Seq<Literal>, xs: Seq<LiteralStructField>, k: nat)
    requires k <= xs.len(), #[trigger] saw(a, b, h + pre_fields(xs, k), false),
    ensures saw(a, b, h + pre_fields(xs, xs.len()), false),
{
    lemma_pre_fields(xs, k, xs.len());
    let q = choose|q: Seq<Literal>| #[trigger] (pre_fields(xs, k) + q) == pre_fields(xs, xs.len());
    lemma_saw_stop(a, b, h + pre_fields(xs, k), q);
    assert(h + pre_fields(xs, k) + q =~= h + (pre_fields(xs, k) + q));
}

pub open spec fn is_ptr_ty(t: Type) -> bool { t is Ptr || t is FuncPtr }
pub open spec fn prim_or_ptr(t: Type) -> bool {
    match t { Type::Primitive(_) => true, Type::Ptr { ty, .. } => *ty is Primitive, _ => false }
}
pub open spec fn is_ptr_cast(l: Literal) -> bool { l is Cast && is_ptr_ty(l->Cast_ty) }
pub open spec fn only_prim(l: Literal) -> bool { !(l is Struct) && (l is Cast ==> prim_or_ptr(l->Cast_ty)) }
/// no part of the expression converts to a pointer
pub open spec fn constexpr_ok(l: Literal) -> bool { forall|i: int| 0 <= i < preorder(l).len() ==> !is_ptr_cast(#[trigger] preorder(l)[i]) }
pub open spec fn all_prim(l: Literal) -> bool { forall|i: int| 0 <= i < preorder(l).len() ==> only_prim(#[trigger] preorder(l)[i]) }

// ---- validity: every part that names a type names one that is emitted ----
pub struct Bindings { pub structs: Ghost<Set<Seq<char>>>, pub enums: Ghost<Set<Seq<char>>> }
impl Bindings {
    /// the struct tables of Bindings, through type aliases
    #[verifier::external_body] pub fn struct_exists(&self, p: &Path) -> (r: bool) ensures r == self.structs@.contains(p.name@) { unimplemented!() }
    #[verifier::external_body] pub fn enum_exists(&self, p: &Path) -> (r: bool) ensures r == self.enums@.contains(p.name@) { unimplemented!() }
}
/// PrimitiveType::maybe (under contract in c02)
pub uninterp spec fn prim_of(n: Seq<char>) -> Option<PrimitiveType>;
impl PrimitiveType {
    #[verifier::external_body] pub fn maybe(n: &str) -> (r: Option<PrimitiveType>) ensures r == prim_of(n@) { unimplemented!() }
}
/// the <stdint.h> macros exist for these
pub open spec fn int_macro(kind: IntKind, signed: bool) -> Option<Seq<char>> {
    match kind {
        IntKind::B8 => Some(if signed { "INT8"@ } else { "UINT8"@ }),
        IntKind::B16 => Some(if signed { "INT16"@ } else { "UINT16"@ }),
        IntKind::B32 => Some(if signed { "INT32"@ } else { "UINT32"@ }),
        IntKind::B64 => Some(if signed { "INT64"@ } else { "UINT64"@ }),
        _ => None,
    }
}
/// `iN::MAX`, `uN::MIN`, ... as the C value of the same name: the smallest value of an unsigned
/// type has no macro and is a number, 1 for the non-zero types
pub open spec fn known_assoc(ty: Seq<char>, name: Seq<char>) -> Option<Seq<char>> {
    if name != "MAX"@ && name != "MIN"@ { None } else {
        match prim_of(ty) {
            Some(PrimitiveType::Integer { kind, signed, zeroable }) => match int_macro(kind, signed) {
                None => None,
                Some(m) => if !signed && name == "MIN"@ { Some(if zeroable { "0"@ } else { "1"@ }) } else { Some(m + "_"@ + name) },
            },
            _ => None,
        }
    }
}
pub open spec fn part_ok(l: Literal, b: Bindings) -> bool {
    match l {
        Literal::Path { associated_to: Some(a), name } => b.structs@.contains(a.0.name@) || b.enums@.contains(a.0.name@) || known_assoc(a.0.name@, name@) is Some,
        Literal::Struct { path, .. } => b.structs@.contains(path.name@),
        _ => true,
    }
}
/// every part of the expression is valid
pub open spec fn lit_ok(l: Literal, b: Bindings) -> bool
    decreases l
{
    part_ok(l, b) && match l {
        Literal::Expr(_) => true,
        Literal::Path { .. } => true,
        Literal::PostfixUnaryOp { value, .. } => lit_ok(*value, b),
        Literal::BinOp { left, right, .. } => lit_ok(*left, b) && lit_ok(*right, b),
        Literal::FieldAccess { base, .. } => lit_ok(*base, b),
        Literal::Struct { fields, .. } => forall|i: int| 0 <= i < fields.vs@.len() ==> lit_ok((#[trigger] fields.vs@[i]).value, b),
        Literal::Cast { value, .. } => lit_ok(*value, b),
        Literal::Array { items } => forall|i: int| 0 <= i < items@.len() ==> lit_ok(#[trigger] items@[i], b),
    }
}
pub open spec fn all_ok(p: Seq<Literal>, b: Bindings) -> bool { forall|i: int| 0 <= i < p.len() ==> part_ok(#[trigger] p[i], b) }
proof fn lemma_ok_cat(p: Seq<Literal>, q: Seq<Literal>, b: Bindings)
    ensures all_ok(p + q, b) == (all_ok(p, b) && all_ok(q, b)),
{
    let w = p + q;
    if all_ok(w, b) {
        assert forall|i: int| 0 <= i < p.len() implies part_ok(#[trigger] p[i], b) by { assert(w[i] == p[i]); }
        assert forall|i: int| 0 <= i < q.len() implies part_ok(#[trigger] q[i], b) by { assert(w[p.len() + i] == q[i]); }
    }
    if all_ok(p, b) && all_ok(q, b) {
        assert forall|i: int| 0 <= i < w.len() implies part_ok(#[trigger] w[i], b) by { if i < p.len() { assert(w[i] == p[i]); } else { assert(w[i] == q[i - p.len()]); } }
    }
}
/// validity is exactly validity of the visited parts
proof fn lemma_ok_parts(l: Literal, b: Bindings)
    ensures lit_ok(l, b) == all_ok(preorder(l), b),
    decreases l
{
    let h = seq![l];
    assert(h[0] == l);
    assert(all_ok(h, b) == part_ok(l, b));
    assert(all_ok(Seq::empty(), b));
    match l {
        Literal::Expr(_) => { lemma_ok_cat(h, Seq::empty(), b); }
        Literal::Path { .. } => { lemma_ok_cat(h, Seq::empty(), b); }
        Literal::PostfixUnaryOp { value, .. } => { lemma_ok_parts(*value, b); lemma_ok_cat(h, preorder(*value), b); }
        Literal::BinOp { left, right, .. } => { lemma_ok_parts(*left, b); lemma_ok_parts(*right, b); lemma_ok_cat(preorder(*left), preorder(*right), b); lemma_ok_cat(h, preorder(*left) + preorder(*right), b); }
        Literal::FieldAccess { base, .. } => { lemma_ok_parts(*base, b); lemma_ok_cat(h, preorder(*base), b); }
        Literal::Struct { fields, .. } => { lemma_ok_fields(fields.vs@, fields.vs@.len(), b); lemma_ok_cat(h, pre_fields(fields.vs@, fields.vs@.len()), b); }
        Literal::Cast { value, .. } => { lemma_ok_parts(*value, b); lemma_ok_cat(h, preorder(*value), b); }
        Literal::Array { items } => { lemma_ok_items(items@, items@.len(), b); lemma_ok_cat(h, pre_items(items@, items@.len()), b); }
    }
}
proof fn lemma_ok_items(xs: Seq<Literal>, n: nat, b: Bindings)
    requires n <= xs.len(),
    ensures all_ok(pre_items(xs, n), b) == (forall|i: int| 0 <= i < n ==> lit_ok(#[trigger] xs[i], b)),
    decreases xs, n
{
    if n > 0 { lemma_ok_items(xs, (n - 1) as nat, b); lemma_ok_parts(xs[n - 1], b); lemma_ok_cat(pre_items(xs, (n - 1) as nat), preorder(xs[n - 1]), b); 
        assert((forall|i: int| 0 <= i < n ==> lit_ok(#[trigger] xs[i], b)) == ((forall|i: int| 0 <= i < n - 1 ==> lit_ok(#[trigger] xs[i], b)) && lit_ok(xs[n - 1], b)));
    }
}
proof fn lemma_ok_fields(xs: Seq<LiteralStructField>, n: nat, b: Bindings)
    requires n <= xs.len(),
    ensures all_ok(pre_fields(xs, n), b) == (forall|i: int| 0 <= i < n ==> lit_ok((#[trigger] xs[i]).value, b)),
    decreases xs, n
{
    if n > 0 { lemma_ok_fields(xs, (n - 1) as nat, b); lemma_ok_parts(xs[n - 1].value, b); lemma_ok_cat(pre_fields(xs, (n - 1) as nat), preorder(xs[n - 1].value), b);
        assert((forall|i: int| 0 <= i < n ==> lit_ok((#[trigger] xs[i]).value, b)) == ((forall|i: int| 0 <= i < n - 1 ==> lit_ok((#[trigger] xs[i]).value, b)) && lit_ok(xs[n - 1].value, b)));
    }
}

// ---- Self ----
/// Type::replace_self_with is under contract in c04 (ty_self); here: some relation
pub uninterp spec fn ty_self(t: Type, p: Path, r: Type) -> bool;
impl Type {
    #[verifier::external_body] pub fn replace_self_with(&mut self, p: &Path) ensures ty_self(*old(self), *p, *final(self)) { unimplemented!() }
    #[verifier::external_body] pub fn rename_for_config(&mut self, config: &Config, g: &GenericParams) ensures ty_ren(*old(self), config.export, g.0@, *final(self)) { unimplemented!() }
}
/// the same tree, with `Self` replaced wherever a type is named
pub open spec fn lit_self(l: Literal, p: Path, r: Literal) -> bool
    decreases l
{
    match l {
        Literal::Expr(_) => r == l,
        Literal::Path { associated_to, name } => match r {
            Literal::Path { associated_to: a2, name: n2 } => n2 == name && match associated_to {
                None => a2 is None,
                Some(a) => a2 is Some && if a.0.name@ == "Self"@ { (a2->0).0 == p && (a2->0).1@ == p.name@ } else { a2->0 == a },
            },
            _ => false,
        },
        Literal::PostfixUnaryOp { op, value } => match r { Literal::PostfixUnaryOp { op: o2, value: v2 } => o2 == op && lit_self(*value, p, *v2), _ => false },
        Literal::BinOp { left, op, right } => match r { Literal::BinOp { left: l2, op: o2, right: r2 } => o2 == op && lit_self(*left, p, *l2) && lit_self(*right, p, *r2), _ => false },
        Literal::FieldAccess { base, field } => match r { Literal::FieldAccess { base: b2, field: f2 } => f2 == field && lit_self(*base, p, *b2), _ => false },
        Literal::Struct { path, export_name, fields } => match r {
            Literal::Struct { path: p2, export_name: n2, fields: f2 } => {
                &&& if path.name@ == "Self"@ { p2 == p && n2@ == p.name@ } else { p2 == path && n2 == export_name }
                &&& f2.ks == fields.ks && f2.vs@.len() == fields.vs@.len()
                &&& forall|i: int| 0 <= i < fields.vs@.len() ==> lit_self((#[trigger] fields.vs@[i]).value, p, f2.vs@[i].value) && f2.vs@[i].cfg == fields.vs@[i].cfg
            },
            _ => false,
        },
        Literal::Cast { ty, value } => match r { Literal::Cast { ty: t2, value: v2 } => ty_self(ty, p, t2) && lit_self(*value, p, *v2), _ => false },
        Literal::Array { items } => match r {
            Literal::Array { items: i2 } => i2@.len() == items@.len() && forall|i: int| 0 <= i < items@.len() ==> lit_self(#[trigger] items@[i], p, i2@[i]),
            _ => false,
        },
    }
}
// ---- renaming ----
//@type src/bindgen/config.rs ExportConfig keep=prefix
//@type src/bindgen/config.rs Config keep=export
/// Type::rename_for_config and ExportConfig::rename are under contract in c11
pub uninterp spec fn ty_ren(t: Type, e: ExportConfig, ps: Seq<GenericParam>, r: Type) -> bool;
pub uninterp spec fn out_name(e: ExportConfig, n: Seq<char>) -> Seq<char>;
impl ExportConfig {
    #[verifier::external_body] pub fn rename(&self, item_name: &mut String) ensures final(item_name)@ == out_name(*self, old(item_name)@) { unimplemented!() }
}
impl GenericParams { #[verifier::external_body] pub fn vx_default() -> (r: GenericParams) ensures r.0@ == Seq::<GenericParam>::empty() { unimplemented!() } }
pub open spec fn lit_ren(l: Literal, e: ExportConfig, r: Literal) -> bool
    decreases l
{
    match l {
        Literal::Expr(_) => r == l,
        Literal::Path { associated_to, name } => match r {
            Literal::Path { associated_to: a2, name: n2 } => match associated_to {
                None => a2 is None && n2@ == out_name(e, name@),
                Some(a) => a2 is Some && (a2->0).0 == a.0 && (a2->0).1@ == out_name(e, a.1@) && n2 == name,
            },
            _ => false,
        },
        Literal::PostfixUnaryOp { op, value } => match r { Literal::PostfixUnaryOp { op: o2, value: v2 } => o2 == op && lit_ren(*value, e, *v2), _ => false },
        Literal::BinOp { left, op, right } => match r { Literal::BinOp { left: l2, op: o2, right: r2 } => o2 == op && lit_ren(*left, e, *l2) && lit_ren(*right, e, *r2), _ => false },
        Literal::FieldAccess { base, field } => match r { Literal::FieldAccess { base: b2, field: f2 } => f2 == field && lit_ren(*base, e, *b2), _ => false },
        Literal::Struct { path, export_name, fields } => match r {
            Literal::Struct { path: p2, export_name: n2, fields: f2 } => {
                &&& p2 == path && n2@ == out_name(e, export_name@) && f2.ks == fields.ks
                &&& f2.vs@.len() == fields.vs@.len()
                &&& forall|i: int| 0 <= i < fields.vs@.len() ==> lit_ren((#[trigger] fields.vs@[i]).value, e, f2.vs@[i].value) && f2.vs@[i].cfg == fields.vs@[i].cfg
            },
            _ => false,
        },
        Literal::Cast { ty, value } => match r { Literal::Cast { ty: t2, value: v2 } => ty_ren(ty, e, Seq::empty(), t2) && lit_ren(*value, e, *v2), _ => false },
        Literal::Array { items } => match r {
            Literal::Array { items: i2 } => i2@.len() == items@.len() && forall|i: int| 0 <= i < items@.len() ==> lit_ren(#[trigger] items@[i], e, i2@[i]),
            _ => false,
        },
    }
}

// ================= code under contract =================
/// the visitor closure: its calls so far and its answers; nothing is assumed about the answers
pub struct Visitor { pub calls: Ghost<Seq<(Literal, bool)>> }
impl Visitor {
    #[verifier::external_body]
    pub fn call_(&mut self, l: &Literal) -> (r: bool)
        ensures final(self).calls@ == old(self).calls@.push((*l, r)),
    { unimplemented!() }
    pub fn call(&mut self, l: &Literal) -> (r: bool)
        ensures saw(*old(self), *final(self), seq![*l], r),
    {
        let r = self.call_(l);
        assert(since(*old(self), *self) =~= seq![(*l, r)]);
        assert(self.calls@.take(old(self).calls@.len() as int) =~= old(self).calls@);
        r
    }
}
impl Type {
//@fn src/bindgen/ir/ty.rs Type::is_ptr r
    ensures r == is_ptr_ty(*self),
//@end
//@fn src/bindgen/ir/ty.rs Type::is_primitive_or_ptr_primitive r
    ensures r == prim_or_ptr(*self),
//@subst ty.as_ref() => (&**ty)
//@end
}
//@fn src/bindgen/ir/constant.rs to_known_assoc_constant r
    ensures r is Some <==> known_assoc(associated_to.name@, name@) is Some,
        r is Some ==> r->0@ == known_assoc(associated_to.name@, name@)->0,
//@subst use crate::bindgen::ir::{IntKind, PrimitiveType}; => 
//@end
impl Literal {
//@fn src/bindgen/ir/constant.rs Literal::visit r
    ensures saw(*old(visitor), *final(visitor), preorder(*self), r),
//@sig fn visit(&self, visitor: &mut Visitor) -> (r: bool)
//@subst visitor(self) => visitor.call(self)
//@subst fields.values() => fields.vx_values()
//@pre
    broadcast use {lemma_saw_join, lemma_saw_stop, lemma_saw_prefix_items, lemma_saw_prefix_fields};
    hide(saw);
    proof { assert(seq![*self] + Seq::<Literal>::empty() =~= seq![*self]); }
//@loop 0
    __s0@ == items@,
    saw(*old(visitor), *visitor, seq![*self] + pre_items(items@, __i0 as nat), true),
//@loop 0 pre
    proof { assert(pre_items(items@, (__k0 + 1) as nat) == pre_items(items@, __k0 as nat) + preorder(items@[__k0 as int]));
        assert((seq![*self] + pre_items(items@, __k0 as nat)) + preorder(items@[__k0 as int]) =~= seq![*self] + pre_items(items@, (__k0 + 1) as nat)); }
//@loop 1
    __s1@.len() == fields.vs@.len(), forall|i: int| 0 <= i < __s1@.len() ==> *(#[trigger] __s1@[i]) == fields.vs@[i],
    saw(*old(visitor), *visitor, seq![*self] + pre_fields(fields.vs@, __i1 as nat), true),
//@loop 1 pre
    proof { assert(pre_fields(fields.vs@, (__k1 + 1) as nat) == pre_fields(fields.vs@, __k1 as nat) + preorder(fields.vs@[__k1 as int].value));
        assert((seq![*self] + pre_fields(fields.vs@, __k1 as nat)) + preorder(fields.vs@[__k1 as int].value) =~= seq![*self] + pre_fields(fields.vs@, (__k1 + 1) as nat)); }
//@end
    /// C-visit: `l.visit(&mut |p| { ..; go_on })` runs its closure on the elements of preorder(l) in
    /// order until it answers false (contract of Literal::visit above)
    #[verifier::external_body]
    pub fn vx_preorder(&self) -> (r: Vec<&Literal>)
        ensures r@.len() == preorder(*self).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == preorder(*self)[i],
    { unimplemented!() }
//@fn src/bindgen/ir/constant.rs Literal::has_pointer_casts r
    ensures r == !constexpr_ok(*self),
//@loop 0
    __s0@.len() == preorder(*self).len(), forall|i: int| 0 <= i < __s0@.len() ==> *(#[trigger] __s0@[i]) == preorder(*self)[i],
    !has_pointer_casts ==> forall|i: int| 0 <= i < __i0 ==> !is_ptr_cast(#[trigger] preorder(*self)[i]),
    has_pointer_casts ==> exists|i: int| 0 <= i < preorder(*self).len() && is_ptr_cast(#[trigger] preorder(*self)[i]),
//@end
//@fn src/bindgen/ir/constant.rs Literal::can_be_constexpr r
    ensures r == constexpr_ok(*self),
//@end
//@fn src/bindgen/ir/constant.rs Literal::uses_only_primitive_types r
    ensures r == all_prim(*self),
//@loop 0
    __s0@.len() == preorder(*self).len(), forall|i: int| 0 <= i < __s0@.len() ==> *(#[trigger] __s0@[i]) == preorder(*self)[i],
    uses_only_primitive_types ==> forall|i: int| 0 <= i < __i0 ==> only_prim(#[trigger] preorder(*self)[i]),
    !uses_only_primitive_types ==> exists|i: int| 0 <= i < preorder(*self).len() && !only_prim(#[trigger] preorder(*self)[i]),
//@end
//@fn src/bindgen/ir/constant.rs Literal::is_valid r
    ensures r == lit_ok(*self, *bindings), r == all_ok(preorder(*self), *bindings),
//@pre
    proof { lemma_ok_parts(*self, *bindings); }
//@subst fields.values() => fields.vx_values()
//@loop 0
    __r0 ==> forall|i: int| 0 <= i < __i0 ==> lit_ok(#[trigger] items@[i], *bindings),
    !__r0 ==> exists|i: int| 0 <= i < items@.len() && !lit_ok(#[trigger] items@[i], *bindings),
    __s0@ == items@,
//@loop 1
    __s1@.len() == fields.vs@.len(), forall|i: int| 0 <= i < __s1@.len() ==> *(#[trigger] __s1@[i]) == fields.vs@[i],
    __r1 ==> forall|i: int| 0 <= i < __i1 ==> lit_ok((#[trigger] fields.vs@[i]).value, *bindings),
    !__r1 ==> exists|i: int| 0 <= i < fields.vs@.len() && !lit_ok((#[trigger] fields.vs@[i]).value, *bindings),
//@end
//@fn src/bindgen/ir/constant.rs Literal::replace_self_with r
    ensures lit_self(*old(self), *self_ty, *final(self)),
//@subst fields.values_mut() => fields.vx_values_mut()
//@loop 0 mode=mut
    forall|i: int| 0 <= i < __i0 ==> lit_self((#[trigger] __g0[i]).value, *self_ty, __s0@[i].value) && __s0@[i].cfg == __g0[i].cfg,
//@loop 1 mode=mut
    forall|i: int| 0 <= i < __i1 ==> lit_self(#[trigger] __g1[i], *self_ty, __s1@[i]),
//@end
//@fn src/bindgen/ir/constant.rs Literal::rename_for_config r
    ensures lit_ren(*old(self), config.export, *final(self)),
//@subst fields.values_mut() => fields.vx_values_mut()
//@subst GenericParams::default() => GenericParams::vx_default()
//@loop 0 mode=mut
    forall|i: int| 0 <= i < __i0 ==> lit_ren((#[trigger] __g0[i]).value, config.export, __s0@[i].value) && __s0@[i].cfg == __g0[i].cfg,
//@loop 1 mode=mut
    forall|i: int| 0 <= i < __i1 ==> lit_ren(#[trigger] __g1[i], config.export, __s1@[i]),
//@end
}
impl Constant {
//@fn src/bindgen/ir/constant.rs Constant::uses_only_primitive_types r
    ensures r == (all_prim(self.value) && prim_or_ptr(self.ty)),
//@end
}
} // verus!
fn main() {}
