// ---- indexmap (dependency): an insertion-ordered map, modelled as its entries in order ----
pub struct IndexMap<K, V> { pub ks: Vec<K>, pub vs: Vec<V> }
impl<K, V> IndexMap<K, V> {
    #[verifier::external_body]
    pub fn vx_values(&self) -> (r: Vec<&V>)
        ensures r@.len() == self.vs@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.vs@[i],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_values_mut(&mut self) -> (r: &mut Vec<V>)
        ensures *r == old(self).vs, final(self).vs@ == final(r)@, final(self).ks == old(self).ks,
    { unimplemented!() }
}
//@type src/bindgen/ir/constant.rs LiteralStructField
//@type src/bindgen/ir/constant.rs Literal
/// the expression and all its parts, each part before its own parts
pub open spec fn preorder(l: Literal) -> Seq<Literal>
    decreases l
{
    seq![l] + (match l {
        Literal::Expr(_) => Seq::empty(),
        Literal::Path { .. } => Seq::empty(),
        Literal::PostfixUnaryOp { value, .. } => preorder(*value),
        Literal::BinOp { left, right, .. } => preorder(*left) + preorder(*right),
        Literal::FieldAccess { base, .. } => preorder(*base),
        Literal::Struct { fields, .. } => pre_fields(fields.vs@, fields.vs@.len()),
        Literal::Cast { value, .. } => preorder(*value),
        Literal::Array { items } => pre_items(items@, items@.len()),
    })
}
pub open spec fn pre_items(xs: Seq<Literal>, n: nat) -> Seq<Literal>
    decreases xs, n
{ if n == 0 || n > xs.len() { Seq::empty() } else { pre_items(xs, (n - 1) as nat) + preorder(xs[n - 1]) } }
pub open spec fn pre_fields(xs: Seq<LiteralStructField>, n: nat) -> Seq<Literal>
    decreases xs, n
{ if n == 0 || n > xs.len() { Seq::empty() } else { pre_fields(xs, (n - 1) as nat) + preorder(xs[n - 1].value) } }
