// ---- indexmap (dependency): an insertion-ordered map, modelled as its entries in order ----
pub struct IndexMap<K, V> { pub es: Vec<(K, V)> }
pub open spec fn has_key<K, V>(s: Seq<(K, V)>, k: K) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k }
pub open spec fn key_at<K, V>(s: Seq<(K, V)>, k: K) -> int { choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k }
impl<K, V> IndexMap<K, V> {
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r is Some <==> has_key(self.es@, *k), r is Some ==> *r->0 == self.es@[key_at(self.es@, *k)].1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures r is Some <==> has_key(old(self).es@, *k),
            match r {
                Some(v) => *v == old(self).es@[key_at(old(self).es@, *k)].1
                    && final(self).es@ == old(self).es@.update(key_at(old(self).es@, *k), (*k, *final(v))),
                None => *final(self) == *old(self),
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self).es@ == if has_key(old(self).es@, k) { old(self).es@.update(key_at(old(self).es@, k), (k, v)) } else { old(self).es@.push((k, v)) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.es@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_values(&self) -> (r: Vec<&V>)
        ensures r@.len() == self.es@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.es@[i].1,
    { unimplemented!() }
    /// values_mut(): the values may change, the keys and their order do not
    #[verifier::external_body]
    pub fn vx_values_mut(&mut self) -> (r: &mut Vec<V>)
        ensures r@.len() == old(self).es@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == old(self).es@[i].1,
            final(r)@.len() == r@.len() ==> final(self).es@ == Seq::new(r@.len(), |i: int| (old(self).es@[i].0, final(r)@[i])),
    { unimplemented!() }
    /// retain(): see rule C-retain
    #[verifier::external_body]
    pub fn vx_take_all(&mut self) -> (r: Vec<(K, V)>) ensures r@ == old(self).es@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_put_all(&mut self, v: Vec<(K, V)>) ensures final(self).es@ == v@ { unimplemented!() }
}
