//@gsubst HashSet<String> => NameSet
//@gsubst HashMap<String, Vec<syn::Item>> => NameMap
//@gsubst HashSet::new() => NameSet::new()
//@gsubst cache_expanded_crate: HashMap::new() => cache_expanded_crate: NameMap::new()
//@type src/bindgen/config.rs Config keep=parse
impl Clone for Config { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// std's sets and maps of texts
#[verifier::external_body] pub struct NameSet { _p: () }
impl View for NameSet { type V = Set<Seq<char>>; uninterp spec fn view(&self) -> Set<Seq<char>>; }
impl NameSet {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, s: &str) -> (r: bool) ensures r == self@.contains(s@) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, s: String) -> (r: bool) ensures final(self)@ == old(self)@.insert(s@) { unimplemented!() }
}
#[verifier::external_body] pub struct NameMap { _p: () }
impl View for NameMap { type V = Map<Seq<char>, Seq<syn::Item>>; uninterp spec fn view(&self) -> Map<Seq<char>, Seq<syn::Item>>; }
impl NameMap {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, Seq<syn::Item>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, s: &String) -> (r: bool) ensures r == self@.dom().contains(s@) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, s: &String) -> (r: Option<&Vec<syn::Item>>) ensures r is Some <==> self@.dom().contains(s@), r is Some ==> r->0@ == self@[s@] { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, s: String, v: Vec<syn::Item>) ensures final(self)@ == old(self)@.insert(s@, v@) { unimplemented!() }
}
