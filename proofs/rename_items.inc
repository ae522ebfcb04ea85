// Items and settings that renaming looks at. Annotations are a finite record whose lookups are
// functions of the set and the key (AnnotationSet's own table is HashMap-backed and not opened).
//@include items_opaque.inc
impl AnnotationSet {
    pub uninterp spec fn list_of(&self, k: Seq<char>) -> Option<Vec<String>>;
    pub uninterp spec fn rule_of(&self, k: Seq<char>) -> Option<RenameRule>;
    pub uninterp spec fn bool_of(&self, k: Seq<char>) -> Option<bool>;
    #[verifier::external_body] pub fn list(&self, k: &str) -> (r: Option<Vec<String>>) ensures r == self.list_of(k@) { unimplemented!() }
    #[verifier::external_body] pub fn parse_rule(&self, k: &str) -> (r: Option<RenameRule>) ensures r == self.rule_of(k@) { unimplemented!() }
    #[verifier::external_body] pub fn bool(&self, k: &str) -> (r: Option<bool>) ensures r == self.bool_of(k@) { unimplemented!() }
}
//@gsubst .parse_atom::<RenameRule>( => .parse_rule(
//@type src/bindgen/rename.rs RenameRule
//@type src/bindgen/rename.rs IdentifierType derive=Clone,Copy
//@type src/bindgen/ir/function.rs FunctionArgument
//@type src/bindgen/ir/function.rs Function
//@type src/bindgen/config.rs Language derive=Clone,Copy
impl PartialEq for Language { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl PartialEqSpecImpl for Language {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl Clone for Field { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Struct { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// Stand-in for Cow<str>.
pub struct CowStr { pub s: String }
impl CowStr {
    pub open spec fn view(&self) -> Seq<char> { self.s@ }
    pub fn into_owned(self) -> (r: String) ensures r@ == self@ { self.s }
}
