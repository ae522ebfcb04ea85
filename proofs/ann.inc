// The real annotation table (a HashMap from name to value) and its lookups.
#[verifier::external_body] pub struct Documentation { _p: () }
#[verifier::external_body] pub struct Cfg { _p: () }
#[verifier::external_body] pub struct Literal { _p: () }
#[verifier::external_body] pub struct MangleConfig { _p: () }
//@type src/bindgen/ir/annotation.rs AnnotationValue
//@type src/bindgen/ir/annotation.rs AnnotationSet
pub open spec fn ann(a: AnnotationSet, name: Seq<char>) -> Option<AnnotationValue> {
    if exists|k: String| #[trigger] a.annotations@.dom().contains(k) && k@ == name {
        Some(a.annotations@[choose|k: String| #[trigger] a.annotations@.dom().contains(k) && k@ == name])
    } else { None }
}
pub open spec fn ann_bool(a: AnnotationSet, name: Seq<char>) -> Option<bool> {
    match ann(a, name) { Some(AnnotationValue::Bool(b)) => Some(b), _ => None }
}
/// HashMap<String, _>::get with a &str key
#[verifier::external_body]
pub fn vx_get_str<'a, V>(m: &'a HashMap<String, V>, k: &str) -> (r: Option<&'a V>)
    ensures r is Some <==> (exists|s: String| #[trigger] m@.dom().contains(s) && s@ == k@),
        forall|s: String| #[trigger] m@.dom().contains(s) && s@ == k@ ==> r is Some && *(r->0) == m@[s],
{ m.get(k) }
impl AnnotationSet {
//@fn src/bindgen/ir/annotation.rs AnnotationSet::bool r
    ensures r == ann_bool(*self, name@),
//@subst self.annotations.get(name) => vx_get_str(&self.annotations, name)
//@end
//@fn src/bindgen/ir/annotation.rs AnnotationSet::should_export r strlits
    ensures r == (ann_bool(*self, "no-export"@) != Some(true)),
//@end
}
