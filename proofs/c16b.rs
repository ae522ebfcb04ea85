//@include prelude.inc
verus! {
pub mod syn { #[verifier::external_body] pub struct Attribute { _p: () } }
// ---- std string functions and maps ----
pub uninterp spec fn is_ws(c: char) -> bool;
/// str::trim, trim_start
pub open spec fn ltrim(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && is_ws(s[0]) { ltrim(s.skip(1)) } else { s } }
pub open spec fn rtrim(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && is_ws(s.last()) { rtrim(s.drop_last()) } else { s } }
pub open spec fn trimmed(s: Seq<char>) -> Seq<char> { rtrim(ltrim(s)) }
/// str::split at a character: the pieces between its occurrences
pub open spec fn pieces(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { seq![s] }
    else {
        let p = pieces(s.drop_last(), c);
        if s.last() == c { p.push(Seq::empty()) } else { p.drop_last().push(p.last().push(s.last())) }
    }
}
pub open spec fn texts_(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub broadcast axiom fn axiom_byte_len(s: Seq<char>) ensures #[trigger] byte_len(s) >= s.len();
pub trait VxText {
    spec fn tv(&self) -> Seq<char>;
    fn vx_trim(&self) -> (r: &str) ensures r@ == trimmed(self.tv());
    fn vx_trim_start(&self) -> (r: &str) ensures r@ == ltrim(self.tv());
    fn vx_split(&self, c: char) -> (r: Vec<&str>) ensures texts_(r@) == pieces(self.tv(), c);
}
impl VxText for str {
    open spec fn tv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { self.trim() }
    #[verifier::external_body] fn vx_trim_start(&self) -> (r: &str) { self.trim_start() }
    #[verifier::external_body] fn vx_split(&self, c: char) -> (r: Vec<&str>) { self.split(c).collect() }
}
impl VxText for String {
    open spec fn tv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { self.trim() }
    #[verifier::external_body] fn vx_trim_start(&self) -> (r: &str) { self.trim_start() }
    #[verifier::external_body] fn vx_split(&self, c: char) -> (r: Vec<&str>) { self.split(c).collect() }
}
#[verifier::external_body] pub fn vx_after_prefix(s: &str) -> (r: &str) requires "cbindgen:"@.is_prefix_of(s@) ensures r@ == s@.skip(9) { unimplemented!() }
#[verifier::external_body] pub fn vx_inside(s: &str) -> (r: &str) requires s@.len() >= 2, s@[0] == '[', s@.last() == ']' ensures r@ == s@.subrange(1, s@.len() - 1) { unimplemented!() }
#[verifier::external_body] pub fn vx_char_first(s: &str) -> (r: Option<char>) ensures r == (if s@.len() > 0 { Some(s@[0]) } else { None }) { unimplemented!() }
#[verifier::external_body] pub fn vx_char_last(s: &str) -> (r: Option<char>) ensures r == (if s@.len() > 0 { Some(s@.last()) } else { None }) { unimplemented!() }
#[verifier::external_body] pub fn vx_parse_bool(s: &str) -> (r: Result<bool, ()>) ensures r == (if s@ == "true"@ { Ok::<bool, ()>(true) } else if s@ == "false"@ { Ok(false) } else { Err(()) }) { unimplemented!() }
#[verifier::external_body] pub fn vx_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
//@type src/bindgen/ir/annotation.rs AnnotationValue
/// the value of an annotation
pub ghost enum Av { List(Seq<Seq<char>>), Atom(Option<Seq<char>>), Flag(bool) }
pub open spec fn av(v: AnnotationValue) -> Av {
    match v { AnnotationValue::List(l) => Av::List(texts(l@)), AnnotationValue::Atom(a) => Av::Atom(match a { Some(s) => Some(s@), None => None }), AnnotationValue::Bool(b) => Av::Flag(b) }
}
/// std's map from a name to its annotation
#[verifier::external_body] pub struct AnnMap { _p: () }
impl AnnMap {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, Av>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, Av>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: AnnotationValue) ensures final(self)@ == old(self)@.insert(k@, av(v)) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&AnnotationValue>) ensures r is Some <==> self@.contains_key(k@), r matches Some(v) ==> av(*v) == self@[k@] { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Map::<Seq<char>, Av>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn vx_or_insert(&mut self, k: String, v: AnnotationValue) ensures final(self)@ == (if old(self)@.contains_key(k@) { old(self)@ } else { old(self)@.insert(k@, av(v)) }) { unimplemented!() }
}
//@gsubst HashMap<String, AnnotationValue> => AnnMap
//@gsubst HashMap::new() => AnnMap::new()
//@type src/bindgen/ir/annotation.rs AnnotationSet

// ---- what an item's attributes say (get_comment_lines: property C23; the rest: C19's helpers) ----
pub uninterp spec fn comment(a: Seq<syn::Attribute>) -> Seq<Seq<char>>;
pub uninterp spec fn has_word(a: Seq<syn::Attribute>, n: Seq<char>) -> bool;
pub uninterp spec fn has_nv(a: Seq<syn::Attribute>, n: Seq<char>) -> bool;
pub uninterp spec fn depr(a: Seq<syn::Attribute>) -> Option<String>;
pub trait SynAttributeHelpers {
    spec fn at(&self) -> Seq<syn::Attribute>;
    fn get_comment_lines(&self) -> (r: Vec<String>) ensures texts(r@) == comment(self.at());
    fn has_attr_word(&self, name: &str) -> (r: bool) ensures r == has_word(self.at(), name@);
    fn has_attr_namevalue(&self, name: &str) -> (r: bool) ensures r == has_nv(self.at(), name@);
    fn find_deprecated_note(&self) -> (r: Option<String>) ensures r == depr(self.at());
}
impl SynAttributeHelpers for [syn::Attribute] {
    open spec fn at(&self) -> Seq<syn::Attribute> { self@ }
    #[verifier::external_body] fn get_comment_lines(&self) -> (r: Vec<String>) { unimplemented!() }
    #[verifier::external_body] fn has_attr_word(&self, name: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn has_attr_namevalue(&self, name: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn find_deprecated_note(&self) -> (r: Option<String>) { unimplemented!() }
}

// ---------------- specification ----------------
pub open spec fn is_mark(l: Seq<char>) -> bool { "cbindgen:"@.is_prefix_of(ltrim(l)) }
/// the annotation lines among the first n lines of a comment, without indentation
pub open spec fn marks(ls: Seq<Seq<char>>, n: nat) -> Seq<Seq<char>>
    decreases n
{
    if n == 0 { Seq::empty() } else {
        let p = marks(ls, (n - 1) as nat);
        if is_mark(ls[n - 1]) { p.push(ltrim(ls[n - 1])) } else { p }
    }
}
pub open spec fn trims(p: Seq<Seq<char>>) -> Seq<Seq<char>> { Seq::new(p.len(), |i: int| trimmed(p[i])) }
/// [a, b, c]
pub open spec fn is_list(v: Seq<char>) -> bool { v.len() >= 2 && v[0] == '[' && v.last() == ']' }
pub open spec fn list_val(v: Seq<char>) -> Seq<Seq<char>> { trims(pieces(v.subrange(1, v.len() - 1), ',')) }
pub open spec fn value_of(v: Seq<char>) -> Av {
    if is_list(v) { Av::List(list_val(v)) }
    else if v == "true"@ { Av::Flag(true) }
    else if v == "false"@ { Av::Flag(false) }
    else if v.len() == 0 { Av::Atom(None) }
    else { Av::Atom(Some(v)) }
}
/// `cbindgen:name`, `cbindgen:name=value`
pub open spec fn sides(l: Seq<char>) -> Seq<Seq<char>> { trims(pieces(l.skip(9), '=')) }
pub open spec fn entry(l: Seq<char>) -> Av { if sides(l).len() == 1 { Av::Flag(true) } else { value_of(sides(l)[1]) } }
/// the annotations of the first n lines; a later one replaces an earlier one of the same name
pub open spec fn table(ls: Seq<Seq<char>>, n: nat) -> Option<Map<Seq<char>, Av>>
    decreases n
{
    if n == 0 { Some(Map::empty()) }
    else { match table(ls, (n - 1) as nat) {
        None => None,
        Some(m) => if sides(ls[n - 1]).len() > 2 { None } else { Some(m.insert(sides(ls[n - 1])[0], entry(ls[n - 1]))) },
    } }
}
pub open spec fn all_marks(a: Seq<syn::Attribute>) -> Seq<Seq<char>> { marks(comment(a), comment(a).len()) }
proof fn lemma_pieces(s: Seq<char>, c: char) ensures pieces(s, c).len() >= 1 decreases s.len() { if s.len() > 0 { lemma_pieces(s.drop_last(), c); } }
proof fn lemma_none(ls: Seq<Seq<char>>, a: nat, b: nat) requires a <= b, table(ls, a) is None ensures table(ls, b) is None decreases b { if a < b { lemma_none(ls, a, (b - 1) as nat); } }
proof fn lemma_marks(ls: Seq<Seq<char>>, n: nat, i: int)
    requires 0 <= i < marks(ls, n).len() ensures "cbindgen:"@.is_prefix_of(#[trigger] marks(ls, n)[i]) decreases n
{ if n > 0 && i < marks(ls, (n - 1) as nat).len() { lemma_marks(ls, (n - 1) as nat, i); } }

// ================= code under contract =================
//@gsubst .trim() => .vx_trim()
//@gsubst .trim_start() => .vx_trim_start()
//@fn src/bindgen/ir/annotation.rs parse_list r
    ensures r is Some <==> is_list(list@), r matches Some(v) ==> texts(v@) == list_val(list@),
//@subst list[1..list.len() - 1] => vx_inside(list)
//@subst list.chars().next() => vx_char_first(list)
//@subst list.chars().last() => vx_char_last(list)
//@subst list.len() < 2 => vx_byte_len(list) < 2
//@pre
    broadcast use axiom_byte_len;
//@loop 0 rty=Vec<String>
    is_list(list@), texts_(__s0@) == pieces(list@.subrange(1, list@.len() - 1), ','), texts(__r0@) == list_val(list@).take(__i0 as int),
//@loop 0 pre
    let ghost r0 = __r0@;
    proof { assert(texts_(__s0@)[__i0 as int] == __s0@[__i0 as int]@); }
//@loop 0 post
    proof { assert(__r0@.drop_last() =~= r0); assert(texts(__r0@) =~= texts(r0).push(list_val(list@)[__k0 as int])); assert(list_val(list@).take(__k0 + 1) =~= list_val(list@).take(__k0 as int).push(list_val(list@)[__k0 as int])); }
//@loop 0 after
    proof { assert(list_val(list@).take(list_val(list@).len() as int) =~= list_val(list@)); assert(texts_(__s0@).len() == list_val(list@).len()); }
//@end
//@fn src/bindgen/ir/annotation.rs AnnotationSet::load|#filter_map r name=ann_line
    ensures r is Some <==> is_mark(line@), r matches Some(x) ==> x@ == ltrim(line@),
//@sig pub fn ann_line(line: &String) -> (r: Option<&str>)
//@end
impl AnnotationSet {
//@fn src/bindgen/ir/annotation.rs AnnotationSet::new r
    ensures r.annotations@ == Map::<Seq<char>, Av>::empty(), !r.must_use, r.deprecated is None,
//@end
//@fn src/bindgen/ir/annotation.rs AnnotationSet::is_empty r
    ensures r == (self.annotations@ =~= Map::<Seq<char>, Av>::empty() && !self.must_use),
//@end
//@fn src/bindgen/ir/annotation.rs AnnotationSet::list r
    ensures r is Some <==> self.annotations@.contains_key(name@) && self.annotations@[name@] is List,
        r matches Some(l) ==> texts(l@) == self.annotations@[name@]->List_0,
//@end
//@fn src/bindgen/ir/annotation.rs AnnotationSet::atom r
    ensures r is Some <==> self.annotations@.contains_key(name@) && self.annotations@[name@] is Atom,
        r matches Some(a) ==> (match a { Some(s) => Some(s@), None => None }) == self.annotations@[name@]->Atom_0,
//@end
//@fn src/bindgen/ir/annotation.rs AnnotationSet::bool r
    ensures r == (if self.annotations@.contains_key(name@) && self.annotations@[name@] is Flag { Some(self.annotations@[name@]->Flag_0) } else { None }),
//@end
//@fn src/bindgen/ir/annotation.rs AnnotationSet::should_export r
    ensures r == !(self.annotations@.contains_key("no-export"@) && self.annotations@["no-export"@] == Av::Flag(true)),
//@end
//@fn src/bindgen/ir/annotation.rs AnnotationSet::load r loops=3
    ensures
        r is Ok <==> table(all_marks(attrs@), all_marks(attrs@).len()) is Some,
        r matches Ok(a) ==> Some(a.annotations@) == table(all_marks(attrs@), all_marks(attrs@).len())
            && a.must_use == (has_word(attrs@, "must_use"@) || has_nv(attrs@, "must_use"@)) && a.deprecated == depr(attrs@),
//@lift ann_line($)
//@subst &line[9..] => vx_after_prefix(line)
//@subst value.parse::<bool>() => vx_parse_bool(value)
//@subst value.is_empty() => vx_is_empty(value)
//@pre
    let ghost cm = comment(attrs@);
    let ghost ms = all_marks(attrs@);
//@loop 0 rty=Vec<&str>
    texts(__s0@) == cm, texts_(__r0@) == marks(cm, __i0 as nat),
//@loop 0 pre
    let ghost r0 = __r0@;
    proof { assert(texts(__s0@)[__i0 as int] == __s0@[__i0 as int]@); }
//@loop 0 post
    proof { if is_mark(cm[__k0 as int]) { assert(__r0@.drop_last() =~= r0); assert(texts_(__r0@) =~= texts_(r0).push(ltrim(cm[__k0 as int]))); } }
//@loop 0 after
    proof { assert(texts(__s0@).len() == cm.len()); }
//@loop 1 mode=own
    texts_(__s1@) == ms, ms == all_marks(attrs@), cm == comment(attrs@), table(ms, __i1 as nat) == Some(annotations@),
//@loop 1 pre
    proof {
        let k = __i1 - 1;
        assert(texts_(__s1@)[k] == __s1@[k]@);
        lemma_marks(cm, cm.len(), k);
        lemma_pieces(ms[k].skip(9), '=');
        if sides(ms[k]).len() > 2 { lemma_none(ms, (k + 1) as nat, ms.len()); }
    }
//@loop 1 after
    proof { assert(texts_(__s1@).len() == ms.len()); }
//@loop 2 rty=Vec<&str>
    texts_(__s2@) == pieces(annotation@, '='), texts_(__r2@) == trims(pieces(annotation@, '=')).take(__i2 as int),
//@loop 2 pre
    let ghost r2 = __r2@;
    proof { assert(texts_(__s2@)[__i2 as int] == __s2@[__i2 as int]@); }
//@loop 2 post
    proof { let t = trims(pieces(annotation@, '=')); assert(__r2@.drop_last() =~= r2); assert(texts_(__r2@) =~= texts_(r2).push(t[__k2 as int])); assert(t.take(__k2 + 1) =~= t.take(__k2 as int).push(t[__k2 as int])); }
//@loop 2 after
    proof { let t = trims(pieces(annotation@, '=')); assert(t.take(t.len() as int) =~= t); assert(texts_(__s2@).len() == t.len()); assert(texts_(__r2@)[0] == __r2@[0]@); if t.len() > 1 { assert(texts_(__r2@)[1] == __r2@[1]@); } }
//@end
}
} // verus!
fn main() {}
