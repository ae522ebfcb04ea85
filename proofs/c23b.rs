//@include prelude.inc
verus! {
pub mod syn {
use super::*;
#[verifier::external_body] pub struct Tokens { _p: () }
#[verifier::external_body] pub struct Path { _p: () }
impl Path {
    /// the path is this single identifier
    pub uninterp spec fn word(&self, n: Seq<char>) -> bool;
    #[verifier::external_body] pub fn is_ident(&self, n: &str) -> (r: bool) ensures r == self.word(n@) { unimplemented!() }
}
pub struct LitStr { pub s: String }
impl LitStr { #[verifier::external_body] pub fn value(&self) -> (r: String) ensures r@ == self.s@ { unimplemented!() } }
pub enum Lit { Str(LitStr), Other(Tokens) }
pub struct ExprLit { pub lit: Lit, pub attrs: Tokens }
pub enum Expr { Lit(ExprLit), Other(Tokens) }
pub struct MetaNameValue { pub path: Path, pub value: Expr, pub eq_token: Tokens }
pub enum Meta { Path(Path), List(Tokens), NameValue(MetaNameValue) }
pub enum AttrStyle { Outer, Inner }
pub fn vx_outer(s: &AttrStyle) -> (r: bool) ensures r == (s is Outer) { match s { AttrStyle::Outer => true, AttrStyle::Inner => false } }
pub struct Attribute { pub style: AttrStyle, pub meta: Meta }
}
//@type src/bindgen/ir/documentation.rs Documentation

// ---- std string functions ----
pub open spec fn repl(s: Seq<char>, a: Seq<char>, b: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if a.len() == 0 || s.len() < a.len() { s }
    else if a.is_prefix_of(s) { b + repl(s.skip(a.len() as int), a, b) }
    else { seq![s[0]] + repl(s.skip(1), a, b) }
}
pub uninterp spec fn is_ws(c: char) -> bool;
/// only white space
pub open spec fn blank(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_ws(#[trigger] s[i]) }
/// how many characters of white space it starts with
pub open spec fn indent(s: Seq<char>) -> nat
    decreases s.len()
{ if s.len() > 0 && is_ws(s[0]) { 1 + indent(s.skip(1)) } else { 0 } }
/// str::lines: the pieces that line feeds end, without them and without a carriage return before them
pub open spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if !s.contains('\n') { seq![s] }
    else {
        let k = s.index_of_first('\n')->0;
        let l = s.take(k);
        if 0 <= k < s.len() { seq![if l.len() > 0 && l.last() == '\r' { l.drop_last() } else { l }] + lines_of(s.skip(k + 1)) } else { Seq::empty() }
    }
}
pub trait VxPat { spec fn pv(&self) -> Seq<char>; }
impl VxPat for char { open spec fn pv(&self) -> Seq<char> { seq![*self] } }
impl<'a> VxPat for &'a str { open spec fn pv(&self) -> Seq<char> { (*self)@ } }
pub open spec fn occurs(p: Seq<char>, s: Seq<char>) -> bool { exists|i: int| 0 <= i <= s.len() - p.len() && #[trigger] s.subrange(i, i + p.len()) == p }
pub trait VxText {
    spec fn tv(&self) -> Seq<char>;
    fn vx_replace<P: VxPat>(&self, a: P, b: &str) -> (r: String) ensures r@ == repl(self.tv(), a.pv(), b@);
    fn vx_has<P: VxPat>(&self, a: P) -> (r: bool) ensures r == occurs(a.pv(), self.tv());
    fn vx_lines(&self) -> (r: Vec<&str>) ensures texts_(r@) == lines_of(self.tv());
    fn vx_chars(&self) -> (r: Vec<char>) ensures r@ == self.tv();
    fn vx_trim(&self) -> (r: &str) ensures r@.len() == 0 <==> blank(self.tv());
    fn vx_trim_start(&self) -> (r: &str) ensures r@ == self.tv().skip(indent(self.tv()) as int);
}
impl VxText for str {
    open spec fn tv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_replace<P: VxPat>(&self, a: P, b: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_has<P: VxPat>(&self, a: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_lines(&self) -> (r: Vec<&str>) { self.lines().collect() }
    #[verifier::external_body] fn vx_chars(&self) -> (r: Vec<char>) { self.chars().collect() }
    #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { self.trim() }
    #[verifier::external_body] fn vx_trim_start(&self) -> (r: &str) { self.trim_start() }
}
impl VxText for String {
    open spec fn tv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_replace<P: VxPat>(&self, a: P, b: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_has<P: VxPat>(&self, a: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_lines(&self) -> (r: Vec<&str>) { self.lines().collect() }
    #[verifier::external_body] fn vx_chars(&self) -> (r: Vec<char>) { self.chars().collect() }
    #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { self.trim() }
    #[verifier::external_body] fn vx_trim_start(&self) -> (r: &str) { self.trim_start() }
}
#[verifier::external_body]
pub fn vx_is_ws(c: char) -> (r: bool) ensures r == is_ws(c) { c.is_whitespace() }
pub trait VxCh { spec fn cv(&self) -> char; fn vx_ws(&self) -> (r: bool) ensures r == is_ws(self.cv()); }
impl VxCh for char { open spec fn cv(&self) -> char { *self } fn vx_ws(&self) -> (r: bool) { vx_is_ws(*self) } }
pub open spec fn vx_lo(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn texts_(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
#[verifier::external_body]
pub fn vx_extend(v: &mut Vec<String>, x: Vec<String>) ensures final(v)@ == old(v)@ + x@ { v.extend(x) }
#[verifier::external_body]
pub fn vx_last(v: &Vec<String>) -> (r: Option<&String>) ensures r is Some <==> v@.len() > 0, r is Some ==> *r->0 == v@.last() { v.last() }

// ---------------- specification: the lines of a documentation attribute ----------------
/// a carriage return, alone or before a line feed, ends a line like a line feed
pub open spec fn norm(s: Seq<char>) -> Seq<char> { repl(repl(s, "\r\n"@, "\n"@), seq!['\r'], "\n"@) }
/// the least indentation of a line that is not blank
pub open spec fn least(ls: Seq<Seq<char>>) -> Option<nat>
    decreases ls.len()
{
    if ls.len() == 0 { None } else {
        let p = least(ls.drop_last());
        let n = indent(ls.last());
        if blank(ls.last()) { p } else { match p { None => Some(n), Some(b) => if n < b { Some(n) } else { Some(b) } } }
    }
}
pub open spec fn common(ls: Seq<Seq<char>>) -> nat { match least(ls) { Some(n) => n, None => 0 } }
/// one line: its common indentation becomes one space; a blank line becomes empty
pub open spec fn shifted(l: Seq<char>, k: nat) -> Seq<char> { if blank(l) { Seq::empty() } else { " "@ + l.skip(if k <= l.len() { k as int } else { l.len() as int }) } }
/// without the blank lines it starts with
pub open spec fn begun(ls: Seq<Seq<char>>, k: nat) -> Seq<Seq<char>>
    decreases ls.len()
{
    if ls.len() == 0 { Seq::empty() } else {
        let p = begun(ls.drop_last(), k);
        if p.len() == 0 && blank(ls.last()) { p } else { p.push(shifted(ls.last(), k)) }
    }
}
/// without the blank lines it ends with
pub open spec fn ended(ls: Seq<Seq<char>>) -> Seq<Seq<char>>
    decreases ls.len()
{ if ls.len() > 0 && blank(ls.last()) { ended(ls.drop_last()) } else { ls } }
pub open spec fn split(s: Seq<char>) -> Seq<Seq<char>> {
    let t = norm(s);
    if !t.contains('\n') { seq![t] } else { ended(begun(lines_of(t), common(lines_of(t)))) }
}
/// the text of `/// ...`, `/** ... */` and `#[doc = "..."]` on the item (not `//!` inside it)
pub open spec fn doc_text(a: syn::Attribute) -> Option<Seq<char>> {
    match a.meta {
        syn::Meta::NameValue(v) => match v.value {
            syn::Expr::Lit(l) => match l.lit { syn::Lit::Str(t) => if a.style is Outer && v.path.word("doc"@) { Some(t.s@) } else { None }, _ => None },
            _ => None,
        },
        _ => None,
    }
}
pub open spec fn comment_(a: Seq<syn::Attribute>) -> Seq<Seq<char>>
    decreases a.len()
{ if a.len() == 0 { Seq::empty() } else { match doc_text(a.last()) { Some(t) => comment_(a.drop_last()) + split(t), None => comment_(a.drop_last()) } } }
/// an annotation for cbindgen, not documentation
pub open spec fn annotation(l: Seq<char>) -> bool { "cbindgen:"@.is_prefix_of(l.skip(indent(l) as int)) }
pub open spec fn kept(ls: Seq<Seq<char>>) -> Seq<Seq<char>>
    decreases ls.len()
{ if ls.len() == 0 { Seq::empty() } else if annotation(ls.last()) { kept(ls.drop_last()) } else { kept(ls.drop_last()).push(ls.last()) } }

// ---------------- what it means for the reader of the bindings ----------------
pub open spec fn one_line(l: Seq<char>) -> bool { !l.contains('\n') && !l.contains('\r') }
pub open spec fn each_one_line(ls: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < ls.len() ==> one_line(#[trigger] ls[i]) }
pub proof fn lemma_no_cr(s: Seq<char>)
    ensures !repl(s, seq!['\r'], "\n"@).contains('\r'),
    decreases s.len(),
{
    let a = seq!['\r'];
    reveal_strlit("\n");
    if s.len() > 0 {
        let r = repl(s.skip(1), a, "\n"@);
        lemma_no_cr(s.skip(1));
        if a.is_prefix_of(s) { assert(repl(s, a, "\n"@) == "\n"@ + r); }
        else { assert(repl(s, a, "\n"@) == seq![s[0]] + r); if s[0] == '\r' { assert(a =~= s.take(1)); assert(a.is_prefix_of(s)); } }
        let w = repl(s, a, "\n"@);
        if w.contains('\r') { let i = choose|i: int| 0 <= i < w.len() && w[i] == '\r'; assert(i > 0); assert(r[i - 1] == '\r'); }
    }
}
pub proof fn lemma_lines(s: Seq<char>)
    requires !s.contains('\r'),
    ensures each_one_line(lines_of(s)),
    decreases s.len(),
{
    if s.len() > 0 && s.contains('\n') {
        s.index_of_first_ensures('\n');
        let k = s.index_of_first('\n')->0;
        let t = s.skip(k + 1);
        if t.contains('\r') { let i = choose|i: int| 0 <= i < t.len() && t[i] == '\r'; assert(s[i + k + 1] == '\r'); }
        lemma_lines(t);
        let l = s.take(k);
        if l.contains('\n') { let i = choose|i: int| 0 <= i < l.len() && l[i] == '\n'; assert(s[i] == '\n'); }
        if l.contains('\r') { let i = choose|i: int| 0 <= i < l.len() && l[i] == '\r'; assert(s[i] == '\r'); }
        assert(one_line(l));
        assert(lines_of(s) == seq![l] + lines_of(t)) by { if l.len() > 0 && l.last() == '\r' { assert(l[l.len() - 1] == '\r'); } }
        assert forall|i: int| 0 <= i < lines_of(s).len() implies one_line(#[trigger] lines_of(s)[i]) by { if i > 0 { assert(lines_of(s)[i] == lines_of(t)[i - 1]); } }
    }
}
pub proof fn lemma_shifted(l: Seq<char>, k: nat)
    requires one_line(l),
    ensures one_line(shifted(l, k)),
{
    reveal_strlit(" ");
    let r = shifted(l, k);
    let d = if k <= l.len() { k as int } else { l.len() as int };
    if r.contains('\n') { let i = choose|i: int| 0 <= i < r.len() && r[i] == '\n'; assert(r[i] == l[i - 1 + d]); }
    if r.contains('\r') { let i = choose|i: int| 0 <= i < r.len() && r[i] == '\r'; assert(r[i] == l[i - 1 + d]); }
}
pub proof fn lemma_begun(ls: Seq<Seq<char>>, k: nat)
    requires each_one_line(ls),
    ensures each_one_line(begun(ls, k)),
    decreases ls.len(),
{ if ls.len() > 0 { assert(one_line(ls[ls.len() - 1])); lemma_shifted(ls.last(), k); lemma_begun(ls.drop_last(), k); } }
pub proof fn lemma_ended(ls: Seq<Seq<char>>)
    requires each_one_line(ls),
    ensures each_one_line(ended(ls)),
    decreases ls.len(),
{ if ls.len() > 0 { lemma_ended(ls.drop_last()); } }
/// C23: the text of an attribute gives lines, none of which holds a line break of its own
pub proof fn lemma_split(s: Seq<char>)
    ensures each_one_line(split(s)),
{
    let t = norm(s);
    lemma_no_cr(repl(s, "\r\n"@, "\n"@));
    lemma_lines(t);
    lemma_begun(lines_of(t), common(lines_of(t)));
    lemma_ended(begun(lines_of(t), common(lines_of(t))));
}
pub proof fn lemma_comment(a: Seq<syn::Attribute>)
    ensures each_one_line(comment_(a)),
    decreases a.len(),
{ if a.len() > 0 { lemma_comment(a.drop_last()); if doc_text(a.last()) is Some { lemma_split(doc_text(a.last())->0); } } }
/// C23: no line of the documentation of an item holds a line break: with c23.rs, each is written
/// inside the comment
pub proof fn lemma_kept(ls: Seq<Seq<char>>)
    requires each_one_line(ls),
    ensures each_one_line(kept(ls)), forall|i: int| 0 <= i < kept(ls).len() ==> !annotation(#[trigger] kept(ls)[i]), kept(ls).len() <= ls.len(),
    decreases ls.len(),
{ if ls.len() > 0 { lemma_kept(ls.drop_last()); assert(one_line(ls[ls.len() - 1])); } }
/// C23: what is taken off the start of a line is white space
pub proof fn lemma_least(ls: Seq<Seq<char>>, i: int)
    requires 0 <= i < ls.len(), !blank(ls[i]),
    ensures common(ls) <= indent(ls[i]), least(ls) is Some,
    decreases ls.len(),
{ if i < ls.len() - 1 { lemma_least(ls.drop_last(), i); } }
pub proof fn lemma_indent_ws(l: Seq<char>, j: int)
    requires 0 <= j < indent(l),
    ensures j < l.len(), is_ws(l[j]),
    decreases l.len(),
{ if l.len() > 0 && is_ws(l[0]) && j > 0 { lemma_indent_ws(l.skip(1), j - 1); } }
pub proof fn lemma_indent_max(l: Seq<char>)
    ensures indent(l) <= l.len(),
    decreases l.len(),
{ if l.len() > 0 { lemma_indent_max(l.skip(1)); } }
pub proof fn lemma_only_ws(ls: Seq<Seq<char>>, i: int, j: int)
    requires 0 <= i < ls.len(), !blank(ls[i]), 0 <= j < common(ls),
    ensures j < ls[i].len(), is_ws(ls[i][j]),
{ lemma_least(ls, i); lemma_indent_ws(ls[i], j); }
pub proof fn lemma_indent(l: Seq<char>, n: int)
    requires 0 <= n <= l.len(), forall|j: int| 0 <= j < n ==> is_ws(#[trigger] l[j]), n < l.len() ==> !is_ws(l[n]),
    ensures indent(l) == n,
    decreases l.len(),
{
    if n > 0 { assert(is_ws(l[0])); let t = l.skip(1); assert forall|j: int| 0 <= j < n - 1 implies is_ws(#[trigger] t[j]) by { assert(t[j] == l[j + 1]); } lemma_indent(t, n - 1); }
}
pub proof fn lemma_has(s: Seq<char>, c: char)
    ensures occurs(seq![c], s) == s.contains(c),
{
    if occurs(seq![c], s) { let i = choose|i: int| 0 <= i <= s.len() - 1 && #[trigger] s.subrange(i, i + 1) == seq![c]; assert(s[i] == s.subrange(i, i + 1)[0]); }
    if s.contains(c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; assert(s.subrange(i, i + 1) =~= seq![c]); }
}
pub proof fn lemma_snoc<T>(s: Seq<T>, i: int)
    requires 0 <= i < s.len(),
    ensures s.take(i + 1).drop_last() == s.take(i), s.take(i + 1).last() == s[i],
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
pub proof fn lemma_all<T>(s: Seq<T>) ensures s.take(s.len() as int) == s { assert(s.take(s.len() as int) =~= s); }

// ================= code under contract =================
//@gsubst .is_whitespace() => .vx_ws()
//@gsubst .trim() => .vx_trim()
//@fn src/bindgen/utilities.rs split_doc_attr r loops=5
    ensures texts(r@) == split(input@),
//@subst .replace( => .vx_replace(
//@subst .contains( => .vx_has(
//@subst .trim_start() => .vx_trim_start()
//@subst lines.last() => vx_last(&lines)
//@subst return { let mut __w = Vec::new(); __w.push(vx_to_owned(&*input)); __w }; => let __v = { let mut __w = Vec::new(); __w.push(vx_to_owned(&*input)); __w }; proof { lemma_has(input@, '\n'); assert(texts(__v@) =~= seq![input@]); } return __v;
//@pre
    let ghost s0 = input@;
    let ghost t = norm(s0);
    let ghost ls = lines_of(t);
    proof { lemma_has(t, '\n'); reveal_strlit(" "); }
//@loop 0 before
    proof { assert(input@ == t); }
//@loop 0
    texts_(__s0@) == ls,
    match least(ls.take(__i0 as int)) { Some(n) => __r0 is Some && __r0->0 == n, None => __r0 is None },
//@loop 0 pre
    proof { lemma_snoc(ls, __i0 as int); assert(ls[__i0 as int] == __s0@[__i0 as int]@); assert(texts_(__s0@).len() == __s0@.len()); }
//@loop 0 after
    proof { lemma_all(ls); assert(texts_(__s0@).len() == __s0@.len()); }
//@loop 1
    __s1@ == line@, __r1 <= __i1,
    forall|j: int| 0 <= j < __r1 ==> is_ws(#[trigger] line@[j]),
    __w1 ==> __r1 == __i1, !__w1 ==> __r1 + 1 == __i1 && !is_ws(line@[__r1 as int]),
//@loop 1 after
    proof { lemma_indent(line@, __r1 as int); }
//@loop 2 rty=Vec<String>
    texts_(__s2@) == ls, common_indent == common(ls),
    texts(__r2@) == begun(ls.take(__i2 as int), common_indent as nat), __w2 <==> __r2@.len() > 0,
//@loop 2 before
    proof { assert(texts(__r2@) =~= Seq::<Seq<char>>::empty()); }
//@loop 2 pre
    let ghost r2 = __r2@;
    proof { lemma_snoc(ls, __i2 as int); assert(ls[__i2 as int] == __s2@[__i2 as int]@); assert(texts_(__s2@).len() == __s2@.len()); assert(texts(r2).len() == r2.len()); }
//@loop 2 post
    proof {
        let l = ls[__i2 - 1];
        if __w2 { assert(__r2@.last()@ =~= shifted(l, common_indent as nat)); assert(texts(__r2@) =~= texts(r2).push(shifted(l, common_indent as nat))); }
        assert(texts(__r2@) == begun(ls.take(__i2 as int), common_indent as nat));
    }
//@loop 2 after
    proof { lemma_all(ls); assert(texts_(__s2@).len() == __s2@.len()); }
//@loop 3 rty=String
    __s3@ == s@, __r3@ == s@.subrange(vx_lo(common_indent as int, s@.len() as int), __i3 as int), vx_lo(common_indent as int, s@.len() as int) <= __i3,
//@loop 3 before
    proof { assert(__r3@ =~= s@.subrange(__i3 as int, __i3 as int)); }
//@loop 3 post
    proof { assert(__r3@ =~= s@.subrange(vx_lo(common_indent as int, s@.len() as int), __i3 as int)); }
//@loop 4
    ended(texts(lines@)) == ended(begun(ls, common_indent as nat)),
//@loop 4 pre
    let ghost l4 = lines@;
    proof { assert(texts(l4).last() == l4.last()@); }
//@loop 4 post
    proof { assert(texts(lines@) =~= texts(l4).drop_last()); }
//@loop 4 after
    proof { assert(lines@.len() > 0 ==> texts(lines@).last() == lines@.last()@); assert(texts(lines@) == split(s0)); }
//@end
pub trait SynAttributeHelpers {
    spec fn at(&self) -> Seq<syn::Attribute>;
    fn attrs(&self) -> (r: &[syn::Attribute]) ensures r@ == self.at();
//@fn src/bindgen/utilities.rs SynAttributeHelpers::get_comment_lines r novis loops=1
    ensures texts(r@) == comment_(self.at()),
//@subst attr.style == syn::AttrStyle::Outer => syn::vx_outer(&attr.style)
//@subst comment.extend( => vx_extend(&mut comment, 
//@subst Vec::new(); => Vec::<String>::new();
//@loop 0 before
    proof { assert(texts(comment@) =~= Seq::<Seq<char>>::empty()); }
//@loop 0
    __s0@ == self.at(), texts(comment@) == comment_(self.at().take(__i0 as int)),
//@loop 0 pre
    let ghost c0 = comment@;
    proof { lemma_snoc(self.at(), __k0 as int); }
//@loop 0 post
    proof {
        let a = self.at()[__i0 - 1];
        if doc_text(a) is Some { assert(exists|x: Seq<String>| comment@ == c0 + x && texts(x) == split(doc_text(a)->0)); let x = choose|x: Seq<String>| comment@ == c0 + x && texts(x) == split(doc_text(a)->0); assert(texts(comment@) =~= texts(c0) + texts(x)); }
    }
//@loop 0 after
    proof { lemma_all(self.at()); }
//@end
}
impl SynAttributeHelpers for [syn::Attribute] {
    open spec fn at(&self) -> Seq<syn::Attribute> { self@ }
    fn attrs(&self) -> (r: &[syn::Attribute]) { self }
}
impl Documentation {
//@fn src/bindgen/ir/documentation.rs Documentation::load r loops=1
    ensures texts(r.doc_comment@) == kept(comment_(attrs@)),
//@subst .trim_start() => .vx_trim_start()
//@loop 0 rty=Vec<String>
    texts(__s0@) == comment_(attrs@), texts(__r0@) == kept(comment_(attrs@).take(__i0 as int)),
//@loop 0 before
    proof { assert(texts(__r0@) =~= Seq::<Seq<char>>::empty()); }
//@loop 0 pre
    let ghost r0 = __r0@;
    proof { assert(texts(__s0@).len() == __s0@.len()); lemma_snoc(comment_(attrs@), __i0 as int); assert(texts(__s0@)[__i0 as int] == __s0@[__i0 as int]@); }
//@loop 0 post
    proof { if __r0@.len() > r0.len() { assert(texts(__r0@) =~= texts(r0).push(__r0@.last()@)); } }
//@loop 0 after
    proof { assert(texts(__s0@).len() == __s0@.len()); lemma_all(comment_(attrs@)); }
//@end
}
} // verus!
fn main() {}
