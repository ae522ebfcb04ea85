//@include prelude.inc
verus! {
//@type src/bindgen/config.rs Language derive=Clone,Copy,PartialEq,Eq,Structural
//@type src/bindgen/config.rs DocumentationStyle derive=Clone,Copy
//@type src/bindgen/config.rs DocumentationLength derive=Clone,Copy
//@type src/bindgen/config.rs Config keep=language,documentation,documentation_style,documentation_length
//@type src/bindgen/ir/documentation.rs Documentation
/// Stand-in for SourceWriter: the finished lines (without indentation) and the one being written.
/// What the real writer does with each call is property C13.
pub struct SourceWriter { pub lines: Ghost<Seq<Seq<char>>>, pub cur: Ghost<Seq<char>> }
impl SourceWriter {
    #[verifier::external_body]
    pub fn write(&mut self, text: &'static str) ensures final(self).cur@ == old(self).cur@ + text@, final(self).lines@ == old(self).lines@ { unimplemented!() }
    #[verifier::external_body]
    pub fn w_str(&mut self, text: &str) ensures final(self).cur@ == old(self).cur@ + text@, final(self).lines@ == old(self).lines@ { unimplemented!() }
    #[verifier::external_body]
    pub fn w_disp<T: VxDisp + ?Sized>(&mut self, x: &T) ensures final(self).cur@ == old(self).cur@ + x.disp(), final(self).lines@ == old(self).lines@ { unimplemented!() }
    #[verifier::external_body]
    pub fn new_line(&mut self) ensures final(self).cur@.len() == 0, final(self).lines@ == old(self).lines@.push(old(self).cur@) { unimplemented!() }
}

// ---- std string functions ----
pub open spec fn repl(s: Seq<char>, a: Seq<char>, b: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if a.len() == 0 || s.len() < a.len() { s }
    else if a.is_prefix_of(s) { b + repl(s.skip(a.len() as int), a, b) }
    else { seq![s[0]] + repl(s.skip(1), a, b) }
}
pub uninterp spec fn is_ws(c: char) -> bool;
pub axiom fn axiom_ws() ensures !is_ws('\\'), !is_ws('*'), !is_ws('/');
/// the longest prefix that does not end in a character of the set
pub open spec fn cut(s: Seq<char>, f: spec_fn(char) -> bool) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && f(s.last()) { cut(s.drop_last(), f) } else { s } }
pub open spec fn ws_set() -> spec_fn(char) -> bool { |c: char| is_ws(c) }
pub open spec fn bs_set() -> spec_fn(char) -> bool { |c: char| c == '\\' || is_ws(c) }
pub trait VxText {
    spec fn tv(&self) -> Seq<char>;
    fn vx_replace(&self, a: &str, b: &str) -> (r: String) ensures r@ == repl(self.tv(), a@, b@);
    fn vx_trim_end(&self) -> (r: &str) ensures r@ == cut(self.tv(), ws_set());
    /// trim_end_matches over backslashes and white space
    fn vx_trim_bs(&self) -> (r: &str) ensures r@ == cut(self.tv(), bs_set());
    fn vx_ends_ch(&self, c: char) -> (r: bool) ensures r == (self.tv().len() > 0 && self.tv().last() == c);
}
impl VxText for str {
    open spec fn tv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_replace(&self, a: &str, b: &str) -> (r: String) { self.replace(a, b) }
    #[verifier::external_body] fn vx_trim_end(&self) -> (r: &str) { self.trim_end() }
    #[verifier::external_body] fn vx_trim_bs(&self) -> (r: &str) { self.trim_end_matches(|c: char| c == '\\' || c.is_whitespace()) }
    #[verifier::external_body] fn vx_ends_ch(&self, c: char) -> (r: bool) { self.ends_with(c) }
}
impl VxText for String {
    open spec fn tv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_replace(&self, a: &str, b: &str) -> (r: String) { self.replace(a, b) }
    #[verifier::external_body] fn vx_trim_end(&self) -> (r: &str) { self.trim_end() }
    #[verifier::external_body] fn vx_trim_bs(&self) -> (r: &str) { self.trim_end_matches(|c: char| c == '\\' || c.is_whitespace()) }
    #[verifier::external_body] fn vx_ends_ch(&self, c: char) -> (r: bool) { self.ends_with(c) }
}
pub fn vx_upto<T>(v: &Vec<T>, n: usize) -> (r: &[T]) requires n <= v@.len() ensures r@ == v@.take(n as int) { vstd::slice::slice_subrange(v.as_slice(), 0, n) }

// ---------------- specification: the comment of an item ----------------
pub open spec fn style_for(c: Config) -> DocumentationStyle {
    match c.documentation_style {
        DocumentationStyle::Auto => match c.language { Language::C => DocumentationStyle::Doxy, Language::Cxx => DocumentationStyle::Cxx, _ => DocumentationStyle::C },
        s => s,
    }
}
/// a trailing backslash would join the line with the next one
pub open spec fn unjoined(t: Seq<char>) -> Seq<char> {
    let e = cut(t, ws_set());
    if e.len() > 0 && e.last() == '\\' { cut(t, bs_set()) } else { t }
}
pub open spec fn esc(t: Seq<char>) -> Seq<char> { repl(t, "*/"@, "* /"@) }
pub open spec fn opening(s: DocumentationStyle) -> Seq<Seq<char>> {
    match s { DocumentationStyle::C => seq!["/*"@], DocumentationStyle::Doxy => seq!["/**"@], _ => Seq::empty() }
}
pub open spec fn closing(s: DocumentationStyle) -> Seq<Seq<char>> {
    match s { DocumentationStyle::C | DocumentationStyle::Doxy => seq![" */"@], _ => Seq::empty() }
}
pub open spec fn doc_line(s: DocumentationStyle, t: Seq<char>) -> Seq<char> {
    match s {
        DocumentationStyle::C => esc(unjoined(t)),
        DocumentationStyle::Doxy => esc(" *"@ + unjoined(t)),
        DocumentationStyle::C99 => "//"@ + unjoined(t),
        _ => "///"@ + unjoined(t),
    }
}
pub open spec fn shown(d: Documentation, c: Config) -> nat {
    if d.doc_comment@.len() == 0 || !c.documentation { 0 } else { match c.documentation_length { DocumentationLength::Short => 1, DocumentationLength::Full => d.doc_comment@.len() } }
}
pub open spec fn doc_lines(s: DocumentationStyle, d: Seq<String>, n: nat) -> Seq<Seq<char>> { Seq::new(n, |i: int| doc_line(s, d[i]@)) }
pub open spec fn py_lines(d: Seq<String>, n: nat) -> Seq<Seq<char>> { Seq::new(n, |i: int| "#"@ + d[i]@) }
pub open spec fn c_comment(d: Documentation, c: Config) -> Seq<Seq<char>> {
    if shown(d, c) == 0 { Seq::empty() } else {
        opening(style_for(c)) + doc_lines(style_for(c), d.doc_comment@, shown(d, c)) + closing(style_for(c))
    }
}
pub open spec fn py_comment(d: Documentation, c: Config) -> Seq<Seq<char>> {
    py_lines(d.doc_comment@, shown(d, c))
}
/// the text holds the two characters that end a block comment
pub open spec fn ends_comment(t: Seq<char>) -> bool { exists|i: int| 0 <= i < t.len() - 1 && #[trigger] t[i] == '*' && t[i + 1] == '/' }
/// the compiler joins the line with the next one
pub open spec fn joins(t: Seq<char>) -> bool { let e = cut(t, ws_set()); e.len() > 0 && e.last() == '\\' }

pub proof fn lemma_cut(s: Seq<char>, f: spec_fn(char) -> bool)
    ensures cut(s, f).len() > 0 ==> !f(cut(s, f).last()), cut(s, f).is_prefix_of(s), forall|i: int| cut(s, f).len() <= i < s.len() ==> f(#[trigger] s[i]),
    decreases s.len(),
{ if s.len() > 0 && f(s.last()) { lemma_cut(s.drop_last(), f); let d = s.drop_last(); assert forall|i: int| cut(s, f).len() <= i < s.len() implies f(#[trigger] s[i]) by { if i < d.len() { assert(d[i] == s[i]); } } assert(cut(s, f) =~= s.take(cut(s, f).len() as int)); } }
/// a longer set cuts at least as much
pub proof fn lemma_unjoined(t: Seq<char>)
    ensures !joins(unjoined(t)),
{
    axiom_ws();
    if joins(t) {
        let u = cut(t, bs_set());
        lemma_cut(t, bs_set());
        lemma_cut(u, ws_set());
        if u.len() > 0 { assert(!bs_set()(u.last())); assert(!is_ws(u.last())); assert(cut(u, ws_set()) == u); }
    }
}
pub proof fn lemma_prefixed(p: Seq<char>, t: Seq<char>)
    requires p.len() > 0, p.last() != '\\', !is_ws(p.last()), !joins(t),
    ensures !joins(p + t),
    decreases t.len(),
{
    if t.len() == 0 { assert(p + t =~= p); }
    else if is_ws(t.last()) { assert((p + t).drop_last() =~= p + t.drop_last()); assert((p + t).last() == t.last()); lemma_prefixed(p, t.drop_last()); }
    else { assert((p + t).last() == t.last()); }
}
/// replacing leaves no end of comment behind
pub proof fn lemma_esc(t: Seq<char>)
    ensures !ends_comment(esc(t)), t.len() > 0 ==> esc(t).len() > 0 && esc(t)[0] == t[0], t.len() == 0 ==> esc(t).len() == 0,
    decreases t.len(),
{
    let a = "*/"@;
    let b = "* /"@;
    reveal_strlit("*/");
    reveal_strlit("* /");
    assert(a.len() == 2 && a[0] == '*' && a[1] == '/');
    assert(b.len() == 3 && b[0] == '*' && b[1] == ' ' && b[2] == '/');
    if t.len() < 2 { }
    else if a.is_prefix_of(t) {
        assert(t.take(2) =~= a);
        assert(t[0] == a[0]) by { assert(t.take(2)[0] == t[0]); }
        lemma_esc(t.skip(2));
        let r = esc(t.skip(2));
        assert(esc(t) == b + r);
        assert forall|i: int| 0 <= i < esc(t).len() - 1 && #[trigger] esc(t)[i] == '*' implies esc(t)[i + 1] != '/' by {
            if i >= 3 { assert(r[i - 3] == '*'); if r[i - 3 + 1] == '/' { assert(ends_comment(r)); } }
        }
    } else {
        lemma_esc(t.skip(1));
        let r = esc(t.skip(1));
        assert(esc(t) == seq![t[0]] + r);
        assert forall|i: int| 0 <= i < esc(t).len() - 1 && #[trigger] esc(t)[i] == '*' implies esc(t)[i + 1] != '/' by {
            if i >= 1 { assert(r[i - 1] == '*'); if r[i] == '/' { assert(ends_comment(r)); } }
            else if r[0] == '/' { assert(t[0] == '*' && t[1] == '/'); assert(t.take(2) =~= a); assert(a.is_prefix_of(t)); }
        }
    }
}
pub open spec fn block(s: DocumentationStyle) -> bool { s is C || s is Doxy }
/// C23: no line of documentation ends a block comment or leaves a line comment: a line of text of
/// a block comment has no `*/` in it; one of a line comment starts with `//` and is not joined
/// with the line that follows
pub proof fn lemma_doc_safe(d: Documentation, c: Config, i: int)
    requires 0 <= i < shown(d, c),
    ensures ({
        let s = style_for(c);
        let t = c_comment(d, c)[opening(s).len() + i];
        &&& t == doc_line(s, d.doc_comment@[i]@)
        &&& block(s) ==> !ends_comment(t)
        &&& !block(s) ==> "//"@.is_prefix_of(t) && !joins(t)
    }),
{
    let s = style_for(c);
    let x = d.doc_comment@[i]@;
    axiom_ws();
    lemma_unjoined(x);
    reveal_strlit("//"); reveal_strlit("///");
    lemma_esc(unjoined(x));
    lemma_esc(" *"@ + unjoined(x));
    lemma_prefixed("//"@, unjoined(x));
    lemma_prefixed("///"@, unjoined(x));
    assert("//"@ =~= ("//"@ + unjoined(x)).take(2));
    assert("//"@ =~= ("///"@ + unjoined(x)).take(2));
}
/// C23: text without such sequences is carried over unchanged
pub proof fn lemma_esc_id(t: Seq<char>)
    requires !ends_comment(t),
    ensures esc(t) == t,
    decreases t.len(),
{
    reveal_strlit("*/");
    let a = "*/"@;
    assert(a.len() == 2 && a[0] == '*' && a[1] == '/');
    if t.len() >= 2 {
        if a.is_prefix_of(t) { assert(t.take(2) =~= a); assert(t[0] == t.take(2)[0] && t[1] == t.take(2)[1]); assert(t[0] == '*' && t[0int + 1] == '/'); assert(ends_comment(t)); }
        let u = t.skip(1);
        if ends_comment(u) { let i = choose|i: int| 0 <= i < u.len() - 1 && #[trigger] u[i] == '*' && u[i + 1] == '/'; assert(t[i + 1] == '*' && t[i + 2] == '/'); assert(ends_comment(t)); }
        lemma_esc_id(u);
        assert(seq![t[0]] + u =~= t);
    }
}

/// one line of text: Documentation::load gives no other (c23b.rs)
pub open spec fn one_line(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != '\n' && t[i] != '\r' }
pub proof fn lemma_esc_line(t: Seq<char>)
    requires one_line(t),
    ensures one_line(esc(t)),
    decreases t.len(),
{
    reveal_strlit("*/");
    reveal_strlit("* /");
    if t.len() >= 2 {
        let n = if "*/"@.is_prefix_of(t) { 2int } else { 1 };
        let u = t.skip(n);
        assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] != '\n' && u[i] != '\r' by { assert(u[i] == t[i + n]); }
        lemma_esc_line(u);
        let r = esc(u);
        let w = esc(t);
        let h = if n == 2 { "* /"@ } else { seq![t[0]] };
        assert(w == h + r);
        assert(t[0] != '\n');
        assert forall|i: int| 0 <= i < w.len() implies #[trigger] w[i] != '\n' && w[i] != '\r' by { if i >= h.len() { assert(w[i] == r[i - h.len()]); } else { assert(w[i] == h[i]); } }
    }
}
/// C23: a line of documentation stays one line of the comment
pub proof fn lemma_doc_line(s: DocumentationStyle, t: Seq<char>)
    requires one_line(t),
    ensures one_line(doc_line(s, t)),
{
    lemma_cut(t, bs_set());
    let u = unjoined(t);
    assert(one_line(u)) by { assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] != '\n' && u[i] != '\r' by { assert(u[i] == t[i]); } }
    reveal_strlit(" *"); reveal_strlit("//"); reveal_strlit("///");
    lemma_esc_line(u);
    assert(one_line(" *"@ + u));
    lemma_esc_line(" *"@ + u);
}

// ================= code under contract =================
pub struct CLikeLanguageBackend<'a> { pub config: &'a Config }
pub struct CythonLanguageBackend<'a> { pub config: &'a Config }
impl<'a> CLikeLanguageBackend<'a> {
//@fn src/bindgen/language_backend/clike.rs LanguageBackend@CLikeLanguageBackend::write_documentation r loops=1
    requires old(out).cur@.len() == 0,
    ensures final(out).lines@ == old(out).lines@ + c_comment(*d, *old(self).config), final(out).cur@.len() == 0,
//@sig pub fn write_documentation(&mut self, out: &mut SourceWriter, d: &Documentation)
//@subst (d.doc_comment[..end]).vx_sl() => vx_upto(&d.doc_comment, end)
//@subst .replace( => .vx_replace(
//@subst .trim_end() => .vx_trim_end()
//@subst .ends_with('\\') => .vx_ends_ch('\\')
//@subst .trim_end_matches(|c: char| c == '\\' || c.is_whitespace()) => .vx_trim_bs()
//@pre
    let ghost l0 = out.lines@;
    proof { assert(l0 + Seq::<Seq<char>>::empty() =~= l0); assert(py_lines(d.doc_comment@, 0) =~= Seq::<Seq<char>>::empty()); }
//@loop 0 before
    let ghost s = style_for(*self.config);
    let ghost l1 = out.lines@;
    proof { assert(l1 =~= l0 + opening(s)); assert(l1 + doc_lines(s, d.doc_comment@, 0) =~= l1); }
//@loop 0
    __s0@ == d.doc_comment@.take(end as int), end <= d.doc_comment@.len(), out.cur@.len() == 0, style == s,
    out.lines@ == l1 + doc_lines(s, d.doc_comment@, __i0 as nat),
//@loop 0 post
    proof {
        let x = d.doc_comment@[__i0 - 1]@;
        assert(__s0@[__i0 - 1] == d.doc_comment@[__i0 - 1]);
        assert(out.lines@.last() =~= doc_line(s, x));
        assert(out.lines@ =~= l1 + doc_lines(s, d.doc_comment@, __i0 as nat));
    }
//@post
    proof { assert(out.lines@ =~= l0 + c_comment(*d, *self.config)); }
//@end
}
impl<'a> CythonLanguageBackend<'a> {
//@fn src/bindgen/language_backend/cython.rs LanguageBackend@CythonLanguageBackend::write_documentation r loops=1
    requires old(out).cur@.len() == 0,
    ensures final(out).lines@ == old(out).lines@ + py_comment(*d, *old(self).config), final(out).cur@.len() == 0,
//@sig pub fn write_documentation(&mut self, out: &mut SourceWriter, d: &Documentation)
//@subst (d.doc_comment[..end]).vx_sl() => vx_upto(&d.doc_comment, end)
//@pre
    let ghost l0 = out.lines@;
    proof { assert(l0 + py_lines(d.doc_comment@, 0) =~= l0); }
//@loop 0
    __s0@ == d.doc_comment@.take(end as int), end <= d.doc_comment@.len(), out.cur@.len() == 0,
    out.lines@ == l0 + py_lines(d.doc_comment@, __i0 as nat),
//@loop 0 post
    proof {
        assert(__s0@[__i0 - 1] == d.doc_comment@[__i0 - 1]);
        assert(out.lines@.last() =~= "#"@ + d.doc_comment@[__i0 - 1]@);
        assert(out.lines@ =~= l0 + py_lines(d.doc_comment@, __i0 as nat));
    }
//@end
}
} // verus!
fn main() {}
