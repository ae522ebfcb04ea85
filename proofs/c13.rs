//@include prelude.inc
verus! {
//@type src/bindgen/config.rs Language derive=Clone,Copy
//@type src/bindgen/config.rs Braces derive=Clone,Copy
//@type src/bindgen/config.rs LineEndingStyle derive=Clone,Copy
//@type src/bindgen/config.rs Config keep=language,braces,tab_width,line_endings
//@type src/bindgen/bindings.rs Bindings keep=config
//@type src/bindgen/writer.rs ListType

// ---- std::io ----
pub mod io { use super::*; pub enum Error { E } pub type Result<T> = std::result::Result<T, Error>; }
/// std::io::Write: the bytes accepted so far; one call of write may accept only a part
pub trait Write: Sized {
    spec fn bytes(&self) -> Seq<u8>;
    fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>)
        ensures match r { Ok(n) => n <= buf@.len() && (*final(self)).bytes() == (*old(self)).bytes() + buf@.take(n as int), Err(_) => (*final(self)).bytes() == (*old(self)).bytes() };
    fn flush(&mut self) -> (r: io::Result<()>) ensures (*final(self)).bytes() == (*old(self)).bytes();
    /// `write!(w, "..").unwrap()` and `w.write_all(..).unwrap()`: all bytes are accepted or the call panics
    fn w_str(&mut self, text: &str) ensures (*final(self)).bytes() == (*old(self)).bytes() + utf8(text@);
    fn w_all(&mut self, b: &[u8]) ensures (*final(self)).bytes() == (*old(self)).bytes() + b@;
}
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub axiom fn axiom_utf8_space() ensures utf8(" "@) == seq![32u8];
pub trait VxBytes { spec fn chars(&self) -> Seq<char>; fn vx_bytes(&self) -> (r: &[u8]) ensures r@ == utf8(self.chars()); }
impl VxBytes for str { open spec fn chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_bytes(&self) -> (r: &[u8]) { self.as_bytes() } }
impl Write for Vec<u8> {
    open spec fn bytes(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>) { unimplemented!() }
    #[verifier::external_body] fn flush(&mut self) -> (r: io::Result<()>) { unimplemented!() }
    #[verifier::external_body] fn w_str(&mut self, text: &str) { unimplemented!() }
    #[verifier::external_body] fn w_all(&mut self, b: &[u8]) { unimplemented!() }
}
impl<'x, F: Write> Write for &'x mut F {
    open spec fn bytes(&self) -> Seq<u8> { (**self).bytes() }
    #[verifier::external_body] fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>) { unimplemented!() }
    #[verifier::external_body] fn flush(&mut self) -> (r: io::Result<()>) { unimplemented!() }
    #[verifier::external_body] fn w_str(&mut self, text: &str) { unimplemented!() }
    #[verifier::external_body] fn w_all(&mut self, b: &[u8]) { unimplemented!() }
}
/// std::fmt::Arguments: the pieces it formats to; formatting writes them one by one with write_all
#[verifier::external_body] pub struct Arguments { _p: () }
impl Arguments { pub uninterp spec fn text(&self) -> Seq<u8>; }
/// lengths and line numbers stay below usize::MAX (assumed)
#[verifier::external_body]
pub fn vx_add(a: usize, b: usize) -> (r: usize) ensures r == a + b { a + b }
pub fn vx_max(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }

//@type src/bindgen/writer.rs SourceWriter

// ---------------- specification: the writer as a machine ----------------
pub ghost enum Op {
    /// some text, verbatim
    Text(Seq<u8>),
    /// text that is never indented
    Raw(Seq<u8>),
    Line,
    /// one more tab stop
    Tab,
    /// a fixed indentation
    Push(nat),
    Pop,
}
pub ghost struct St { pub out: Seq<u8>, pub sp: Seq<nat>, pub started: bool, pub len: nat, pub max: nat, pub num: nat, pub cfg: Config }
pub open spec fn eol(c: Config) -> Seq<u8> { utf8(eol_text(c.line_endings)) }
pub proof fn lemma_sp(v: Seq<usize>, n: usize)
    ensures sp_of(v.push(n)) == sp_of(v).push(n as nat), v.len() > 0 ==> sp_of(v.drop_last()) == sp_of(v).drop_last(), sp_of(v.push(n)).last() == n,
{ assert(sp_of(v.push(n)) =~= sp_of(v).push(n as nat)); if v.len() > 0 { assert(sp_of(v.drop_last()) =~= sp_of(v).drop_last()); } }
pub open spec fn eol_text(l: LineEndingStyle) -> Seq<char> {
    match l { LineEndingStyle::LF | LineEndingStyle::Native => "\n"@, LineEndingStyle::CR => "\r"@, LineEndingStyle::CRLF => "\r\n"@ }
}
pub open spec fn blanks(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 32u8) }
pub open spec fn indent(s: St) -> nat { if s.sp.len() > 0 { s.sp.last() } else { 0 } }
pub open spec fn mx(a: nat, b: nat) -> nat { if a >= b { a } else { b } }
pub open spec fn tab_stop(n: nat, w: nat) -> nat { if w == 0 { n } else { (n - n % w + w) as nat } }
pub open spec fn put(s: St, t: Seq<u8>) -> St {
    if t.len() == 0 { s } else {
        let pad = if s.started { 0 } else { indent(s) };
        St { out: s.out + blanks(pad) + t, started: true, len: s.len + pad + t.len(), max: mx(s.max, s.len + pad + t.len()), ..s }
    }
}
pub open spec fn step(s: St, o: Op) -> St {
    match o {
        Op::Text(t) => put(s, t),
        Op::Raw(t) => put(St { started: true, ..s }, t),
        Op::Line => St { out: s.out + eol(s.cfg), started: false, len: 0, num: s.num + 1, ..s },
        Op::Tab => St { sp: s.sp.push(tab_stop(indent(s), s.cfg.tab_width as nat)), ..s },
        Op::Push(n) => St { sp: s.sp.push(n), ..s },
        Op::Pop => St { sp: s.sp.drop_last(), ..s },
    }
}
pub open spec fn run(s: St, ops: Seq<Op>) -> St
    decreases ops.len()
{ if ops.len() == 0 { s } else { step(run(s, ops.drop_last()), ops.last()) } }
pub open spec fn sp_of(v: Seq<usize>) -> Seq<nat> { Seq::new(v.len(), |i: int| v[i] as nat) }
pub open spec fn st<'a, F: Write>(w: SourceWriter<'a, F>) -> St {
    St { out: w.out.bytes(), sp: sp_of(w.spaces@), started: w.line_started, len: w.line_length as nat, max: w.max_line_length as nat, num: w.line_number as nat, cfg: w.bindings.config }
}
pub proof fn lemma_run1(s: St, o: Op) ensures run(s, seq![o]) == step(s, o) { reveal_with_fuel(run, 2); assert(seq![o].drop_last() =~= Seq::<Op>::empty()); }
pub proof fn lemma_run_cat(s: St, a: Seq<Op>, b: Seq<Op>)
    ensures run(s, a + b) == run(run(s, a), b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        lemma_run_cat(s, a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
    }
}
/// text written in two parts is the text written at once
pub proof fn lemma_put_cat(s: St, a: Seq<u8>, b: Seq<u8>)
    ensures put(put(s, a), b) == put(s, a + b),
{
    if a.len() == 0 { assert(a + b =~= b); } else if b.len() == 0 { assert(a + b =~= a); } else {
        let pad = if s.started { 0 } else { indent(s) };
        assert((s.out + blanks(pad) + a) + blanks(0) + b =~= s.out + blanks(pad) + (a + b));
    }
}
// ---- trial layouts ----
/// the state in which a trial starts: nothing written, the rest as it is
pub open spec fn trial(s: St) -> St { St { out: Seq::empty(), max: s.len, ..s } }
pub open spec fn same_but_out(a: St, b: St, pre: Seq<u8>) -> bool {
    b.out == pre + a.out && a.sp == b.sp && a.started == b.started && a.len == b.len && a.num == b.num && a.cfg == b.cfg
}
/// C13: what a trial writes is what the same calls would have written directly
pub proof fn lemma_trial(s: St, ops: Seq<Op>)
    ensures same_but_out(run(trial(s), ops), run(s, ops), s.out),
    decreases ops.len(),
{
    if ops.len() == 0 { assert(s.out + Seq::<u8>::empty() =~= s.out); } else {
        lemma_trial(s, ops.drop_last());
        let a = run(trial(s), ops.drop_last());
        let b = run(s, ops.drop_last());
        let pad = if a.started { 0 } else { indent(a) };
        match ops.last() {
            Op::Text(t) => { assert(b.out + blanks(pad) + t =~= s.out + (a.out + blanks(pad) + t)); }
            Op::Raw(t) => { assert(b.out + blanks(0) + t =~= s.out + (a.out + blanks(0) + t)); }
            Op::Line => { assert(b.out + eol(b.cfg) =~= s.out + (a.out + eol(a.cfg))); }
            _ => {}
        }
    }
}
/// C13: the measured maximum covers the length of the line after every step
pub proof fn lemma_measured(s: St, ops: Seq<Op>, n: int)
    requires 0 <= n <= ops.len(), s.len <= s.max,
    ensures run(s, ops.take(n)).len <= run(s, ops).max, run(s, ops).len <= run(s, ops).max, s.max <= run(s, ops).max,
    decreases ops.len(),
{
    if ops.len() == 0 { assert(ops.take(n) =~= ops); } else {
        if n == ops.len() { assert(ops.take(n) =~= ops); lemma_measured(s, ops.drop_last(), n - 1); }
        else { lemma_measured(s, ops.drop_last(), n); assert(ops.take(n) =~= ops.drop_last().take(n)); }
    }
}
pub open spec fn no_line(ops: Seq<Op>) -> bool { forall|i: int| 0 <= i < ops.len() ==> !(#[trigger] ops[i] is Line) }
/// within one line the length is the length of what was written
pub proof fn lemma_one_line(s: St, ops: Seq<Op>)
    requires no_line(ops),
    ensures run(s, ops).len == s.len + run(s, ops).out.len() - s.out.len(), run(s, ops).num == s.num, s.started ==> run(s, ops).started,
        run(s, ops).out.len() > s.out.len() ==> run(s, ops).started,
    decreases ops.len(),
{
    if ops.len() > 0 {
        let d = ops.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies !(#[trigger] d[i] is Line) by { assert(d[i] == ops[i]); }
        lemma_one_line(s, d);
        assert(!(ops[ops.len() - 1] is Line));
    }
}
/// C13: a trial that stays on one line and writes something leaves the writer as the calls
/// themselves would have (indentation changes made inside the trial are not kept)
pub proof fn lemma_trial_state(s: St, ops: Seq<Op>, e: St)
    requires no_line(ops), run(trial(s), ops).out.len() > 0, e == put(St { started: true, ..s }, run(trial(s), ops).out),
    ensures e.out == run(s, ops).out, e.started == run(s, ops).started, e.len == run(s, ops).len, e.num == run(s, ops).num, e.sp == s.sp,
{
    lemma_trial(s, ops);
    lemma_one_line(s, ops);
    lemma_one_line(trial(s), ops);
    let t = run(trial(s), ops).out;
    assert(s.out + blanks(0) + t =~= s.out + t);
}
/// the column at which what is written next starts
pub open spec fn align(s: St) -> nat { if s.started { s.len } else { s.len + indent(s) } }
// ---- blocks ----
pub open spec fn open_ops(c: Config) -> Seq<Op> {
    match c.language {
        Language::Cython => seq![Op::Text(utf8(":"@)), Op::Line, Op::Tab],
        _ => match c.braces {
            Braces::SameLine => seq![Op::Text(utf8(" {"@)), Op::Tab, Op::Line],
            Braces::NextLine => seq![Op::Line, Op::Text(utf8("{"@)), Op::Tab, Op::Line],
        },
    }
}
pub open spec fn close_ops(c: Config, semicolon: bool) -> Seq<Op> {
    match c.language {
        Language::Cython => seq![Op::Pop],
        _ => seq![Op::Pop, Op::Line, Op::Text(utf8(if semicolon { "};"@ } else { "}"@ }))],
    }
}
pub proof fn lemma_unfold3(s: St, a: Op, b: Op, c: Op) ensures run(s, seq![a, b, c]) == step(step(step(s, a), b), c)
{
    let x = seq![a, b, c];
    assert(x.drop_last() =~= seq![a, b]);
    assert(seq![a, b].drop_last() =~= seq![a]);
    lemma_run1(s, a);
    assert(run(s, seq![a, b]) == step(run(s, seq![a]), b));
    assert(x.last() == c);
}
pub proof fn lemma_unfold4(s: St, a: Op, b: Op, c: Op, d: Op) ensures run(s, seq![a, b, c, d]) == step(step(step(step(s, a), b), c), d)
{ assert(seq![a, b, c, d].drop_last() =~= seq![a, b, c]); lemma_unfold3(s, a, b, c); }
pub proof fn lemma_open_steps(s: St)
    ensures run(s, open_ops(s.cfg)) == match s.cfg.language {
        Language::Cython => step(step(step(s, Op::Text(utf8(":"@))), Op::Line), Op::Tab),
        _ => match s.cfg.braces {
            Braces::SameLine => step(step(step(s, Op::Text(utf8(" {"@))), Op::Tab), Op::Line),
            Braces::NextLine => step(step(step(step(s, Op::Line), Op::Text(utf8("{"@))), Op::Tab), Op::Line),
        },
    },
{
    lemma_unfold3(s, Op::Text(utf8(":"@)), Op::Line, Op::Tab);
    lemma_unfold3(s, Op::Text(utf8(" {"@)), Op::Tab, Op::Line);
    lemma_unfold4(s, Op::Line, Op::Text(utf8("{"@)), Op::Tab, Op::Line);
}
pub proof fn lemma_close_steps(s: St, semicolon: bool)
    ensures run(s, close_ops(s.cfg, semicolon)) == match s.cfg.language {
        Language::Cython => step(s, Op::Pop),
        _ => step(step(step(s, Op::Pop), Op::Line), Op::Text(utf8(if semicolon { "};"@ } else { "}"@ }))),
    },
{
    lemma_run1(s, Op::Pop);
    lemma_unfold3(s, Op::Pop, Op::Line, Op::Text(utf8(if semicolon { "};"@ } else { "}"@ })));
}
pub proof fn lemma_open(s: St)
    ensures run(s, open_ops(s.cfg)).sp == s.sp.push(tab_stop(indent(s), s.cfg.tab_width as nat)), run(s, open_ops(s.cfg)).cfg == s.cfg,
{
    match s.cfg.language {
        Language::Cython => { lemma_unfold3(s, Op::Text(utf8(":"@)), Op::Line, Op::Tab); }
        _ => match s.cfg.braces {
            Braces::SameLine => { lemma_unfold3(s, Op::Text(utf8(" {"@)), Op::Tab, Op::Line); }
            Braces::NextLine => { lemma_unfold4(s, Op::Line, Op::Text(utf8("{"@)), Op::Tab, Op::Line); }
        },
    }
}
pub proof fn lemma_close(s: St, semicolon: bool)
    ensures run(s, close_ops(s.cfg, semicolon)).sp == s.sp.drop_last(),
{
    match s.cfg.language {
        Language::Cython => { lemma_run1(s, Op::Pop); }
        _ => { lemma_unfold3(s, Op::Pop, Op::Line, Op::Text(utf8(if semicolon { "};"@ } else { "}"@ }))); }
    }
}
/// C13: after a closed block the indentation is what it was before the block was opened
pub proof fn lemma_block(s: St, inner: Seq<Op>, semicolon: bool)
    requires run(run(s, open_ops(s.cfg)), inner).sp == run(s, open_ops(s.cfg)).sp, run(run(s, open_ops(s.cfg)), inner).cfg == s.cfg,
    ensures run(run(run(s, open_ops(s.cfg)), inner), close_ops(s.cfg, semicolon)).sp == s.sp,
{ lemma_open(s); lemma_close(run(run(s, open_ops(s.cfg)), inner), semicolon); assert(s.sp.push(tab_stop(indent(s), s.cfg.tab_width as nat)).drop_last() =~= s.sp); }
// ---- lists ----
/// element i writes os[i]; the separator goes between elements or after each
pub open spec fn sep_ops(l: ListType, last: bool) -> Seq<Op> {
    match l { ListType::Join(t) => if last { Seq::empty() } else { seq![Op::Text(utf8(t@))] }, ListType::Cap(t) => seq![Op::Text(utf8(t@))] }
}
pub open spec fn list_ops(os: Seq<Seq<Op>>, l: ListType, vertical: bool, n: nat, total: nat) -> Seq<Op>
    decreases n
{
    if n == 0 || n > os.len() { Seq::empty() } else {
        list_ops(os, l, vertical, (n - 1) as nat, total) + os[n - 1] + sep_ops(l, n == total) + (if vertical && n != total { seq![Op::Line] } else { Seq::empty() })
    }
}
pub proof fn lemma_list_prefix(os: Seq<Seq<Op>>, more: Seq<Seq<Op>>, l: ListType, vertical: bool, n: nat, total: nat)
    requires n <= os.len() <= more.len(), forall|i: int| 0 <= i < os.len() ==> #[trigger] more[i] == os[i],
    ensures list_ops(more, l, vertical, n, total) == list_ops(os, l, vertical, n, total),
    decreases n,
{ if n > 0 { lemma_list_prefix(os, more, l, vertical, (n - 1) as nat, total); assert(more[n - 1] == os[n - 1]); } }
/// what the calls from the given one on wrote
pub open spec fn wrote<S>(calls: Seq<(S, Seq<Op>)>, from: nat) -> Seq<Seq<Op>> { Seq::new((calls.len() - from) as nat, |i: int| calls[from + i].1) }
/// the calls after c0 were one per item, in order
pub open spec fn one_each<S>(c0: Seq<(S, Seq<Op>)>, c1: Seq<(S, Seq<Op>)>, items: Seq<S>, n: nat) -> bool {
    c1.len() == c0.len() + n && (forall|i: int| 0 <= i < n ==> #[trigger] c1[c0.len() + i].0 == items[i])
}
pub proof fn lemma_list_none<S>(s: St, calls: Seq<(S, Seq<Op>)>, l: ListType, total: nat)
    ensures run(s, list_ops(wrote(calls, calls.len()), l, true, 0, total)) == s, run(s, list_ops(wrote(calls, calls.len()), l, false, 0, total)) == s,
{}
/// one round of the list: the element, then the separator, then the line break
pub proof fn lemma_list_step<S>(s: St, c0: nat, calls: Seq<(S, Seq<Op>)>, x: (S, Seq<Op>), l: ListType, vertical: bool, total: nat)
    requires c0 <= calls.len(), calls.len() - c0 < total,
    ensures ({
        let n = (calls.len() - c0) as nat;
        let a = run(run(s, list_ops(wrote(calls, c0), l, vertical, n, total)), x.1);
        let b = match l { ListType::Join(t) => if n + 1 == total { a } else { step(a, Op::Text(utf8(t@))) }, ListType::Cap(t) => step(a, Op::Text(utf8(t@))) };
        let c = if vertical && n + 1 != total { step(b, Op::Line) } else { b };
        run(s, list_ops(wrote(calls.push(x), c0), l, vertical, n + 1, total)) == c
    }),
{
    let n = (calls.len() - c0) as nat;
    let os = wrote(calls, c0);
    let os2 = wrote(calls.push(x), c0);
    assert(os2[n as int] == x.1);
    lemma_list_prefix(os, os2, l, vertical, n, total);
    let p = list_ops(os, l, vertical, n, total);
    let sep = sep_ops(l, n + 1 == total);
    let nl = if vertical && n + 1 != total { seq![Op::Line] } else { Seq::<Op>::empty() };
    assert(list_ops(os2, l, vertical, n + 1, total) == p + x.1 + sep + nl);
    lemma_run_cat(s, p + x.1 + sep, nl);
    lemma_run_cat(s, p + x.1, sep);
    lemma_run_cat(s, p, x.1);
    let a = run(run(s, p), x.1);
    match l { ListType::Join(t) => { lemma_run1(a, Op::Text(utf8(t@))); } ListType::Cap(t) => { lemma_run1(a, Op::Text(utf8(t@))); } }
    lemma_run1(run(a, sep), Op::Line);
    assert(run(a, Seq::<Op>::empty()) == a);
    assert(run(run(a, sep), Seq::<Op>::empty()) == run(a, sep));
}
/// the closure that writes an element: what it was called with and what it wrote
pub struct ItemFn<S> { pub calls: Ghost<Seq<(S, Seq<Op>)>> }
impl<S> ItemFn<S> {
    #[verifier::external_body]
    pub fn call<'a, LB, F: Write>(&mut self, lb: &mut LB, w: &mut SourceWriter<'a, F>, x: &S)
        ensures final(self).calls@ == old(self).calls@.push((*x, final(self).calls@.last().1)),
            st(*final(w)) == run(st(*old(w)), final(self).calls@.last().1), final(w).spaces@.len() > 0, final(w).bindings == old(w).bindings,
    { unimplemented!() }
}
/// the closure given to try_write: it makes some calls on the writer it gets
pub struct TrialFn { pub ops: Ghost<Seq<Op>> }
impl TrialFn {
    #[verifier::external_body]
    pub fn call_once<'a, 'v>(&mut self, w: &mut SourceWriter<'a, &'v mut Vec<u8>>)
        ensures st(*final(w)) == run(st(*old(w)), final(self).ops@), *final(final(w).out) == *final(old(w).out),
    { unimplemented!() }
}

// ================= code under contract =================
impl LineEndingStyle {
//@fn src/bindgen/config.rs LineEndingStyle::as_str r
    ensures r@ == eol_text(*self),
//@end
}

/// text of length zero or more arrives: the indentation goes first if the line has not started
pub open spec fn wr(s: St, t: Seq<u8>) -> St {
    let pad = if s.started { 0 } else { indent(s) };
    St { out: s.out + blanks(pad) + t, started: true, len: s.len + pad + t.len(), max: mx(s.max, s.len + pad + t.len()), ..s }
}
pub open spec fn padded(s: St) -> St {
    let pad = if s.started { 0 } else { indent(s) };
    St { out: s.out + blanks(pad), started: true, len: s.len + pad, ..s }
}
pub proof fn lemma_padded(s: St, t: Seq<u8>)
    requires t.len() > 0,
    ensures put(padded(s), t) == put(s, t), wr(s, t) == put(s, t),
{
    let pad = if s.started { 0 } else { indent(s) };
    assert(s.out + blanks(pad) + blanks(0) + t =~= s.out + blanks(pad) + t);
}
/// the inner writer of one call
pub struct InnerWriter<'a, 'b, F: Write>(pub &'a mut SourceWriter<'b, F>);
impl<'a, 'b, F: Write> InnerWriter<'a, 'b, F> {
//@fn src/bindgen/writer.rs Write@InnerWriter::write r loops=1 nat
    requires old(self).0.spaces@.len() > 0, buf@.len() > 0,
    ensures final(self).0.spaces == old(self).0.spaces, final(self).0.bindings == old(self).0.bindings, *final(final(self).0) == *final(old(self).0),
        match r { Ok(n) => n <= buf@.len() && st(*final(self).0) == wr(st(*old(self).0), buf@.take(n as int)), Err(_) => st(*final(self).0) == padded(st(*old(self).0)) },
//@subst cmp::max( => vx_max(
//@pre
    proof { axiom_utf8_space(); }
    let ghost s0 = st(*self.0);
//@loop 0
    st(**writer) == (St { out: s0.out + blanks(__i0 as nat), ..s0 }), writer.spaces@.len() > 0, __h0 == indent(s0),
//@loop 0 post
    proof { assert(blanks((__i0 - 1) as nat) + seq![32u8] =~= blanks(__i0 as nat)); assert(s0.out + blanks((__i0 - 1) as nat) + seq![32u8] =~= s0.out + blanks(__i0 as nat)); }
//@end
}

/// std::io::Write::write_all (the library's loop, over the contract of InnerWriter::write)
#[verifier::exec_allows_no_decreases_clause]
pub fn vx_std_write_all<'a, 'b, F: Write>(w: &mut InnerWriter<'a, 'b, F>, buf: &[u8])
    requires old(w).0.spaces@.len() > 0,
    ensures st(*final(w).0) == put(st(*old(w).0), buf@), final(w).0.spaces == old(w).0.spaces, final(w).0.bindings == old(w).0.bindings,
        *final(final(w).0) == *final(old(w).0),
{
    let ghost s0 = st(*w.0);
    let mut at: usize = 0;
    proof { assert(buf@.skip(0) =~= buf@); }
    while at < buf.len()
        invariant 0 <= at <= buf@.len(), w.0.spaces@.len() > 0, w.0.spaces == old(w).0.spaces, w.0.bindings == old(w).0.bindings,
            put(st(*w.0), buf@.skip(at as int)) == put(s0, buf@), *final(w.0) == *final(old(w).0),
    {
        let ghost s1 = st(*w.0);
        let rest = vx_skip(buf, at);
        let r = w.write(rest);
        match r {
            Ok(n) => {
                if n == 0 { vx_panic_ok(); }
                proof {
                    let a = rest@.take(n as int);
                    lemma_padded(s1, a);
                    lemma_put_cat(s1, a, buf@.skip(at + n));
                    assert(a + buf@.skip(at + n) =~= buf@.skip(at as int));
                }
                at = at + n;
            }
            Err(e) => {
                // interrupted calls are repeated, other failures panic
                if vx_fatal(e) { vx_panic_ok(); }
                proof { lemma_padded(s1, rest@); }
            }
        }
    }
}
#[verifier::external_body]
pub fn vx_skip(b: &[u8], n: usize) -> (r: &[u8]) requires n <= b@.len() ensures r@ == b@.skip(n as int) { &b[n..] }
#[verifier::external_body]
pub fn vx_fatal(e: io::Error) -> bool { unimplemented!() }
/// `write!(w, "{x}")`
#[verifier::external_body]
pub fn vx_args<T: VxDisp + ?Sized>(x: &T) -> (r: Arguments) ensures r.text() == utf8(x.disp()) { unimplemented!() }
/// std::io::Write::write_fmt writes the pieces one by one with write_all
#[verifier::external_body]
pub fn vx_pieces(a: Arguments) -> (r: Vec<Vec<u8>>) ensures cat(r@, r@.len()) == a.text() { unimplemented!() }
pub open spec fn cat(v: Seq<Vec<u8>>, n: nat) -> Seq<u8> decreases n { if n == 0 || n > v.len() { Seq::empty() } else { cat(v, (n - 1) as nat) + v[n - 1]@ } }
pub fn vx_std_write_fmt<'a, 'b, F: Write>(w: &mut InnerWriter<'a, 'b, F>, a: Arguments)
    requires old(w).0.spaces@.len() > 0,
    ensures st(*final(w).0) == put(st(*old(w).0), a.text()), final(w).0.spaces == old(w).0.spaces, final(w).0.bindings == old(w).0.bindings,
        *final(final(w).0) == *final(old(w).0),
{
    let ghost s0 = st(*w.0);
    let v = vx_pieces(a);
    let mut i: usize = 0;
    while i < v.len()
        invariant 0 <= i <= v@.len(), w.0.spaces@.len() > 0, w.0.spaces == old(w).0.spaces, w.0.bindings == old(w).0.bindings,
            st(*w.0) == put(s0, cat(v@, i as nat)), *final(w.0) == *final(old(w).0),
        decreases v@.len() - i,
    {
        proof { lemma_put_cat(s0, cat(v@, i as nat), v@[i as int]@); }
        vx_std_write_all(w, v[i].as_slice());
        i = i + 1;
    }
}
impl<'a, F: Write> SourceWriter<'a, F> {
    /// `write!(self, "{x}")`: write_fmt with the arguments
    pub fn w_disp<T: VxDisp + ?Sized>(&mut self, x: &T)
        requires old(self).spaces@.len() > 0,
        ensures st(*final(self)) == put(st(*old(self)), utf8(x.disp())), st(*final(self)) == step(st(*old(self)), Op::Text(utf8(x.disp()))), final(self).spaces == old(self).spaces,
    { let a = vx_args(x); self.write_fmt(a); }
//@fn src/bindgen/writer.rs SourceWriter::new r
    ensures st(r) == (St { out: out.bytes(), sp: seq![0], started: false, len: 0, max: 0, num: 1, cfg: bindings.config }), r.spaces@.len() == 1,
//@post
    proof { assert(sp_of(__ret.spaces@) =~= seq![0nat]); }
//@end
//@fn src/bindgen/writer.rs SourceWriter::spaces r
    requires self.spaces@.len() > 0,
    ensures r == indent(st(*self)),
//@end
//@fn src/bindgen/writer.rs SourceWriter::push_set_spaces
    ensures st(*final(self)) == step(st(*old(self)), Op::Push(spaces as nat)), final(self).spaces@.len() == old(self).spaces@.len() + 1,
//@pre
    proof { lemma_sp(self.spaces@, spaces); }
//@end
//@fn src/bindgen/writer.rs SourceWriter::pop_tab
    requires old(self).spaces@.len() > 0,
    ensures st(*final(self)) == step(st(*old(self)), Op::Pop), final(self).spaces@.len() == old(self).spaces@.len() - 1,
//@pre
    proof { lemma_sp(self.spaces@, 0); }
//@end
//@fn src/bindgen/writer.rs SourceWriter::pop_set_spaces
    requires old(self).spaces@.len() > 0,
    ensures st(*final(self)) == step(st(*old(self)), Op::Pop), final(self).spaces@.len() == old(self).spaces@.len() - 1,
//@end
//@fn src/bindgen/writer.rs SourceWriter::push_tab r nat
    requires old(self).spaces@.len() > 0,
    ensures st(*final(self)) == step(st(*old(self)), Op::Tab), final(self).spaces@.len() == old(self).spaces@.len() + 1,
//@pre
    proof {
        let n = indent(st(*self));
        let w = self.bindings.config.tab_width as nat;
        if w > 0 { vstd::arithmetic::div_mod::lemma_mod_decreases(n, w); assert(n % w <= n); assert(self.spaces@.last() == n); }
        assert forall|k: usize| #[trigger] sp_of(self.spaces@.push(k)) == sp_of(self.spaces@).push(k as nat) by { lemma_sp(self.spaces@, k); }
    }
//@end
//@fn src/bindgen/writer.rs SourceWriter::line_length_for_align r nat
    requires self.spaces@.len() > 0,
    ensures r == align(st(*self)),
//@end
//@fn src/bindgen/writer.rs SourceWriter::new_line r nat
    ensures st(*final(self)) == step(st(*old(self)), Op::Line), final(self).spaces == old(self).spaces,
//@subst .write_all( => .w_all(
//@subst .as_bytes() => .vx_bytes()
//@subst .unwrap(); => ;
//@end
//@fn src/bindgen/writer.rs SourceWriter::new_line_if_not_start
    ensures st(*final(self)) == (if old(self).line_number != 1 { step(st(*old(self)), Op::Line) } else { st(*old(self)) }), final(self).spaces == old(self).spaces,
//@end
//@fn src/bindgen/writer.rs SourceWriter::write_fmt
    requires old(self).spaces@.len() > 0,
    ensures st(*final(self)) == put(st(*old(self)), fmt.text()), final(self).spaces == old(self).spaces,
//@subst ::std::fmt::Arguments => Arguments
//@subst InnerWriter(self).write_fmt(fmt).unwrap() => vx_std_write_fmt(&mut InnerWriter(self), fmt)
//@end
//@fn src/bindgen/writer.rs SourceWriter::write
    requires old(self).spaces@.len() > 0,
    ensures st(*final(self)) == step(st(*old(self)), Op::Text(utf8(text@))), final(self).spaces == old(self).spaces,
//@end
//@fn src/bindgen/writer.rs SourceWriter::write_raw_block
    requires old(self).spaces@.len() > 0,
    ensures st(*final(self)) == step(st(*old(self)), Op::Raw(utf8(block@))), final(self).spaces == old(self).spaces,
//@end
//@fn src/bindgen/writer.rs SourceWriter::open_brace
    requires old(self).spaces@.len() > 0,
    ensures st(*final(self)) == run(st(*old(self)), open_ops(st(*old(self)).cfg)), final(self).spaces@.len() == old(self).spaces@.len() + 1,
//@pre
    let ghost s = st(*self);
    proof { lemma_open_steps(s); }
//@end
//@fn src/bindgen/writer.rs SourceWriter::close_brace
    requires old(self).spaces@.len() > 1,
    ensures st(*final(self)) == run(st(*old(self)), close_ops(st(*old(self)).cfg, semicolon)), final(self).spaces@.len() == old(self).spaces@.len() - 1,
//@pre
    let ghost s = st(*self);
    proof { lemma_close_steps(s, semicolon); }
//@end

//@fn src/bindgen/writer.rs SourceWriter::try_write r
    requires old(self).spaces@.len() > 0,
    ensures
        !r ==> st(*final(self)) == st(*old(self)),
        r ==> st(*final(self)) == put(St { started: true, ..st(*old(self)) }, run(trial(st(*old(self))), final(func).ops@).out)
            && run(trial(st(*old(self))), final(func).ops@).max <= max_line_length,
//@sig pub fn try_write(&mut self, func: &mut TrialFn, max_line_length: usize) -> (r: bool)
//@subst func(&mut measurer) => func.call_once(&mut measurer)
//@subst InnerWriter(self).write_all(&buffer).unwrap() => vx_std_write_all(&mut InnerWriter(self), buffer.as_slice())
//@end
//@fn src/bindgen/writer.rs SourceWriter::write_horizontal_source_list r loops=1
    requires old(self).spaces@.len() > 0,
    ensures one_each(old(writer).calls@, final(writer).calls@, items@, items@.len()), st(*final(self)) == run(st(*old(self)), list_ops(wrote(final(writer).calls@, old(writer).calls@.len()), list_type, false, items@.len(), items@.len())),
//@sig pub fn write_horizontal_source_list<LB, S>(&mut self, language_backend: &mut LB, items: &[S], list_type: ListType<'_>, writer: &mut ItemFn<S>)
//@subst writer(language_backend, self, item) => writer.call(language_backend, self, item)
//@pre
    hide(run); hide(list_ops); hide(wrote); hide(step); hide(put);
    let ghost c0 = writer.calls@;
    proof { lemma_list_none(st(*self), writer.calls@, list_type, items@.len()); lemma_list_none(step(st(*self), Op::Push(align(st(*self)))), writer.calls@, list_type, items@.len()); }
    let ghost mut s0 = st(*self);
    
//@loop 0
    self.spaces@.len() > 0, one_each(c0, writer.calls@, items@, __i0 as nat), __s0@ == items@,
    st(*self) == run(s0, list_ops(wrote(writer.calls@, c0.len()), list_type, false, __i0 as nat, items@.len())),
//@loop 0 pre
    let ghost before = writer.calls@;
//@loop 0 post
    proof {
        let x = writer.calls@.last();
        assert(writer.calls@ =~= before.push(x));
        lemma_list_step(s0, c0.len(), before, x, list_type, false, items@.len());
    }
//@end
//@fn src/bindgen/writer.rs SourceWriter::write_vertical_source_list r loops=1
    requires old(self).spaces@.len() > 0,
    ensures one_each(old(writer).calls@, final(writer).calls@, items@, items@.len()), st(*final(self)) == step(run(step(st(*old(self)), Op::Push(align(st(*old(self))))), list_ops(wrote(final(writer).calls@, old(writer).calls@.len()), list_type, true, items@.len(), items@.len())), Op::Pop),
//@sig pub fn write_vertical_source_list<LB, S>(&mut self, language_backend: &mut LB, items: &[S], list_type: ListType<'_>, writer: &mut ItemFn<S>)
//@subst writer(language_backend, self, item) => writer.call(language_backend, self, item)
//@pre
    hide(run); hide(list_ops); hide(wrote); hide(step); hide(put);
    let ghost c0 = writer.calls@;
    proof { lemma_list_none(st(*self), writer.calls@, list_type, items@.len()); lemma_list_none(step(st(*self), Op::Push(align(st(*self)))), writer.calls@, list_type, items@.len()); }
    let ghost mut s0 = st(*self);
    proof { s0 = step(s0, Op::Push(align(s0))); }
//@loop 0
    self.spaces@.len() > 0, one_each(c0, writer.calls@, items@, __i0 as nat), __s0@ == items@,
    st(*self) == run(s0, list_ops(wrote(writer.calls@, c0.len()), list_type, true, __i0 as nat, items@.len())),
//@loop 0 pre
    let ghost before = writer.calls@;
//@loop 0 post
    proof {
        let x = writer.calls@.last();
        assert(writer.calls@ =~= before.push(x));
        lemma_list_step(s0, c0.len(), before, x, list_type, true, items@.len());
    }
//@end
}
} // verus!
fn main() {}
