//@include prelude.inc
verus! {
// ---------------- how make and ninja read a file name ----------------
pub open spec fn blank(c: char) -> bool { c == ' ' || c == '\t' }
/// number of backslashes at the end of a text
pub open spec fn tb(s: Seq<char>) -> nat
    decreases s.len()
{ if s.len() > 0 && s.last() == '\\' { tb(s.drop_last()) + 1 } else { 0 } }
pub open spec fn bs(n: nat) -> Seq<char> { Seq::new(n, |i: int| '\\') }
/// The file name that a word of a rule stands for; None when the text is not one word: a blank ends
/// a word unless an odd number of backslashes precedes it (which are halved), `#` starts a comment
/// unless a backslash precedes it, and `$` starts a variable unless doubled.
pub open spec fn read_word(t: Seq<char>) -> Option<Seq<char>>
    decreases t.len()
{
    if t.len() == 0 { Some(Seq::empty()) }
    else {
        let c = t.last();
        let p = t.drop_last();
        if blank(c) {
            let k = tb(p);
            if k % 2 == 0 || k > p.len() { None }
            else { match read_word(p.take(p.len() - k)) { Some(x) => Some((x + bs((k / 2) as nat)).push(c)), None => None } }
        } else if c == '#' {
            if p.len() == 0 || p.last() != '\\' { None }
            else { match read_word(p.drop_last()) { Some(x) => Some(x.push(c)), None => None } }
        } else if c == '$' {
            if p.len() == 0 || p.last() != '$' { None }
            else { match read_word(p.drop_last()) { Some(x) => Some(x.push(c)), None => None } }
        } else { match read_word(p) { Some(x) => Some(x.push(c)), None => None } }
    }
}
/// what is written for a path
pub open spec fn esc(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else {
        let c = s.last();
        let p = esc(s.drop_last());
        if blank(c) { (p + bs(tb(s.drop_last()) + 1)).push(c) }
        else if c == '#' { p.push('\\').push(c) }
        else if c == '$' { p.push('$').push(c) }
        else { p.push(c) }
    }
}
proof fn lemma_tb_bound(s: Seq<char>) ensures tb(s) <= s.len() decreases s.len()
{ if s.len() > 0 && s.last() == '\\' { lemma_tb_bound(s.drop_last()); } }
/// the backslashes at the end are copied
proof fn lemma_esc_bs(s: Seq<char>)
    ensures ({ let k = tb(s); let p = s.take(s.len() - k); k <= s.len() && s == p + bs(k) && tb(p) == 0 && esc(s) == esc(p) + bs(k) }),
    decreases s.len()
{
    lemma_tb_bound(s);
    if s.len() > 0 && s.last() == '\\' {
        let d = s.drop_last();
        lemma_esc_bs(d);
        let k = tb(s);
        assert(d.take(d.len() - tb(d)) =~= s.take(s.len() - k));
        assert(bs(tb(d)).push('\\') =~= bs(k));
        assert(s =~= d.push('\\'));
        assert(s =~= s.take(s.len() - k) + bs(k));
        assert(esc(s) =~= esc(s.take(s.len() - k)) + bs(k));
    } else {
        assert(s.take(s.len() as int) =~= s);
        assert(s + bs(0) =~= s);
        assert(esc(s) + bs(0) =~= esc(s));
    }
}
proof fn lemma_esc_last(s: Seq<char>)
    requires s.len() > 0,
    ensures esc(s).len() > 0, esc(s).last() == s.last(),
{ }
proof fn lemma_tb_app(p: Seq<char>, n: nat)
    requires tb(p) == 0,
    ensures tb(p + bs(n)) == n, (p + bs(n)).take((p + bs(n)).len() - n) == p,
    decreases n
{
    assert((p + bs(n)).take((p + bs(n)).len() - n) =~= p);
    if n == 0 { assert(p + bs(0) =~= p); }
    else {
        assert((p + bs(n)).drop_last() =~= p + bs((n - 1) as nat));
        lemma_tb_app(p, (n - 1) as nat);
    }
}
proof fn lemma_bs_cat(a: nat, b: nat) ensures bs(a) + bs(b) == bs(a + b) { assert(bs(a) + bs(b) =~= bs(a + b)); }
/// every path is read back
pub proof fn lemma_read_back(s: Seq<char>)
    ensures read_word(esc(s)) == Some(s),
    decreases s.len()
{
    if s.len() > 0 {
        let c = s.last();
        let d = s.drop_last();
        assert(s =~= d.push(c));
        let t = esc(s);
        if blank(c) {
            lemma_esc_bs(d);
            let k = tb(d);
            let p = d.take(d.len() - k);
            lemma_read_back(p);
            assert(tb(esc(p)) == 0) by { if p.len() > 0 { lemma_esc_last(p); } }
            lemma_bs_cat(k, k + 1);
            assert(t.drop_last() =~= esc(p) + bs(2 * k + 1)) by {
                assert(esc(d) + bs(k + 1) =~= esc(p) + (bs(k) + bs(k + 1)));
                assert(k + (k + 1) == 2 * k + 1);
            }
            lemma_tb_app(esc(p), 2 * k + 1);
            assert(((2 * k + 1) / 2) as nat == k);
            assert((p + bs(k)).push(c) =~= s);
        } else {
            lemma_read_back(d);
            if c == '#' { assert(t.drop_last().drop_last() =~= esc(d)); }
            else if c == '$' { assert(t.drop_last().drop_last() =~= esc(d)); }
            else { assert(t.drop_last() =~= esc(d)); }
        }
    }
}
pub trait VxChars { fn vx_chars(&self) -> (r: Vec<char>); }
impl VxChars for str {
    #[verifier::external_body] fn vx_chars(&self) -> (r: Vec<char>) ensures r@ == self@ { self.chars().collect() }
}
//@fn src/bindgen/bindings.rs escape_depfile_path r loops=2
    ensures r@ == esc(path@), read_word(r@) == Some(path@),
//@subst let mut backslashes = 0 => let mut backslashes: usize = 0
//@subst escaped.push(c) => escaped.vx_push_char(c)
//@pre
    let ghost s = path@;
    proof { assert(s.take(0) =~= Seq::<char>::empty()); }
//@loop 0
    __s0@ == s, __i0 == 0 ==> escaped@ == Seq::<char>::empty() && backslashes == 0,
    escaped@ == esc(s.take(__i0 as int)), backslashes == tb(s.take(__i0 as int)), backslashes <= __i0,
//@loop 0 pre
    let ghost e0 = escaped@;
    proof { assert(s.take(__k0 + 1).drop_last() =~= s.take(__k0 as int)); assert(s.take(__k0 + 1).last() == c); assert(e0 + bs(0) =~= e0); }
//@loop 1
    escaped@ == e0 + bs(__i1 as nat), __h1 == backslashes + 1,
//@loop 1 post
    proof { assert(bs((__i1 - 1) as nat).push('\\') =~= bs(__i1 as nat)); assert((e0 + bs((__i1 - 1) as nat)).push('\\') =~= e0 + bs(__i1 as nat)); }
//@post
    proof { assert(s.take(s.len() as int) =~= s); lemma_read_back(s); }
//@end

// ---------------- the file system, as far as this code can see it ----------------
#[verifier::external_body] pub struct FsPath { _p: () }
/// the absolute path without links that a path stands for, and its text
pub uninterp spec fn canon(p: FsPath) -> FsPath;
pub uninterp spec fn lossy(p: FsPath) -> Seq<char>;
pub trait VxPath: Sized { spec fn pv(&self) -> FsPath; }
impl VxPath for FsPath { open spec fn pv(&self) -> FsPath { *self } }
impl<'a, T: VxPath> VxPath for &'a T { open spec fn pv(&self) -> FsPath { (**self).pv() } }
impl FsPath {
    pub fn as_ref(&self) -> (r: &FsPath) ensures *r == *self { self }
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<&FsPath>) { unimplemented!() }
    #[verifier::external_body] pub fn canonicalize(&self) -> (r: IoRes<FsPath>) ensures r.v == canon(*self) { unimplemented!() }
    #[verifier::external_body] pub fn to_string_lossy(&self) -> (r: String) ensures r@ == lossy(*self) { unimplemented!() }
}
/// contents of the regular files, and which were opened for writing (in order)
pub struct Fs { pub files: Ghost<Map<FsPath, Seq<u8>>>, pub opened: Ghost<Seq<FsPath>> }
pub struct FileH { pub p: Ghost<FsPath> }
/// io::Result whose unwrap panics on an error: the code after it runs only on success
pub struct IoRes<T> { pub v: T }
impl<T> IoRes<T> {
    pub fn unwrap(self) -> (r: T) ensures r == self.v { self.v }
    pub fn expect(self, m: &str) -> (r: T) ensures r == self.v { self.v }
}
impl Fs {
    #[verifier::external_body]
    pub fn exists<P: VxPath>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn create_dir_all<P: VxPath>(&mut self, p: P) -> (r: IoRes<()>) ensures final(self).files@ == old(self).files@, final(self).opened@ == old(self).opened@ { unimplemented!() }
    #[verifier::external_body]
    pub fn create<P: VxPath>(&mut self, p: P) -> (r: IoRes<FileH>)
        ensures r.v.p@ == p.pv(), final(self).files@ == old(self).files@.insert(p.pv(), Seq::empty()), final(self).opened@ == old(self).opened@.push(p.pv()),
    { unimplemented!() }
    /// the file system with text added to a file
    pub open spec fn plus(&self, p: FsPath, t: Seq<u8>) -> Map<FsPath, Seq<u8>> { self.files@.insert(p, self.files@[p] + t) }
}
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub axiom fn axiom_utf8_cat(a: Seq<char>, b: Seq<char>) ensures utf8(a + b) == utf8(a) + utf8(b);
pub axiom fn axiom_utf8_empty() ensures utf8(Seq::empty()) == Seq::<u8>::empty();
#[verifier::external_body] pub fn vx_bstr(t: &str) -> (r: &[u8]) ensures r@ == utf8(t@) { t.as_bytes() }
pub trait VxBytes { spec fn bchars(&self) -> Seq<char>; fn vx_bytes(&self) -> (r: &[u8]) ensures r@ == utf8(self.bchars()); }
impl VxBytes for String { open spec fn bchars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_bytes(&self) -> (r: &[u8]) { self.as_bytes() } }
impl VxBytes for str { open spec fn bchars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_bytes(&self) -> (r: &[u8]) { self.as_bytes() } }
impl FileH {
    #[verifier::external_body]
    pub fn write_all(&mut self, v: &[u8], fs: &mut Fs) -> (r: IoRes<()>)
        ensures final(fs).files@ == old(fs).plus(old(self).p@, v@), final(fs).opened@ == old(fs).opened@, final(self).p@ == old(self).p@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn w_str(&mut self, text: &str, fs: &mut Fs)
        ensures final(fs).files@ == old(fs).plus(old(self).p@, utf8(text@)), final(fs).opened@ == old(fs).opened@, final(self).p@ == old(self).p@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn w_disp<T: VxDisp + ?Sized>(&mut self, x: &T, fs: &mut Fs)
        ensures final(fs).files@ == old(fs).plus(old(self).p@, utf8(x.disp())), final(fs).opened@ == old(fs).opened@, final(self).p@ == old(self).p@
    { unimplemented!() }
    #[verifier::external_body] pub fn flush(&mut self) -> (r: IoRes<()>) ensures final(self).p@ == old(self).p@ { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_refs<T>(s: &[T]) -> (r: Vec<&T>) ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> *(#[trigger] r@[i]) == s@[i] { unimplemented!() }
pub trait VxIntoVec: Sized { type T; spec fn vecv(&self) -> Seq<Self::T>; fn vx_into_vec(self) -> (r: Vec<Self::T>) ensures r@ == self.vecv(); }
impl<T> VxIntoVec for Option<T> {
    type T = T;
    open spec fn vecv(&self) -> Seq<T> { match self { Some(x) => seq![*x], None => Seq::empty() } }
    #[verifier::external_body] fn vx_into_vec(self) -> (r: Vec<T>) { unimplemented!() }
}
/// sorting permutes
pub trait VxSort { fn sort_unstable(&mut self); fn sort(&mut self); }
impl VxSort for Vec<FsPath> {
    #[verifier::external_body] fn sort_unstable(&mut self) ensures final(self)@.to_multiset() == old(self)@.to_multiset() { unimplemented!() }
    #[verifier::external_body] fn sort(&mut self) ensures final(self)@.to_multiset() == old(self)@.to_multiset() { unimplemented!() }
}
pub type StdPathBuf = FsPath;
broadcast proof fn lemma_utf8_join(a: Seq<char>, b: Seq<char>) ensures #[trigger] (utf8(a) + utf8(b)) == utf8(a + b) { axiom_utf8_cat(a, b); }
broadcast proof fn lemma_utf8_start(b: Seq<char>) ensures #[trigger] (Seq::<u8>::empty() + utf8(b)) == utf8(b) { assert(Seq::<u8>::empty() + utf8(b) =~= utf8(b)); }
broadcast proof fn lemma_ins2(m: Map<FsPath, Seq<u8>>, p: FsPath, a: Seq<u8>, b: Seq<u8>)
    ensures #[trigger] m.insert(p, a).insert(p, b) == m.insert(p, b),
{ assert(m.insert(p, a).insert(p, b) =~= m.insert(p, b)); }

//@type src/bindgen/config.rs Config keep=config_path
/// The parts of the bindings that the depfile depends on.
pub struct Bindings { pub noop: bool, pub config: Config, pub source_files: Vec<FsPath> }

// ---------------- specification ----------------
/// what has to be listed
pub open spec fn inputs(b: Bindings) -> Seq<FsPath> {
    (b.source_files@ + (match b.config.config_path { Some(p) => seq![p], None => Seq::empty() })).map_values(|p: FsPath| canon(p))
}
pub open spec fn prereqs(fs: Seq<FsPath>) -> Seq<char>
    decreases fs.len()
{ if fs.len() == 0 { Seq::empty() } else { prereqs(fs.drop_last()) + " \\\n    "@ + esc(lossy(fs.last())) } }
/// one rule: the header, a colon, and the prerequisites on continued lines
pub open spec fn rule(header: FsPath, fs: Seq<FsPath>) -> Seq<char> { esc(lossy(canon(header))) + ":"@ + prereqs(fs) + "\n"@ }

impl Bindings {
//@fn src/bindgen/bindings.rs Bindings::generate_depfile r fs loops=2
    ensures
        self.noop ==> *final(__fs) == *old(__fs),
        !self.noop ==> exists|l: Seq<FsPath>| l.to_multiset() == inputs(*self).to_multiset() && final(__fs).files@ == old(__fs).files@.insert(depfile_path, #[trigger] utf8(rule(header_path, l))),
        !self.noop ==> final(__fs).opened@ == old(__fs).opened@.push(depfile_path),
//@sig fn generate_depfile(&self, header_path: FsPath, depfile_path: FsPath, __fs: &mut Fs)
//@pre
    broadcast use {lemma_utf8_join, lemma_utf8_start, lemma_ins2};
    let ghost mut l: Seq<FsPath> = Seq::empty();
    let ghost hd = esc(lossy(canon(header_path))) + ":"@;
    let ghost f0 = __fs.files@; let ghost o0 = __fs.opened@;
//@loop 0
    __r0@ == inputs(*self).take(__i0 as int), __s0@.len() == inputs(*self).len(), forall|j: int| 0 <= j < __s0@.len() ==> canon(*__s0@[j]) == inputs(*self)[j],
//@loop 0 before
    proof { assert(inputs(*self).take(0) =~= Seq::<FsPath>::empty()); }
//@loop 0 post
    proof { assert(inputs(*self).take(__i0 as int) =~= inputs(*self).take(__i0 - 1).push(inputs(*self)[__i0 - 1])); }
//@loop 0 after
    proof { assert(inputs(*self).take(inputs(*self).len() as int) =~= inputs(*self)); }
//@loop 1 before
    proof { l = __s1@; assert(l.take(0) =~= Seq::<FsPath>::empty()); assert(hd + prereqs(l.take(0)) =~= hd); }
//@loop 1 post
    proof {
        let i = __i1 - 1;
        assert(l.take(i + 1).drop_last() =~= l.take(i));
        let a = hd + prereqs(l.take(i));
        assert(a + " \\\n    "@ + esc(lossy(l[i])) =~= hd + prereqs(l.take(i + 1)));
    }
//@loop 1 after
    proof { assert(l.take(l.len() as int) =~= l); }
//@loop 1
    __s1@ == l, depfile.p@ == depfile_path, __fs.opened@ == o0.push(depfile_path),
    __fs.files@ == f0.insert(depfile_path, utf8(hd + prereqs(l.take(__i1 as int)))),
//@post
    proof { assert(hd + prereqs(l) + "\n"@ =~= rule(header_path, l)); }
//@end
}
} // verus!
fn main() {}
