//@include prelude.inc
verus! {
/// The parts of the bindings that writing to a file reads: everything else only determines the
/// generated bytes.
pub struct Bindings { pub noop: bool, pub rest: BindingsRest }
#[verifier::external_body] pub struct BindingsRest { _p: () }

// ---------------- the file system, as far as this code can see it ----------------
#[derive(Clone, Copy)]
pub struct FsPath { pub id: u64 }
pub trait VxPath: Sized { spec fn pv(&self) -> FsPath; }
impl VxPath for FsPath { open spec fn pv(&self) -> FsPath { *self } }
impl<'a, T: VxPath> VxPath for &'a T { open spec fn pv(&self) -> FsPath { (**self).pv() } }
impl FsPath {
    pub fn as_ref(&self) -> (r: &FsPath) ensures *r == *self { self }
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<FsPath>) { unimplemented!() }
}
pub mod path {
use super::*;
pub struct Path;
impl Path { pub fn new(p: &FsPath) -> (r: &FsPath) ensures *r == *p { p } }
}
/// contents of the regular files, and which were opened for writing (in order)
pub struct Fs { pub files: Ghost<Map<FsPath, Seq<u8>>>, pub opened: Ghost<Seq<FsPath>>, pub dirs: Ghost<Seq<FsPath>> }
pub struct FileH { pub p: Ghost<FsPath> }
/// io::Result whose unwrap panics on an error: the code after it runs only on success
pub struct IoRes<T> { pub v: T }
impl<T> IoRes<T> { pub fn unwrap(self) -> (r: T) ensures r == self.v { self.v } }
impl Fs {
    #[verifier::external_body]
    pub fn is_file<P: VxPath>(&self, p: P) -> (r: bool) ensures r == self.files@.dom().contains(p.pv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn create_dir_all<P: VxPath>(&mut self, p: P) -> (r: IoRes<()>) ensures final(self).files@ == old(self).files@, final(self).opened@ == old(self).opened@, final(self).dirs@ == old(self).dirs@.push(p.pv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn create<P: VxPath>(&mut self, p: P) -> (r: IoRes<FileH>)
        ensures r.v.p@ == p.pv(), final(self).files@ == old(self).files@.insert(p.pv(), Seq::empty()), final(self).opened@ == old(self).opened@.push(p.pv()), final(self).dirs@ == old(self).dirs@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn open<P: VxPath>(&self, p: P) -> (r: IoRes<FileH>)
        ensures r.v.p@ == p.pv(), self.files@.dom().contains(p.pv()),
    { unimplemented!() }
}
impl FileH {
    #[verifier::external_body]
    pub fn read_to_end(&mut self, v: &mut Vec<u8>, fs: &Fs) -> (r: IoRes<usize>)
        ensures final(v)@ == old(v)@ + fs.files@[old(self).p@],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, v: &Vec<u8>, fs: &mut Fs) -> (r: IoRes<()>)
        ensures final(fs).files@ == old(fs).files@.insert(old(self).p@, old(fs).files@[old(self).p@] + v@), final(fs).opened@ == old(fs).opened@, final(fs).dirs@ == old(fs).dirs@, final(self).p@ == old(self).p@
    { unimplemented!() }
}
broadcast proof fn lemma_ins2(m: Map<FsPath, Seq<u8>>, p: FsPath, a: Seq<u8>, b: Seq<u8>)
    ensures #[trigger] m.insert(p, a).insert(p, b) == m.insert(p, b),
{ assert(m.insert(p, a).insert(p, b) =~= m.insert(p, b)); }
broadcast proof fn lemma_ins_same(m: Map<FsPath, Seq<u8>>, p: FsPath, b: Seq<u8>)
    ensures m.dom().contains(p) && m[p] == b ==> #[trigger] m.insert(p, b) == m,
{ if m.dom().contains(p) && m[p] == b { assert(m.insert(p, b) =~= m); } }
broadcast proof fn lemma_empty_left(b: Seq<u8>)
    ensures #[trigger] (Seq::<u8>::empty() + b) == b,
{ assert(Seq::<u8>::empty() + b =~= b); }
pub open spec fn only_changed(p: FsPath, a: Fs, b: Fs) -> bool {
    forall|q: FsPath| #![trigger a.files@.dom().contains(q)] #![trigger b.files@.dom().contains(q)] q != p ==> (a.files@.dom().contains(q) <==> b.files@.dom().contains(q)) && (a.files@.dom().contains(q) ==> a.files@[q] == b.files@[q])
}
impl Bindings {
    /// the generated header (what it contains is the subject of the other properties)
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    /// Bindings::write into a buffer / an open file
    #[verifier::external_body]
    pub fn vx_write_buf(&self, v: &mut Vec<u8>) ensures final(v)@ == old(v)@ + (if self.noop { Seq::empty() } else { self.bytes() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_write_file(&self, f: FileH, fs: &mut Fs)
        ensures final(fs).files@ == old(fs).files@.insert(f.p@, old(fs).files@[f.p@] + (if self.noop { Seq::empty() } else { self.bytes() })), final(fs).opened@ == old(fs).opened@, final(fs).dirs@ == old(fs).dirs@
    { unimplemented!() }
//@fn src/bindgen/bindings.rs Bindings::write_to_file r fs
    ensures
        // a recursive invocation touches nothing
        self.noop ==> !r && *final(__fs) == *old(__fs),
        // the file holds exactly the generated bytes, and no other file changed
        !self.noop ==> final(__fs).files@ == old(__fs).files@.insert(path, self.bytes()),
        // true if and only if the file was missing or differed
        !self.noop ==> r == !(old(__fs).files@.dom().contains(path) && old(__fs).files@[path] == self.bytes()),
        // nothing is opened for writing when the contents were already equal
        !r ==> final(__fs).opened@ == old(__fs).opened@ && final(__fs).dirs@ == old(__fs).dirs@,
//@sig fn write_to_file(&self, path: FsPath, __fs: &mut Fs) -> (r: bool)
//@subst let mut new_file_contents = Vec::new() => let mut new_file_contents: Vec<u8> = Vec::new()
//@subst let mut old_file_contents = Vec::new() => let mut old_file_contents: Vec<u8> = Vec::new()
//@subst old_file_contents != new_file_contents => !vx_bytes_eq(&old_file_contents, &new_file_contents)
//@pre
    broadcast use {lemma_ins2, lemma_ins_same, lemma_empty_left};
//@end
    #[verifier::external_body] pub fn dynamic_symbols_names(&self) -> (r: Vec<&str>) { unimplemented!() }
//@fn src/bindgen/bindings.rs Bindings::generate_symfile r fs
    ensures self.noop ==> *final(__fs) == *old(__fs),
        // no file but the symbol file is written
        only_changed(symfile_path, *old(__fs), *final(__fs)),
//@sig fn generate_symfile(&self, symfile_path: FsPath, __fs: &mut Fs)
//@pre
    let ghost f0 = *__fs;
//@loop 0 mode=own
//@loop 0
    only_changed(symfile_path, f0, *__fs), writer.h.p@ == symfile_path,
//@end
}
/// buffered writer over an open file (what it writes is C18)
pub struct BufWriter { pub h: FileH }
impl BufWriter {
    pub fn new(h: FileH) -> (r: BufWriter) ensures r.h == h { BufWriter { h } }
    #[verifier::external_body] pub fn w_str(&mut self, text: &str, fs: &mut Fs) ensures final(self).h == old(self).h, only_changed(old(self).h.p@, *old(fs), *final(fs)) { unimplemented!() }
    #[verifier::external_body] pub fn w_disp<T: VxDisp + ?Sized>(&mut self, x: &T, fs: &mut Fs) ensures final(self).h == old(self).h, only_changed(old(self).h.p@, *old(fs), *final(fs)) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_bytes_eq(a: &Vec<u8>, b: &Vec<u8>) -> (r: bool) ensures r == (a@ == b@) { a == b }
} // verus!
fn main() {}
