//@include prelude.inc
//@include ty_types.inc
verus! {
//@include ty_basic.inc
//@include ann.inc
//@type src/bindgen/ir/function.rs FunctionArgument
//@type src/bindgen/ir/function.rs Function
//@type src/bindgen/ir/global.rs Static
/// The parts of the bindings that symbol listing reads.
pub struct Bindings { pub noop: bool, pub functions: Vec<Function>, pub globals: Vec<Static> }

// ---------------- specification ----------------
pub open spec fn exported(a: AnnotationSet) -> bool { ann_bool(a, "no-export"@) != Some(true) }
/// symbol names of the functions, in order, leaving out those marked no-export
pub open spec fn fn_syms(fs: Seq<Function>) -> Seq<Seq<char>>
    decreases fs.len()
{
    if fs.len() == 0 { Seq::empty() }
    else if exported(fs.last().annotations) { fn_syms(fs.drop_last()).push(fs.last().path.name@) }
    else { fn_syms(fs.drop_last()) }
}
pub open spec fn global_syms(gs: Seq<Static>) -> Seq<Seq<char>>
    decreases gs.len()
{
    if gs.len() == 0 { Seq::empty() }
    else if exported(gs.last().annotations) { global_syms(gs.drop_last()).push(gs.last().export_name@) }
    else { global_syms(gs.drop_last()) }
}
pub open spec fn views(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|x: &str| x@) }
pub open spec fn symbols(b: Bindings) -> Seq<Seq<char>> { fn_syms(b.functions@) + global_syms(b.globals@) }
/// text of a symbol file (a dynamic linker list)
pub open spec fn sym_lines(s: Seq<Seq<char>>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { sym_lines(s.drop_last()) + s.last() + ";"@ + "\n"@ } }
pub open spec fn symfile(s: Seq<Seq<char>>) -> Seq<char> { "{"@ + "\n"@ + sym_lines(s) + "};"@ }

broadcast proof fn lemma_views_push(v: Seq<&str>, x: &str)
    ensures #[trigger] views(v.push(x)) == views(v).push(x@),
{ assert(views(v.push(x)) =~= views(v).push(x@)); }
proof fn lemma_take_f(fs: Seq<Function>, i: int)
    requires 0 <= i < fs.len(),
    ensures fs.take(i + 1).drop_last() == fs.take(i), fs.take(i + 1).last() == fs[i],
{ assert(fs.take(i + 1).drop_last() =~= fs.take(i)); }
proof fn lemma_take_g(fs: Seq<Static>, i: int)
    requires 0 <= i < fs.len(),
    ensures fs.take(i + 1).drop_last() == fs.take(i), fs.take(i + 1).last() == fs[i],
{ assert(fs.take(i + 1).drop_last() =~= fs.take(i)); }
proof fn lemma_take_s(fs: Seq<Seq<char>>, i: int)
    requires 0 <= i < fs.len(),
    ensures fs.take(i + 1).drop_last() == fs.take(i), fs.take(i + 1).last() == fs[i],
{ assert(fs.take(i + 1).drop_last() =~= fs.take(i)); }
proof fn lemma_all<T>(s: Seq<T>) ensures s.take(s.len() as int) == s { assert(s.take(s.len() as int) =~= s); }

// ---------------- code under contract ----------------
impl Function {
//@fn src/bindgen/ir/function.rs Function::path r
    ensures *r == self.path,
//@end
}
impl Static {
//@fn src/bindgen/ir/global.rs Item@Static::export_name r
    ensures r@ == self.export_name@,
//@end
}
/// Buffered file writer: the text written so far (flushed when dropped).
pub struct FileWriter { pub t: Ghost<Seq<char>> }
impl FileWriter {
    pub open spec fn txt(&self) -> Seq<char> { self.t@ }
    #[verifier::external_body]
    pub fn vx_create() -> (r: FileWriter) ensures r.txt() == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn w_str(&mut self, text: &str) ensures final(self).txt() == old(self).txt() + text@ { unimplemented!() }
    #[verifier::external_body]
    pub fn w_disp<T: VxDisp + ?Sized>(&mut self, x: &T) ensures final(self).txt() == old(self).txt() + x.disp() { unimplemented!() }
}
impl Bindings {
//@fn src/bindgen/bindings.rs Bindings::dynamic_symbols_names r lazy
    ensures views(r@) == symbols(*self),
//@sig fn dynamic_symbols_names(&self) -> (r: Vec<&str>)
//@subst use crate::bindgen::ir::Item; =>
//@pre
    broadcast use lemma_views_push;
//@loop 0 rty=Vec<&str>
    views(__r0@) == fn_syms(__s0@.take(__i0 as int)),
//@loop 0 pre
    proof { lemma_take_f(__s0@, __i0 as int); }
//@loop 0 after
    proof { lemma_all(__s0@); }
//@loop 1 rty=Vec<&str>
    views(__r1@) == global_syms(__s1@.take(__i1 as int)),
//@loop 1 pre
    proof { lemma_take_g(__s1@, __i1 as int); }
//@loop 1 after
    proof { lemma_all(__s1@); }
//@post
    proof { assert(views(__ret@) =~= symbols(*self)); }
//@end
//@fn src/bindgen/bindings.rs Bindings::generate_symfile r
    ensures true,
//@sig fn generate_symfile(&self)
//@opaque if let Some(dir) = symfile_path => ();
//@subst BufWriter::new(File::create(symfile_path).unwrap()) => FileWriter::vx_create()
//@subst (&mut writer). => writer.
//@subst &mut writer. => writer.
//@loop 0 mode=own
    writer.txt() == "{"@ + "\n"@ + sym_lines(views(__s0@).take(__i0 as int)),
//@loop 0 pre
    proof { lemma_take_s(views(__s0@), __k0 as int); assert("{"@ + "\n"@ + sym_lines(views(__s0@).take(__i0 as int)) =~= "{"@ + "\n"@ + sym_lines(views(__s0@).take(__k0 as int)) + symbol@ + ";"@ + "\n"@); }
//@loop 0 after
    proof { lemma_all(views(__s0@)); }
//@post
    proof { assert(writer.txt() =~= symfile(symbols(*self))); }
//@end
}
} // verus!
fn main() {}
