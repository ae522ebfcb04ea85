//@include prelude.inc
//@include ty_types.inc
verus! {
//@include ty_basic.inc
//@type src/bindgen/mangle.rs Separator disc
#[verifier::external_body] pub struct RenameRule { _p: () }
//@type src/bindgen/config.rs MangleConfig
//@type src/bindgen/rename.rs IdentifierType
/// What the configured rename rule makes of a type name (its own contract is property C11).
pub uninterp spec fn ren(rule: RenameRule, s: Seq<char>) -> Seq<char>;
impl RenameRule {
    #[verifier::external_body]
    pub fn apply(&self, text: &str, context: IdentifierType) -> (r: String)
        requires context is Type,
        ensures r@ == ren(*self, text@),
    { unimplemented!() }
}
/// Rust name of a primitive (its own contract is property C02).
pub uninterp spec fn prim_name(p: PrimitiveType) -> Seq<char>;
impl PrimitiveType {
    #[verifier::external_body]
    pub fn to_repr_rust(&self) -> (r: &'static str)
        ensures r@ == prim_name(*self),
    { unimplemented!() }
}
pub trait VxExtendRepeat { fn vx_extend_repeat(&mut self, x: &str, n: usize); }
impl VxExtendRepeat for String {
    #[verifier::external_body]
    fn vx_extend_repeat(&mut self, x: &str, n: usize)
        ensures final(self)@ == old(self)@ + times(x@, n as nat),
    { unimplemented!() }
}
pub open spec fn times(s: Seq<char>, n: nat) -> Seq<char>
    decreases n
{ if n == 0 { Seq::empty() } else { times(s, (n - 1) as nat) + s } }

// ---------------- specification: the documented separator scheme ----------------
// Written in accumulator form: what a name becomes after appending each part in order.
pub open spec fn sep(n: nat, cfg: MangleConfig) -> Seq<char> {
    times(if cfg.remove_underscores { ""@ } else { "_"@ }, n)
}
/// name<args>: 1 underscore for `<`, 2 for `,`, 3 for a `>` that is not at the very end
pub open spec fn m_name(name: Seq<char>, args: Seq<GenericArgument>, last: bool, cfg: MangleConfig) -> Seq<char>
    decreases args, 1nat
{
    if args.len() == 0 { name }
    else if last { m_args(name + sep(1, cfg), args, args.len() as int, last, cfg) }
    else { m_args(name + sep(1, cfg), args, args.len() as int, last, cfg) + sep(3, cfg) }
}
pub open spec fn m_args(out: Seq<char>, args: Seq<GenericArgument>, n: int, last: bool, cfg: MangleConfig) -> Seq<char>
    decreases args, 0nat, n
{
    if n <= 0 || n > args.len() { out }
    else if n == 1 { m_arg(out, args[0], last && n == args.len(), cfg) }
    else { m_arg(m_args(out, args, n - 1, last, cfg) + sep(2, cfg), args[n - 1], last && n == args.len(), cfg) }
}
pub open spec fn m_arg(out: Seq<char>, a: GenericArgument, last: bool, cfg: MangleConfig) -> Seq<char>
    decreases a
{
    match a {
        GenericArgument::Type(t) => m_ty(out, t, last, cfg),
        GenericArgument::Const(e) => m_const(out, e, last, cfg),
    }
}
pub open spec fn m_const(out: Seq<char>, e: ConstExpr, last: bool, cfg: MangleConfig) -> Seq<char>
    decreases e
{
    match e {
        ConstExpr::Path(p) => out + ren(cfg.rename_types, m_name(p.export_name@, p.generics@, last, cfg)),
        ConstExpr::Value(v) => out + v@,
    }
}
/// pointers: 4 (mut) or 5 (const); functions: 6 ret (7 arg)* and 8 unless at the very end; arrays: 9 elem 10 len
pub open spec fn m_ty(out: Seq<char>, t: Type, last: bool, cfg: MangleConfig) -> Seq<char>
    decreases t
{
    match t {
        Type::Path(g) => out + ren(cfg.rename_types, m_name(g.export_name@, g.generics@, last, cfg)),
        Type::Primitive(p) => out + ren(cfg.rename_types, prim_name(p)),
        Type::Ptr { ty, is_const, is_nullable, is_ref } =>
            if is_const { m_ty(out + sep(5, cfg), *ty, last, cfg) } else { m_ty(out + sep(4, cfg), *ty, last, cfg) },
        Type::FuncPtr { ret, args, is_nullable, never_return } => {
            let x = m_fnargs(m_ty(out + sep(6, cfg), *ret, last && args@.len() == 0, cfg), args@, args@.len() as int, last, cfg);
            if last { x } else { x + sep(8, cfg) }
        },
        Type::Array(ty, len) => m_const(m_ty(out + sep(9, cfg), *ty, false, cfg) + sep(10, cfg), len, last, cfg),
    }
}
pub open spec fn m_fnargs(out: Seq<char>, args: Seq<(Option<String>, Type)>, n: int, last: bool, cfg: MangleConfig) -> Seq<char>
    decreases args, 0nat, n
{
    if n <= 0 || n > args.len() { out }
    else { m_ty(m_fnargs(out, args, n - 1, last, cfg) + sep(7, cfg), args[n - 1].1, last && n == args.len(), cfg) }
}

// ---------------- code under contract ----------------
//@type src/bindgen/mangle.rs Mangler
impl Path {
//@fn src/bindgen/ir/path.rs Path::new r
//@sig pub fn new(name: String) -> (r: Path)
//@subst name.into() => name
    ensures r.name@ == name@,
//@end
}
//@fn src/bindgen/mangle.rs mangle_path r
    ensures r.name@ == m_name(path.name@, generic_values@, true, *config),
//@end
//@fn src/bindgen/mangle.rs mangle_name r
    ensures r@ == m_name(name@, generic_values@, true, *config),
//@end
impl<'a> Mangler<'a> {
//@fn src/bindgen/mangle.rs Mangler::new r
    ensures r.input == input, r.generic_values == generic_values, r.output@.len() == 0, r.last == last, r.config == config,
//@end
//@fn src/bindgen/mangle.rs Mangler::mangle r
    requires self.output@.len() == 0,
    ensures r@ == m_name(self.input@, self.generic_values@, self.last, *self.config),
//@end
//@fn src/bindgen/mangle.rs Mangler::push r
//@subst id as usize => id.vx_disc()
    ensures final(self).output@ == old(self).output@ + sep(id.disc() as nat, *old(self).config),
        final(self).input == old(self).input, final(self).generic_values == old(self).generic_values,
        final(self).last == old(self).last, final(self).config == old(self).config,
//@end
//@fn src/bindgen/mangle.rs Mangler::append_mangled_argument r
    ensures final(self).output@ == m_arg(old(self).output@, *arg, last, *old(self).config),
        final(self).input == old(self).input, final(self).generic_values == old(self).generic_values,
        final(self).last == old(self).last, final(self).config == old(self).config,
//@end
//@fn src/bindgen/mangle.rs Mangler::append_mangled_type r
    ensures final(self).output@ == m_ty(old(self).output@, *ty, last, *old(self).config),
        final(self).input == old(self).input, final(self).generic_values == old(self).generic_values,
        final(self).last == old(self).last, final(self).config == old(self).config,
//@loop 0
    __s0@ == args@, self.config == old(self).config, self.input == old(self).input, self.generic_values == old(self).generic_values, self.last == old(self).last,
    self.output@ == m_fnargs(m_ty(old(self).output@ + sep(6, *old(self).config), **ret, last && args@.len() == 0, *old(self).config), args@, __i0 as int, last, *old(self).config),
//@end
//@fn src/bindgen/mangle.rs Mangler::mangle_internal r debug_assert
    requires old(self).output@.len() == 0,
    ensures final(self).output@ == m_name(old(self).input@, old(self).generic_values@, old(self).last, *old(self).config),
//@loop 0
    __s0@ == self.generic_values@, self.config == old(self).config, self.input == old(self).input, self.generic_values == old(self).generic_values, self.last == old(self).last,
    self.output@ == m_args(old(self).input@ + sep(1, *old(self).config), old(self).generic_values@, __i0 as int, old(self).last, *old(self).config),
//@end
}
} // verus!
fn main() {}
