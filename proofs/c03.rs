//@include prelude.inc
//@include ty_types.inc
verus! {
//@include ty_basic.inc
//@type src/bindgen/config.rs Language derive=Clone,Copy
impl PartialEq for Language { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl PartialEqSpecImpl for Language {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
pub struct Config { pub language: Language }
// Stand-in for std's Cow: an owned or borrowed value that dereferences to its content.
pub enum Cow<'a, T> { Owned(T), Borrowed(&'a T) }
impl<'a, T: Clone> Cow<'a, T> {
    pub open spec fn val(&self) -> T { match *self { Cow::Owned(t) => t, Cow::Borrowed(t) => *t } }
    pub fn into_owned(self) -> (r: T) ensures r == self.val() { match self { Cow::Owned(t) => t, Cow::Borrowed(t) => t.vx_cl() } }
    pub fn vx_deref(&self) -> (r: &T) ensures *r == self.val() { match self { Cow::Owned(t) => t, Cow::Borrowed(t) => t } }
}
impl<'a> Cow<'a, Type> {
    pub fn make_nullable(&self) -> (r: Option<Type>) ensures r == nullable(self.val()) { self.vx_deref().make_nullable() }
    pub fn make_zeroable(&self, z: bool) -> (r: Option<Type>) ensures r == zeroable(self.val(), z) { self.vx_deref().make_zeroable(z) }
}

// ---------------- specification ----------------
/// The type with the same layout that also admits null: only for non-null pointers and functions.
pub open spec fn nullable(t: Type) -> Option<Type> {
    match t {
        Type::Ptr { ty, is_const, is_nullable, is_ref } =>
            if is_nullable { None } else { Some(Type::Ptr { ty, is_const, is_nullable: true, is_ref }) },
        Type::FuncPtr { ret, args, is_nullable, never_return } =>
            if is_nullable { None } else { Some(Type::FuncPtr { ret, args, is_nullable: true, never_return }) },
        _ => None,
    }
}
/// The integer of the same width with the zero niche opened (z) or closed (!z).
pub open spec fn zeroable(t: Type, z: bool) -> Option<Type> {
    match t {
        Type::Primitive(PrimitiveType::Integer { zeroable, signed, kind }) =>
            if zeroable == z { None } else { Some(Type::Primitive(PrimitiveType::Integer { zeroable: z, signed, kind })) },
        _ => None,
    }
}
pub open spec fn nonnull_ptr_to(t: Type) -> Type {
    Type::Ptr { ty: Box::new(t), is_const: false, is_nullable: false, is_ref: false }
}
/// One wrapper around an already lowered type u.
pub open spec fn wrap(name: Seq<char>, u: Type, cxx: bool) -> Option<Type> {
    if name == "Option"@ { if nullable(u) is Some { nullable(u) } else { zeroable(u, true) } }
    else if name == "NonNull"@ { Some(nonnull_ptr_to(u)) }
    else if name == "NonZero"@ { zeroable(u, false) }
    else if name == "Box"@ && !cxx { Some(nonnull_ptr_to(u)) }
    else if name == "SyncUnsafeCell"@ || name == "UnsafeCell"@ || name == "Cell"@ { Some(u) }
    else if (name == "ManuallyDrop"@ || name == "MaybeUninit"@ || name == "Pin"@) && !cxx { Some(u) }
    else { None }
}
/// Lowering of the outermost chain of single-argument wrappers.
pub open spec fn lower_chain(t: Type, cxx: bool) -> Option<Type>
    decreases t
{
    match t {
        Type::Path(g) =>
            if g.generics@.len() == 1 {
                match g.generics@[0] {
                    GenericArgument::Type(a) => wrap(g.path.name@, match lower_chain(a, cxx) { Some(x) => x, None => a }, cxx),
                    GenericArgument::Const(_) => None,
                }
            } else { None },
        _ => None,
    }
}
/// r is t with every component lowered (innermost first) and nothing else changed.
pub open spec fn parts_lowered(t: Type, cxx: bool, r: Type) -> bool
    decreases t, 0nat
{
    match t {
        Type::Ptr { ty, is_const, is_nullable, is_ref } =>
            r matches Type::Ptr { ty: t2, is_const: c2, is_nullable: n2, is_ref: r2 }
            && lowered(*ty, cxx, *t2) && c2 == is_const && n2 == is_nullable && r2 == is_ref,
        Type::Path(g) =>
            r matches Type::Path(g2) && g2.path == g.path && g2.export_name == g.export_name && g2.ctype == g.ctype
            && g2.generics@.len() == g.generics@.len()
            && forall|i: int| 0 <= i < g.generics@.len() ==> arg_lowered(#[trigger] g.generics@[i], cxx, g2.generics@[i]),
        Type::Primitive(_) => r == t,
        Type::Array(ty, len) => r matches Type::Array(t2, l2) && lowered(*ty, cxx, *t2) && l2 == len,
        Type::FuncPtr { ret, args, is_nullable, never_return } =>
            r matches Type::FuncPtr { ret: ret2, args: args2, is_nullable: n2, never_return: v2 }
            && lowered(*ret, cxx, *ret2) && n2 == is_nullable && v2 == never_return
            && args2@.len() == args@.len()
            && forall|i: int| 0 <= i < args@.len() ==> (#[trigger] args2@[i]).0 == args@[i].0 && lowered(args@[i].1, cxx, args2@[i].1),
    }
}
pub open spec fn arg_lowered(a: GenericArgument, cxx: bool, r: GenericArgument) -> bool
    decreases a, 0nat
{
    match a {
        GenericArgument::Const(_) => r == a,
        GenericArgument::Type(t) => r is Type && lowered(t, cxx, r->Type_0),
    }
}
pub open spec fn lowered(t: Type, cxx: bool, r: Type) -> bool
    decreases t, 1nat
{
    exists|m: Type| parts_lowered(t, cxx, m) && r == (match #[trigger] lower_chain(m, cxx) { Some(x) => x, None => m })
}

// ---------------- code under contract ----------------
impl Type {
//@fn src/bindgen/ir/ty.rs Type::make_zeroable r
    ensures r == zeroable(*self, new_zeroable),
//@end
//@fn src/bindgen/ir/ty.rs Type::make_nullable r
    ensures r == nullable(*self),
//@end
//@fn src/bindgen/ir/ty.rs Type::simplified_type r strlits
    ensures r == lower_chain(*self, config.language == Language::Cxx),
//@end
//@fn src/bindgen/ir/ty.rs Type::simplify_standard_types r
    ensures lowered(*old(self), config.language == Language::Cxx, *final(self)),
//@loop 0 mode=mut
    forall|i: int| 0 <= i < __i0 ==> arg_lowered(#[trigger] __g0[i], config.language == Language::Cxx, __s0@[i]),
//@loop 1 mode=mut
    forall|i: int| 0 <= i < __i1 ==> (#[trigger] __s1@[i]).0 == __g1[i].0 && lowered(__g1[i].1, config.language == Language::Cxx, __s1@[i].1),
//@end
}
} // verus!
fn main() {}
