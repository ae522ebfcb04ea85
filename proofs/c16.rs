//@include prelude.inc
//@include ty_types.inc
verus! {
//@include ty_basic.inc
//@include ann.inc
//@type src/bindgen/ir/repr.rs ReprAlign derive=Clone,Copy
//@type src/bindgen/ir/repr.rs ReprStyle derive=Clone,Copy
//@type src/bindgen/ir/repr.rs ReprType derive=Clone,Copy
//@type src/bindgen/ir/repr.rs Repr derive=Clone,Copy
//@type src/bindgen/ir/field.rs Field
#[verifier::external_body] pub struct Constant { _p: () }
//@type src/bindgen/ir/structure.rs Struct
//@type src/bindgen/ir/enumeration.rs VariantBody
//@type src/bindgen/ir/enumeration.rs EnumVariant
//@type src/bindgen/ir/enumeration.rs Enum
//@type src/bindgen/config.rs StructConfig keep=derive_constructor,derive_eq,derive_neq,derive_lt,derive_lte,derive_gt,derive_gte,derive_ostream
//@type src/bindgen/config.rs EnumConfig keep=add_sentinel,derive_helper_methods,derive_const_casts,derive_mut_casts,derive_tagged_enum_destructor,derive_tagged_enum_copy_constructor,derive_tagged_enum_copy_assignment,derive_ostream,enum_class,private_default_tagged_enum_constructor
//@type src/bindgen/config.rs ConstantConfig keep=allow_constexpr
//@type src/bindgen/config.rs Config keep=structure,enumeration,constant
pub struct CLikeLanguageBackend<'a> { pub config: &'a Config }

// ---------------- specification ----------------
/// can be compared with == in C++ (names of other types are taken to be)
pub open spec fn cmp_eq(t: Type) -> bool
    decreases t
{
    match t {
        Type::Ptr { ty, is_ref, .. } => !is_ref || cmp_eq(*ty),
        Type::Path(_) => true,
        Type::Primitive(_) => true,
        Type::Array(..) => false,
        Type::FuncPtr { .. } => true,
    }
}
/// can be ordered with < in C++
pub open spec fn cmp_order(t: Type) -> bool {
    match t {
        Type::Ptr { is_ref, .. } => !is_ref,
        Type::Path(_) => true,
        Type::Primitive(p) => !(p is Bool),
        Type::Array(..) => false,
        Type::FuncPtr { .. } => false,
    }
}
/// the fields that take part in comparisons: all but the tag
pub open spec fn first_field(s: Struct) -> nat { if s.has_tag_field { 1 } else { 0 } }
pub open spec fn eq_derivable(s: Struct) -> bool {
    s.fields@.len() > first_field(s) && forall|i: int| first_field(s) <= i < s.fields@.len() ==> cmp_eq((#[trigger] s.fields@[i]).ty)
}
pub open spec fn order_derivable(s: Struct) -> bool {
    !s.has_tag_field && s.fields@.len() == 1 && cmp_order(s.fields@[0].ty)
}
/// an annotation on the item decides, else the configured default
pub open spec fn switch(a: AnnotationSet, name: Seq<char>, default: bool) -> bool {
    match ann_bool(a, name) { Some(b) => b, None => default }
}
/// what is emitted for a struct
pub enum Op { Constructor, Ostream, Cmp { sym: Seq<char>, conj: Seq<char>, terms: Seq<Seq<char>> } }
pub open spec fn term(f: Field, sym: Seq<char>, other: Seq<char>) -> Seq<char> { f.name@ + " "@ + sym + " "@ + other + "."@ + f.name@ }
pub open spec fn terms(s: Struct, sym: Seq<char>, other: Seq<char>) -> Seq<Seq<char>> {
    Seq::new((s.fields@.len() - first_field(s)) as nat, |i: int| term(s.fields@[i + first_field(s)], sym, other))
}
pub open spec fn cmp(s: Struct, sym: Seq<char>, conj: Seq<char>, other: Seq<char>) -> Op { Op::Cmp { sym, conj, terms: terms(s, sym, other) } }
pub open spec fn add(ops: Seq<Op>, on: bool, op: Op) -> Seq<Op> { if on { ops.push(op) } else { ops } }
pub uninterp spec fn arg_name(c: Config, n: Seq<char>) -> Seq<char>;
/// the members declared for a struct after those in `o`
pub open spec fn derived(o: Seq<Op>, s: Struct, c: Config) -> Seq<Op> {
    let a = s.annotations;
    let other = arg_name(c, "other"@);
    let d = c.structure;
    let o = add(o, switch(a, "derive-constructor"@, d.derive_constructor) && s.fields@.len() > 0, Op::Constructor);
    let o = add(o, switch(a, "derive-ostream"@, d.derive_ostream), Op::Ostream);
    let o = add(o, switch(a, "derive-eq"@, d.derive_eq) && eq_derivable(s), cmp(s, "=="@, "&&"@, other));
    let o = add(o, switch(a, "derive-neq"@, d.derive_neq) && eq_derivable(s), cmp(s, "!="@, "||"@, other));
    let o = add(o, switch(a, "derive-lt"@, d.derive_lt) && order_derivable(s), cmp(s, "<"@, "&&"@, other));
    let o = add(o, switch(a, "derive-lte"@, d.derive_lte) && order_derivable(s), cmp(s, "<="@, "&&"@, other));
    let o = add(o, switch(a, "derive-gt"@, d.derive_gt) && order_derivable(s), cmp(s, ">"@, "&&"@, other));
    add(o, switch(a, "derive-gte"@, d.derive_gte) && order_derivable(s), cmp(s, ">="@, "&&"@, other))
}
pub open spec fn views(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
// ---------------- the writer, by the members it has declared ----------------
/// (`cur`: the comparison operator whose body is still to be written)
pub struct SourceWriter { pub ops: Ghost<Seq<Op>>, pub cur: Ghost<Option<Seq<char>>> }
impl SourceWriter {
    #[verifier::external_body] pub fn write(&mut self, text: &'static str) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] pub fn w_str(&mut self, text: &str) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] pub fn w_disp<T: VxDisp + ?Sized>(&mut self, x: &T) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] pub fn new_line(&mut self) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] pub fn open_brace(&mut self) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] pub fn close_brace(&mut self, semicolon: bool) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] pub fn vx_text(&mut self) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] pub fn vx_constructor(&mut self) ensures final(self).ops@ == old(self).ops@.push(Op::Constructor), final(self).cur == old(self).cur { unimplemented!() }
    #[verifier::external_body] pub fn vx_ostream(&mut self) ensures final(self).ops@ == old(self).ops@.push(Op::Ostream), final(self).cur == old(self).cur { unimplemented!() }
    /// `bool operatorSYM(const T& other) const`
    #[verifier::external_body] pub fn vx_op(&mut self, sym: &str)
        requires old(self).cur@ is None,
        ensures final(self).ops == old(self).ops, final(self).cur@ == Some(sym@) { unimplemented!() }
    /// the list of comparisons it returns, joined by conj
    #[verifier::external_body] pub fn vx_terms(&mut self, conj: &str, v: &[String])
        requires old(self).cur@ is Some,
        ensures final(self).cur@ is None,
            final(self).ops@ == old(self).ops@.push(Op::Cmp { sym: old(self).cur@->0, conj: conj@, terms: views(v@) }) { unimplemented!() }
}
/// RenameRule::apply for an argument name (C11)
#[verifier::external_body]
pub fn vx_arg_name(c: &Config, n: &str) -> (r: String) ensures r@ == arg_name(*c, n@) { unimplemented!() }

// ---------------- the code ----------------
impl AnnotationSet {
    pub uninterp spec fn atom_of(&self, k: Seq<char>) -> Option<Option<String>>;
    #[verifier::external_body] pub fn atom(&self, k: &str) -> (r: Option<Option<String>>) ensures r == self.atom_of(k@) { unimplemented!() }
}
impl PrimitiveType {
//@fn src/bindgen/ir/ty.rs PrimitiveType::can_cmp_order r
    ensures r == !(self is Bool),
//@end
//@fn src/bindgen/ir/ty.rs PrimitiveType::can_cmp_eq r
    ensures r,
//@end
}
impl Type {
//@fn src/bindgen/ir/ty.rs Type::can_cmp_order r
    ensures r == cmp_order(*self),
//@end
//@fn src/bindgen/ir/ty.rs Type::can_cmp_eq r
    ensures r == cmp_eq(*self),
//@end
}
impl Struct {
//@fn src/bindgen/ir/structure.rs Item@Struct::export_name r
    ensures r@ == self.export_name@,
//@end
//@fn src/bindgen/ir/structure.rs Struct::can_derive_eq r
    ensures r == eq_derivable(*self),
//@loop 0
    __s0@ == self.fields@, !__r0 ==> !eq_derivable(*self), self.fields@.len() > first_field(*self), first_field(*self) <= __s0@.len() ==> __i0 >= first_field(*self), __r0 ==> forall|i: int| first_field(*self) <= i < __i0 ==> cmp_eq((#[trigger] self.fields@[i]).ty),
//@end
//@fn src/bindgen/ir/structure.rs Struct::can_derive_order r
    ensures r == order_derivable(*self),
//@end
}
impl StructConfig {
//@fn src/bindgen/config.rs StructConfig::derive_constructor r
    ensures r == switch(*annotations, "derive-constructor"@, self.derive_constructor),
//@end
//@fn src/bindgen/config.rs StructConfig::derive_eq r
    ensures r == switch(*annotations, "derive-eq"@, self.derive_eq),
//@end
//@fn src/bindgen/config.rs StructConfig::derive_neq r
    ensures r == switch(*annotations, "derive-neq"@, self.derive_neq),
//@end
//@fn src/bindgen/config.rs StructConfig::derive_lt r
    ensures r == switch(*annotations, "derive-lt"@, self.derive_lt),
//@end
//@fn src/bindgen/config.rs StructConfig::derive_lte r
    ensures r == switch(*annotations, "derive-lte"@, self.derive_lte),
//@end
//@fn src/bindgen/config.rs StructConfig::derive_gt r
    ensures r == switch(*annotations, "derive-gt"@, self.derive_gt),
//@end
//@fn src/bindgen/config.rs StructConfig::derive_gte r
    ensures r == switch(*annotations, "derive-gte"@, self.derive_gte),
//@end
//@fn src/bindgen/config.rs StructConfig::derive_ostream r
    ensures r == switch(*annotations, "derive-ostream"@, self.derive_ostream),
//@end
}
impl EnumConfig {
//@fn src/bindgen/config.rs EnumConfig::add_sentinel r
    ensures r == switch(*annotations, "add-sentinel"@, self.add_sentinel),
//@end
//@fn src/bindgen/config.rs EnumConfig::derive_helper_methods r
    ensures r == switch(*annotations, "derive-helper-methods"@, self.derive_helper_methods),
//@end
//@fn src/bindgen/config.rs EnumConfig::derive_const_casts r
    ensures r == switch(*annotations, "derive-const-casts"@, self.derive_const_casts),
//@end
//@fn src/bindgen/config.rs EnumConfig::derive_mut_casts r
    ensures r == switch(*annotations, "derive-mut-casts"@, self.derive_mut_casts),
//@end
//@fn src/bindgen/config.rs EnumConfig::derive_tagged_enum_destructor r
    ensures r == switch(*annotations, "derive-tagged-enum-destructor"@, self.derive_tagged_enum_destructor),
//@end
//@fn src/bindgen/config.rs EnumConfig::derive_tagged_enum_copy_constructor r
    ensures r == switch(*annotations, "derive-tagged-enum-copy-constructor"@, self.derive_tagged_enum_copy_constructor),
//@end
//@fn src/bindgen/config.rs EnumConfig::derive_tagged_enum_copy_assignment r
    ensures r == switch(*annotations, "derive-tagged-enum-copy-assignment"@, self.derive_tagged_enum_copy_assignment),
//@end
//@fn src/bindgen/config.rs EnumConfig::derive_ostream r
    ensures r == switch(*annotations, "derive-ostream"@, self.derive_ostream),
//@end
//@fn src/bindgen/config.rs EnumConfig::enum_class r
    ensures r == switch(*annotations, "enum-class"@, self.enum_class),
//@end
//@fn src/bindgen/config.rs EnumConfig::private_default_tagged_enum_constructor r
    ensures r == switch(*annotations, "private-default-tagged-enum-constructor"@, self.private_default_tagged_enum_constructor),
//@end
}
/// an enum can be compared if it has data and the bodies of all variants with data can and do
pub open spec fn enum_eq_derivable(e: Enum, c: Config) -> bool {
    e.tag is Some && forall|i: int| 0 <= i < e.variants@.len() ==> variant_eq(#[trigger] e.variants@[i], c)
}
pub open spec fn variant_eq(v: EnumVariant, c: Config) -> bool {
    match v.body {
        VariantBody::Empty(_) => true,
        VariantBody::Body { body, .. } => eq_derivable(body) && switch(body.annotations, "derive-eq"@, c.structure.derive_eq),
    }
}
impl Enum {
//@fn src/bindgen/ir/enumeration.rs Enum::can_derive_eq r
    ensures r == enum_eq_derivable(*self, *config),
//@loop 0
    __s0@ == self.variants@, !__r0 ==> !enum_eq_derivable(*self, *config), __r0 ==> forall|i: int| 0 <= i < __i0 ==> variant_eq(#[trigger] self.variants@[i], *config),
//@end
}
impl<'a> CLikeLanguageBackend<'a> {
//@fn src/bindgen/language_backend/clike.rs CLikeLanguageBackend::write_derived_cpp_ops r strlits panics=ok loops=6
//@sig fn write_derived_cpp_ops(&mut self, out: &mut SourceWriter, s: &Struct)
    requires old(out).cur@ is None,
    ensures final(out).cur@ is None, final(out).ops@ == derived(old(out).ops@, *s, *old(self).config), final(self).config == old(self).config,
//@opaque let renamed_fields: Vec<_> = => ();
//@opaque write!(out, "{}(", s.export_name()); => out.vx_constructor();
//@opaque let vec: Vec<_> = s .fields .iter() .zip => ();
//@opaque out.write_vertical_source_list(self, &vec[..], ListType::Join(",") => ();
//@opaque let other = self => let other = vx_arg_name(self.config, "other");
//@opaque if s.annotations .bool("internal-derive-bitflags") => out.vx_text();
//@opaque let stream = self => ();
//@opaque let instance = self => ();
//@opaque write!( out, "friend std::ostream& operator<< => out.vx_ostream();
//@opaque write!(out, "return {stream} => ();
//@opaque let vec: Vec<_> = s .fields .iter() .map(|x| format!(" << => ();
//@opaque out.write_vertical_source_list( self, &vec[..], ListType::Join(" << => ();
//@opaque write!( out, "bool operator{}(const {}& {}) const", "==" => out.vx_op("==");
//@opaque write!( out, "bool operator{}(const {}& {}) const", "!=" => out.vx_op("!=");
//@opaque write!( out, "bool operator{}(const {}& {}) const", "<", => out.vx_op("<");
//@opaque write!( out, "bool operator{}(const {}& {}) const", "<=" => out.vx_op("<=");
//@opaque write!( out, "bool operator{}(const {}& {}) const", ">", => out.vx_op(">");
//@opaque write!( out, "bool operator{}(const {}& {}) const", ">=" => out.vx_op(">=");
//@opaque out.write_vertical_source_list( self, &vec[..], ListType::Join(&format!(" {}", "&&")) => out.vx_terms("&&", vec.as_slice());
//@opaque out.write_vertical_source_list( self, &vec[..], ListType::Join(&format!(" {}", "||")) => out.vx_terms("||", vec.as_slice());
//@loop 0 rty=Vec<String>
    __s0@ == s.fields@, s.fields@.len() >= first_field(*s), __i0 >= first_field(*s), __r0@.len() == __i0 - first_field(*s),
    forall|j: int| 0 <= j < __r0@.len() ==> (#[trigger] __r0@[j])@ == term(s.fields@[j + first_field(*s)], "=="@, other@),
//@loop 0 post
    assert(__r0@[__i0 - 1 - first_field(*s)]@ =~= term(s.fields@[__i0 - 1], "=="@, other@));
//@loop 0 after
    proof { assert(views(__r0@) =~= terms(*s, "=="@, other@)); }
//@loop 1 rty=Vec<String>
    __s1@ == s.fields@, s.fields@.len() >= first_field(*s), __i1 >= first_field(*s), __r1@.len() == __i1 - first_field(*s),
    forall|j: int| 0 <= j < __r1@.len() ==> (#[trigger] __r1@[j])@ == term(s.fields@[j + first_field(*s)], "!="@, other@),
//@loop 1 post
    assert(__r1@[__i1 - 1 - first_field(*s)]@ =~= term(s.fields@[__i1 - 1], "!="@, other@));
//@loop 1 after
    proof { assert(views(__r1@) =~= terms(*s, "!="@, other@)); }
//@loop 2 rty=Vec<String>
    __s2@ == s.fields@, s.fields@.len() >= first_field(*s), __i2 >= first_field(*s), __r2@.len() == __i2 - first_field(*s),
    forall|j: int| 0 <= j < __r2@.len() ==> (#[trigger] __r2@[j])@ == term(s.fields@[j + first_field(*s)], "<"@, other@),
//@loop 2 post
    assert(__r2@[__i2 - 1 - first_field(*s)]@ =~= term(s.fields@[__i2 - 1], "<"@, other@));
//@loop 2 after
    proof { assert(views(__r2@) =~= terms(*s, "<"@, other@)); }
//@loop 3 rty=Vec<String>
    __s3@ == s.fields@, s.fields@.len() >= first_field(*s), __i3 >= first_field(*s), __r3@.len() == __i3 - first_field(*s),
    forall|j: int| 0 <= j < __r3@.len() ==> (#[trigger] __r3@[j])@ == term(s.fields@[j + first_field(*s)], "<="@, other@),
//@loop 3 post
    assert(__r3@[__i3 - 1 - first_field(*s)]@ =~= term(s.fields@[__i3 - 1], "<="@, other@));
//@loop 3 after
    proof { assert(views(__r3@) =~= terms(*s, "<="@, other@)); }
//@loop 4 rty=Vec<String>
    __s4@ == s.fields@, s.fields@.len() >= first_field(*s), __i4 >= first_field(*s), __r4@.len() == __i4 - first_field(*s),
    forall|j: int| 0 <= j < __r4@.len() ==> (#[trigger] __r4@[j])@ == term(s.fields@[j + first_field(*s)], ">"@, other@),
//@loop 4 post
    assert(__r4@[__i4 - 1 - first_field(*s)]@ =~= term(s.fields@[__i4 - 1], ">"@, other@));
//@loop 4 after
    proof { assert(views(__r4@) =~= terms(*s, ">"@, other@)); }
//@loop 5 rty=Vec<String>
    __s5@ == s.fields@, s.fields@.len() >= first_field(*s), __i5 >= first_field(*s), __r5@.len() == __i5 - first_field(*s),
    forall|j: int| 0 <= j < __r5@.len() ==> (#[trigger] __r5@[j])@ == term(s.fields@[j + first_field(*s)], ">="@, other@),
//@loop 5 post
    assert(__r5@[__i5 - 1 - first_field(*s)]@ =~= term(s.fields@[__i5 - 1], ">="@, other@));
//@loop 5 after
    proof { assert(views(__r5@) =~= terms(*s, ">="@, other@)); }
//@end
}
} // verus!
fn main() {}
