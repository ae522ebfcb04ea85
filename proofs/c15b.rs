//@include prelude.inc
//@include ty_types.inc
verus! {
//@include ty_basic.inc
#[verifier::external_body] pub struct Cfg { _p: () }
#[verifier::external_body] pub struct Condition { _p: () }
//@include literal.inc
//@type src/bindgen/config.rs Language derive=Clone,Copy
impl PartialEq for Language { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl PartialEqSpecImpl for Language {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
//@type src/bindgen/config.rs ConstantConfig keep=allow_static_const,allow_constexpr
//@type src/bindgen/config.rs Config keep=language,constant
pub struct CLikeLanguageBackend<'a> { pub config: &'a Config }
pub struct CythonLanguageBackend<'a> { pub config: &'a Config }
//@include writer_stub.inc
impl SourceWriter {
    pub uninterp spec fn b(&self) -> Bindings;
    #[verifier::external_body] pub fn bindings(&self) -> (r: Bindings) ensures r == the_bindings() { unimplemented!() }
    #[verifier::external_body] pub fn push_tab(&mut self) ensures final(self).txt() == old(self).txt() { unimplemented!() }
}
/// the tables of the emitted items: Bindings::struct_field_names, enum_variant_reference and
/// associated_constant_reference as functions of the name
#[verifier::external_body] pub struct Bindings { _p: () }
pub uninterp spec fn the_bindings() -> Bindings;
/// the struct is declared as its only field
pub uninterp spec fn transparent(p: Seq<char>) -> bool;
pub uninterp spec fn field_names(p: Seq<char>) -> Seq<(String, String)>;
pub uninterp spec fn variant_ref(p: Seq<char>, n: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn constant_ref(p: Seq<char>, n: Seq<char>) -> Option<Seq<char>>;
impl Bindings {
    #[verifier::external_body] pub fn struct_is_transparent(&self, p: &Path) -> (r: bool) ensures r == transparent(p.name@) { unimplemented!() }
    #[verifier::external_body] pub fn struct_field_names(&self, p: &Path) -> (r: Vec<(String, String)>) ensures r@ == field_names(p.name@) { unimplemented!() }
    #[verifier::external_body] pub fn enum_variant_reference(&self, p: &Path, n: &str) -> (r: Option<String>)
        ensures r is Some <==> variant_ref(p.name@, n@) is Some, r is Some ==> r->0@ == variant_ref(p.name@, n@)->0 { unimplemented!() }
    #[verifier::external_body] pub fn associated_constant_reference(&self, p: &Path, n: &str) -> (r: Option<String>)
        ensures r is Some <==> constant_ref(p.name@, n@) is Some, r is Some ==> r->0@ == constant_ref(p.name@, n@)->0 { unimplemented!() }
}
/// to_known_assoc_constant and Literal::can_be_constexpr are under contract in c15
pub uninterp spec fn known_assoc(ty: Seq<char>, name: Seq<char>) -> Option<Seq<char>>;
#[verifier::external_body] pub fn to_known_assoc_constant(p: &Path, name: &str) -> (r: Option<String>)
    ensures r is Some <==> known_assoc(p.name@, name@) is Some, r is Some ==> r->0@ == known_assoc(p.name@, name@)->0 { unimplemented!() }
pub uninterp spec fn constexpr_ok(l: Literal) -> bool;
impl Literal { #[verifier::external_body] pub fn can_be_constexpr(&self) -> (r: bool) ensures r == constexpr_ok(*self) { unimplemented!() } }
/// conditions are under contract in c06
pub uninterp spec fn cond_of(c: Option<Cfg>, config: Config) -> Option<Condition>;
pub uninterp spec fn before_text(c: Option<Condition>) -> Seq<char>;
pub uninterp spec fn after_text(c: Option<Condition>) -> Seq<char>;
pub trait ToCond { fn to_condition(&self, config: &Config) -> (r: Option<Condition>); }
impl ToCond for Option<Cfg> { #[verifier::external_body] fn to_condition(&self, config: &Config) -> (r: Option<Condition>) ensures r == cond_of(*self, *config) { unimplemented!() } }
pub trait CondWrite {
    fn write_before(&self, config: &Config, out: &mut SourceWriter);
    fn write_after(&self, config: &Config, out: &mut SourceWriter);
}
impl CondWrite for Option<Condition> {
    #[verifier::external_body] fn write_before(&self, config: &Config, out: &mut SourceWriter) ensures final(out).txt() == old(out).txt() + before_text(*self) { unimplemented!() }
    #[verifier::external_body] fn write_after(&self, config: &Config, out: &mut SourceWriter) ensures final(out).txt() == old(out).txt() + after_text(*self) { unimplemented!() }
}
/// write_type is under contract in c01
pub uninterp spec fn ty_text(t: Type) -> Seq<char>;
pub uninterp spec fn ty_text_pyx(t: Type) -> Seq<char>;
impl<'a> CLikeLanguageBackend<'a> { #[verifier::external_body] pub fn write_type(&mut self, out: &mut SourceWriter, t: &Type) ensures final(out).txt() == old(out).txt() + ty_text(*t), *final(self) == *old(self) { unimplemented!() } }
impl<'a> CythonLanguageBackend<'a> { #[verifier::external_body] pub fn write_type(&mut self, out: &mut SourceWriter, t: &Type) ensures final(out).txt() == old(out).txt() + ty_text_pyx(*t), *final(self) == *old(self) { unimplemented!() } }

// ---- the fields of a struct literal, by name ----
pub open spec fn pos(ks: Seq<String>, k: Seq<char>, from: int) -> int
    decreases ks.len() - from
{ if from < 0 || from >= ks.len() { -1 } else if ks[from]@ == k { from } else { pos(ks, k, from + 1) } }
pub open spec fn has_field(f: IndexMap<String, LiteralStructField>, k: Seq<char>) -> bool { 0 <= pos(f.ks@, k, 0) < f.vs@.len() }
impl IndexMap<String, LiteralStructField> {
    /// `fields.values().next()`
    #[verifier::external_body] pub fn vx_first_value(&self) -> (r: Option<&LiteralStructField>)
        ensures r is Some <==> self.vs@.len() > 0, r is Some ==> *(r->0) == self.vs@[0] { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &String) -> (r: Option<&LiteralStructField>)
        ensures r is Some <==> has_field(*self, k@), r is Some ==> *(r->0) == self.vs@[pos(self.ks@, k@, 0)] { unimplemented!() }
}

// ================= specification: the text of an expression =================
/// the name a path is printed as
pub open spec fn path_text(o: Seq<char>, a: Option<(Path, String)>, name: String) -> Seq<char> {
    match a {
        None => o + name@,
        Some(x) => match known_assoc(x.0.name@, name@) {
            Some(k) => o + k,
            None => match variant_ref(x.0.name@, name@) {
                Some(v) => o + v,
                None => match constant_ref(x.0.name@, name@) { Some(c) => o + c, None => o + x.1@ + "_"@ + name@ },
            },
        },
    }
}
/// C and C++, appended to o: operators, operands and conversions in place, every binary operation
/// bracketed, so that the tree can be read back whatever the precedences; struct literals give each
/// of their fields once, in the order in which the struct declares them
pub open spec fn text(o: Seq<char>, l: Literal, c: Config, block: bool) -> Seq<char>
    decreases l
{
    match l {
        Literal::Expr(v) => o + v@,
        Literal::Array { items } => texts(o + "{ "@, items@, c, block, items@.len()) + "}"@,
        Literal::Path { associated_to, name } => path_text(o, associated_to, name),
        Literal::FieldAccess { base, field } => text(o + "("@, *base, c, block) + ")."@ + field@,
        Literal::PostfixUnaryOp { op, value } => if *value is PostfixUnaryOp { text(o + op@ + "("@, *value, c, block) + ")"@ } else { text(o + op@, *value, c, block) },
        Literal::BinOp { left, op, right } => text(text(o + "("@, *left, c, block) + " "@ + op@ + " "@, *right, c, block) + ")"@,
        Literal::Cast { ty, value } => text(o + "("@ + ty_text(ty) + ")"@, *value, c, block),
        Literal::Struct { path, export_name, fields } => if transparent(path.name@) && fields.vs@.len() > 0 { text(o, fields.vs@[0].value, c, block) } else {
            let o1 = if c.language is C { o + "("@ + export_name@ + ")"@ } else { o + export_name@ };
            let o2 = if block { o1 + "{"@ } else { o1 + "{"@ + " "@ };
            field_texts(o2, fields.vs@, fields, field_names(path.name@), c, block, field_names(path.name@).len()) + " "@ + "}"@
        },
    }
}
/// in C++ a constant's struct literals are laid out one field per line when it is a typed constant and not a macro
pub open spec fn in_block(l: Literal, c: Config) -> bool { c.language is Cxx && (c.constant.allow_static_const || (c.constant.allow_constexpr && constexpr_ok(l))) }
pub open spec fn texts(o: Seq<char>, xs: Seq<Literal>, c: Config, block: bool, n: nat) -> Seq<char>
    decreases xs, n
{ if n == 0 || n > xs.len() { o } else { text(texts(o, xs, c, block, (n - 1) as nat), xs[n - 1], c, block) + ", "@ } }
/// one declared field (key in the source, name in the header) of a struct literal
pub open spec fn field_text(o: Seq<char>, vs: Seq<LiteralStructField>, f: IndexMap<String, LiteralStructField>, names: Seq<(String, String)>, c: Config, block: bool, i: int) -> Seq<char>
    decreases vs, 0nat
{
    let p = pos(f.ks@, names[i].0@, 0);
    if 0 <= p < vs.len() {
        let cond = cond_of(vs[p].cfg, c);
        if block {
            let o1 = text(o + " "@ + before_text(cond) + "/* ."@ + names[i].1@ + " = */ "@, vs[p].value, c, block);
            (if i + 1 != names.len() { o1 + ","@ } else { o1 }) + after_text(cond)
        } else {
            let o1 = if i > 0 { o + ", "@ } else { o };
            text(if c.language is Cxx { o1 + "/* ."@ + names[i].1@ + " = */ "@ } else { o1 + "."@ + names[i].1@ + " = "@ }, vs[p].value, c, block)
        }
    } else { o }
}
pub open spec fn field_texts(o: Seq<char>, vs: Seq<LiteralStructField>, f: IndexMap<String, LiteralStructField>, names: Seq<(String, String)>, c: Config, block: bool, n: nat) -> Seq<char>
    decreases vs, n + 1
{ if n == 0 || n > names.len() { o } else { field_text(field_texts(o, vs, f, names, c, block, (n - 1) as nat), vs, f, names, c, block, n - 1) } }

/// Cython (the text is a comment there)
pub open spec fn text_pyx(o: Seq<char>, l: Literal) -> Seq<char>
    decreases l
{
    match l {
        Literal::Expr(v) => if v@ == "true"@ { o + "True"@ } else if v@ == "false"@ { o + "False"@ } else { o + v@ },
        Literal::Array { items } => texts_pyx(o + "[ "@, items@, items@.len()) + "]"@,
        Literal::Path { associated_to, name } => path_text(o, associated_to, name),
        Literal::FieldAccess { base, field } => text_pyx(o + "("@, *base) + ")."@ + field@,
        Literal::PostfixUnaryOp { op, value } => if *value is PostfixUnaryOp { text_pyx(o + op@ + "("@, *value) + ")"@ } else { text_pyx(o + op@, *value) },
        Literal::BinOp { left, op, right } => text_pyx(text_pyx(o + "("@, *left) + " "@ + op@ + " "@, *right) + ")"@,
        Literal::Cast { ty, value } => text_pyx(o + "<"@ + ty_text_pyx(ty) + ">"@, *value),
        Literal::Struct { path, export_name, fields } => if transparent(path.name@) && fields.vs@.len() > 0 { text_pyx(o, fields.vs@[0].value) } else {
            field_texts_pyx(o + "<"@ + export_name@ + ">"@ + "{ "@, fields.vs@, fields, field_names(path.name@), field_names(path.name@).len()) + " }"@ },
    }
}
pub open spec fn texts_pyx(o: Seq<char>, xs: Seq<Literal>, n: nat) -> Seq<char>
    decreases xs, n
{ if n == 0 || n > xs.len() { o } else { text_pyx(texts_pyx(o, xs, (n - 1) as nat), xs[n - 1]) + ", "@ } }
/// some of the first n declared fields is in the literal
pub open spec fn some_before(f: IndexMap<String, LiteralStructField>, names: Seq<(String, String)>, n: int) -> bool { exists|j: int| 0 <= j < n && has_field(f, #[trigger] names[j].0@) }
pub open spec fn field_texts_pyx(o: Seq<char>, vs: Seq<LiteralStructField>, f: IndexMap<String, LiteralStructField>, names: Seq<(String, String)>, n: nat) -> Seq<char>
    decreases vs, n
{
    if n == 0 || n > names.len() { o } else {
        let p = pos(f.ks@, names[n - 1].0@, 0);
        let b = field_texts_pyx(o, vs, f, names, (n - 1) as nat);
        if 0 <= p < vs.len() { text_pyx(if some_before(f, names, n - 1) { b + ", "@ } else { b }, vs[p].value) } else { b }
    }
}

// ================= code under contract =================
impl<'a> CLikeLanguageBackend<'a> {
//@fn src/bindgen/language_backend/clike.rs CLikeLanguageBackend::write_literal_part r
    ensures final(out).txt() == text(old(out).txt(), *l, *old(self).config, is_constexpr), *final(self) == *old(self),
//@sig fn write_literal_part(&mut self, out: &mut SourceWriter, l: &Literal, is_constexpr: bool)
//@subst fields.values().next() => fields.vx_first_value()
//@loop 0
    __s0@ == items@, *self == *old(self),
    out.txt() == texts(old(out).txt() + "{ "@, items@, *old(self).config, is_constexpr, __i0 as nat),
//@loop 1
    __s1@ == field_names(path.name@), *self == *old(self),
    out.txt() == field_texts(__t, fields.vs@, *fields, field_names(path.name@), *old(self).config, is_constexpr, __i1 as nat),
//@loop 1 before
    let ghost __t = out.txt();
//@loop 1 pre
    let ghost __o = out.txt();
//@loop 1 post
    proof {
        let c = *old(self).config; let names = field_names(path.name@);
        assert(field_texts(__t, fields.vs@, *fields, names, c, is_constexpr, __i1 as nat) == field_text(__o, fields.vs@, *fields, names, c, is_constexpr, __i1 - 1));
        assert(names[__i1 - 1].1@ == name@);
        let p = pos(fields.ks@, names[__i1 - 1].0@, 0);
        if is_constexpr { assert(out.txt() == field_text(__o, fields.vs@, *fields, names, c, is_constexpr, __i1 - 1)); }
        else { assert(out.txt() == field_text(__o, fields.vs@, *fields, names, c, is_constexpr, __i1 - 1)); }
    }
//@end
//@fn src/bindgen/language_backend/clike.rs LanguageBackend@CLikeLanguageBackend::write_literal r
    ensures final(out).txt() == text(old(out).txt(), *l, *old(self).config, in_block(*l, *old(self).config)), *final(self) == *old(self),
//@sig fn write_literal(&mut self, out: &mut SourceWriter, l: &Literal)
//@end
}
impl<'a> CythonLanguageBackend<'a> {
//@fn src/bindgen/language_backend/cython.rs LanguageBackend@CythonLanguageBackend::write_literal r strlits
    ensures final(out).txt() == text_pyx(old(out).txt(), *l), *final(self) == *old(self),
//@sig fn write_literal(&mut self, out: &mut SourceWriter, l: &Literal)
//@subst fields.values().next() => fields.vx_first_value()
//@loop 0
    __s0@ == items@, *self == *old(self),
    out.txt() == texts_pyx(old(out).txt() + "[ "@, items@, __i0 as nat),
//@loop 1
    __s1@ == field_names(path.name@), *self == *old(self), is_first_field == !some_before(*fields, field_names(path.name@), __i1 as int),
    out.txt() == field_texts_pyx(__t, fields.vs@, *fields, field_names(path.name@), __i1 as nat),
//@loop 1 before
    let ghost __t = out.txt();
//@end
}
} // verus!
fn main() {}
