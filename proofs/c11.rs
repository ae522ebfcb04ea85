//@include prelude.inc
//@include ty_types.inc
verus! {
//@include ty_basic.inc
// Annotations are a finite record whose lookups are functions of the set and the key.
#[verifier::external_body] pub struct AnnotationSet { _p: () }
#[verifier::external_body] pub struct Documentation { _p: () }
#[verifier::external_body] pub struct Cfg { _p: () }
#[verifier::external_body] pub struct PathBuf { _p: () }
impl Clone for AnnotationSet { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Documentation { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Cfg { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl AnnotationSet {
    pub uninterp spec fn list_of(&self, k: Seq<char>) -> Option<Vec<String>>;
    pub uninterp spec fn rule_of(&self, k: Seq<char>) -> Option<RenameRule>;
    pub uninterp spec fn bool_of(&self, k: Seq<char>) -> Option<bool>;
    #[verifier::external_body] pub fn list(&self, k: &str) -> (r: Option<Vec<String>>) ensures r == self.list_of(k@) { unimplemented!() }
    #[verifier::external_body] pub fn parse_rule(&self, k: &str) -> (r: Option<RenameRule>) ensures r == self.rule_of(k@) { unimplemented!() }
    #[verifier::external_body] pub fn bool(&self, k: &str) -> (r: Option<bool>) ensures r == self.bool_of(k@) { unimplemented!() }
}
//@gsubst .parse_atom::<RenameRule>( => .parse_rule(
//@type src/bindgen/rename.rs RenameRule
//@type src/bindgen/rename.rs IdentifierType derive=Clone,Copy
//@include literal.inc
//@type src/bindgen/ir/repr.rs ReprAlign derive=Clone,Copy
//@type src/bindgen/ir/repr.rs ReprStyle derive=Clone,Copy
//@type src/bindgen/ir/repr.rs ReprType derive=Clone,Copy
//@type src/bindgen/ir/repr.rs Repr derive=Clone,Copy
impl PartialEq for ReprStyle { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl PartialEqSpecImpl for ReprStyle {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
//@type src/bindgen/ir/field.rs Field
//@type src/bindgen/ir/constant.rs Constant
//@type src/bindgen/ir/structure.rs Struct
//@type src/bindgen/ir/union.rs Union
//@type src/bindgen/ir/typedef.rs Typedef
//@type src/bindgen/ir/opaque.rs OpaqueItem
//@type src/bindgen/ir/global.rs Static
//@type src/bindgen/ir/function.rs FunctionArgument
//@type src/bindgen/ir/function.rs Function
//@type src/bindgen/ir/enumeration.rs VariantBody
//@type src/bindgen/ir/enumeration.rs EnumVariant
//@type src/bindgen/ir/enumeration.rs Enum
//@type src/bindgen/config.rs Language derive=Clone,Copy
//@type src/bindgen/config.rs MangleConfig keep=remove_underscores
//@type src/bindgen/config.rs ExportConfig keep=rename,prefix,renaming_overrides_prefixing,mangle
//@type src/bindgen/config.rs StructConfig keep=rename_fields
//@type src/bindgen/config.rs FunctionConfig keep=rename_args
//@type src/bindgen/config.rs EnumConfig keep=rename_variants,prefix_with_name
//@type src/bindgen/config.rs Config keep=export,language,structure,function,enumeration
//@type src/bindgen/library.rs Library
impl PartialEq for Language { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl PartialEqSpecImpl for Language {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl Clone for Field { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Struct { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Literal { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for VariantBody { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@gsubst Cow<'a, str> => Cow<'a>
/// std::borrow::Cow<str>
pub enum Cow<'a> { Borrowed(&'a str), Owned(String) }
impl<'a> Cow<'a> {
    pub open spec fn view(&self) -> Seq<char> { match self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
    #[verifier::external_body] pub fn into_owned(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn vx_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
/// src/bindgen/ir/item.rs ItemMap, by the sequence of its items in visiting order (C09)
pub struct ItemMap<T> { pub all: Vec<T> }
impl<T> ItemMap<T> {
    pub fn vx_all_mut(&mut self) -> (r: &mut Vec<T>) ensures *r == old(self).all, *final(r) == final(self).all { &mut self.all }
    /// neither drops, repeats nor alters an item (C09)
    #[verifier::external_body] pub fn rebuild(&mut self) ensures *final(self) == *old(self) { unimplemented!() }
}
/// HashMap<String, _>::get
#[verifier::external_body]
pub fn vx_get_str<'a, V>(m: &'a HashMap<String, V>, k: &str) -> (r: Option<&'a V>)
    ensures r is Some <==> (exists|s: String| #[trigger] m@.dom().contains(s) && s@ == k@),
        forall|s: String| #[trigger] m@.dom().contains(s) && s@ == k@ ==> r is Some && *(r->0) == m@[s],
{ m.get(k) }
#[verifier::external_body]
pub fn vx_insert_str0(s: &mut String, p: &str) ensures final(s)@ == p@ + old(s)@ { s.insert_str(0, p) }
#[verifier::external_body]
pub fn vx_concat(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { a + b }

// ---------------- specification ----------------
/// the rename table's entry for a name
pub open spec fn entry(e: ExportConfig, n: Seq<char>) -> Option<Seq<char>> {
    if exists|k: String| #[trigger] e.rename@.dom().contains(k) && k@ == n {
        Some(e.rename@[choose|k: String| #[trigger] e.rename@.dom().contains(k) && k@ == n]@)
    } else { None }
}
/// the output name of an item called n
pub open spec fn out_name(e: ExportConfig, n: Seq<char>) -> Seq<char> {
    let m = match entry(e, n) { Some(m) => m, None => n };
    if e.prefix is None || (entry(e, n) is Some && e.renaming_overrides_prefixing) { m } else { e.prefix->0@ + m }
}
// letter-case conversions (crate heck, std)
pub uninterp spec fn upper_camel(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn lower_camel(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn snake(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn shouty_snake(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn upper_of(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn vx_to_upper(s: &str) -> (r: String) ensures r@ == upper_of(s@) { unimplemented!() }
pub mod heck {
use super::*;
pub trait Heck {
    fn to_upper_camel_case(&self) -> (r: String);
    fn to_pascal_case(&self) -> (r: String);
    fn to_lower_camel_case(&self) -> (r: String);
    fn to_snake_case(&self) -> (r: String);
    fn to_shouty_snake_case(&self) -> (r: String);
}
impl Heck for str {
    #[verifier::external_body] fn to_upper_camel_case(&self) -> (r: String) ensures r@ == upper_camel(self@) { unimplemented!() }
    #[verifier::external_body] fn to_pascal_case(&self) -> (r: String) ensures r@ == upper_camel(self@) { unimplemented!() }
    #[verifier::external_body] fn to_lower_camel_case(&self) -> (r: String) ensures r@ == lower_camel(self@) { unimplemented!() }
    #[verifier::external_body] fn to_snake_case(&self) -> (r: String) ensures r@ == snake(self@) { unimplemented!() }
    #[verifier::external_body] fn to_shouty_snake_case(&self) -> (r: String) ensures r@ == shouty_snake(self@) { unimplemented!() }
}
}
/// what kind of identifier is renamed
pub enum Kind { Member, Variant(Seq<char>), Arg, Type, Enum }
pub open spec fn kind(c: IdentifierType) -> Kind {
    match c {
        IdentifierType::StructMember => Kind::Member,
        IdentifierType::EnumVariant { prefix } => Kind::Variant(prefix@),
        IdentifierType::FunctionArg => Kind::Arg,
        IdentifierType::Type => Kind::Type,
        IdentifierType::Enum => Kind::Enum,
    }
}
pub open spec fn gecko(k: Kind) -> Seq<char> { match k { Kind::Member => seq!['m'], Kind::Arg => seq!['a'], _ => Seq::empty() } }
pub open spec fn shouted(s: Seq<char>) -> Seq<char> { if s.len() == 0 { s } else { shouty_snake(s) } }
/// what a rename rule makes of an identifier
pub open spec fn applied(r: RenameRule, s: Seq<char>, k: Kind) -> Seq<char> {
    if s.len() == 0 { s } else {
        match r {
            RenameRule::None => s,
            RenameRule::GeckoCase => gecko(k) + upper_camel(s),
            RenameRule::LowerCase => lower_of(s),
            RenameRule::UpperCase => upper_of(s),
            RenameRule::PascalCase => upper_camel(s),
            RenameRule::CamelCase => lower_camel(s),
            RenameRule::SnakeCase => snake(s),
            RenameRule::ScreamingSnakeCase => shouty_snake(s),
            RenameRule::QualifiedScreamingSnakeCase => match k { Kind::Variant(p) => shouted(p).push('_') + shouty_snake(s), _ => shouty_snake(s) },
            RenameRule::Prefix(p) => p@ + s,
        }
    }
}
/// escaping of reserved words (C07)
pub uninterp spec fn esc(s: Seq<char>) -> Seq<char>;
pub mod reserved {
use super::*;
#[verifier::external_body] pub fn escape(s: &mut String) ensures final(s)@ == esc(old(s)@) { unimplemented!() }
}
pub open spec fn is_param(ps: Seq<GenericParam>, p: Path) -> bool { exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).name == p }
/// the name of a use of path p that was called n
pub open spec fn use_name(e: ExportConfig, ps: Seq<GenericParam>, p: Path, n: Seq<char>) -> Seq<char> { if is_param(ps, p) { n } else { out_name(e, n) } }
pub open spec fn opt_esc(a: Option<String>, r: Option<String>) -> bool { (a is None <==> r is None) && (a is Some ==> r->0@ == esc(a->0@)) }
/// t with the name of every use in it replaced, and nothing else changed (argument names of
/// function pointers are escaped)
pub open spec fn ty_ren(t: Type, e: ExportConfig, ps: Seq<GenericParam>, r: Type) -> bool
    decreases t
{
    match t {
        Type::Ptr { ty, is_const, is_nullable, is_ref } => match r {
            Type::Ptr { ty: t2, is_const: c2, is_nullable: n2, is_ref: r2 } => ty_ren(*ty, e, ps, *t2) && c2 == is_const && n2 == is_nullable && r2 == is_ref,
            _ => false,
        },
        Type::Path(g) => match r { Type::Path(g2) => gp_ren(g, e, ps, g2), _ => false },
        Type::Primitive(_) => r == t,
        Type::Array(ty, len) => match r { Type::Array(t2, len2) => ty_ren(*ty, e, ps, *t2) && ce_ren(len, e, ps, len2), _ => false },
        Type::FuncPtr { ret, args, is_nullable, never_return } => match r {
            Type::FuncPtr { ret: ret2, args: args2, is_nullable: n2, never_return: nr2 } => {
                &&& ty_ren(*ret, e, ps, *ret2) && n2 == is_nullable && nr2 == never_return
                &&& args2@.len() == args@.len()
                &&& forall|i: int| 0 <= i < args@.len() ==> opt_esc(#[trigger] args@[i].0, args2@[i].0) && ty_ren((#[trigger] args@[i]).1, e, ps, args2@[i].1)
            },
            _ => false,
        },
    }
}
pub open spec fn gp_ren(g: GenericPath, e: ExportConfig, ps: Seq<GenericParam>, r: GenericPath) -> bool
    decreases g
{
    &&& r.path == g.path && r.ctype == g.ctype
    &&& r.export_name@ == use_name(e, ps, g.path, g.export_name@)
    &&& r.generics@.len() == g.generics@.len()
    &&& forall|i: int| 0 <= i < g.generics@.len() ==> ga_ren(#[trigger] g.generics@[i], e, ps, r.generics@[i])
}
pub open spec fn ga_ren(a: GenericArgument, e: ExportConfig, ps: Seq<GenericParam>, r: GenericArgument) -> bool
    decreases a
{
    match a {
        GenericArgument::Type(t) => match r { GenericArgument::Type(t2) => ty_ren(t, e, ps, t2), _ => false },
        GenericArgument::Const(c) => match r { GenericArgument::Const(c2) => ce_ren(c, e, ps, c2), _ => false },
    }
}
pub open spec fn ce_ren(c: ConstExpr, e: ExportConfig, ps: Seq<GenericParam>, r: ConstExpr) -> bool
    decreases c
{
    match c {
        ConstExpr::Value(_) => r == c,
        ConstExpr::Path(g) => match r { ConstExpr::Path(g2) => gp_ren(g, e, ps, g2), _ => false },
    }
}
/// a constant expression with every name in it replaced: same operators, same shape
pub open spec fn lit_ren(l: Literal, e: ExportConfig, r: Literal) -> bool
    decreases l
{
    match l {
        Literal::Expr(_) => r == l,
        Literal::Path { associated_to, name } => match r {
            Literal::Path { associated_to: a2, name: n2 } => match associated_to {
                None => a2 is None && n2@ == out_name(e, name@),
                Some(a) => a2 is Some && (a2->0).0 == a.0 && (a2->0).1@ == out_name(e, a.1@) && n2 == name,
            },
            _ => false,
        },
        Literal::PostfixUnaryOp { op, value } => match r { Literal::PostfixUnaryOp { op: o2, value: v2 } => o2 == op && lit_ren(*value, e, *v2), _ => false },
        Literal::BinOp { left, op, right } => match r { Literal::BinOp { left: l2, op: o2, right: r2 } => o2 == op && lit_ren(*left, e, *l2) && lit_ren(*right, e, *r2), _ => false },
        Literal::FieldAccess { base, field } => match r { Literal::FieldAccess { base: b2, field: f2 } => f2 == field && lit_ren(*base, e, *b2), _ => false },
        Literal::Struct { path, export_name, fields } => match r {
            Literal::Struct { path: p2, export_name: n2, fields: f2 } => {
                &&& p2 == path && n2@ == out_name(e, export_name@) && f2.ks == fields.ks
                &&& f2.vs@.len() == fields.vs@.len()
                &&& forall|i: int| 0 <= i < fields.vs@.len() ==> lit_ren((#[trigger] fields.vs@[i]).value, e, f2.vs@[i].value) && f2.vs@[i] == (LiteralStructField { value: f2.vs@[i].value, ..fields.vs@[i] })
            },
            _ => false,
        },
        Literal::Cast { ty, value } => match r { Literal::Cast { ty: t2, value: v2 } => ty_ren(ty, e, Seq::empty(), t2) && lit_ren(*value, e, *v2), _ => false },
        Literal::Array { items } => match r {
            Literal::Array { items: i2 } => i2@.len() == items@.len() && forall|i: int| 0 <= i < items@.len() ==> lit_ren(#[trigger] items@[i], e, i2@[i]),
            _ => false,
        },
    }
}
pub open spec fn constant_ren(c: Constant, e: ExportConfig, r: Constant) -> bool {
    &&& r.export_name@ == (if c.associated_to is None { out_name(e, c.export_name@) } else { c.export_name@ })
    &&& lit_ren(c.value, e, r.value) && ty_ren(c.ty, e, Seq::empty(), r.ty)
    &&& r == (Constant { export_name: r.export_name, value: r.value, ty: r.ty, ..c })
}
pub open spec fn constants_ren(c: Seq<Constant>, e: ExportConfig, r: Seq<Constant>) -> bool {
    r.len() == c.len() && forall|i: int| 0 <= i < c.len() ==> constant_ren(c[i], e, #[trigger] r[i])
}
pub open spec fn field_rule(a: AnnotationSet, config: Config) -> RenameRule {
    match a.rule_of("rename-all"@) { Some(r) => r, None => config.structure.rename_fields }
}
/// the name of a struct field before escaping
pub open spec fn field_base(s: Struct, config: Config, i: int) -> Seq<char> {
    let n = s.fields@[i].name@;
    match s.annotations.list_of("field-names"@) {
        Some(l) => if i < l@.len() { l@[i]@ } else { n },
        None => if !(field_rule(s.annotations, config) is None) { applied(field_rule(s.annotations, config), n, Kind::Member) }
            else if n.len() > 0 && is_digit_ch(n[0]) { seq!['_'] + n } else { n },
    }
}
pub open spec fn ufield_base(s: Union, config: Config, i: int) -> Seq<char> {
    let n = s.fields@[i].name@;
    match s.annotations.list_of("field-names"@) {
        Some(l) => if i < l@.len() { l@[i]@ } else { n },
        None => if !(field_rule(s.annotations, config) is None) { applied(field_rule(s.annotations, config), n, Kind::Member) }
            else if s.tuple_union { seq!['_'] + n } else { n },
    }
}
/// a field renamed to n, its type's uses renamed, nothing else changed
pub open spec fn field_ren(f: Field, e: ExportConfig, ps: Seq<GenericParam>, n: Seq<char>, r: Field) -> bool {
    ty_ren(f.ty, e, ps, r.ty) && r.name@ == n && r == (Field { name: r.name, ty: r.ty, ..f })
}
/// a struct renamed in all but its own name
pub open spec fn struct_body_ren(s: Struct, config: Config, r: Struct) -> bool {
    &&& r.fields@.len() == s.fields@.len()
    &&& forall|i: int| 0 <= i < s.fields@.len() ==> (if s.has_tag_field && i == 0 {
            (#[trigger] r.fields@[i]).name@ == esc(field_base(s, config, i)) && r.fields@[i] == (Field { name: r.fields@[i].name, ..s.fields@[i] })
        } else { field_ren(s.fields@[i], config.export, s.generic_params.0@, esc(field_base(s, config, i)), r.fields@[i]) })
    &&& constants_ren(s.associated_constants@, config.export, r.associated_constants@)
    &&& r == (Struct { export_name: r.export_name, fields: r.fields, associated_constants: r.associated_constants, ..s })
}
pub open spec fn struct_out(s: Struct, config: Config) -> Seq<char> {
    if s.has_tag_field && config.language == Language::Cxx { s.export_name@ } else { out_name(config.export, s.export_name@) }
}
pub open spec fn struct_ren(s: Struct, config: Config, r: Struct) -> bool { struct_body_ren(s, config, r) && r.export_name@ == struct_out(s, config) }
pub open spec fn union_ren(s: Union, config: Config, r: Union) -> bool {
    &&& r.export_name@ == out_name(config.export, s.export_name@)
    &&& r.fields@.len() == s.fields@.len()
    &&& forall|i: int| 0 <= i < s.fields@.len() ==> field_ren(s.fields@[i], config.export, s.generic_params.0@, esc(ufield_base(s, config, i)), #[trigger] r.fields@[i])
    &&& r == (Union { export_name: r.export_name, fields: r.fields, ..s })
}
pub open spec fn typedef_ren(t: Typedef, config: Config, r: Typedef) -> bool {
    &&& r.export_name@ == out_name(config.export, t.export_name@) && ty_ren(t.aliased, config.export, t.generic_params.0@, r.aliased)
    &&& r == (Typedef { export_name: r.export_name, aliased: r.aliased, ..t })
}
pub open spec fn opaque_ren(t: OpaqueItem, config: Config, r: OpaqueItem) -> bool {
    r.export_name@ == out_name(config.export, t.export_name@) && r == (OpaqueItem { export_name: r.export_name, ..t })
}
/// symbols are never renamed
pub open spec fn static_ren(t: Static, config: Config, r: Static) -> bool { ty_ren(t.ty, config.export, Seq::empty(), r.ty) && r == (Static { ty: r.ty, ..t }) }
pub open spec fn arg_rule(a: AnnotationSet, config: Config) -> RenameRule {
    match a.rule_of("rename-all"@) { Some(r) => r, None => config.function.rename_args }
}
pub open spec fn arg_base(n: Seq<char>, f: Function, config: Config) -> Seq<char> { applied(arg_rule(f.annotations, config), n, Kind::Arg) }
pub open spec fn arg_ren(a: FunctionArgument, f: Function, config: Config, r: FunctionArgument) -> bool {
    &&& ty_ren(a.ty, config.export, Seq::empty(), r.ty)
    &&& r.name is None <==> a.name is None
    &&& a.name is Some ==> r.name->0@ == esc(arg_base(a.name->0@, f, config))
}
pub open spec fn function_ren(f: Function, config: Config, r: Function) -> bool {
    &&& ty_ren(f.ret, config.export, Seq::empty(), r.ret)
    &&& r.args@.len() == f.args@.len()
    &&& forall|i: int| 0 <= i < f.args@.len() ==> arg_ren(f.args@[i], f, config, #[trigger] r.args@[i])
    &&& r == (Function { ret: r.ret, args: r.args, ..f })
}
pub open spec fn variant_rule(a: AnnotationSet, config: Config) -> RenameRule {
    match a.rule_of("rename-all"@) { Some(r) => r, None => config.enumeration.rename_variants }
}
pub open spec fn prefixes(e: Enum, config: Config) -> bool {
    match e.annotations.bool_of("prefix-with-name"@) { Some(b) => b, None => config.enumeration.prefix_with_name }
}
pub open spec fn sep(config: Config) -> Seq<char> { if config.export.mangle.remove_underscores { ""@ } else { "_"@ } }
pub open spec fn prefixed(e: Enum, config: Config, n: Seq<char>) -> Seq<char> {
    if prefixes(e, config) { out_name(config.export, e.export_name@) + sep(config) + n } else { n }
}
pub open spec fn tag_name(e: Enum, config: Config) -> Seq<char> { out_name(config.export, e.export_name@) + "_Tag"@ }
/// the C name of a tag includes the enum's
pub open spec fn renames_tag(e: Enum, config: Config) -> bool { config.language != Language::Cxx && e.tag is Some }
/// how each step of renaming an enum changes one of its variants
pub open spec fn same_but_names(v: EnumVariant, r: EnumVariant) -> bool { r == (EnumVariant { export_name: r.export_name, body: r.body, discriminant: r.discriminant, ..v }) }
pub open spec fn body_with(b: VariantBody, n: Seq<char>, s: Struct, r: VariantBody) -> bool {
    match b {
        VariantBody::Empty(_) => r == b,
        VariantBody::Body { name, body, inline, inline_casts } => match r {
            VariantBody::Body { name: n2, body: b2, inline: i2, inline_casts: c2 } => n2@ == n && i2 == inline && c2 == inline_casts && b2 == s,
            _ => false,
        },
    }
}
pub open spec fn vname(v: EnumVariant) -> Seq<char> { match v.body { VariantBody::Empty(_) => Seq::empty(), VariantBody::Body { name, .. } => name@ } }
pub open spec fn vbody(v: EnumVariant) -> Struct { match v.body { VariantBody::Body { body, .. } => body, _ => arbitrary() } }
/// the body whose tag field has the type named t
pub open spec fn retagged(s: Struct, t: Seq<char>, r: Struct) -> bool {
    &&& r == (Struct { fields: r.fields, ..s }) && r.fields@.len() == s.fields@.len()
    &&& forall|i: int| 1 <= i < s.fields@.len() ==> #[trigger] r.fields@[i] == s.fields@[i]
    &&& r.fields@[0] == (Field { ty: r.fields@[0].ty, ..s.fields@[0] })
    &&& r.fields@[0].ty is Path && r.fields@[0].ty->Path_0.path.name@ == t && r.fields@[0].ty->Path_0.export_name@ == t && r.fields@[0].ty->Path_0.generics@.len() == 0
}
pub open spec fn v_tag(v: EnumVariant, t: Seq<char>, r: EnumVariant) -> bool {
    &&& r == (EnumVariant { body: r.body, ..v }) && body_with(v.body, vname(v), vbody(r), r.body)
    &&& v.body is Body ==> retagged(vbody(v), t, vbody(r))
}
pub open spec fn opt_lit_ren(l: Option<Literal>, e: ExportConfig, r: Option<Literal>) -> bool { (l is None <==> r is None) && (l is Some ==> lit_ren(l->0, e, r->0)) }
pub open spec fn v_ren(v: EnumVariant, config: Config, r: EnumVariant) -> bool {
    &&& same_but_names(v, r) && r.export_name@ == esc(v.export_name@) && opt_lit_ren(v.discriminant, config.export, r.discriminant)
    &&& body_with(v.body, esc(vname(v)), vbody(r), r.body)
    &&& v.body is Body ==> struct_ren(vbody(v), config, vbody(r))
}
pub open spec fn v_prefix(v: EnumVariant, e: Enum, config: Config, r: EnumVariant) -> bool {
    &&& r == (EnumVariant { export_name: r.export_name, body: r.body, ..v }) && r.export_name@ == prefixed(e, config, v.export_name@)
    &&& body_with(v.body, vname(v), vbody(r), r.body)
    &&& v.body is Body ==> vbody(r).export_name@ == prefixed(e, config, vbody(v).export_name@) && vbody(r) == (Struct { export_name: vbody(r).export_name, ..vbody(v) })
}
pub open spec fn v_rule(v: EnumVariant, rule: RenameRule, x: Seq<char>, r: EnumVariant) -> bool {
    &&& r == (EnumVariant { export_name: r.export_name, body: r.body, ..v }) && r.export_name@ == applied(rule, v.export_name@, Kind::Variant(x))
    &&& body_with(v.body, applied(rule, vname(v), Kind::Member), vbody(v), r.body)
}
pub open spec fn v_esc(v: EnumVariant, r: EnumVariant) -> bool {
    &&& r == (EnumVariant { export_name: r.export_name, body: r.body, ..v }) && r.export_name@ == esc(v.export_name@)
    &&& body_with(v.body, esc(vname(v)), vbody(v), r.body)
}
/// a variant of e renamed
pub open spec fn variant_ren(v: EnumVariant, e: Enum, config: Config, r: EnumVariant) -> bool {
    let x = out_name(config.export, e.export_name@);
    let rule = variant_rule(e.annotations, config);
    &&& same_but_names(v, r)
    &&& r.export_name@ == esc(applied(rule, prefixed(e, config, esc(v.export_name@)), Kind::Variant(x)))
    &&& opt_lit_ren(v.discriminant, config.export, r.discriminant)
    &&& body_with(v.body, esc(applied(rule, esc(vname(v)), Kind::Member)), vbody(r), r.body)
    &&& v.body is Body ==> exists|m: Struct| {
        &&& (if renames_tag(e, config) && e.repr.style == ReprStyle::Rust { retagged(vbody(v), tag_name(e, config), m) } else { m == vbody(v) })
        &&& #[trigger] struct_body_ren(m, config, vbody(r)) && vbody(r).export_name@ == prefixed(e, config, struct_out(m, config))
    }
}
pub open spec fn enum_ren(e: Enum, config: Config, r: Enum) -> bool {
    &&& r.export_name@ == out_name(config.export, e.export_name@)
    &&& r == (Enum { export_name: r.export_name, variants: r.variants, tag: r.tag, ..e })
    &&& (if renames_tag(e, config) { r.tag is Some && r.tag->0@ == tag_name(e, config) } else { r.tag == e.tag })
    &&& r.variants@.len() == e.variants@.len()
    &&& forall|i: int| 0 <= i < e.variants@.len() ==> variant_ren(e.variants@[i], e, config, #[trigger] r.variants@[i])
}

// ---------------- definitions and uses agree ----------------
/// A use of an item, of any kind, is printed with the name the item is defined with.
pub proof fn lemma_use_is_definition(item_path: Path, defined: Seq<char>, g: GenericPath, e: ExportConfig, ps: Seq<GenericParam>, g2: GenericPath)
    requires g.path == item_path, g.export_name@ == g.path.name@, !is_param(ps, g.path),
        gp_ren(g, e, ps, g2), defined == out_name(e, item_path.name@),
    ensures g2.export_name@ == defined,
{ }
/// Uses of generic parameters keep their name.
pub proof fn lemma_params_kept(g: GenericPath, e: ExportConfig, ps: Seq<GenericParam>, g2: GenericPath)
    requires is_param(ps, g.path), gp_ren(g, e, ps, g2),
    ensures g2.export_name@ == g.export_name@,
{ }
/// The table wins over the name, and the prefix comes first unless the table overrides it.
pub proof fn lemma_names(e: ExportConfig, n: Seq<char>)
    ensures e.prefix is None && entry(e, n) is None ==> out_name(e, n) == n,
        e.prefix is None && entry(e, n) is Some ==> out_name(e, n) == entry(e, n)->0,
        e.prefix is Some && entry(e, n) is Some && e.renaming_overrides_prefixing ==> out_name(e, n) == entry(e, n)->0,
        e.prefix is Some && entry(e, n) is Some && !e.renaming_overrides_prefixing ==> out_name(e, n) == e.prefix->0@ + entry(e, n)->0,
        e.prefix is Some && entry(e, n) is None ==> out_name(e, n) == e.prefix->0@ + n,
{ }

// ---------------- the code ----------------
impl GenericParams { #[verifier::external_body] pub fn vx_default() -> (r: GenericParams) ensures r.0@ == Seq::<GenericParam>::empty() { unimplemented!() } }
impl GenericParams { #[verifier::external_body] pub fn empty() -> (r: &'static GenericParams) ensures r.0@ == Seq::<GenericParam>::empty() { unimplemented!() } }
impl Path { #[verifier::external_body] pub fn vx_new(n: String) -> (r: Path) ensures r.name == n { unimplemented!() } }
impl ExportConfig {
//@fn src/bindgen/config.rs ExportConfig::rename r
    ensures final(item_name)@ == out_name(*self, old(item_name)@),
//@subst self.rename.get(item_name) => vx_get_str(&self.rename, item_name.as_str())
//@subst item_name.clone_from(name) => *item_name = name.vx_cl()
//@subst item_name.insert_str(0, prefix) => vx_insert_str0(item_name, prefix.as_str())
//@end
}
impl<'b> IdentifierType<'b> {
//@fn src/bindgen/rename.rs IdentifierType::to_str r strlits
    ensures r@ =~= gecko(kind(self)),
//@end
}
impl RenameRule {
//@fn src/bindgen/rename.rs RenameRule::not_none r
    ensures r is None <==> *self is None, r is Some ==> *r->0 == *self,
//@end
//@fn src/bindgen/rename.rs RenameRule::apply r
    ensures r@ =~= applied(*self, text@, kind(context)),
//@subst vx_to_owned(&*context.to_str()) + &text.to_upper_camel_case() => vx_concat(vx_to_owned(&*context.to_str()), text.to_upper_camel_case().as_str())
//@subst text.to_uppercase() => vx_to_upper(&*text)
//@subst &RenameRule::ScreamingSnakeCase.apply(prefix, IdentifierType::Enum) => RenameRule::ScreamingSnakeCase.apply(prefix, IdentifierType::Enum).vx_str()
//@subst &RenameRule::ScreamingSnakeCase.apply(text, context) => RenameRule::ScreamingSnakeCase.apply(text, context).vx_str()
//@subst vx_to_owned(&*prefix) + text => vx_concat(vx_to_owned(&*prefix), text)
//@subst result.push_str( => vx_push_str(&mut result,
//@end
}
impl GenericArgument {
//@fn src/bindgen/ir/generic_path.rs GenericArgument::rename_for_config r
    ensures ga_ren(*old(self), config.export, generic_params.0@, *final(self)),
//@end
}
impl ConstExpr {
//@fn src/bindgen/ir/ty.rs ConstExpr::rename_for_config r
    ensures ce_ren(*old(self), config.export, generic_params.0@, *final(self)),
//@end
//@fn src/bindgen/ir/ty.rs ConstExpr::as_str r
    ensures *self is Path ==> r@ == self->Path_0.export_name@, *self is Value ==> r@ == self->Value_0@,
//@end
}
impl GenericPath {
//@fn src/bindgen/ir/generic_path.rs GenericPath::rename_for_config r
    ensures gp_ren(*old(self), config.export, generic_params.0@, *final(self)),
//@loop 0 mode=mut
    forall|i: int| 0 <= i < __i0 ==> ga_ren(#[trigger] __g0[i], config.export, generic_params.0@, __s0@[i]),
//@loop 1
    __s1@ == generic_params.0@,
    __r1 ==> is_param(generic_params.0@, self.path),
    !__r1 ==> forall|i: int| 0 <= i < __i1 ==> (#[trigger] generic_params.0@[i]).name != self.path,
//@end
}
impl Type {
//@fn src/bindgen/ir/ty.rs Type::rename_for_config r
    ensures ty_ren(*old(self), config.export, generic_params.0@, *final(self)),
//@loop 0 mode=mut
    forall|i: int| 0 <= i < __i0 ==> opt_esc(#[trigger] __g0[i].0, __s0@[i].0) && ty_ren(__g0[i].1, config.export, generic_params.0@, __s0@[i].1),
//@end
}
impl Literal {
//@fn src/bindgen/ir/constant.rs Literal::rename_for_config r
    ensures lit_ren(*old(self), config.export, *final(self)),
//@subst fields.values_mut() => fields.vx_values_mut()
//@subst GenericParams::default() => GenericParams::vx_default()
//@loop 0 mode=mut
    forall|i: int| 0 <= i < __i0 ==> lit_ren((#[trigger] __g0[i]).value, config.export, __s0@[i].value) && __s0@[i] == (LiteralStructField { value: __s0@[i].value, ..__g0[i] }),
//@loop 1 mode=mut
    forall|i: int| 0 <= i < __i1 ==> lit_ren(#[trigger] __g1[i], config.export, __s1@[i]),
//@end
}
impl Constant {
//@fn src/bindgen/ir/constant.rs Item@Constant::rename_for_config r
    ensures constant_ren(*old(self), config.export, *final(self)),
//@subst GenericParams::default() => GenericParams::vx_default()
//@end
}
impl Struct {
//@fn src/bindgen/ir/structure.rs Item@Struct::export_name r
    ensures r@ == self.export_name@,
//@end
//@fn src/bindgen/ir/structure.rs Item@Struct::rename_for_config r
    ensures struct_ren(*old(self), *config, *final(self)),
//@subst self.has_tag_field as usize => (if self.has_tag_field { 1usize } else { 0usize })
//@loop 0 mode=mut
    self.has_tag_field ==> __i0 >= 1 || __s0@.len() == 0,
    forall|i: int| 0 <= i < __s0@.len() ==> (if i >= __i0 || (self.has_tag_field && i == 0) { #[trigger] __s0@[i] == __g0[i] } else { field_ren(__g0[i], config.export, self.generic_params.0@, __g0[i].name@, __s0@[i]) }),
//@loop 1 mode=mut
    __i1 <= __z1@.len(),
    forall|i: int| 0 <= i < __i1 ==> (#[trigger] __s1@[i]).name@ == __z1@[i]@ && __s1@[i] == (Field { name: __s1@[i].name, ..__g1[i] }),
//@loop 2 mode=mut
    forall|i: int| 0 <= i < __i2 ==> (#[trigger] __s2@[i]).name@ == applied(*r, __g2[i].name@, Kind::Member) && __s2@[i] == (Field { name: __s2@[i].name, ..__g2[i] }),
//@loop 3 mode=mut
    forall|i: int| 0 <= i < __i3 ==> (#[trigger] __s3@[i]).name@ == (if __g3[i].name@.len() > 0 && is_digit_ch(__g3[i].name@[0]) { seq!['_'] + __g3[i].name@ } else { __g3[i].name@ })
        && __s3@[i] == (Field { name: __s3@[i].name, ..__g3[i] }),
//@loop 4 mode=mut
    forall|i: int| 0 <= i < __i4 ==> (#[trigger] __s4@[i]).name@ == esc(__g4[i].name@) && __s4@[i] == (Field { name: __s4@[i].name, ..__g4[i] }),
//@loop 5 mode=mut
    forall|i: int| 0 <= i < __i5 ==> constant_ren(__g5[i], config.export, #[trigger] __s5@[i]),
//@end
}
impl Union {
//@fn src/bindgen/ir/union.rs Union::new r
    ensures r.path == path, r.export_name@ == path.name@,
//@end
//@fn src/bindgen/ir/union.rs Item@Union::rename_for_config r
    ensures union_ren(*old(self), *config, *final(self)),
//@loop 0 mode=mut
    forall|i: int| 0 <= i < __i0 ==> field_ren(__g0[i], config.export, self.generic_params.0@, __g0[i].name@, #[trigger] __s0@[i]),
//@subst let mut overriden_fields = Vec::new() => let mut overriden_fields: Vec<Field> = Vec::new()
//@loop 1
    overriden_fields@.len() == __i1,
    forall|i: int| 0 <= i < __i1 ==> (#[trigger] overriden_fields@[i]).name@ == (if i < o@.len() { o@[i]@ } else { __s1@[i].name@ })
        && overriden_fields@[i] == (Field { name: overriden_fields@[i].name, ..__s1@[i] }),
//@loop 2 rty=Vec<Field>
    __r2@.len() == __i2,
    forall|i: int| 0 <= i < __i2 ==> (#[trigger] __r2@[i]).name@ == applied(*r, __s2@[i].name@, Kind::Member) && __r2@[i] == (Field { name: __r2@[i].name, ..__s2@[i] }),
//@loop 3 mode=mut
    forall|i: int| 0 <= i < __i3 ==> (#[trigger] __s3@[i]).name@ == seq!['_'] + __g3[i].name@ && __s3@[i] == (Field { name: __s3@[i].name, ..__g3[i] }),
//@loop 4 mode=mut
    forall|i: int| 0 <= i < __i4 ==> (#[trigger] __s4@[i]).name@ == esc(__g4[i].name@) && __s4@[i] == (Field { name: __s4@[i].name, ..__g4[i] }),
//@end
}
impl Typedef {
//@fn src/bindgen/ir/typedef.rs Typedef::new r
    ensures r.path == path, r.export_name@ == path.name@, r.aliased == aliased,
//@end
//@fn src/bindgen/ir/typedef.rs Item@Typedef::rename_for_config r
    ensures typedef_ren(*old(self), *config, *final(self)),
//@end
}
impl OpaqueItem {
//@fn src/bindgen/ir/opaque.rs OpaqueItem::new r
    ensures r.path == path, r.export_name@ == path.name@,
//@end
//@fn src/bindgen/ir/opaque.rs Item@OpaqueItem::rename_for_config r
    ensures opaque_ren(*old(self), *config, *final(self)),
//@end
}
impl Static {
//@fn src/bindgen/ir/global.rs Item@Static::rename_for_config r
    ensures static_ren(*old(self), *config, *final(self)),
//@subst Default::default() => GenericParams::vx_default()
//@end
}
impl Function {
    /// ptrs-as-arrays only sets array lengths (statement not opened)
    #[verifier::external_body]
    fn vx_set_array_lengths(&mut self)
        ensures final(self).args@.len() == old(self).args@.len(), *final(self) == (Function { args: final(self).args, ..*old(self) }),
            forall|i: int| 0 <= i < old(self).args@.len() ==> (#[trigger] final(self).args@[i]).name == old(self).args@[i].name && final(self).args@[i].ty == old(self).args@[i].ty,
    { unimplemented!() }
//@fn src/bindgen/ir/function.rs Function::rename_for_config r
    ensures function_ren(*old(self), *config, *final(self)),
//@opaque if let Some(tuples) = self.annotations.list("ptrs-as-arrays") => self.vx_set_array_lengths();
//@subst Default::default() => GenericParams::vx_default()
//@subst std::mem::take(&mut self.args) => vx_take_vec(&mut self.args)
//@loop 0 rty=Vec<FunctionArgument>
    __r0@.len() == __i0,
    forall|i: int| 0 <= i < __i0 ==> ((#[trigger] __r0@[i]).name is None <==> __s0@[i].name is None) && __r0@[i].ty == __s0@[i].ty
        && (__r0@[i].name is Some ==> __r0@[i].name->0@ == applied(*r, __s0@[i].name->0@, Kind::Arg)),
//@loop 1 mode=mut
    forall|i: int| 0 <= i < __i1 ==> opt_esc(__g1[i].name, (#[trigger] __s1@[i]).name) && ty_ren(__g1[i].ty, config.export, Seq::empty(), __s1@[i].ty),
//@end
}
impl EnumVariant {
//@fn src/bindgen/ir/enumeration.rs EnumVariant::new r
    ensures r.export_name@ == name@, r.name == name, r.body == body, r.discriminant == discriminant,
//@end
}
/// the body structs of an enum with an inline tag start with the tag field (Enum::load)
pub open spec fn bodies_have_tag(e: Enum) -> bool {
    e.repr.style == ReprStyle::Rust ==> forall|i: int| 0 <= i < e.variants@.len() ==> (#[trigger] e.variants@[i].body matches VariantBody::Body { body, .. } ==> body.fields@.len() > 0)
}
pub open spec fn v_step0(v: EnumVariant, e: Enum, config: Config, r: EnumVariant) -> bool {
    if renames_tag(e, config) && e.repr.style == ReprStyle::Rust { v_tag(v, tag_name(e, config), r) } else { r == v }
}
proof fn lemma_variant(v: EnumVariant, e: Enum, config: Config, v0: EnumVariant, v1: EnumVariant, v2: EnumVariant, v3: EnumVariant, r: EnumVariant)
    requires v_step0(v, e, config, v0), v_ren(v0, config, v1),
        if prefixes(e, config) { v_prefix(v1, e, config, v2) } else { v2 == v1 },
        if variant_rule(e.annotations, config) is None { v3 == v2 } else { v_rule(v2, variant_rule(e.annotations, config), out_name(config.export, e.export_name@), v3) },
        v_esc(v3, r),
    ensures variant_ren(v, e, config, r),
{
    if v.body is Body {
        let m = vbody(v0);
        assert(struct_body_ren(m, config, vbody(r)));
    }
}
impl Enum {
//@fn src/bindgen/ir/enumeration.rs Enum::new r
    ensures r.path == path, r.export_name@ == path.name@,
//@end
//@fn src/bindgen/ir/enumeration.rs Item@Enum::rename_for_config r
    requires bodies_have_tag(*old(self)),
    ensures enum_ren(*old(self), *config, *final(self)),
//@subst let path = Path::new( => let path = Path::vx_new(
//@pre
    let ghost e0 = *old(self);
    let ghost mut a0 = self.variants@;
    let ghost mut a1 = self.variants@;
    let ghost mut a2 = self.variants@;
    let ghost mut a3 = self.variants@;
//@loop 0 mode=mut
    forall|i: int| 0 <= i < __i0 ==> v_tag(__g0[i], new_tag@, #[trigger] __s0@[i]),
//@loop 1 before
    proof {
        a0 = __g1;
        assert(forall|i: int| 0 <= i < a0.len() ==> v_step0(e0.variants@[i], e0, *config, #[trigger] a0[i]));
    }
//@loop 1 mode=mut
    forall|i: int| 0 <= i < __i1 ==> v_ren(__g1[i], *config, #[trigger] __s1@[i]),
//@loop 1 after
    proof {
        a1 = self.variants@; a2 = a1;
        assert(forall|i: int| 0 <= i < a0.len() ==> v_ren(a0[i], *config, #[trigger] a1[i]));
    }
//@loop 2 mode=mut
    forall|i: int| 0 <= i < __i2 ==> v_prefix(__g2[i], *old(self), *config, #[trigger] __s2@[i]),
//@loop 2 after
    proof { a2 = self.variants@; }
//@loop 4 before
    proof { a3 = __g4; }
//@post
    proof {
        assert forall|i: int| 0 <= i < e0.variants@.len() implies variant_ren(e0.variants@[i], e0, *config, #[trigger] self.variants@[i]) by {
            assert(a2[i] == a2[i] && a1[i] == a1[i] && a0[i] == a0[i] && a3[i] == a3[i]);
            lemma_variant(e0.variants@[i], e0, *config, a0[i], a1[i], a2[i], a3[i], self.variants@[i]);
        }
    }
//@loop 3 rty=Vec<EnumVariant>
    __r3@.len() == __i3,
    forall|i: int| 0 <= i < __i3 ==> v_rule(__s3@[i], *r, self.export_name@, #[trigger] __r3@[i]),
//@loop 4 mode=mut
    forall|i: int| 0 <= i < __i4 ==> v_esc(__g4[i], #[trigger] __s4@[i]),
//@end
}
pub open spec fn library_ren(l: Library, c: Config, r: Library) -> bool {
    &&& r.globals.all@.len() == l.globals.all@.len() && forall|i: int| 0 <= i < l.globals.all@.len() ==> static_ren(l.globals.all@[i], c, #[trigger] r.globals.all@[i])
    &&& r.constants.all@.len() == l.constants.all@.len() && forall|i: int| 0 <= i < l.constants.all@.len() ==> constant_ren(l.constants.all@[i], c.export, #[trigger] r.constants.all@[i])
    &&& r.structs.all@.len() == l.structs.all@.len() && forall|i: int| 0 <= i < l.structs.all@.len() ==> struct_ren(l.structs.all@[i], c, #[trigger] r.structs.all@[i])
    &&& r.unions.all@.len() == l.unions.all@.len() && forall|i: int| 0 <= i < l.unions.all@.len() ==> union_ren(l.unions.all@[i], c, #[trigger] r.unions.all@[i])
    &&& r.enums.all@.len() == l.enums.all@.len() && forall|i: int| 0 <= i < l.enums.all@.len() ==> enum_ren(l.enums.all@[i], c, #[trigger] r.enums.all@[i])
    &&& r.opaque_items.all@.len() == l.opaque_items.all@.len() && forall|i: int| 0 <= i < l.opaque_items.all@.len() ==> opaque_ren(l.opaque_items.all@[i], c, #[trigger] r.opaque_items.all@[i])
    &&& r.typedefs.all@.len() == l.typedefs.all@.len() && forall|i: int| 0 <= i < l.typedefs.all@.len() ==> typedef_ren(l.typedefs.all@[i], c, #[trigger] r.typedefs.all@[i])
    &&& r.functions@.len() == l.functions@.len() && forall|i: int| 0 <= i < l.functions@.len() ==> function_ren(l.functions@[i], c, #[trigger] r.functions@[i])
    &&& r.config == l.config
}
impl Library {
//@fn src/bindgen/library.rs Library::rename_items r
    requires forall|i: int| 0 <= i < old(self).enums.all@.len() ==> bodies_have_tag(#[trigger] old(self).enums.all@[i]),
    ensures library_ren(*old(self), old(self).config, *final(self)),
//@loop 0
    forall|i: int| 0 <= i < __i0 ==> static_ren(__g0[i], *config, #[trigger] __s0@[i]),
//@loop 1
    forall|i: int| 0 <= i < __i1 ==> constant_ren(__g1[i], config.export, #[trigger] __s1@[i]),
//@loop 2
    forall|i: int| 0 <= i < __i2 ==> struct_ren(__g2[i], *config, #[trigger] __s2@[i]),
//@loop 3
    forall|i: int| 0 <= i < __i3 ==> union_ren(__g3[i], *config, #[trigger] __s3@[i]),
//@loop 4
    forall|i: int| 0 <= i < __i4 ==> enum_ren(__g4[i], *config, #[trigger] __s4@[i]),
//@loop 5
    forall|i: int| 0 <= i < __i5 ==> opaque_ren(__g5[i], *config, #[trigger] __s5@[i]),
//@loop 6
    forall|i: int| 0 <= i < __i6 ==> typedef_ren(__g6[i], *config, #[trigger] __s6@[i]),
//@loop 7 mode=mut
    forall|i: int| 0 <= i < __i7 ==> function_ren(__g7[i], self.config, #[trigger] __s7@[i]),
//@end
}
} // verus!
fn main() {}
