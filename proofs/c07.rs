//@include prelude.inc
//@include ty_types.inc
verus! {
//@include ty_basic.inc
//@include rename_items.inc

// ---------------- specification ----------------
/// The reserved words of C and C++ (independent list; the code's table must equal it).
pub open spec fn KW() -> Seq<Seq<char>> { seq!["alignas"@, "alignof"@, "auto"@, "bool"@, "break"@, "case"@, "catch"@, "char"@, "char16_t"@, "char32_t"@, "char8_t"@, "class"@, "const"@, "const_cast"@, "consteval"@, "constexpr"@, "continue"@, "decltype"@, "default"@, "delete"@, "do"@, "double"@, "dynamic_cast"@, "else"@, "enum"@, "explicit"@, "export"@, "extern"@, "false"@, "float"@, "for"@, "friend"@, "goto"@, "if"@, "inline"@, "int"@, "long"@, "mutable"@, "namespace"@, "new"@, "noexcept"@, "nullptr"@, "operator"@, "private"@, "protected"@, "public"@, "register"@, "reinterpret_cast"@, "return"@, "short"@, "signed"@, "sizeof"@, "static"@, "static_assert"@, "static_cast"@, "struct"@, "switch"@, "template"@, "this"@, "thread_local"@, "throw"@, "true"@, "try"@, "typedef"@, "typename"@, "union"@, "unsigned"@, "using"@, "virtual"@, "void"@, "volatile"@, "wchar_t"@, "while"@] }
pub open spec fn keyword(s: Seq<char>) -> bool { KW().contains(s) }
/// What is printed for an identifier that would otherwise be s.
pub open spec fn esc(s: Seq<char>) -> Seq<char> { if keyword(s) { s.push('_') } else { s } }
/// Byte-wise order of strings, as slices are searched.
pub open spec fn lt_from(a: Seq<char>, b: Seq<char>, i: int) -> bool
    decreases a.len() - i
{
    if i < 0 || i >= b.len() { false } else if i >= a.len() { true }
    else if a[i] != b[i] { a[i] < b[i] } else { lt_from(a, b, i + 1) }
}
pub open spec fn str_lt(a: Seq<char>, b: Seq<char>) -> bool { lt_from(a, b, 0) }
pub open spec fn sorted(t: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < t.len() - 1 ==> str_lt(#[trigger] t[i], t[i + 1]) }
proof fn lt_0() ensures str_lt("alignas"@, "alignof"@) { reveal_strlit("alignas"); reveal_strlit("alignof"); reveal_with_fuel(lt_from, 7); }
proof fn lt_1() ensures str_lt("alignof"@, "auto"@) { reveal_strlit("alignof"); reveal_strlit("auto"); reveal_with_fuel(lt_from, 3); }
proof fn lt_2() ensures str_lt("auto"@, "bool"@) { reveal_strlit("auto"); reveal_strlit("bool"); reveal_with_fuel(lt_from, 2); }
proof fn lt_3() ensures str_lt("bool"@, "break"@) { reveal_strlit("bool"); reveal_strlit("break"); reveal_with_fuel(lt_from, 3); }
proof fn lt_4() ensures str_lt("break"@, "case"@) { reveal_strlit("break"); reveal_strlit("case"); reveal_with_fuel(lt_from, 2); }
proof fn lt_5() ensures str_lt("case"@, "catch"@) { reveal_strlit("case"); reveal_strlit("catch"); reveal_with_fuel(lt_from, 4); }
proof fn lt_6() ensures str_lt("catch"@, "char"@) { reveal_strlit("catch"); reveal_strlit("char"); reveal_with_fuel(lt_from, 3); }
proof fn lt_7() ensures str_lt("char"@, "char16_t"@) { reveal_strlit("char"); reveal_strlit("char16_t"); reveal_with_fuel(lt_from, 6); }
proof fn lt_8() ensures str_lt("char16_t"@, "char32_t"@) { reveal_strlit("char16_t"); reveal_strlit("char32_t"); reveal_with_fuel(lt_from, 6); }
proof fn lt_9() ensures str_lt("char32_t"@, "char8_t"@) { reveal_strlit("char32_t"); reveal_strlit("char8_t"); reveal_with_fuel(lt_from, 6); }
proof fn lt_10() ensures str_lt("char8_t"@, "class"@) { reveal_strlit("char8_t"); reveal_strlit("class"); reveal_with_fuel(lt_from, 3); }
proof fn lt_11() ensures str_lt("class"@, "const"@) { reveal_strlit("class"); reveal_strlit("const"); reveal_with_fuel(lt_from, 3); }
proof fn lt_12() ensures str_lt("const"@, "const_cast"@) { reveal_strlit("const"); reveal_strlit("const_cast"); reveal_with_fuel(lt_from, 7); }
proof fn lt_13() ensures str_lt("const_cast"@, "consteval"@) { reveal_strlit("const_cast"); reveal_strlit("consteval"); reveal_with_fuel(lt_from, 7); }
proof fn lt_14() ensures str_lt("consteval"@, "constexpr"@) { reveal_strlit("consteval"); reveal_strlit("constexpr"); reveal_with_fuel(lt_from, 8); }
proof fn lt_15() ensures str_lt("constexpr"@, "continue"@) { reveal_strlit("constexpr"); reveal_strlit("continue"); reveal_with_fuel(lt_from, 5); }
proof fn lt_16() ensures str_lt("continue"@, "decltype"@) { reveal_strlit("continue"); reveal_strlit("decltype"); reveal_with_fuel(lt_from, 2); }
proof fn lt_17() ensures str_lt("decltype"@, "default"@) { reveal_strlit("decltype"); reveal_strlit("default"); reveal_with_fuel(lt_from, 4); }
proof fn lt_18() ensures str_lt("default"@, "delete"@) { reveal_strlit("default"); reveal_strlit("delete"); reveal_with_fuel(lt_from, 4); }
proof fn lt_19() ensures str_lt("delete"@, "do"@) { reveal_strlit("delete"); reveal_strlit("do"); reveal_with_fuel(lt_from, 3); }
proof fn lt_20() ensures str_lt("do"@, "double"@) { reveal_strlit("do"); reveal_strlit("double"); reveal_with_fuel(lt_from, 4); }
proof fn lt_21() ensures str_lt("double"@, "dynamic_cast"@) { reveal_strlit("double"); reveal_strlit("dynamic_cast"); reveal_with_fuel(lt_from, 3); }
proof fn lt_22() ensures str_lt("dynamic_cast"@, "else"@) { reveal_strlit("dynamic_cast"); reveal_strlit("else"); reveal_with_fuel(lt_from, 2); }
proof fn lt_23() ensures str_lt("else"@, "enum"@) { reveal_strlit("else"); reveal_strlit("enum"); reveal_with_fuel(lt_from, 3); }
proof fn lt_24() ensures str_lt("enum"@, "explicit"@) { reveal_strlit("enum"); reveal_strlit("explicit"); reveal_with_fuel(lt_from, 3); }
proof fn lt_25() ensures str_lt("explicit"@, "export"@) { reveal_strlit("explicit"); reveal_strlit("export"); reveal_with_fuel(lt_from, 5); }
proof fn lt_26() ensures str_lt("export"@, "extern"@) { reveal_strlit("export"); reveal_strlit("extern"); reveal_with_fuel(lt_from, 4); }
proof fn lt_27() ensures str_lt("extern"@, "false"@) { reveal_strlit("extern"); reveal_strlit("false"); reveal_with_fuel(lt_from, 2); }
proof fn lt_28() ensures str_lt("false"@, "float"@) { reveal_strlit("false"); reveal_strlit("float"); reveal_with_fuel(lt_from, 3); }
proof fn lt_29() ensures str_lt("float"@, "for"@) { reveal_strlit("float"); reveal_strlit("for"); reveal_with_fuel(lt_from, 3); }
proof fn lt_30() ensures str_lt("for"@, "friend"@) { reveal_strlit("for"); reveal_strlit("friend"); reveal_with_fuel(lt_from, 3); }
proof fn lt_31() ensures str_lt("friend"@, "goto"@) { reveal_strlit("friend"); reveal_strlit("goto"); reveal_with_fuel(lt_from, 2); }
proof fn lt_32() ensures str_lt("goto"@, "if"@) { reveal_strlit("goto"); reveal_strlit("if"); reveal_with_fuel(lt_from, 2); }
proof fn lt_33() ensures str_lt("if"@, "inline"@) { reveal_strlit("if"); reveal_strlit("inline"); reveal_with_fuel(lt_from, 3); }
proof fn lt_34() ensures str_lt("inline"@, "int"@) { reveal_strlit("inline"); reveal_strlit("int"); reveal_with_fuel(lt_from, 4); }
proof fn lt_35() ensures str_lt("int"@, "long"@) { reveal_strlit("int"); reveal_strlit("long"); reveal_with_fuel(lt_from, 2); }
proof fn lt_36() ensures str_lt("long"@, "mutable"@) { reveal_strlit("long"); reveal_strlit("mutable"); reveal_with_fuel(lt_from, 2); }
proof fn lt_37() ensures str_lt("mutable"@, "namespace"@) { reveal_strlit("mutable"); reveal_strlit("namespace"); reveal_with_fuel(lt_from, 2); }
proof fn lt_38() ensures str_lt("namespace"@, "new"@) { reveal_strlit("namespace"); reveal_strlit("new"); reveal_with_fuel(lt_from, 3); }
proof fn lt_39() ensures str_lt("new"@, "noexcept"@) { reveal_strlit("new"); reveal_strlit("noexcept"); reveal_with_fuel(lt_from, 3); }
proof fn lt_40() ensures str_lt("noexcept"@, "nullptr"@) { reveal_strlit("noexcept"); reveal_strlit("nullptr"); reveal_with_fuel(lt_from, 3); }
proof fn lt_41() ensures str_lt("nullptr"@, "operator"@) { reveal_strlit("nullptr"); reveal_strlit("operator"); reveal_with_fuel(lt_from, 2); }
proof fn lt_42() ensures str_lt("operator"@, "private"@) { reveal_strlit("operator"); reveal_strlit("private"); reveal_with_fuel(lt_from, 2); }
proof fn lt_43() ensures str_lt("private"@, "protected"@) { reveal_strlit("private"); reveal_strlit("protected"); reveal_with_fuel(lt_from, 4); }
proof fn lt_44() ensures str_lt("protected"@, "public"@) { reveal_strlit("protected"); reveal_strlit("public"); reveal_with_fuel(lt_from, 3); }
proof fn lt_45() ensures str_lt("public"@, "register"@) { reveal_strlit("public"); reveal_strlit("register"); reveal_with_fuel(lt_from, 2); }
proof fn lt_46() ensures str_lt("register"@, "reinterpret_cast"@) { reveal_strlit("register"); reveal_strlit("reinterpret_cast"); reveal_with_fuel(lt_from, 4); }
proof fn lt_47() ensures str_lt("reinterpret_cast"@, "return"@) { reveal_strlit("reinterpret_cast"); reveal_strlit("return"); reveal_with_fuel(lt_from, 4); }
proof fn lt_48() ensures str_lt("return"@, "short"@) { reveal_strlit("return"); reveal_strlit("short"); reveal_with_fuel(lt_from, 2); }
proof fn lt_49() ensures str_lt("short"@, "signed"@) { reveal_strlit("short"); reveal_strlit("signed"); reveal_with_fuel(lt_from, 3); }
proof fn lt_50() ensures str_lt("signed"@, "sizeof"@) { reveal_strlit("signed"); reveal_strlit("sizeof"); reveal_with_fuel(lt_from, 4); }
proof fn lt_51() ensures str_lt("sizeof"@, "static"@) { reveal_strlit("sizeof"); reveal_strlit("static"); reveal_with_fuel(lt_from, 3); }
proof fn lt_52() ensures str_lt("static"@, "static_assert"@) { reveal_strlit("static"); reveal_strlit("static_assert"); reveal_with_fuel(lt_from, 8); }
proof fn lt_53() ensures str_lt("static_assert"@, "static_cast"@) { reveal_strlit("static_assert"); reveal_strlit("static_cast"); reveal_with_fuel(lt_from, 9); }
proof fn lt_54() ensures str_lt("static_cast"@, "struct"@) { reveal_strlit("static_cast"); reveal_strlit("struct"); reveal_with_fuel(lt_from, 4); }
proof fn lt_55() ensures str_lt("struct"@, "switch"@) { reveal_strlit("struct"); reveal_strlit("switch"); reveal_with_fuel(lt_from, 3); }
proof fn lt_56() ensures str_lt("switch"@, "template"@) { reveal_strlit("switch"); reveal_strlit("template"); reveal_with_fuel(lt_from, 2); }
proof fn lt_57() ensures str_lt("template"@, "this"@) { reveal_strlit("template"); reveal_strlit("this"); reveal_with_fuel(lt_from, 3); }
proof fn lt_58() ensures str_lt("this"@, "thread_local"@) { reveal_strlit("this"); reveal_strlit("thread_local"); reveal_with_fuel(lt_from, 4); }
proof fn lt_59() ensures str_lt("thread_local"@, "throw"@) { reveal_strlit("thread_local"); reveal_strlit("throw"); reveal_with_fuel(lt_from, 5); }
proof fn lt_60() ensures str_lt("throw"@, "true"@) { reveal_strlit("throw"); reveal_strlit("true"); reveal_with_fuel(lt_from, 3); }
proof fn lt_61() ensures str_lt("true"@, "try"@) { reveal_strlit("true"); reveal_strlit("try"); reveal_with_fuel(lt_from, 4); }
proof fn lt_62() ensures str_lt("try"@, "typedef"@) { reveal_strlit("try"); reveal_strlit("typedef"); reveal_with_fuel(lt_from, 3); }
proof fn lt_63() ensures str_lt("typedef"@, "typename"@) { reveal_strlit("typedef"); reveal_strlit("typename"); reveal_with_fuel(lt_from, 6); }
proof fn lt_64() ensures str_lt("typename"@, "union"@) { reveal_strlit("typename"); reveal_strlit("union"); reveal_with_fuel(lt_from, 2); }
proof fn lt_65() ensures str_lt("union"@, "unsigned"@) { reveal_strlit("union"); reveal_strlit("unsigned"); reveal_with_fuel(lt_from, 4); }
proof fn lt_66() ensures str_lt("unsigned"@, "using"@) { reveal_strlit("unsigned"); reveal_strlit("using"); reveal_with_fuel(lt_from, 3); }
proof fn lt_67() ensures str_lt("using"@, "virtual"@) { reveal_strlit("using"); reveal_strlit("virtual"); reveal_with_fuel(lt_from, 2); }
proof fn lt_68() ensures str_lt("virtual"@, "void"@) { reveal_strlit("virtual"); reveal_strlit("void"); reveal_with_fuel(lt_from, 3); }
proof fn lt_69() ensures str_lt("void"@, "volatile"@) { reveal_strlit("void"); reveal_strlit("volatile"); reveal_with_fuel(lt_from, 4); }
proof fn lt_70() ensures str_lt("volatile"@, "wchar_t"@) { reveal_strlit("volatile"); reveal_strlit("wchar_t"); reveal_with_fuel(lt_from, 2); }
proof fn lt_71() ensures str_lt("wchar_t"@, "while"@) { reveal_strlit("wchar_t"); reveal_strlit("while"); reveal_with_fuel(lt_from, 3); }
proof fn lemma_sorted() ensures sorted(KW())
{
    lt_0();
    lt_1();
    lt_2();
    lt_3();
    lt_4();
    lt_5();
    lt_6();
    lt_7();
    lt_8();
    lt_9();
    lt_10();
    lt_11();
    lt_12();
    lt_13();
    lt_14();
    lt_15();
    lt_16();
    lt_17();
    lt_18();
    lt_19();
    lt_20();
    lt_21();
    lt_22();
    lt_23();
    lt_24();
    lt_25();
    lt_26();
    lt_27();
    lt_28();
    lt_29();
    lt_30();
    lt_31();
    lt_32();
    lt_33();
    lt_34();
    lt_35();
    lt_36();
    lt_37();
    lt_38();
    lt_39();
    lt_40();
    lt_41();
    lt_42();
    lt_43();
    lt_44();
    lt_45();
    lt_46();
    lt_47();
    lt_48();
    lt_49();
    lt_50();
    lt_51();
    lt_52();
    lt_53();
    lt_54();
    lt_55();
    lt_56();
    lt_57();
    lt_58();
    lt_59();
    lt_60();
    lt_61();
    lt_62();
    lt_63();
    lt_64();
    lt_65();
    lt_66();
    lt_67();
    lt_68();
    lt_69();
    lt_70();
    lt_71();
}
/// An escaped identifier is never a keyword, so escaping twice changes nothing.
proof fn lemma_esc_never_keyword(s: Seq<char>) ensures !keyword(esc(s)), esc(esc(s)) == esc(s)
{
    if keyword(s) {
    reveal_strlit("alignas"); assert("alignas"@.last() != '_');
    reveal_strlit("alignof"); assert("alignof"@.last() != '_');
    reveal_strlit("auto"); assert("auto"@.last() != '_');
    reveal_strlit("bool"); assert("bool"@.last() != '_');
    reveal_strlit("break"); assert("break"@.last() != '_');
    reveal_strlit("case"); assert("case"@.last() != '_');
    reveal_strlit("catch"); assert("catch"@.last() != '_');
    reveal_strlit("char"); assert("char"@.last() != '_');
    reveal_strlit("char16_t"); assert("char16_t"@.last() != '_');
    reveal_strlit("char32_t"); assert("char32_t"@.last() != '_');
    reveal_strlit("char8_t"); assert("char8_t"@.last() != '_');
    reveal_strlit("class"); assert("class"@.last() != '_');
    reveal_strlit("const"); assert("const"@.last() != '_');
    reveal_strlit("const_cast"); assert("const_cast"@.last() != '_');
    reveal_strlit("consteval"); assert("consteval"@.last() != '_');
    reveal_strlit("constexpr"); assert("constexpr"@.last() != '_');
    reveal_strlit("continue"); assert("continue"@.last() != '_');
    reveal_strlit("decltype"); assert("decltype"@.last() != '_');
    reveal_strlit("default"); assert("default"@.last() != '_');
    reveal_strlit("delete"); assert("delete"@.last() != '_');
    reveal_strlit("do"); assert("do"@.last() != '_');
    reveal_strlit("double"); assert("double"@.last() != '_');
    reveal_strlit("dynamic_cast"); assert("dynamic_cast"@.last() != '_');
    reveal_strlit("else"); assert("else"@.last() != '_');
    reveal_strlit("enum"); assert("enum"@.last() != '_');
    reveal_strlit("explicit"); assert("explicit"@.last() != '_');
    reveal_strlit("export"); assert("export"@.last() != '_');
    reveal_strlit("extern"); assert("extern"@.last() != '_');
    reveal_strlit("false"); assert("false"@.last() != '_');
    reveal_strlit("float"); assert("float"@.last() != '_');
    reveal_strlit("for"); assert("for"@.last() != '_');
    reveal_strlit("friend"); assert("friend"@.last() != '_');
    reveal_strlit("goto"); assert("goto"@.last() != '_');
    reveal_strlit("if"); assert("if"@.last() != '_');
    reveal_strlit("inline"); assert("inline"@.last() != '_');
    reveal_strlit("int"); assert("int"@.last() != '_');
    reveal_strlit("long"); assert("long"@.last() != '_');
    reveal_strlit("mutable"); assert("mutable"@.last() != '_');
    reveal_strlit("namespace"); assert("namespace"@.last() != '_');
    reveal_strlit("new"); assert("new"@.last() != '_');
    reveal_strlit("noexcept"); assert("noexcept"@.last() != '_');
    reveal_strlit("nullptr"); assert("nullptr"@.last() != '_');
    reveal_strlit("operator"); assert("operator"@.last() != '_');
    reveal_strlit("private"); assert("private"@.last() != '_');
    reveal_strlit("protected"); assert("protected"@.last() != '_');
    reveal_strlit("public"); assert("public"@.last() != '_');
    reveal_strlit("register"); assert("register"@.last() != '_');
    reveal_strlit("reinterpret_cast"); assert("reinterpret_cast"@.last() != '_');
    reveal_strlit("return"); assert("return"@.last() != '_');
    reveal_strlit("short"); assert("short"@.last() != '_');
    reveal_strlit("signed"); assert("signed"@.last() != '_');
    reveal_strlit("sizeof"); assert("sizeof"@.last() != '_');
    reveal_strlit("static"); assert("static"@.last() != '_');
    reveal_strlit("static_assert"); assert("static_assert"@.last() != '_');
    reveal_strlit("static_cast"); assert("static_cast"@.last() != '_');
    reveal_strlit("struct"); assert("struct"@.last() != '_');
    reveal_strlit("switch"); assert("switch"@.last() != '_');
    reveal_strlit("template"); assert("template"@.last() != '_');
    reveal_strlit("this"); assert("this"@.last() != '_');
    reveal_strlit("thread_local"); assert("thread_local"@.last() != '_');
    reveal_strlit("throw"); assert("throw"@.last() != '_');
    reveal_strlit("true"); assert("true"@.last() != '_');
    reveal_strlit("try"); assert("try"@.last() != '_');
    reveal_strlit("typedef"); assert("typedef"@.last() != '_');
    reveal_strlit("typename"); assert("typename"@.last() != '_');
    reveal_strlit("union"); assert("union"@.last() != '_');
    reveal_strlit("unsigned"); assert("unsigned"@.last() != '_');
    reveal_strlit("using"); assert("using"@.last() != '_');
    reveal_strlit("virtual"); assert("virtual"@.last() != '_');
    reveal_strlit("void"); assert("void"@.last() != '_');
    reveal_strlit("volatile"); assert("volatile"@.last() != '_');
    reveal_strlit("wchar_t"); assert("wchar_t"@.last() != '_');
    reveal_strlit("while"); assert("while"@.last() != '_');
        assert forall|i: int| 0 <= i < KW().len() implies (#[trigger] KW()[i]).last() != '_' by { }
        assert(s.push('_').last() == '_');
    }
}
// ---------------- the table of the code ----------------
//@type src/bindgen/reserved.rs RESERVED_KEYWORDS array
/// Stand-in for the constant slice; searching and membership as std documents them.
pub struct VxTable;
pub const RESERVED_KEYWORDS: VxTable = VxTable;
impl VxTable {
    #[verifier::external_body]
    pub fn binary_search(&self, x: &&str) -> (r: Result<usize, usize>)
        requires sorted(RESERVED_KEYWORDS_spec()),
        ensures r is Ok <==> RESERVED_KEYWORDS_spec().contains(x@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, x: &&str) -> (r: bool)
        ensures r == RESERVED_KEYWORDS_spec().contains(x@),
    { unimplemented!() }
}
proof fn lemma_table() ensures RESERVED_KEYWORDS_spec() == KW(), sorted(RESERVED_KEYWORDS_spec())
{ lemma_sorted(); assert(RESERVED_KEYWORDS_spec() =~= KW()); }
pub struct MangleCfg { pub remove_underscores: bool }
pub struct ExportConfig { pub mangle: MangleCfg, pub x: ExportRest }
#[verifier::external_body] pub struct ExportRest { _p: () }
pub struct StructConfig { pub rename_fields: RenameRule }
pub struct FunctionConfig { pub rename_args: RenameRule }
pub struct EnumConfig { pub rename_variants: RenameRule, pub prefix_with_name: bool }
pub struct Config { pub export: ExportConfig, pub language: Language, pub structure: StructConfig, pub function: FunctionConfig, pub enumeration: EnumConfig }
pub uninterp spec fn exported(e: ExportConfig, s: Seq<char>) -> Seq<char>;
impl ExportConfig {
    /// property C11
    #[verifier::external_body] pub fn rename(&self, item_name: &mut String) ensures final(item_name)@ == exported(*self, old(item_name)@) { unimplemented!() }
}
/// What a rename rule makes of an identifier (property C11).
pub uninterp spec fn applied(r: RenameRule, text: Seq<char>, ctx: IdentifierType) -> Seq<char>;
impl RenameRule {
//@fn src/bindgen/rename.rs RenameRule::not_none r
    ensures r is None <==> *self is None, r is Some ==> *r->0 == *self,
//@end
    #[verifier::external_body] pub fn apply(&self, text: &str, context: IdentifierType) -> (r: CowStr) ensures r@ == applied(*self, text@, context) { unimplemented!() }
}
impl Constant { #[verifier::external_body] pub fn rename_for_config(&mut self, config: &Config) { unimplemented!() } }
impl ConstExpr { #[verifier::external_body] pub fn rename_for_config(&mut self, config: &Config, generic_params: &GenericParams) { unimplemented!() } }
impl GenericParams { #[verifier::external_body] pub fn vx_default() -> (r: GenericParams) ensures r.0@.len() == 0 { unimplemented!() } }

/// r is t with every argument name of every function pointer in it escaped.
pub open spec fn args_esc(t: Type, r: Type) -> bool
    decreases t
{
    match t {
        Type::Ptr { ty, is_const, is_nullable, is_ref } =>
            r matches Type::Ptr { ty: t2, .. } && args_esc(*ty, *t2),
        Type::Path(g) =>
            r matches Type::Path(g2) && g2.generics@.len() == g.generics@.len()
            && forall|i: int| 0 <= i < g.generics@.len() ==> ga_esc(#[trigger] g.generics@[i], g2.generics@[i]),
        Type::Primitive(_) => true,
        Type::Array(ty, len) => r matches Type::Array(t2, _) && args_esc(*ty, *t2),
        Type::FuncPtr { ret, args, is_nullable, never_return } =>
            r matches Type::FuncPtr { ret: ret2, args: args2, .. }
            && args_esc(*ret, *ret2)
            && args2@.len() == args@.len()
            && forall|i: int| 0 <= i < args@.len() ==> opt_esc(#[trigger] args@[i].0, args2@[i].0) && args_esc(args@[i].1, args2@[i].1),
    }
}
pub open spec fn ga_esc(a: GenericArgument, r: GenericArgument) -> bool
    decreases a
{
    match a {
        GenericArgument::Const(_) => true,
        GenericArgument::Type(t) => r is Type && args_esc(t, r->Type_0),
    }
}
pub open spec fn opt_esc(a: Option<String>, r: Option<String>) -> bool {
    (a is None <==> r is None) && (a is Some ==> r->0@ == esc(a->0@))
}
pub open spec fn field_rule(a: AnnotationSet, config: Config) -> RenameRule {
    match a.rule_of("rename-all"@) { Some(r) => r, None => config.structure.rename_fields }
}
/// The name of a struct field before escaping.
pub open spec fn field_base(s: Struct, config: Config, i: int) -> Seq<char> {
    let n = s.fields@[i].name@;
    match s.annotations.list_of("field-names"@) {
        Some(l) => if i < l@.len() { l@[i]@ } else { n },
        None => if !(field_rule(s.annotations, config) is None) { applied(field_rule(s.annotations, config), n, IdentifierType::StructMember) }
            else if n.len() > 0 && is_digit_ch(n[0]) { seq!['_'] + n } else { n },
    }
}
pub open spec fn ufield_base(s: Union, config: Config, i: int) -> Seq<char> {
    let n = s.fields@[i].name@;
    match s.annotations.list_of("field-names"@) {
        Some(l) => if i < l@.len() { l@[i]@ } else { n },
        None => if !(field_rule(s.annotations, config) is None) { applied(field_rule(s.annotations, config), n, IdentifierType::StructMember) }
            else if s.tuple_union { seq!['_'] + n } else { n },
    }
}
pub open spec fn arg_rule(a: AnnotationSet, config: Config) -> RenameRule {
    match a.rule_of("rename-all"@) { Some(r) => r, None => config.function.rename_args }
}
pub open spec fn arg_base(n: Seq<char>, f: Function, config: Config) -> Seq<char> {
    if arg_rule(f.annotations, config) is None { n } else { applied(arg_rule(f.annotations, config), n, IdentifierType::FunctionArg) }
}

//@type src/bindgen/ir/repr.rs ReprStyle derive=Clone,Copy
impl PartialEq for ReprStyle { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl PartialEqSpecImpl for ReprStyle {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
//@type src/bindgen/ir/repr.rs ReprType derive=Clone,Copy
//@type src/bindgen/ir/repr.rs Repr derive=Clone,Copy
//@type src/bindgen/ir/enumeration.rs VariantBody
//@type src/bindgen/ir/enumeration.rs EnumVariant
//@type src/bindgen/ir/enumeration.rs Enum
impl Clone for VariantBody { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Literal { #[verifier::external_body] pub fn rename_for_config(&mut self, config: &Config) { unimplemented!() } }
impl Path { #[verifier::external_body] pub fn vx_new(n: String) -> (r: Path) ensures r.name == n { unimplemented!() } }
pub open spec fn variant_rule(a: AnnotationSet, config: Config) -> RenameRule {
    match a.rule_of("rename-all"@) { Some(r) => r, None => config.enumeration.rename_variants }
}
pub open spec fn prefixes(e: Enum, config: Config) -> bool {
    match e.annotations.bool_of("prefix-with-name"@) { Some(b) => b, None => config.enumeration.prefix_with_name }
}
pub open spec fn sep(config: Config) -> Seq<char> { if config.export.mangle.remove_underscores { ""@ } else { "_"@ } }
/// The name of a variant before the final escape; x is the enum's own output name.
pub open spec fn variant_base(e: Enum, x: String, config: Config, n: Seq<char>) -> Seq<char> {
    let p = if prefixes(e, config) { x@ + sep(config) + esc(n) } else { esc(n) };
    if variant_rule(e.annotations, config) is None { p } else { applied(variant_rule(e.annotations, config), p, vctx(x)) }
}
pub open spec fn vctx<'a>(x: String) -> IdentifierType<'a> { IdentifierType::EnumVariant { prefix: choose|s: &'a str| s@ == x@ } }
pub open spec fn body_base(e: Enum, config: Config, n: Seq<char>) -> Seq<char> {
    if variant_rule(e.annotations, config) is None { esc(n) } else { applied(variant_rule(e.annotations, config), esc(n), IdentifierType::StructMember) }
}
pub open spec fn body_name(v: EnumVariant) -> Option<Seq<char>> {
    match v.body { VariantBody::Empty(_) => None, VariantBody::Body { name, .. } => Some(name@) }
}
// ---------------- code under contract ----------------
pub mod reserved {
use super::*;
//@fn src/bindgen/reserved.rs escape r
    ensures final(rust_identifier)@ == esc(old(rust_identifier)@),
//@subst .as_ref() => .as_str()
//@pre
    proof { lemma_table(); }
//@end
}
impl GenericArgument {
//@fn src/bindgen/ir/generic_path.rs GenericArgument::rename_for_config r
    ensures ga_esc(*old(self), *final(self)),
//@end
}
impl GenericPath {
//@fn src/bindgen/ir/generic_path.rs GenericPath::rename_for_config r
    ensures final(self).generics@.len() == old(self).generics@.len(),
        forall|i: int| 0 <= i < old(self).generics@.len() ==> ga_esc(#[trigger] old(self).generics@[i], final(self).generics@[i]),
//@loop 0 mode=mut
    forall|i: int| 0 <= i < __i0 ==> ga_esc(#[trigger] __g0[i], __s0@[i]),
//@loop 1
//@end
}
impl Type {
//@fn src/bindgen/ir/ty.rs Type::rename_for_config r
    ensures args_esc(*old(self), *final(self)),
//@loop 0 mode=mut
    forall|i: int| 0 <= i < __i0 ==> opt_esc(#[trigger] __g0[i].0, __s0@[i].0) && args_esc(__g0[i].1, __s0@[i].1),
//@end
}
impl Struct {
//@fn src/bindgen/ir/structure.rs Item@Struct::rename_for_config r
    ensures final(self).fields@.len() == old(self).fields@.len(),
        forall|i: int| 0 <= i < old(self).fields@.len() ==> (#[trigger] final(self).fields@[i]).name@ == esc(field_base(*old(self), *config, i)),
//@subst self.has_tag_field as usize => (if self.has_tag_field { 1usize } else { 0usize })
//@loop 0 mode=mut
    forall|i: int| 0 <= i < __s0@.len() ==> (#[trigger] __s0@[i]).name == __g0[i].name,
//@loop 1 mode=mut
    __i1 <= __z1@.len(),
    forall|i: int| 0 <= i < __i1 ==> (#[trigger] __s1@[i]).name@ == __z1@[i]@,
//@loop 2 mode=mut
    forall|i: int| 0 <= i < __i2 ==> (#[trigger] __s2@[i]).name@ == applied(*r, __g2[i].name@, IdentifierType::StructMember),
//@loop 3 mode=mut
    forall|i: int| 0 <= i < __i3 ==> (#[trigger] __s3@[i]).name@ == (if __g3[i].name@.len() > 0 && is_digit_ch(__g3[i].name@[0]) { seq!['_'] + __g3[i].name@ } else { __g3[i].name@ }),
//@loop 4 mode=mut
    forall|i: int| 0 <= i < __i4 ==> (#[trigger] __s4@[i]).name@ == esc(__g4[i].name@),
//@loop 5 mode=mut
//@end
}
impl Union {
//@fn src/bindgen/ir/union.rs Item@Union::rename_for_config r
    ensures final(self).fields@.len() == old(self).fields@.len(),
        forall|i: int| 0 <= i < old(self).fields@.len() ==> (#[trigger] final(self).fields@[i]).name@ == esc(ufield_base(*old(self), *config, i)),
//@loop 0 mode=mut
    forall|i: int| 0 <= i < __s0@.len() ==> (#[trigger] __s0@[i]).name == __g0[i].name,
//@subst let mut overriden_fields = Vec::new() => let mut overriden_fields: Vec<Field> = Vec::new()
//@loop 1
    overriden_fields@.len() == __i1,
    forall|i: int| 0 <= i < __i1 ==> (#[trigger] overriden_fields@[i]).name@ == (if i < o@.len() { o@[i]@ } else { __s1@[i].name@ }),
//@loop 2 rty=Vec<Field>
    __r2@.len() == __i2,
    forall|i: int| 0 <= i < __i2 ==> (#[trigger] __r2@[i]).name@ == applied(*r, __s2@[i].name@, IdentifierType::StructMember),
//@loop 3 mode=mut
    forall|i: int| 0 <= i < __i3 ==> (#[trigger] __s3@[i]).name@ == seq!['_'] + __g3[i].name@,
//@loop 4 mode=mut
    forall|i: int| 0 <= i < __i4 ==> (#[trigger] __s4@[i]).name@ == esc(__g4[i].name@),
//@end
}
impl Function {
    /// ptrs-as-arrays only sets array lengths (statement not opened)
    #[verifier::external_body]
    fn vx_set_array_lengths(&mut self)
        ensures final(self).args@.len() == old(self).args@.len(), final(self).ret == old(self).ret,
            forall|i: int| 0 <= i < old(self).args@.len() ==> (#[trigger] final(self).args@[i]).name == old(self).args@[i].name && final(self).args@[i].ty == old(self).args@[i].ty,
    { unimplemented!() }
//@fn src/bindgen/ir/function.rs Function::rename_for_config r
    ensures final(self).args@.len() == old(self).args@.len(),
        forall|i: int| 0 <= i < old(self).args@.len() ==> ((#[trigger] final(self).args@[i]).name is None <==> old(self).args@[i].name is None)
            && (final(self).args@[i].name is Some ==> final(self).args@[i].name->0@ == esc(arg_base(old(self).args@[i].name->0@, *old(self), *config))),
//@opaque if let Some(tuples) = self.annotations.list("ptrs-as-arrays") => self.vx_set_array_lengths();
//@subst Default::default() => GenericParams::vx_default()
//@subst std::mem::take(&mut self.args) => vx_take_vec(&mut self.args)
//@loop 0 rty=Vec<FunctionArgument>
    __r0@.len() == __i0,
    forall|i: int| 0 <= i < __i0 ==> ((#[trigger] __r0@[i]).name is None <==> __s0@[i].name is None)
        && (__r0@[i].name is Some ==> __r0@[i].name->0@ == applied(*r, __s0@[i].name->0@, IdentifierType::FunctionArg)),
//@loop 1 mode=mut
    forall|i: int| 0 <= i < __i1 ==> opt_esc(__g1[i].name, (#[trigger] __s1@[i]).name),
//@end
}
impl EnumVariant {
//@fn src/bindgen/ir/enumeration.rs EnumVariant::new r
    ensures r.export_name@ == name@, r.body == body, r.discriminant == discriminant,
//@end
}
impl Struct {
//@fn src/bindgen/ir/structure.rs Item@Struct::export_name r
    ensures r@ == self.export_name@,
//@end
}
impl Enum {
//@fn src/bindgen/ir/enumeration.rs Item@Enum::rename_for_config r
    requires forall|i: int| 0 <= i < old(self).variants@.len() ==> (#[trigger] old(self).variants@[i].body matches VariantBody::Body { body, .. } ==> body.fields@.len() > 0),
    ensures final(self).variants@.len() == old(self).variants@.len(),
        forall|i: int| 0 <= i < old(self).variants@.len() ==> (#[trigger] final(self).variants@[i]).export_name@
            == esc(variant_base(*old(self), final(self).export_name, *config, old(self).variants@[i].export_name@)),
        forall|i: int| 0 <= i < old(self).variants@.len() ==> (body_name(#[trigger] final(self).variants@[i]) is None <==> body_name(old(self).variants@[i]) is None)
            && (body_name(final(self).variants@[i]) is Some ==> body_name(final(self).variants@[i])->0 == esc(body_base(*old(self), *config, body_name(old(self).variants@[i])->0))),
//@subst let path = Path::new( => let path = Path::vx_new(
//@loop 0 mode=mut
    forall|i: int| 0 <= i < __s0@.len() ==> (#[trigger] __s0@[i]).export_name == __g0[i].export_name && body_name(__s0@[i]) == body_name(__g0[i]),
//@loop 1 mode=mut
    forall|i: int| 0 <= i < __i1 ==> (#[trigger] __s1@[i]).export_name@ == esc(__g1[i].export_name@),
    forall|i: int| 0 <= i < __i1 ==> (body_name(#[trigger] __s1@[i]) is None <==> body_name(__g1[i]) is None)
        && (body_name(__s1@[i]) is Some ==> body_name(__s1@[i])->0 == esc(body_name(__g1[i])->0)),
//@loop 2 mode=mut
    forall|i: int| 0 <= i < __i2 ==> (#[trigger] __s2@[i]).export_name@ == self.export_name@ + sep(*config) + __g2[i].export_name@,
    forall|i: int| 0 <= i < __s2@.len() ==> body_name(#[trigger] __s2@[i]) == body_name(__g2[i]),
//@loop 3 rty=Vec<EnumVariant>
    __r3@.len() == __i3,
    forall|i: int| 0 <= i < __i3 ==> (#[trigger] __r3@[i]).export_name@ == applied(*r, __s3@[i].export_name@, vctx(self.export_name)),
    forall|i: int| 0 <= i < __i3 ==> (body_name(#[trigger] __r3@[i]) is None <==> body_name(__s3@[i]) is None)
        && (body_name(__r3@[i]) is Some ==> body_name(__r3@[i])->0 == applied(*r, body_name(__s3@[i])->0, IdentifierType::StructMember)),
//@loop 4 mode=mut
    forall|i: int| 0 <= i < __i4 ==> (#[trigger] __s4@[i]).export_name@ == esc(__g4[i].export_name@),
    forall|i: int| 0 <= i < __i4 ==> (body_name(#[trigger] __s4@[i]) is None <==> body_name(__g4[i]) is None)
        && (body_name(__s4@[i]) is Some ==> body_name(__s4@[i])->0 == esc(body_name(__g4[i])->0)),
//@end
}
} // verus!
fn main() {}
