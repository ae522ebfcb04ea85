//@include prelude.inc
verus! {
// The values that a configuration file can name.
//@type src/bindgen/config.rs Language derive=Clone,Copy
//@type src/bindgen/config.rs LineEndingStyle derive=Clone,Copy
//@type src/bindgen/config.rs Braces
//@type src/bindgen/config.rs Layout derive=Clone,Copy
//@type src/bindgen/config.rs DocumentationStyle derive=Clone,Copy
//@type src/bindgen/config.rs DocumentationLength derive=Clone,Copy
//@type src/bindgen/config.rs Style derive=Clone,Copy
//@type src/bindgen/config.rs ItemType
//@type src/bindgen/config.rs SortKey derive=Clone,Copy
//@type src/bindgen/config.rs Profile derive=Clone,Copy
//@type src/bindgen/rename.rs RenameRule

// ---------------- specification: the accepted spellings and their meaning ----------------
pub open spec fn language_of(s: Seq<char>) -> Option<Language> {
    if s == "cxx"@ || s == "Cxx"@ || s == "CXX"@ || s == "cpp"@ || s == "Cpp"@ || s == "CPP"@ || s == "c++"@ || s == "C++"@ { Some(Language::Cxx) }
    else if s == "c"@ || s == "C"@ { Some(Language::C) }
    else if s == "cython"@ || s == "Cython"@ { Some(Language::Cython) }
    else { None }
}
pub open spec fn line_ending_of(l: Seq<char>) -> Option<LineEndingStyle> {
    if l == "native"@ { Some(LineEndingStyle::Native) }
    else if l == "lf"@ { Some(LineEndingStyle::LF) }
    else if l == "crlf"@ { Some(LineEndingStyle::CRLF) }
    else if l == "cr"@ { Some(LineEndingStyle::CR) }
    else { None }
}
pub open spec fn braces_of(s: Seq<char>) -> Option<Braces> {
    if s == "SameLine"@ || s == "same_line"@ { Some(Braces::SameLine) }
    else if s == "NextLine"@ || s == "next_line"@ { Some(Braces::NextLine) }
    else { None }
}
pub open spec fn layout_of(s: Seq<char>) -> Option<Layout> {
    if s == "Horizontal"@ || s == "horizontal"@ { Some(Layout::Horizontal) }
    else if s == "Vertical"@ || s == "vertical"@ { Some(Layout::Vertical) }
    else if s == "Auto"@ || s == "auto"@ { Some(Layout::Auto) }
    else { None }
}
pub open spec fn doc_style_of(l: Seq<char>) -> Option<DocumentationStyle> {
    if l == "c"@ { Some(DocumentationStyle::C) }
    else if l == "c99"@ { Some(DocumentationStyle::C99) }
    else if l == "cxx"@ || l == "c++"@ { Some(DocumentationStyle::Cxx) }
    else if l == "doxy"@ { Some(DocumentationStyle::Doxy) }
    else if l == "auto"@ { Some(DocumentationStyle::Auto) }
    else { None }
}
pub open spec fn doc_length_of(l: Seq<char>) -> Option<DocumentationLength> {
    if l == "short"@ { Some(DocumentationLength::Short) }
    else if l == "full"@ { Some(DocumentationLength::Full) }
    else { None }
}
pub open spec fn style_of(s: Seq<char>) -> Option<Style> {
    if s == "Both"@ || s == "both"@ { Some(Style::Both) }
    else if s == "Tag"@ || s == "tag"@ { Some(Style::Tag) }
    else if s == "Type"@ || s == "type"@ { Some(Style::Type) }
    else { None }
}
pub open spec fn item_type_of(l: Seq<char>) -> Option<ItemType> {
    if l == "constants"@ { Some(ItemType::Constants) }
    else if l == "globals"@ { Some(ItemType::Globals) }
    else if l == "enums"@ { Some(ItemType::Enums) }
    else if l == "structs"@ { Some(ItemType::Structs) }
    else if l == "unions"@ { Some(ItemType::Unions) }
    else if l == "typedefs"@ { Some(ItemType::Typedefs) }
    else if l == "opaque"@ { Some(ItemType::OpaqueItems) }
    else if l == "functions"@ { Some(ItemType::Functions) }
    else { None }
}
pub open spec fn sort_key_of(l: Seq<char>) -> Option<SortKey> {
    if l == "name"@ { Some(SortKey::Name) }
    else if l == "none"@ { Some(SortKey::None) }
    else { None }
}
pub open spec fn profile_of(s: Seq<char>) -> Option<Profile> {
    if s == "debug"@ || s == "Debug"@ { Some(Profile::Debug) }
    else if s == "release"@ || s == "Release"@ { Some(Profile::Release) }
    else { None }
}
pub open spec fn simple_rule_of(s: Seq<char>) -> Option<RenameRule> {
    if s == "none"@ || s == "None"@ { Some(RenameRule::None) }
    else if s == "mGeckoCase"@ || s == "GeckoCase"@ || s == "gecko_case"@ { Some(RenameRule::GeckoCase) }
    else if s == "lowercase"@ || s == "LowerCase"@ || s == "lower_case"@ { Some(RenameRule::LowerCase) }
    else if s == "UPPERCASE"@ || s == "UpperCase"@ || s == "upper_case"@ { Some(RenameRule::UpperCase) }
    else if s == "PascalCase"@ || s == "pascal_case"@ { Some(RenameRule::PascalCase) }
    else if s == "camelCase"@ || s == "CamelCase"@ || s == "camel_case"@ { Some(RenameRule::CamelCase) }
    else if s == "snake_case"@ || s == "SnakeCase"@ { Some(RenameRule::SnakeCase) }
    else if s == "SCREAMING_SNAKE_CASE"@ || s == "ScreamingSnakeCase"@ || s == "screaming_snake_case"@ { Some(RenameRule::ScreamingSnakeCase) }
    else if s == "QUALIFIED_SCREAMING_SNAKE_CASE"@ || s == "QualifiedScreamingSnakeCase"@ || s == "qualified_screaming_snake_case"@ { Some(RenameRule::QualifiedScreamingSnakeCase) }
    else { None }
}
/// the only parameterised rule
pub open spec fn is_prefix_rule(s: Seq<char>) -> bool { simple_rule_of(s) is None && "prefix:"@.is_prefix_of(s) }
pub open spec fn is_res<T>(r: Result<T, String>, o: Option<T>) -> bool {
    match o { Some(x) => r is Ok && r->Ok_0 == x, None => r is Err }
}
proof fn lemma_prefix(s: Seq<char>)
    requires "prefix:"@.is_prefix_of(s),
    ensures s.take("prefix:"@.len() as int) == "prefix:"@,
{
    assert(s.take("prefix:"@.len() as int) =~= "prefix:"@);
}
//@gsubst Self::Err => String
// ---------------- code under contract ----------------
impl Language {
//@fn src/bindgen/config.rs FromStr@Language::from_str r strlits
    ensures is_res(r, language_of(s@)),
//@end
}
impl LineEndingStyle {
//@fn src/bindgen/config.rs FromStr@LineEndingStyle::from_str r strlits
    ensures is_res(r, line_ending_of(lower_of(s@))),
//@end
}
impl Braces {
//@fn src/bindgen/config.rs FromStr@Braces::from_str r strlits
    ensures is_res(r, braces_of(s@)),
//@end
}
impl Layout {
//@fn src/bindgen/config.rs FromStr@Layout::from_str r strlits
    ensures is_res(r, layout_of(s@)),
//@end
}
impl DocumentationStyle {
//@fn src/bindgen/config.rs FromStr@DocumentationStyle::from_str r strlits
    ensures is_res(r, doc_style_of(lower_of(s@))),
//@end
}
impl DocumentationLength {
//@fn src/bindgen/config.rs FromStr@DocumentationLength::from_str r strlits
    ensures is_res(r, doc_length_of(lower_of(s@))),
//@end
}
impl Style {
//@fn src/bindgen/config.rs FromStr@Style::from_str r strlits
    ensures is_res(r, style_of(s@)),
//@end
}
impl ItemType {
//@fn src/bindgen/config.rs FromStr@ItemType::from_str r strlits
    ensures is_res(r, item_type_of(lower_of(s@))),
//@subst use self::ItemType::*; => use ItemType::*;
//@end
}
impl SortKey {
//@fn src/bindgen/config.rs FromStr@SortKey::from_str r strlits
    ensures is_res(r, sort_key_of(lower_of(s@))),
//@subst use self::SortKey::*; => use SortKey::*;
//@end
}
impl Profile {
//@fn src/bindgen/config.rs FromStr@Profile::from_str r strlits
    ensures is_res(r, profile_of(s@)),
//@end
}
impl RenameRule {
//@fn src/bindgen/rename.rs FromStr@RenameRule::from_str r strlits
    ensures
        is_prefix_rule(s@) ==> (r is Ok && (r->Ok_0 matches RenameRule::Prefix(p) && p@ == s@.skip("prefix:"@.len() as int))),
        !is_prefix_rule(s@) ==> is_res(r, simple_rule_of(s@)),
//@subst PREFIX.len() => vx_byte_len(PREFIX)
//@pre
    proof { if "prefix:"@.is_prefix_of(s@) { lemma_prefix(s@); } }
//@end
}
} // verus!
fn main() {}
