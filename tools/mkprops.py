#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
HK=None
B="src/bindgen/"
p("C01","Printed C declarations denote exactly the Rust type",
 "For every type, field, function, global or array argument, the declaration printed in the header, read with C's declarator grammar, denotes exactly the type being bound: the same nesting of pointers, arrays and function pointers around the same base type, const on the same levels, and parameters and array lengths in the same order. Parentheses are printed wherever and only where a pointer is applied to an array or function declarator, and the base type's qualifier, tag keyword, name and generic arguments come first.",
 ["inputs","configurations"],"every nesting of pointer/array/function-pointer/base type of any depth and arity, every language and layout setting",
 "the tests compare a fixed set of headers (tests/rust/cdecl.rs has about 30 declarators); nesting depth and the qualifier combinations are unbounded",
 [B+"cdecl.rs"],[("declarator list built outside-in",B+"cdecl.rs CDecl::build_type, build_func, from_func_arg"),("left/right printing passes with parentheses",B+"cdecl.rs CDecl::write")],
 [("declarators","type constructors from the identifier outwards",B+"cdecl.rs CDecl")],["text written to the header"],HK)
p("C02","Primitive types map to C types of the same size and signedness",
 "Every primitive type name cbindgen recognises (Rust integers and floats, bool, char, the c_* and fixed-width aliases, the NonZero integer names of the standard library, size and pointer-difference types, C void and va_list) is emitted as a C type with the same width and signedness under every configuration, and reported back under the Rust name of that same type. A name that is not one of these is never taken for a primitive.",
 ["inputs","configurations"],"all type names (all strings), all primitive kinds, both settings of usize_is_size_t",
 "tests exercise one header per primitive and cannot show that no other string is accepted nor that every kind/sign pair agrees",
 [B+"ir/ty.rs",B+"ir/repr.rs",B+"ir/constant.rs"],[("name tables",B+"ir/ty.rs PrimitiveType::maybe, maybe_integer, maybe_nonzero_integer"),("spelling tables",B+"ir/ty.rs PrimitiveType::to_repr_c, to_repr_rust")],None,["type names in the header"],HK)
p("C03","Standard wrapper types are lowered only to layout-identical types",
 "On types as they are written in the source, Option of a non-nullable pointer, reference or function pointer becomes the nullable pointer, Option of a NonZero integer becomes the plain integer, and NonNull, Box, NonZero, the cell types, ManuallyDrop, MaybeUninit and Pin are lowered to the type with their layout (those with C++ counterparts are left alone in C++). Every other type, in particular Option of anything without a niche, is left exactly as written, at any depth inside pointers, arrays, generic arguments and function pointers.",
 ["inputs","configurations"],"all types of any depth, all languages","tests cover a handful of Option/NonNull/Box shapes; wrappers nest arbitrarily",
 [B+"ir/ty.rs"],[("wrapper table",B+"ir/ty.rs Type::simplified_type"),("nullability / zeroability",B+"ir/ty.rs Type::make_nullable, make_zeroable"),("traversal",B+"ir/ty.rs Type::simplify_standard_types, visit_types")],None,["types printed in the header"],HK)
p("C04","Instantiating a generic is exact parameter substitution",
 "When a generic struct, union or alias is instantiated, each occurrence of a type or const parameter anywhere in its fields is replaced by the matching argument (or the parameter's default when the argument is omitted), and everything else - names, order, pointer and array structure, constness, nullability, unrelated types - is unchanged. Self is likewise replaced by the enclosing type everywhere.",
 ["inputs","programs"],"all types, parameter lists and argument lists","tests instantiate a few dozen generics; substitution must be right for all nestings",
 [B+"ir/ty.rs",B+"ir/generic_path.rs",B+"ir/structure.rs",B+"ir/typedef.rs",B+"ir/union.rs"],[("substitution",B+"ir/ty.rs Type::specialize, ConstExpr::specialize; ir/generic_path.rs GenericArgument::specialize"),("parameter/argument pairing with defaults",B+"ir/generic_path.rs GenericParams::call"),("field-wise instantiation",B+"ir/structure.rs Struct::specialize"),("Self",B+"ir/ty.rs Type::replace_self_with")],None,["instantiated items in the header"],HK)
p("C05","Each use of an instantiation names that instantiation's definition",
 "In languages without generics every instantiation is emitted under a name computed only from the generic's name, its arguments and the mangling settings, following the documented separator scheme, and every use of that instantiation in any type position is rewritten to exactly that name. Types that were not instantiated, and everything around the rewritten use, stay as they were.",
 ["inputs","programs","configurations"],"all generic names, argument lists of any nesting, mangling settings, and uses in any type","tests pin about 15 manglings and the headers of fixed crates",
 [B+"mangle.rs",B+"monomorph.rs",B+"ir/ty.rs"],[("name computation",B+"mangle.rs Mangler"),("use/definition table",B+"monomorph.rs Monomorphs"),("rewriting of uses",B+"ir/ty.rs Type::mangle_paths, add_monomorphs")],[("replacements","generic path to emitted name",B+"monomorph.rs")],["names in the header"],HK)
p("C06","Emitted preprocessor conditions mean the same as the Rust cfg",
 "For every cfg expression whose options all have a defines entry, the condition printed around the item is true exactly when the cfg is, once each define stands for its option; any, all and not keep their operands and grouping, in C, C++ and Cython syntax. Options without an entry are dropped rather than misread, the cfgs of an item, of every module around it (inline or in a file of its own) and of the dependency edge through which its crate is first reached are conjoined, and each opened conditional is closed exactly once around the item it guards.",
 ["inputs","configurations"],"all cfg expressions of any depth, all defines tables, all truth assignments","the tests contain a handful of cfg shapes; equivalence is over all expressions and assignments",
 [B+"ir/cfg.rs",B+"parser.rs"],[("cfg to condition",B+"ir/cfg.rs Cfg::to_condition"),("defines lookup",B+"ir/cfg.rs DefineKey::load"),("printing",B+"ir/cfg.rs Condition::write, write_before, write_after"),("conjunction",B+"ir/cfg.rs Cfg::append, Cfg::join; "+B+"parser.rs Parser::process_mod, parse_crate (cfg_stack)")],None,["#if lines of the header"],HK)
p("C07","No C or C++ keyword is emitted as a field or argument name",
 "Every identifier taken from Rust that is emitted as a struct field, union field or function argument is followed by an underscore if and only if it equals one of the reserved C/C++ keywords, and is otherwise unchanged, whatever rename rules produced it. Escaping depends on nothing but the identifier's exact text. Enum variant names and the names of variant bodies are never a keyword either. The `r#` of a raw Rust identifier is never printed.",
 ["inputs"],"all identifier strings","tests use three or four keywords; the lookup is a binary search that needs the whole table sorted and a comparison right for all strings",
 [B+"reserved.rs",B+"ir/structure.rs",B+"ir/union.rs",B+"ir/function.rs"],[("sorted keyword table and search",B+"reserved.rs RESERVED_KEYWORDS, escape"),("application to every field/argument",B+"ir/structure.rs, ir/union.rs, ir/function.rs rename_for_config")],None,["identifiers in the header"],HK)
p("C08","Every needed type is emitted exactly once, after what it contains",
 "Starting from the exported functions, globals, constants and explicitly included items, every known type reachable through signatures, fields and aliased types is emitted exactly once and nothing else is; an item is emitted after every type it refers to unless the two refer to each other in a cycle. The final layering only moves plain enums and opaque types to the front and otherwise keeps that order.",
 ["programs"],"all item graphs, including shared and cyclic ones","tests fix a few graphs; reachability and order are graph-wide",
 [B+"dependencies.rs",B+"ir/ty.rs",B+"library.rs"],[("depth-first collection",B+"dependencies.rs Dependencies::add"),("layering",B+"dependencies.rs Dependencies::sort"),("type traversal",B+"ir/ty.rs Type::add_dependencies_ignoring_generics")],[("order/items","emission order and visited set",B+"dependencies.rs")],["order of definitions in the header"],HK)
p("C09","Item tables lose, duplicate and reorder nothing",
 "Among the items loaded under one name the first is kept and, if it carries a cfg, every further one that carries a cfg; names are visited in the order of their first item, and the items of one name in order (constants and globals are emitted so unless sorted by name); looking up, visiting, merging and rebuilding neither drop, repeat nor alter an item. Excluding removes exactly the items named, and item kinds disabled by configuration are never returned.",
 ["inputs","histories"],"all sequences of insertions, filters and lookups over all items","tests run a fixed insertion history per crate",
 [B+"ir/item.rs",B+"library.rs",B+"config.rs"],[("table",B+"ir/item.rs ItemMap::try_insert, to_vec, filter, for_all_items, for_items, get_items, rebuild, extend_with"),("kind selection",B+"library.rs Library::get_items; config.rs ExportConfig::should_generate")],[("data","ordered map from name to item or cfg'd items",B+"ir/item.rs")],["items in the header"],HK)
p("C10","Writing a header is exact, and idempotent when nothing changed",
 "After bindings are written to a file the file holds exactly the generated bytes; the call reports true if and only if the file was missing or differed, and when the old contents were already equal the file is not opened for writing. Bindings produced by a recursive invocation never touch the file system.",
 ["inputs","histories"],"all previous file states and all generated contents","tests write into fresh or identical files only",
 [B+"bindings.rs"],[("compare then write",B+"bindings.rs Bindings::write_to_file")],None,["file contents and modification"],HK)
p("C11","Renaming is applied consistently to definitions and all uses",
 "The configured rename table and prefix produce one output name per item name, and that same name is used where the item is defined and at every use in any type position, while generic parameters are never renamed. Identifier rename rules map each identifier as documented (none, prefix, gecko-case with its per-kind prefix, qualified screaming snake case), and renaming changes nothing but names.",
 ["inputs","configurations"],"all types of any nesting, all rename tables, prefixes and rules","tests cover a few renamed types in a few positions",
 [B+"config.rs",B+"ir/ty.rs",B+"ir/generic_path.rs",B+"rename.rs",B+"ir/typedef.rs"],[("name map",B+"config.rs ExportConfig::rename"),("propagation",B+"ir/ty.rs Type::rename_for_config, ConstExpr::rename_for_config; ir/generic_path.rs"),("rules",B+"rename.rs RenameRule::apply")],None,["names in the header"],HK)
p("C12","C type references use the tag keyword of the referenced definition",
 "With tags enabled, each reference in a C declaration to an exported struct, union or enum that is defined with that tag carries exactly that keyword at every position in every type, and references to typedefs, primitives and unknown names carry none; when a name is declared more than once the first declaration in the fixed order of item kinds decides. Tag resolution changes nothing else in a type.",
 ["inputs","configurations"],"all types and all declaration tables","tests use the tag style on fixed crates",
 [B+"declarationtyperesolver.rs",B+"ir/ty.rs",B+"ir/generic_path.rs",B+"config.rs"],[("first-wins table",B+"declarationtyperesolver.rs DeclarationTypeResolver"),("propagation",B+"ir/ty.rs Type::resolve_declaration_types"),("style predicate",B+"config.rs Style::generate_tag")],None,["struct/union/enum keywords in the header"],HK)
p("C13","The source writer emits its text verbatim with exact indentation",
 "The emitted file is exactly the text requested in order, with each non-empty line preceded by the current indentation and ended by the configured line ending; indentation after a closed block is what it was before the block was opened. A trial layout either is emitted as written because it fits the configured line length, or leaves the output untouched; list writers emit every element once, in order, with a separator exactly between elements or after each.",
 ["inputs","histories","configurations"],"all sequences of writer operations","tests sample fixed headers; the writer's state depends on the whole history of calls",
 [B+"writer.rs"],[("position tracking",B+"writer.rs InnerWriter::write, SourceWriter::new_line"),("indent stack",B+"writer.rs push_tab, pop_tab, push_set_spaces, open_brace, close_brace"),("trial layout",B+"writer.rs try_write"),("lists",B+"writer.rs write_horizontal_source_list, write_vertical_source_list")],[("spaces","indent stack",B+"writer.rs"),("line_started, line_length","column state",B+"writer.rs")],["output bytes"],HK)
p("C14","Representation attributes are never weakened or misread",
 "A type's accepted representation is exactly the one its repr attributes state: unknown, conflicting or unsupported combinations (two integer types, two alignments, packed(N), alignments that are not powers of two) are rejected and never silently dropped, and a packed or aligned type is accepted only if the configuration can express it. A struct is treated as transparent only if it is declared so and has a field.",
 ["inputs","configurations"],"all lists of repr arguments and all layout settings","tests contain about ten repr combinations",
 [B+"ir/repr.rs",B+"config.rs",B+"ir/structure.rs"],[("attribute folding",B+"ir/repr.rs Repr::load"),("layout guard",B+"config.rs LayoutConfig::ensure_safe_to_represent"),("transparency",B+"ir/structure.rs Struct::new, as_typedef")],None,["layout annotations and rejected items"],HK)
p("C15","Constant expressions keep their operators, operands and validity",
 "The value of an emitted constant is the expression written in Rust: every operator, operand, cast, name, field access and literal appears exactly once and grouped as in the source (checked with C's precedences), integer limits such as u8::MAX become the C macros of that type, struct literals give each declared field its own value in declared order, a transparent struct is printed as its only field, and expressions outside the supported subset yield no constant at all. Renaming, resolving Self and examining an expression reach every operand and change nothing else; an expression is reported valid, usable as a compile-time constant or purely primitive exactly when all of its parts are.",
 ["inputs","configurations"],"all constant expression trees","tests print a few dozen fixed constants",
 [B+"ir/constant.rs",B+"language_backend/clike.rs",B+"language_backend/cython.rs"],[("loading",B+"ir/constant.rs Literal::load"),("tree passes",B+"ir/constant.rs Literal::replace_self_with, rename_for_config, is_valid, visit, has_pointer_casts, can_be_constexpr, uses_only_primitive_types"),("limits",B+"ir/constant.rs to_known_assoc_constant"),("printing",B+"language_backend/clike.rs write_literal; "+B+"language_backend/cython.rs write_literal")],None,["constants in the header"],HK)
p("C16","Comparison operators are derived only for comparable types",
 "An equality operator is generated only if the type has fields and every field can be compared with it in C++, an ordering operator only for a single field that can be ordered, arrays, function pointers (for ordering), booleans (for ordering) and references being classified as C++ requires and named types being taken as comparable; a tagged enum is compared only if all of its data-carrying variants are. A per-item annotation overrides the configured default for every derivation switch, and nothing is derived without one of the two. An annotation is a line of the item's documentation that reads cbindgen:name (a switch that is on) or cbindgen:name=value, blanks around either side aside, the value being a bracketed list, true or false, or a word; the last line of a name holds, and an item with a malformed line (more than one equals sign) is not defined in the header.",
 ["inputs","configurations"],"all field lists, annotations and configurations","tests check two derive crates",
 [B+"ir/ty.rs",B+"ir/structure.rs",B+"config.rs"],[("comparability",B+"ir/ty.rs Type::can_cmp_eq, can_cmp_order"),("struct rule",B+"ir/structure.rs Struct::can_derive_eq"),("override",B+"config.rs StructConfig, EnumConfig derive_*"),("annotations",B+"ir/annotation.rs AnnotationSet::load")],None,["operators in the header"],HK)
p("C17","Configuration values accept exactly the documented spellings",
 "Every enumerated configuration value (language, braces, layout, style, documentation style and length, item types, sort keys, line endings, profile, rename rules) parses each accepted spelling (the documented one and its listed aliases; in any letter case for line endings, documentation style and length, item types and sort keys) to its own meaning and rejects every other string. A rename rule of the form prefix:X yields exactly the prefix X.",
 ["inputs"],"all strings","tests use a few spellings and never the rejected ones",
 [B+"config.rs",B+"rename.rs"],[("parsers",B+"config.rs FromStr impls; rename.rs FromStr for RenameRule")],None,["accepted configuration files"],HK)
p("C18","The set of linkable symbols is exactly the exported functions and globals",
 "The symbol list contains, in order, the name of every emitted function and then of every emitted global, each exactly once, leaving out precisely those marked as not exported.",
 ["inputs"],"all binding sets","tests compare fixed symbol files",
 [B+"bindings.rs",B+"ir/annotation.rs"],[("selection",B+"bindings.rs Bindings::dynamic_symbols_names"),("marker",B+"ir/annotation.rs AnnotationSet::should_export, bool")],None,["symbol file"],HK)
p("C19","Exactly the FFI-exported items of the crate are bound, under their symbol names",
 "For every crate: a Rust function (free or in an impl block of a plainly named type) is declared in the header if and only if its ABI is C (`extern`, \"C\", \"C-unwind\", cmse-nonsecure-entry), it has an exported symbol (`no_mangle` or `export_name`, plain or inside `unsafe(...)`), its types can be represented, it is not ignored and its crate is the binding crate or listed in parse.extra_bindings; whether it is `pub` does not matter. Its name is the `export_name` if there is one and the function's own name (without `r#`) otherwise. Functions of `extern \"C\"` blocks are declared under their own names, statics with an exported symbol likewise by that symbol, and `pub` constants and `pub` associated constants are emitted. An item is ignored when it, or a module, impl block or extern block around it, carries #[test], #[cfg(test)] or a `cbindgen:ignore` line. Each is emitted exactly once, nothing else is, wherever it stands in the module tree (inline modules, module files, mod.rs, #[path]): modules are read from the files rustc reads them from. Dependencies are read when parse.parse_deps is set, each crate once, and exactly those in parse.include (if given) that are neither in parse.exclude nor part of std, plus the expanded ones. What one item looks like never makes another one disappear. Each declaration carries the name, fields, argument and return types, cfg conditions, annotations and documentation of its own item.",
 ["programs"],"all crates","tests bind fixed crates",
 [B+"parser.rs",B+"utilities.rs",B+"ir/function.rs",B+"ir/global.rs",B+"cargo/cargo.rs"],[("item selection",B+"parser.rs Parse::load_syn_fn, load_syn_method, load_syn_foreign_mod, load_syn_static, load_syn_const"),("attribute helpers",B+"utilities.rs SynAttributeHelpers, SynItemHelpers, SynAbiHelpers"),("loading",B+"ir/function.rs Function::load; "+B+"ir/global.rs Static::load"),("modules and crates",B+"parser.rs Parser::parse_mod, process_mod, parse_crate, should_parse_dependency")],None,["functions, globals and constants in the header"],None)
p("C20","Generation is deterministic",
 "Two runs over the same sources and configuration produce byte-identical bindings.",
 ["histories","programs"],"all crates, all hash seeds","a passing run samples one hash seed",
 [B+"library.rs",B+"builder.rs"],[("ordered maps",B+"ir/item.rs IndexMap")],None,["header bytes"],None)
p("C21","Generated headers are accepted by a conforming compiler",
 "For every crate cbindgen accepts without a warning, the generated header compiles on its own in the selected language.",
 ["programs"],"all crates","tests compile the headers of fixed crates",
 [B+"language_backend/clike.rs",B+"language_backend/cython.rs"],[("backends",B+"language_backend/")],None,["header"],None)
p("C22","The dependency file lists every file that influenced the output",
 "The dependency file written for a header is one make rule: its target is the canonical path of the header, and its prerequisites are exactly the canonical paths of every Rust source file that was opened for it (the crate's root and every module file of it and of the dependencies that are parsed, wherever #[path] puts them, and every file given with with_src) and of the configuration file, if the configuration came from one. Every path is written so that make and ninja read it back as that one path, with blanks, `#`, `$` and backslashes before blanks anywhere in it (names with colons or line breaks, or a backslash before `#`, are not covered; crates expanded by rustc list no files).",
 ["programs","inputs"],"all crates, module trees and path names","tests compare the depfiles of three fixed crates",
 [B+"bindings.rs",B+"parser.rs",B+"builder.rs"],[("depfile writer",B+"bindings.rs Bindings::generate_depfile, escape_depfile_path"),("collection",B+"parser.rs Parser::parse_mod, parse_src, parse_lib, Parse::extend_with; "+B+"builder.rs Builder::generate")],None,["depfile"],None)
p("C23","Documentation is carried into comments completely and never changes the code",
 "For every doc comment text on any item, field or variant, every documentation_style, documentation_length and language: the documentation lines (all of them, or the first one with documentation_length = short; none with documentation = false; never the lines starting with `cbindgen:`) appear in order in one comment directly before the declaration of their item, unchanged except for blanks, a blank put inside `*/` and blanks and backslashes dropped after a trailing backslash. With its comments removed (including line continuation by a backslash), the header is the one generated with documentation = false: no text in a doc comment can end its comment early, swallow the next line or otherwise turn into code.",
 ["programs","configurations"],"all documentation texts","a handful of fixed doc comments",
 [B+"language_backend/clike.rs",B+"language_backend/cython.rs",B+"ir/documentation.rs",B+"utilities.rs"],[("comment writers",B+"language_backend/clike.rs write_documentation; "+B+"language_backend/cython.rs write_documentation"),("loading",B+"ir/documentation.rs Documentation::load; "+B+"utilities.rs get_comment_lines, split_doc_attr")],None,["comments and code of the header"],None)
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
