"""Which proof templates and which bounded stand-in decide each property."""
TABLE = {
    "C01": dict(proofs=["c01", "c01b"], bounded_for="the parse of the source into syn's tree, and the printing of whole items around the declarators", assumptions=["the stub of syn in c01b.rs declares the parts of syn's types, paths, constants and parameters that are read, with the variants not read collapsed into one", "PrimitiveType::maybe is a function of the name and knows neither PhantomData nor PhantomPinned (proved against the C types in c02.rs)", "fewer than 2^31 parameters of a function pointer are called `_` (rule A-add)"]),
    "C02": dict(proofs=["c02"], bounded_for="the path from a Rust source file to the printed header (Type::load is under contract for C01)", assumptions=[]),
    "C03": dict(proofs=["c03", "c03b"], bounded_for="the printed result", assumptions=[]),
    "C04": dict(proofs=["c04", "c04b"], bounded_for="the driver Library::instantiate_monomorphs (proved under C05: c05b) and the printing of the instantiated items", assumptions=[]),
    "C05": dict(proofs=["c05a", "c05b"], bounded_for="the printed result", assumptions=["ItemContainer::instantiate_monomorph dispatches to the item kinds; Library::get_items as proved in c09b; what ItemMap::try_insert keeps is proved in c09"]),
    "C06": dict(proofs=["c06", "c06b", "c06c"], bounded_for="the parse of one condition (impl Parse for Cfg), the cfg cargo reports for a dependency, and that every item writer brackets its item with write_before/write_after", assumptions=["str::trim removes no `=`; str::split and str::contains as specified in c06.rs", "the items of one module, and the modules it declares, are those Parse::load_syn_crate_mod returns (C19)"]),
    "C07": dict(proofs=["c07"], bounded_for="loading of identifiers from the source (raw identifiers), constructor arguments derived in C++, and the printing of the names", assumptions=["binary_search on a strictly sorted slice finds exactly its elements (std)", "the ptrs-as-arrays statement of Function::rename_for_config changes only array lengths", "variant bodies of tagged enums have at least their tag field"]),
    "C08": dict(proofs=["c08"], bounded_for="Library::get_items (proved under C09: c09b), loading of items and literals from the source, and the order in which the back ends print Bindings", assumptions=["slice::sort_by is a stable sort (std)", "the passes run before the traversal leave Library::config unchanged", "Literal::visit calls its visitor on every sub-literal in pre-order until the visitor returns false"]),
    "C09": dict(proofs=["c09", "c09b"], bounded_for="the parser's calls of try_insert, and the printing of the kept items", assumptions=["IndexMap is an insertion-ordered map with distinct keys (itemmap.inc); std::mem::take leaves an empty table", "predicates passed to ItemMap::filter are functions of the item (Fn)", "derived Clone is a structural copy"]),
    "C10": dict(proofs=["c10"], bounded_for="the real file system calls behind the stand-in (modification times, missing directories), and the command line front end", assumptions=["std::fs as specified by the Fs stand-in of c10.rs: a file opened with File::create is truncated, write_all appends, read_to_end returns the whole file, errors panic", "no other process changes the files between the comparison and the write"]),
    "C11": dict(proofs=["c11"], bounded_for="loading of names from the source, the names composed while printing (tags, bodies, associated constants, helper methods), and the printing of every name", assumptions=["the letter-case functions of crate heck and std are uninterpreted functions of the text; to_pascal_case is to_upper_camel_case", "the ptrs-as-arrays statement of Function::rename_for_config changes only array lengths", "variant bodies of enums with an inline tag have at least their tag field", "ItemMap::rebuild changes no item (C09)", "reserved::escape is a function of the name (C07)"]),
    "C12": dict(proofs=["c12"], bounded_for="the order in which Library::resolve_declaration_types collects the item kinds being that of the emitted definitions, and the keywords printed at definitions and references", assumptions=["HashMap::entry / insert / get as specified by vstd and the Entry stand-in of c12.rs"]),
    "C13": dict(proofs=["c13"], bounded_for="which calls the printers make on the writer (their order and layout choices), and the text of whole headers", assumptions=["std::io::Write::write_all and write_fmt are the library's documented loops (restated in c13.rs over the contract of InnerWriter::write); a failed write panics", "sums of lengths and line numbers do not overflow usize (rule A-add)", "the closures handed to try_write and the list writers act on the writer only through its methods"]),
    "C14": dict(proofs=["c14"], bounded_for="splitting the repr attributes into (name, argument) pairs (syn), loading of fields (proved under C19: c19d, c19e), and the printing of the annotations and base types by the back ends", assumptions=["str::parse::<u64> and u64::is_power_of_two as specified in c14.rs", "variants appended by enum-trailing-values and the sentinel carry no data"]),
    "C15": dict(proofs=["c15", "c15b", "c15c", "c19f"], bounded_for="Constant::write around the value, the tables of declared fields, enum variants and associated constants the printers consult (Bindings), and the parse of the source text into syn's tree", assumptions=["proofs/syn_expr.inc declares the parts of syn's expression tree that are read, with the variants not read collapsed into one", "IndexMap keeps its entries in insertion order (literal.inc)", "format!(\"{:0NX}\") prints N upper-case hexadecimal digits"]),
    "C16": dict(proofs=["c16", "c16b"], bounded_for="the text of the constructor, the stream operator and the operators of tagged enums (write_derived_functions_data), and inheritance of annotations by variant bodies", assumptions=["the //@opaque statements of write_derived_cpp_ops declare exactly the member named in their replacement (rule X-opaque; the header text is compared by the bounded part)", "a named type can be compared and ordered in C++", "str::trim, split, slicing, parse::<bool> and HashMap as specified in c16b.rs; the lines of an item's comment are a function of its attributes (proved in c23b)"]),
    "C17": dict(proofs=["c17"], bounded_for="the serde adapters between these parsers and cbindgen.toml, and the command line values", assumptions=["str::to_lowercase is uninterpreted: the lower-cased spelling is compared"]),
    "C18": dict(proofs=["c18"], bounded_for="that emitted functions and globals are exactly those in Bindings; the parsing of the no-export annotation is proved under C16 (c16b)", assumptions=["the lazy iterator returned by dynamic_symbols_names is consumed once (rule L8)"]),
    "C19": dict(proofs=["c19", "c19b", "c19c", "c19d", "c19e", "c19f"], bounded_for="the parse of the source into syn's tree, the crate graph reported by cargo metadata, and the printing of the kept items", assumptions=["the stub of syn in c19.rs declares the parts of syn's items, attributes and ABI that are read; parsing an attribute's meta is a function of the attribute", "in c19.rs the loaders of items are functions of their arguments (structs, unions, typedefs, opaque items: c19d; enums: c19e; constants: c19f); a built-in macro touches only structs, opaque items and constants", "the loop that attaches associated constants to their type changes only associated constants of items", "the files do not change during a run (Fs of parser.inc); joining, parent and stem of a path are uninterpreted functions", "which modules a module declares, in order, is what Parse::load_syn_crate_mod returns", "nesting of modules and crates is not bounded: depths do not overflow (rule A-add)"]),
    "C22": dict(proofs=["c22", "c22b"], bounded_for="the real file system calls, the list passing through Library::generate, and the command line front end", assumptions=["std::fs as specified by the Fs stand-ins of c22.rs and parser.inc; canonicalize is a function of the path; a path's text is UTF-8", "Library::generate hands on the list of files and the configuration (checked by the bounded part)", "make and ninja read names as read_word of c22.rs says; names with colons, newlines or a backslash before `#` are outside the property", "crates expanded by rustc report no files"]),
    "C23": dict(proofs=["c23", "c23b"], bounded_for="that every item writer calls write_documentation right before its item, and the text of whole headers", assumptions=["str::replace, trim_end and trim_end_matches as specified in c23.rs", "str::lines, trim, trim_start, chars and contains as specified in c23b.rs; syn's attribute types (style, name-value with a string literal)", "white space is none of backslash, star and slash", "trigraphs are not interpreted"]),
}
NOT_APPLICABLE = {
    "C20": "a relation between two runs under different hash seeds and file-system orders; no functional contract of the code expresses it, and a differential check is a different family",
    "C21": "needs the semantics of a conforming C/C++ compiler for whole headers; not expressible as a contract on cbindgen's functions",
}
