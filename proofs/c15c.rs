//@include prelude.inc
//@include ty_types.inc
verus! {
//@include ty_basic.inc
#[verifier::external_body] pub struct Cfg { _p: () }
//@include literal.inc
//@include syn_expr.inc
pub use syn::UnOp;
// ---- std and siblings ----
/// char::escape_default
pub struct Esc { pub c: char }
pub uninterp spec fn esc_text(c: char) -> Seq<char>;
pub uninterp spec fn esc_len(c: char) -> usize;
impl Esc { #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == esc_len(self.c) { unimplemented!() } }
impl VxDisp for Esc { open spec fn disp(&self) -> Seq<char> { esc_text(self.c) } }
pub trait VxEsc { fn vx_esc(&self) -> (r: Esc); }
impl VxEsc for char { #[verifier::external_body] fn vx_esc(&self) -> (r: Esc) ensures r.c == *self { unimplemented!() } }
//@gsubst path.segments => path.vx_segments()
//@gsubst .escape_default() => .vx_esc()
//@gsubst .base10_parse::<i64>() => .parse_i64()
pub uninterp spec fn disp_u8(n: u8) -> Seq<char>;
pub uninterp spec fn disp_u32(n: u32) -> Seq<char>;
impl VxDisp for u8 { open spec fn disp(&self) -> Seq<char> { disp_u8(*self) } }
impl VxDisp for u32 { open spec fn disp(&self) -> Seq<char> { disp_u32(*self) } }
impl VxDisp for bool { open spec fn disp(&self) -> Seq<char> { if *self { "true"@ } else { "false"@ } } }
pub uninterp spec fn cfg_of(a: Seq<syn::Attribute>) -> Option<Cfg>;
impl Cfg { #[verifier::external_body] pub fn load(a: &[syn::Attribute]) -> (r: Option<Cfg>) ensures r == cfg_of(a@) { unimplemented!() } }
/// Type::load: Err, a zero-sized type, or a type
pub uninterp spec fn ty_loads(t: syn::Type) -> Option<Option<Type>>;
impl Type { #[verifier::external_body] pub fn load(t: &syn::Type) -> (r: Result<Option<Type>, String>)
    ensures r is Ok <==> ty_loads(*t) is Some, r is Ok ==> ty_loads(*t) == Some(r->Ok_0) { unimplemented!() } }
impl Path {
    #[verifier::external_body] pub fn vx_new(n: String) -> (r: Path) ensures r.name@ == n@ { unimplemented!() }
}
/// Path::new takes anything that turns into a String
pub trait VxInto { spec fn txt(&self) -> Seq<char>; }
impl VxInto for String { open spec fn txt(&self) -> Seq<char> { self@ } }
impl VxInto for &String { open spec fn txt(&self) -> Seq<char> { (**self)@ } }
impl Path { #[verifier::external_body] pub fn new<T: VxInto>(n: T) -> (r: Path) ensures r.name@ == n.txt() { unimplemented!() } }
// IndexMap::insert: a new key is appended, a known key keeps its place and gets the new value
pub open spec fn pos(ks: Seq<String>, k: Seq<char>, from: int) -> int
    decreases ks.len() - from
{ if from < 0 || from >= ks.len() { -1 } else if ks[from]@ == k { from } else { pos(ks, k, from + 1) } }
impl IndexMap<String, LiteralStructField> {
    #[verifier::external_body] pub fn vx_default() -> (r: Self) ensures r.ks@ == Seq::<String>::empty(), r.vs@ == Seq::<LiteralStructField>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: LiteralStructField)
        ensures inserted(old(self).ks@, old(self).vs@, k, v, final(self).ks@, final(self).vs@) { unimplemented!() }
}
//@gsubst IndexMap::<String, LiteralStructField>::default() => IndexMap::<String, LiteralStructField>::vx_default()
pub open spec fn inserted(k0: Seq<String>, v0: Seq<LiteralStructField>, k: String, v: LiteralStructField, ks: Seq<String>, vs: Seq<LiteralStructField>) -> bool { ks == ins_k(k0, k) && vs == ins_v(k0, v0, k, v) }
pub open spec fn ins_k(ks: Seq<String>, k: String) -> Seq<String> { if pos(ks, k@, 0) < 0 { ks.push(k) } else { ks } }
pub open spec fn ins_v(ks: Seq<String>, vs: Seq<LiteralStructField>, k: String, v: LiteralStructField) -> Seq<LiteralStructField> { if pos(ks, k@, 0) < 0 { vs.push(v) } else { vs.update(pos(ks, k@, 0), v) } }

// ================= specification: the tree an expression loads as =================
pub open spec fn op_text(o: syn::BinOp) -> Option<Seq<char>> {
    match o {
        syn::BinOp::Add(_) => Some("+"@), syn::BinOp::Sub(_) => Some("-"@), syn::BinOp::Mul(_) => Some("*"@), syn::BinOp::Div(_) => Some("/"@), syn::BinOp::Rem(_) => Some("%"@),
        syn::BinOp::And(_) => Some("&&"@), syn::BinOp::Or(_) => Some("||"@),
        syn::BinOp::BitXor(_) => Some("^"@), syn::BinOp::BitAnd(_) => Some("&"@), syn::BinOp::BitOr(_) => Some("|"@), syn::BinOp::Shl(_) => Some("<<"@), syn::BinOp::Shr(_) => Some(">>"@),
        syn::BinOp::Eq(_) => Some("=="@), syn::BinOp::Lt(_) => Some("<"@), syn::BinOp::Le(_) => Some("<="@), syn::BinOp::Ne(_) => Some("!="@), syn::BinOp::Ge(_) => Some(">="@), syn::BinOp::Gt(_) => Some(">"@),
        syn::BinOp::AddAssign(_) => Some("+="@), syn::BinOp::SubAssign(_) => Some("-="@), syn::BinOp::MulAssign(_) => Some("*="@), syn::BinOp::DivAssign(_) => Some("/="@), syn::BinOp::RemAssign(_) => Some("%="@),
        syn::BinOp::BitXorAssign(_) => Some("^="@), syn::BinOp::BitAndAssign(_) => Some("&="@), syn::BinOp::BitOrAssign(_) => Some("|="@), syn::BinOp::ShlAssign(_) => Some("<<="@), syn::BinOp::ShrAssign(_) => Some(">>="@),
        syn::BinOp::Other(_) => None,
    }
}
/// an integer keeps its value; the suffix keeps it from being a type too small in C
pub open spec fn int_text(v: syn::LitInt) -> Seq<char> {
    v.digits_of() + (if v.suffix_of() == "u64"@ { "ull"@ } else if v.suffix_of() == "i64"@ { "ll"@ } else if v.suffix_of() == "u32"@ { "u"@ } else if !v.fits_i64() { "ull"@ } else { ""@ })
}
/// plain and backslash characters as they are, others by code point: Rust's \u{..} is not C
pub open spec fn char_text(c: char) -> Seq<char> {
    let n = c as u32;
    if n <= 127 && esc_len(c) <= 2 { "'"@ + esc_text(c) + "'"@ }
    else if n <= 0x9F { "U'\\x"@ + hex_text(n, 2) + "'"@ }
    else { "U'\\U"@ + hex_text(n, 8) + "'"@ }
}
pub open spec fn lit_text(l: syn::Lit) -> Option<Seq<char>> {
    match l {
        syn::Lit::Byte(v) => Some(disp_u8(v.v)),
        syn::Lit::Char(v) => Some(char_text(v.v)),
        syn::Lit::Int(v) => Some(int_text(v)),
        syn::Lit::Float(v) => Some(v.digits_of()),
        syn::Lit::Bool(v) => Some(if v.value { "true"@ } else { "false"@ }),
        _ => None,
    }
}
pub open spec fn member_text(m: syn::Member) -> Seq<char> {
    match m { syn::Member::Named(n) => syn::unraw_of(n.s@), syn::Member::Unnamed(i) => "_"@ + disp_u32(i.index) }
}
/// a name in the source as the items of that name are listed
pub open spec fn seg(p: syn::Path, i: int) -> Seq<char> { syn::unraw_of(p.segs()[i].ident.s@) }
pub open spec fn path_loads(p: syn::Path, l: Literal) -> bool {
    if p.segs().len() == 1 { match l { Literal::Path { associated_to: None, name } => name@ == seg(p, 0), _ => false } }
    else { p.segs().len() == 2 && match l { Literal::Path { associated_to: Some(a), name } => a.0.name@ == seg(p, 0) && a.1@ == seg(p, 0) && name@ == seg(p, 1), _ => false } }
}
pub open spec fn loads(e: syn::Expr, l: Literal) -> bool
    decreases e
{
    match e {
        syn::Expr::Binary(b) => match l { Literal::BinOp { left, op, right } => loads(*b.left, *left) && Some(op@) == op_text(b.op) && loads(*b.right, *right), _ => false },
        syn::Expr::Lit(x) => match l { Literal::Expr(t) => Some(t@) == lit_text(x.lit), _ => false },
        syn::Expr::Field(f) => match l { Literal::FieldAccess { base, field } => loads(*f.base, *base) && field@ == member_text(f.member), _ => false },
        syn::Expr::Call(c) => match l {
            Literal::Struct { path, export_name, fields } => {
                &&& loads(*c.func, Literal::Path { associated_to: None, name: export_name }) && export_name@ == path.name@
                &&& arg_fields(c.args@, fields.ks@, fields.vs@, c.args@.len())
            },
            _ => false,
        },
        syn::Expr::Struct(s) => match l {
            Literal::Struct { path, export_name, fields } => {
                &&& s.rest is None && path.name@ == seg(s.path, 0) && export_name@ == path.name@
                &&& named_fields(s.fields@, fields.ks@, fields.vs@, s.fields@.len())
            },
            _ => false,
        },
        syn::Expr::Unary(u) => match l { Literal::PostfixUnaryOp { op, value } => (match u.op { syn::UnOp::Not(_) => op@ == "~"@, syn::UnOp::Neg(_) => op@ == "-"@, _ => false }) && loads(*u.expr, *value), _ => false },
        syn::Expr::Path(p) => path_loads(p.path, l),
        syn::Expr::Paren(p) => loads(*p.expr, l),
        syn::Expr::Cast(c) => match l { Literal::Cast { ty, value } => loads(*c.expr, *value) && ty_loads(*c.ty) == Some(Some(ty)), _ => false },
        syn::Expr::Array(a) => match l { Literal::Array { items } => items@.len() == a.elems@.len() && forall|i: int| 0 <= i < items@.len() ==> loads(#[trigger] a.elems@[i], items@[i]), _ => false },
        syn::Expr::Other(_) => false,
    }
}
/// the first n arguments of `Name(..)` as fields _0, _1, ..
pub open spec fn arg_fields(args: Seq<syn::Expr>, ks: Seq<String>, vs: Seq<LiteralStructField>, n: nat) -> bool
    decreases args, n
{
    if n == 0 || n > args.len() { ks == Seq::<String>::empty() && vs == Seq::<LiteralStructField>::empty() } else {
        exists|k0: Seq<String>, v0: Seq<LiteralStructField>, k: String, v: LiteralStructField| {
            &&& arg_fields(args, k0, v0, (n - 1) as nat)
            &&& #[trigger] inserted(k0, v0, k, v, ks, vs)
            &&& k@ == "_"@ + disp_u32((n - 1) as u32) && v.cfg is None && loads(args[n - 1], v.value)
        }
    }
}
pub open spec fn named_fields(fs: Seq<syn::FieldValue>, ks: Seq<String>, vs: Seq<LiteralStructField>, n: nat) -> bool
    decreases fs, n
{
    if n == 0 || n > fs.len() { ks == Seq::<String>::empty() && vs == Seq::<LiteralStructField>::empty() } else {
        exists|k0: Seq<String>, v0: Seq<LiteralStructField>, k: String, v: LiteralStructField| {
            &&& named_fields(fs, k0, v0, (n - 1) as nat)
            &&& #[trigger] inserted(k0, v0, k, v, ks, vs)
            &&& k@ == member_text(fs[n - 1].member) && v.cfg == cfg_of(fs[n - 1].attrs@) && loads(fs[n - 1].expr, v.value)
        }
    }
}

/// a plain name, possibly in parentheses
pub open spec fn simple_name(e: syn::Expr) -> bool
    decreases e
{ match e { syn::Expr::Path(p) => p.path.segs().len() == 1, syn::Expr::Paren(p) => simple_name(*p.expr), _ => false } }
/// every part is of a form that constants may use
pub open spec fn supported(e: syn::Expr) -> bool
    decreases e
{
    match e {
        syn::Expr::Binary(b) => supported(*b.left) && supported(*b.right) && op_text(b.op) is Some,
        syn::Expr::Lit(x) => lit_text(x.lit) is Some,
        syn::Expr::Field(f) => supported(*f.base),
        syn::Expr::Call(c) => simple_name(*c.func) && forall|i: int| 0 <= i < c.args@.len() ==> supported(#[trigger] c.args@[i]),
        syn::Expr::Struct(s) => s.rest is None && forall|i: int| 0 <= i < s.fields@.len() ==> supported((#[trigger] s.fields@[i]).expr),
        syn::Expr::Unary(u) => (u.op is Not || u.op is Neg) && supported(*u.expr),
        syn::Expr::Path(p) => p.path.segs().len() == 1 || p.path.segs().len() == 2,
        syn::Expr::Paren(p) => supported(*p.expr),
        syn::Expr::Cast(c) => supported(*c.expr) && ty_loads(*c.ty) is Some && ty_loads(*c.ty)->0 is Some,
        syn::Expr::Array(a) => forall|i: int| 0 <= i < a.elems@.len() ==> supported(#[trigger] a.elems@[i]),
        syn::Expr::Other(_) => false,
    }
}
pub broadcast proof fn lemma_simple(e: syn::Expr)
    requires #[trigger] simple_name(e),
    ensures supported(e), forall|l: Literal| #[trigger] loads(e, l) ==> l is Path && l->associated_to is None,
    decreases e
{
    match e { syn::Expr::Paren(p) => { lemma_simple(*p.expr); assert forall|l: Literal| #[trigger] loads(e, l) implies l is Path && l->associated_to is None by { assert(loads(*p.expr, l)); } }, _ => {} }
}

// ================= code under contract =================
//@fn src/bindgen/ir/constant.rs member_to_ident r
    ensures r@ == member_text(*member),
//@end
impl Literal {
//@fn src/bindgen/ir/constant.rs Literal::load r strlits
    ensures r is Ok ==> loads(*expr, r->Ok_0), r is Err ==> !supported(*expr),
//@pre
    broadcast use lemma_simple;
//@loop 0
    __s0@ == args@,
    arg_fields(args@, fields.ks@, fields.vs@, __i0 as nat),
//@loop 1
    __s1@ == fields@,
    named_fields(fields@, field_map.ks@, field_map.vs@, __i1 as nat),
//@loop 2
    __s2@ == elems@, items@.len() == __i2, forall|i: int| 0 <= i < __i2 ==> loads(#[trigger] elems@[i], items@[i]),
//@end
}
} // verus!
fn main() {}
