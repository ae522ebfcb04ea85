// ---------------- syn (dependency): the expression syntax tree, as far as this code looks at it ----------------
// Same constructors and fields as syn 2; `Punctuated` lists are vectors of their elements, tokens are
// unit structs, and the constructors this code treats alike (`_ =>`) are one constructor `Other`.
pub mod syn {
use super::*;
#[derive(Clone, Copy)]
pub struct Tok;
#[verifier::external_body] pub struct Attribute { _p: () }
#[verifier::external_body] pub struct Type { _p: () }
#[verifier::external_body] pub struct OtherExpr { _p: () }
pub struct Ident { pub s: String }
/// the identifier's text, with r# if it has one
impl Ident {
    #[verifier::external_body] pub fn unraw(&self) -> (r: &Ident) ensures r.s@ == unraw_of(self.s@) { unimplemented!() }
}
impl VxOwned for Ident { type O = String; open spec fn owned_rel(&self, o: String) -> bool { o@ == self.s@ } }
/// IdentExt::unraw: the identifier without r#
pub uninterp spec fn unraw_of(s: Seq<char>) -> Seq<char>;
pub struct Index { pub index: u32 }
impl Index { #[verifier::external_body] pub fn from(i: usize) -> (r: Index) ensures r.index == i as u32 { unimplemented!() } }
pub enum Member { Named(Ident), Unnamed(Index) }
pub struct PathSegment { pub ident: Ident }
#[verifier::external_body] pub struct Path { _p: () }
/// `path.segments`: a parsed path has at least one
impl Path {
    pub uninterp spec fn segs(&self) -> Seq<PathSegment>;
    #[verifier::external_body] pub fn vx_segments(&self) -> (r: &Vec<PathSegment>) ensures r@ == self.segs(), r@.len() > 0 { unimplemented!() }
}
#[derive(Clone, Copy)]
pub enum BinOp {
    Add(Tok), Sub(Tok), Mul(Tok), Div(Tok), Rem(Tok), And(Tok), Or(Tok), BitXor(Tok), BitAnd(Tok), BitOr(Tok), Shl(Tok), Shr(Tok),
    Eq(Tok), Lt(Tok), Le(Tok), Ne(Tok), Ge(Tok), Gt(Tok),
    AddAssign(Tok), SubAssign(Tok), MulAssign(Tok), DivAssign(Tok), RemAssign(Tok), BitXorAssign(Tok), BitAndAssign(Tok), BitOrAssign(Tok), ShlAssign(Tok), ShrAssign(Tok),
    Other(Tok),
}
#[derive(Clone, Copy)]
pub enum UnOp { Deref(Tok), Not(Tok), Neg(Tok), Other(Tok) }
pub struct LitByte { pub v: u8 }
pub struct LitChar { pub v: char }
pub struct LitBool { pub value: bool }
#[verifier::external_body] pub struct LitInt { _p: () }
#[verifier::external_body] pub struct LitFloat { _p: () }
impl LitByte { #[verifier::external_body] pub fn value(&self) -> (r: u8) ensures r == self.v { unimplemented!() } }
impl LitChar { #[verifier::external_body] pub fn value(&self) -> (r: char) ensures r == self.v { unimplemented!() } }
impl LitInt {
    pub uninterp spec fn suffix_of(&self) -> Seq<char>;
    pub uninterp spec fn digits_of(&self) -> Seq<char>;
    pub uninterp spec fn fits_i64(&self) -> bool;
    #[verifier::external_body] pub fn suffix(&self) -> (r: &str) ensures r@ == self.suffix_of() { unimplemented!() }
    #[verifier::external_body] pub fn base10_digits(&self) -> (r: &str) ensures r@ == self.digits_of() { unimplemented!() }
    /// base10_parse::<i64>()
    #[verifier::external_body] pub fn parse_i64(&self) -> (r: Result<i64, String>) ensures r is Ok <==> self.fits_i64() { unimplemented!() }
}
impl LitFloat {
    pub uninterp spec fn digits_of(&self) -> Seq<char>;
    #[verifier::external_body] pub fn base10_digits(&self) -> (r: &str) ensures r@ == self.digits_of() { unimplemented!() }
}
pub enum Lit { Str(Tok), ByteStr(Tok), Byte(LitByte), Char(LitChar), Int(LitInt), Float(LitFloat), Bool(LitBool), Other(Tok) }
pub struct FieldValue { pub attrs: Vec<Attribute>, pub member: Member, pub expr: Expr }
pub struct ExprBinary { pub attrs: Vec<Attribute>, pub left: Box<Expr>, pub op: BinOp, pub right: Box<Expr> }
pub struct ExprLit { pub attrs: Vec<Attribute>, pub lit: Lit }
pub struct ExprField { pub attrs: Vec<Attribute>, pub base: Box<Expr>, pub member: Member }
pub struct ExprCall { pub attrs: Vec<Attribute>, pub func: Box<Expr>, pub args: Vec<Expr> }
pub struct ExprStruct { pub attrs: Vec<Attribute>, pub path: Path, pub fields: Vec<FieldValue>, pub rest: Option<Box<Expr>> }
pub struct ExprUnary { pub attrs: Vec<Attribute>, pub op: UnOp, pub expr: Box<Expr> }
pub struct ExprPath { pub attrs: Vec<Attribute>, pub path: Path }
pub struct ExprParen { pub attrs: Vec<Attribute>, pub expr: Box<Expr> }
pub struct ExprCast { pub attrs: Vec<Attribute>, pub expr: Box<Expr>, pub ty: Box<Type> }
pub struct ExprArray { pub attrs: Vec<Attribute>, pub elems: Vec<Expr> }
pub enum Expr {
    Binary(ExprBinary), Lit(ExprLit), Field(ExprField), Call(ExprCall), Struct(ExprStruct), Unary(ExprUnary), Path(ExprPath),
    Paren(ExprParen), Cast(ExprCast), Array(ExprArray), Other(OtherExpr),
}
}
