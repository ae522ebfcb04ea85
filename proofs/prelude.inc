// Prelude shared by all proof files: trusted stand-ins for the library calls that the extraction
// rules introduce. Everything marked external_body or axiom here is an assumption (listed by the
// runner in the evidence).
#![allow(unused_imports, unused_variables, unused_mut, unused_parens, unused_braces, dead_code, non_snake_case, unused_assignments, unreachable_code, non_camel_case_types, path_statements, unused_must_use)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::option::*;
use vstd::std_specs::hash::*;
use std::collections::HashMap;
use std::collections::HashSet;

verus! {

pub mod vx_ax {
use vstd::prelude::*;
// ---- extensionality of owned strings and vectors (value equality is content equality) ----
pub broadcast axiom fn axiom_string_ext(a: String, b: String)
    ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
pub broadcast axiom fn axiom_str_ext(a: &str, b: &str)
    ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
pub axiom fn axiom_vec_ext<T>(a: Vec<T>, b: Vec<T>)
    ensures a@ == b@ ==> a == b;

}
pub use vx_ax::*;
broadcast use {axiom_string_ext, axiom_str_ext/*VX_BROADCAST*/};

// ---- L1/L2/L3: slices of sequences ----
pub trait VxSl {
    type E;
    spec fn vx_seq(&self) -> Seq<Self::E>;
    fn vx_sl(&self) -> (r: &[Self::E])
        ensures r@ == self.vx_seq();
}
impl<T> VxSl for Vec<T> {
    type E = T;
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    fn vx_sl(&self) -> (r: &[T]) { self.as_slice() }
}
impl<T> VxSl for [T] {
    type E = T;
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    fn vx_sl(&self) -> (r: &[T]) { self }
}
#[verifier::external_body]
pub fn vx_move<T>(x: &T) -> (r: T)
    ensures r == *x
{ unimplemented!() }
/// L6: `v.into_iter().next()`
#[verifier::external_body]
pub fn vx_first<T>(v: Vec<T>) -> (r: Option<T>)
    ensures r is Some <==> v@.len() > 0, r is Some ==> r->0 == v@[0]
{ v.into_iter().next() }
/// std::mem::take of a vector
#[verifier::external_body]
pub fn vx_take_vec<T>(v: &mut Vec<T>) -> (r: Vec<T>)
    ensures r == *old(v), final(v)@.len() == 0
{ std::mem::take(v) }
/// L8: Iterator::chain of two evaluated sequences
#[verifier::external_body]
pub fn vx_chain<T>(a: Vec<T>, b: Vec<T>) -> (r: Vec<T>) ensures r@ == a@ + b@ { unimplemented!() }
pub fn vx_min(a: usize, b: usize) -> (r: usize)
    ensures r == (if a <= b { a } else { b })
{ if a <= b { a } else { b } }

pub open spec fn rest_of<T>(s: Seq<T>, i: int, rev: bool) -> Seq<T> {
    if rev { s.take(s.len() - i).reverse() } else { s.skip(i) }
}
pub proof fn lemma_rest<T>(s: Seq<T>, i: int, rev: bool)
    requires 0 <= i <= s.len(),
    ensures rest_of(s, i, rev).len() == s.len() - i,
        i < s.len() ==> rest_of(s, i, rev)[0] == (if rev { s[s.len() - 1 - i] } else { s[i] }),
        i < s.len() ==> rest_of(s, i + 1, rev) == rest_of(s, i, rev).skip(1),
{
    if i < s.len() {
        if rev {
            let a = s.take(s.len() - i).reverse().skip(1);
            let b = s.take(s.len() - (i + 1)).reverse();
            assert(a.len() == b.len());
            assert forall|k: int| 0 <= k < a.len() implies a[k] == b[k] by { }
            assert(a =~= b);
        } else { assert(s.skip(i + 1) =~= s.skip(i).skip(1)); }
    }
}
pub struct VxIter<'a, T> { pub s: &'a [T], pub i: usize, pub rev: bool }
impl<'a, T> VxIter<'a, T> {
    pub open spec fn wf(&self) -> bool { self.i <= self.s@.len() }
    pub open spec fn rest(&self) -> Seq<T> { rest_of(self.s@, self.i as int, self.rev) }
    #[verifier::spinoff_prover]
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).wf(),
        ensures final(self).wf(), final(self).s == old(self).s, final(self).rev == old(self).rev,
            old(self).rest().len() == 0 ==> r is None && final(self).i == old(self).i,
            old(self).rest().len() > 0 ==> r == Some(&old(self).rest()[0]) && final(self).i == old(self).i + 1
               && final(self).rest() == old(self).rest().skip(1),
    {
        hide(rest_of); proof { lemma_rest(self.s@, self.i as int, self.rev); }
        if self.i < self.s.len() {
            let x = if self.rev { &self.s[self.s.len() - 1 - self.i] } else { &self.s[self.i] };
            self.i = self.i + 1;
            Some(x)
        } else { None }
    }
    pub fn peek(&self) -> (r: Option<&'a T>)
        requires self.wf(),
        ensures self.rest().len() == 0 ==> r is None, self.rest().len() > 0 ==> r == Some(&self.rest()[0]),
    {
        hide(rest_of); proof { lemma_rest(self.s@, self.i as int, self.rev); }
        if self.i < self.s.len() {
            let x = if self.rev { &self.s[self.s.len() - 1 - self.i] } else { &self.s[self.i] };
            Some(x)
        } else { None }
    }
}
pub fn vx_iter<'a, T>(s: &'a [T]) -> (r: VxIter<'a, T>)
    ensures r.wf(), r.s == s, r.i == 0, !r.rev, r.rest() == s@
{ let r = VxIter { s, i: 0, rev: false }; proof { assert(r.rest() =~= s@); } r }
pub fn vx_iter_rev<'a, T>(s: &'a [T]) -> (r: VxIter<'a, T>)
    ensures r.wf(), r.s == s, r.i == 0, r.rev, r.rest() == s@.reverse()
{ let r = VxIter { s, i: 0, rev: true }; proof { assert(r.rest() =~= s@.reverse()); } r }

// ---- panics and assertions ----
#[verifier::external_body]
pub fn vx_panic() -> !
    requires false
{ panic!() }
#[verifier::external_body]
pub fn vx_panic_ok() -> !
    ensures false
{ panic!() }
pub fn vx_assert(b: bool)
    requires b
{ }
#[verifier::external_body]
pub fn vx_assert_ok(b: bool)
    ensures b
{ assert!(b) }

// ---- Clone (derived clones are structural copies) ----
#[verifier::external_body]
pub fn vx_clone<T: Clone>(x: &T) -> (r: T)
    ensures r == *x
{ x.clone() }
/// S-clone: `x.clone()` is read as `x.vx_cl()` (same method resolution as Clone::clone).
pub trait VxClone: Sized {
    fn vx_cl(&self) -> (r: Self)
        ensures r == *self;
}
impl<T: Clone> VxClone for T {
    #[verifier::external_body]
    fn vx_cl(&self) -> (r: Self) { self.clone() }
}
pub trait VxOwned {
    type O;
    spec fn owned_rel(&self, o: Self::O) -> bool;
}
impl VxOwned for str { type O = String; open spec fn owned_rel(&self, o: String) -> bool { o@ == self@ } }
impl VxOwned for String { type O = String; open spec fn owned_rel(&self, o: String) -> bool { o@ == self@ } }
impl<T> VxOwned for [T] { type O = Vec<T>; open spec fn owned_rel(&self, o: Vec<T>) -> bool { o@ == self@ } }
#[verifier::external_body]
pub fn vx_to_owned<T: VxOwned + ?Sized>(x: &T) -> (r: T::O)
    ensures x.owned_rel(r)
{ unimplemented!() }

impl<'a> VxOwned for &'a str { type O = String; open spec fn owned_rel(&self, o: String) -> bool { o@ == (*self)@ } }
// ---- strings ----
pub fn vx_as_deref(x: &Option<String>) -> (r: Option<&str>)
    ensures r is Some <==> x is Some, r is Some ==> r->0@ == x->0@
{ match x { Some(s) => Some(s.as_str()), None => None } }
#[verifier::external_body]
pub fn vx_push_str(s: &mut String, x: &str)
    ensures final(s)@ == old(s)@ + x@
{ s.push_str(x) }
pub trait VxStr {
    fn vx_push_char(&mut self, c: char);
    fn vx_insert_front(&mut self, c: char);
    fn vx_first_char(&self) -> (r: Option<char>);
}
impl VxStr for String {
    #[verifier::external_body]
    fn vx_push_char(&mut self, c: char) ensures final(self)@ == old(self)@.push(c) { self.push(c) }
    #[verifier::external_body]
    fn vx_insert_front(&mut self, c: char) ensures final(self)@ == seq![c] + old(self)@ { self.insert(0, c) }
    #[verifier::external_body]
    fn vx_first_char(&self) -> (r: Option<char>)
        ensures r is Some <==> self@.len() > 0, r is Some ==> r->0 == self@[0]
    { self.chars().next() }
}
pub open spec fn is_digit_ch(c: char) -> bool { '0' <= c && c <= '9' }
pub fn vx_is_ascii_digit(c: char) -> (r: bool) ensures r == is_digit_ch(c) { '0' <= c && c <= '9' }
/// S-lowercase: str::to_lowercase, opened nowhere
pub uninterp spec fn lower_of(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn vx_to_lower(s: &str) -> (r: String) ensures r@ == lower_of(s@) { s.to_lowercase() }
#[verifier::external_body]
pub fn vx_starts_with(s: &str, p: &str) -> (r: bool) ensures r == p@.is_prefix_of(s@) { s.starts_with(p) }
/// length in bytes (UTF-8); opened nowhere
pub uninterp spec fn byte_len(s: Seq<char>) -> nat;
#[verifier::external_body]
pub fn vx_byte_len(s: &str) -> (r: usize) ensures r == byte_len(s@) { s.len() }
/// `s[n..].to_string()`
#[verifier::external_body]
pub fn vx_str_from(s: &str, n: usize) -> (r: String)
    requires exists|k: int| 0 <= k <= s@.len() && #[trigger] byte_len(s@.take(k)) == n,
    ensures forall|k: int| 0 <= k <= s@.len() && #[trigger] byte_len(s@.take(k)) == n ==> r@ == s@.skip(k),
{ s[n..].to_string() }
pub trait VxDisp {
    spec fn disp(&self) -> Seq<char>;
}
impl VxDisp for String { open spec fn disp(&self) -> Seq<char> { self@ } }
impl VxDisp for str { open spec fn disp(&self) -> Seq<char> { self@ } }
pub uninterp spec fn disp_u64(n: u64) -> Seq<char>;
impl VxDisp for u64 { open spec fn disp(&self) -> Seq<char> { disp_u64(*self) } }
impl<T: VxDisp + ?Sized> VxDisp for &T { open spec fn disp(&self) -> Seq<char> { (**self).disp() } }
#[verifier::external_body]
pub fn vx_push_disp<T: VxDisp>(s: &mut String, x: &T)
    ensures final(s)@ == old(s)@ + x.disp()
{ unimplemented!() }
/// upper-case hexadecimal digits, zero-padded to a width
pub uninterp spec fn hex_text(x: u32, w: usize) -> Seq<char>;
#[verifier::external_body]
pub fn vx_push_hex(s: &mut String, x: u32, w: usize)
    ensures final(s)@ == old(s)@ + hex_text(x, w)
{ unimplemented!() }
/// Debug formatting: some text
#[verifier::external_body]
pub fn vx_push_dbg<T>(s: &mut String, x: &T) { unimplemented!() }

} // verus!
