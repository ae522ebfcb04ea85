/// Stand-in for SourceWriter: its text so far, where a line break together with the indentation
/// that follows reads as one space. What the real writer does with each call is property C13.
pub struct SourceWriter { pub t: Ghost<Seq<char>> }
impl SourceWriter {
    pub open spec fn txt(&self) -> Seq<char> { self.t@ }
    #[verifier::external_body]
    pub fn write(&mut self, text: &'static str)
        ensures final(self).txt() == old(self).txt() + text@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn w_str(&mut self, text: &str)
        ensures final(self).txt() == old(self).txt() + text@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn w_disp<T: VxDisp + ?Sized>(&mut self, x: &T)
        ensures final(self).txt() == old(self).txt() + x.disp(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new_line(&mut self)
        ensures final(self).txt() == old(self).txt() + " "@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn line_length_for_align(&self) -> (r: usize)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push_set_spaces(&mut self, n: usize)
        ensures final(self).txt() == old(self).txt(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_tab(&mut self)
        ensures final(self).txt() == old(self).txt(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_set_spaces(&mut self)
        ensures final(self).txt() == old(self).txt(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn open_brace(&mut self)
        ensures final(self).txt() == old(self).txt() + brace_open(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn close_brace(&mut self, semicolon: bool)
        ensures final(self).txt() == old(self).txt() + brace_close(semicolon),
    { unimplemented!() }
    /// whether a trial layout fits: nothing is assumed about the answer
    #[verifier::external_body]
    pub fn vx_try(&mut self, n: usize) -> (r: bool)
        ensures final(self).txt() == old(self).txt(),
    { unimplemented!() }
}
/// what opening and closing a block prints under the configured brace style (property C13)
pub uninterp spec fn brace_open() -> Seq<char>;
pub uninterp spec fn brace_close(semicolon: bool) -> Seq<char>;
