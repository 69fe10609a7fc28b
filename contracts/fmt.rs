// Text output: what `std::fmt` does as far as the code uses it.
use vstd::prelude::*;
use crate::spec::*;
verus! {

#[verifier::external_body]
pub struct Error {}
pub type Result = core::result::Result<(), Error>;
/// stands for `std::fmt::Formatter`
#[verifier::external_body]
pub struct Formatter<'a> { b: &'a mut String }
impl<'a> Formatter<'a> {
    /// what was written so far
    pub uninterp spec fn text(&self) -> Seq<char>;
    /// whether writing cannot fail (as into a `String`)
    pub uninterp spec fn sure(&self) -> bool;
    #[verifier::external_body]
    pub fn fresh() -> (r: Self)
        ensures r.text() == Seq::<char>::empty(), r.sure(),
    { unimplemented!() }
}
/// `f.write_str(s)`
#[verifier::external_body]
pub fn put(f: &mut Formatter<'_>, s: &str) -> (r: Result)
    ensures final(f).sure() == old(f).sure(), old(f).sure() ==> r is Ok, r is Ok ==> final(f).text() == old(f).text() + s@,
{ unimplemented!() }
/// the text behind `format!`
#[verifier::external_body]
pub fn done(r: Result, f: Formatter<'_>) -> (s: String)
    requires r is Ok,
    ensures s@ == f.text(),
{ unimplemented!() }
/// stands for `std::fmt::Display`
pub trait Display {
    /// the text that is written
    spec fn shown(&self) -> Seq<char>;
    fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result)
        ensures final(f).sure() == old(f).sure(), old(f).sure() ==> r is Ok, r is Ok ==> final(f).text() == old(f).text() + self.shown();
}
impl<T: Display + ?Sized> Display for &T {
    open spec fn shown(&self) -> Seq<char> { (**self).shown() }
    fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { (**self).fmt(f) }
}
impl Display for String {
    open spec fn shown(&self) -> Seq<char> { self@ }
    fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { put(f, self.as_str()) }
}
impl Display for str {
    open spec fn shown(&self) -> Seq<char> { self@ }
    fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { put(f, self) }
}
/// `ToString::to_string`
pub fn to_text<T: Display>(x: &T) -> (s: String)
    ensures s@ == x.shown(),
{
    let mut f = Formatter::fresh();
    let r = x.fmt(&mut f);
    proof { assert(f.text() =~= x.shown()); }
    done(r, f)
}
pub broadcast proof fn lemma_assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures #[trigger] ((a + b) + c) == a + (b + c),
{ assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn lemma_empty(a: Seq<char>)
    ensures #[trigger] (Seq::<char>::empty() + a) == a,
{ assert(Seq::<char>::empty() + a =~= a); }
pub broadcast group group_text { lemma_assoc, lemma_empty }

} // verus!
