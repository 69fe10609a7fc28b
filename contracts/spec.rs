// Mathematical vocabulary of the contracts: positions, character classes, UTF-8 facts,
// and the (trusted) specifications of standard library functions.
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::cmp::PartialEqSpec;
use crate::dts::data::{Position, Span};
use std::sync::Arc;
use std::path::{Path, PathBuf};
verus! {


/// Assumption: a source text is shorter than 2^29 bytes, so that no position overflows (a
/// position counts at most two units per byte and is stored in 32 bits).
pub spec const MAX_LEN: int = 0x1fff_ffff;

pub open spec fn ok_data(d: Seq<u8>) -> bool { d.len() <= MAX_LEN && valid_utf8(d) }

// ---- positions -------------------------------------------------------------------------

/// UTF-16 code units that a byte of UTF-8 text accounts for
pub open spec fn width(b: u8) -> int {
    if 0x80 <= b && b <= 0xbf { 0 } else if b >= 0xf0 { 2 } else { 1 }
}

pub open spec fn line_at(d: Seq<u8>, i: int) -> int decreases i {
    if i <= 0 { 0 } else if d[i - 1] == 10 { line_at(d, i - 1) + 1 } else { line_at(d, i - 1) }
}

pub open spec fn col_at(d: Seq<u8>, i: int) -> int decreases i {
    if i <= 0 { 0 } else if d[i - 1] == 10 { 0 } else { col_at(d, i - 1) + width(d[i - 1]) }
}

/// line and column of the i-th byte
pub open spec fn pos_at(d: Seq<u8>, i: int) -> Position {
    Position { line: line_at(d, i) as u32, character: col_at(d, i) as u32 }
}

pub open spec fn pos_lt(a: Position, b: Position) -> bool {
    a.line < b.line || (a.line == b.line && a.character < b.character)
}

pub proof fn lemma_pos_bound(d: Seq<u8>, i: int)
    requires 0 <= i <= d.len(),
    ensures 0 <= line_at(d, i) <= i, 0 <= col_at(d, i) <= 2 * i,
    decreases i
{
    if i > 0 { lemma_pos_bound(d, i - 1); }
}

pub proof fn lemma_pos_mono(d: Seq<u8>, i: int, j: int)
    requires 0 <= i <= j <= d.len(),
    ensures line_at(d, i) < line_at(d, j) || (line_at(d, i) == line_at(d, j) && col_at(d, i) <= col_at(d, j)),
    decreases j
{
    if i < j { lemma_pos_mono(d, i, j - 1); lemma_pos_bound(d, j - 1); }
}

/// positions grow over every (whole) character
pub proof fn lemma_pos_lt(d: Seq<u8>, i: int, j: int)
    requires ok_data(d), 0 <= i < j <= d.len(), bnd(d, i),
    ensures pos_lt(pos_at(d, i), pos_at(d, j)),
        pos_at(d, i) != pos_at(d, j),
        line_at(d, i) <= line_at(d, j) <= MAX_LEN, col_at(d, i) <= 2 * MAX_LEN, col_at(d, j) <= 2 * MAX_LEN,
{
    is_char_boundary_iff_not_is_continuation_byte(d, i);
    lemma_pos_bound(d, i);
    lemma_pos_bound(d, i + 1);
    lemma_pos_bound(d, j);
    lemma_pos_mono(d, i + 1, j);
    assert(width(d[i]) >= 1) by { lemma_not_cont(d[i]); }
}

pub proof fn lemma_not_cont(b: u8)
    requires !is_continuation_byte(b),
    ensures width(b) >= 1,
{
    if 0x80 <= b && b <= 0xbf {
        assert(b & 0xC0 == 0x80) by (bit_vector) requires 0x80u8 <= b && b <= 0xbfu8;
    }
}

// ---- character boundaries --------------------------------------------------------------

pub open spec fn bnd(d: Seq<u8>, i: int) -> bool { is_char_boundary(d, i) }

pub proof fn lemma_bnd_start(d: Seq<u8>)
    requires valid_utf8(d),
    ensures bnd(d, 0), bnd(d, d.len() as int),
{
    is_char_boundary_start_end_of_seq(d);
}

pub proof fn lemma_ascii_bnd(d: Seq<u8>, i: int)
    requires valid_utf8(d), 0 <= i < d.len(), d[i] < 0x80,
    ensures bnd(d, i), bnd(d, i + 1),
{
    let b = d[i];
    assert(b & 0xC0 != 0x80) by (bit_vector) requires b < 0x80u8;
    is_char_boundary_iff_not_is_continuation_byte(d, i);
    valid_utf8_split(d, i);
    let t = d.subrange(i, d.len() as int);
    assert(t[0] == d[i]);
    if i + 1 < d.len() {
        is_char_boundary_iff_not_is_continuation_byte(d, i + 1);
        is_char_boundary_iff_not_is_continuation_byte(t, 1);
        reveal_with_fuel(is_char_boundary, 3);
        assert(is_char_boundary(t, 1));
    } else {
        is_char_boundary_start_end_of_seq(d);
    }
}

pub proof fn lemma_not_cont_bnd(d: Seq<u8>, i: int)
    requires valid_utf8(d), 0 <= i <= d.len(), i < d.len() ==> width(d[i]) != 0,
    ensures bnd(d, i),
{
    if i < d.len() {
        let b = d[i];
        assert(b & 0xC0 != 0x80) by (bit_vector) requires b < 0x80u8 || b > 0xbfu8;
        is_char_boundary_iff_not_is_continuation_byte(d, i);
    } else {
        lemma_bnd_start(d);
    }
}

pub proof fn lemma_sub_valid(d: Seq<u8>, a: int, b: int)
    requires valid_utf8(d), 0 <= a <= b <= d.len(), bnd(d, a), bnd(d, b),
    ensures valid_utf8(d.subrange(a, b)),
{
    valid_utf8_split(d, b);
    let h = d.subrange(0, b);
    if a < b {
        is_char_boundary_iff_not_is_continuation_byte(d, a);
        is_char_boundary_iff_not_is_continuation_byte(h, a);
    } else {
        is_char_boundary_start_end_of_seq(h);
    }
    valid_utf8_split(h, a);
    assert(h.subrange(a, h.len() as int) =~= d.subrange(a, b));
}

pub open spec fn ascii(s: Seq<u8>) -> bool {
    forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] < 0x80
}

pub proof fn lemma_ascii_valid(s: Seq<u8>)
    requires ascii(s),
    ensures valid_utf8(s),
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.subrange(1, s.len() as int);
        lemma_ascii_valid(t);
        reveal_with_fuel(valid_utf8, 3);
    }
}

// ---- classes of characters -------------------------------------------------------------

pub enum Cls {
    /// characters of node and property names
    Name,
    /// characters of a label in a reference
    Label,
    Alnum,
    /// everything but this byte
    Not(u8),
}

pub open spec fn is_alnum(b: u8) -> bool {
    (48 <= b && b <= 57) || (65 <= b && b <= 90) || (97 <= b && b <= 122)
}

pub open spec fn is_letter(b: u8) -> bool { (65 <= b && b <= 90) || (97 <= b && b <= 122) }

pub open spec fn is_ws(b: u8) -> bool { b == 32 || b == 9 || b == 10 || b == 12 || b == 13 }

/// , . _ + ? # -
pub open spec fn is_name_punct(b: u8) -> bool {
    b == 44 || b == 46 || b == 95 || b == 43 || b == 63 || b == 35 || b == 45
}

pub open spec fn in_cls(c: Cls, b: u8) -> bool {
    match c {
        Cls::Name => is_alnum(b) || is_name_punct(b),
        Cls::Label => is_alnum(b) || b == 95,
        Cls::Alnum => is_alnum(b),
        Cls::Not(x) => b != x,
    }
}

/// end of the longest run of characters of the class
pub open spec fn scan(d: Seq<u8>, i: int, c: Cls) -> int decreases d.len() - i {
    if 0 <= i < d.len() && in_cls(c, d[i]) { scan(d, i + 1, c) } else { i }
}

pub open spec fn skip_ws(d: Seq<u8>, i: int) -> int decreases d.len() - i {
    if 0 <= i < d.len() && is_ws(d[i]) { skip_ws(d, i + 1) } else { i }
}

pub open spec fn skip_cont(d: Seq<u8>, i: int) -> int decreases d.len() - i {
    if 0 <= i < d.len() && width(d[i]) == 0 { skip_cont(d, i + 1) } else { i }
}

pub proof fn lemma_scan(d: Seq<u8>, i: int, c: Cls)
    requires 0 <= i <= d.len(),
    ensures i <= scan(d, i, c) <= d.len(),
        forall|k: int| i <= k < scan(d, i, c) ==> in_cls(c, #[trigger] d[k]),
        scan(d, i, c) < d.len() ==> !in_cls(c, d[scan(d, i, c)]),
    decreases d.len() - i
{
    if i < d.len() && in_cls(c, d[i]) { lemma_scan(d, i + 1, c); }
}

/// runs of ASCII characters are valid text between character boundaries
pub proof fn lemma_scan_ascii(d: Seq<u8>, i: int, c: Cls)
    requires valid_utf8(d), 0 <= i <= d.len(), bnd(d, i), !(c is Not),
    ensures i <= scan(d, i, c) <= d.len(), bnd(d, scan(d, i, c)),
        i < d.len() && in_cls(c, d[i]) ==> i < scan(d, i, c),
        ascii(d.subrange(i, scan(d, i, c))),
        valid_utf8(d.subrange(i, scan(d, i, c))),
{
    let e = scan(d, i, c);
    lemma_scan(d, i, c);
    assert(ascii(d.subrange(i, e))) by {
        assert forall|k: int| 0 <= k < e - i implies #[trigger] d.subrange(i, e)[k] < 0x80 by {
            assert(in_cls(c, d[i + k]));
        }
    }
    lemma_ascii_valid(d.subrange(i, e));
    if e > i { assert(in_cls(c, d[e - 1])); lemma_ascii_bnd(d, e - 1); }
}

pub proof fn lemma_scan_not(d: Seq<u8>, i: int, x: u8)
    requires valid_utf8(d), 0 <= i <= d.len(), bnd(d, i), x < 0x80,
    ensures i <= scan(d, i, Cls::Not(x)) <= d.len(), bnd(d, scan(d, i, Cls::Not(x))),
        valid_utf8(d.subrange(i, scan(d, i, Cls::Not(x)))),
{
    let e = scan(d, i, Cls::Not(x));
    lemma_scan(d, i, Cls::Not(x));
    if e < d.len() { lemma_ascii_bnd(d, e); } else { lemma_bnd_start(d); }
    lemma_sub_valid(d, i, e);
}

pub proof fn lemma_skip_ws(d: Seq<u8>, i: int)
    requires valid_utf8(d), 0 <= i <= d.len(), bnd(d, i),
    ensures i <= skip_ws(d, i) <= d.len(), bnd(d, skip_ws(d, i)),
        forall|k: int| i <= k < skip_ws(d, i) ==> is_ws(#[trigger] d[k]),
        skip_ws(d, i) < d.len() ==> !is_ws(d[skip_ws(d, i)]),
    decreases d.len() - i
{
    if i < d.len() && is_ws(d[i]) { lemma_ascii_bnd(d, i); lemma_skip_ws(d, i + 1); }
}

pub proof fn lemma_skip_cont(d: Seq<u8>, i: int)
    requires valid_utf8(d), 0 <= i <= d.len(),
    ensures i <= skip_cont(d, i) <= d.len(), bnd(d, skip_cont(d, i)),
    decreases d.len() - i
{
    if i < d.len() && width(d[i]) == 0 { lemma_skip_cont(d, i + 1); } else { lemma_not_cont_bnd(d, i); }
}

/// the text between two byte offsets
pub open spec fn txt(d: Seq<u8>, a: int, b: int) -> Seq<char> { decode_utf8(d.subrange(a, b)) }


// ---- texts ---------------------------------------------------------------------------------

/// first place of the character from `i` on, or the length of the text
pub open spec fn find_ch(s: Seq<char>, c: char, i: int) -> int decreases s.len() - i {
    if 0 <= i < s.len() && s[i] != c { find_ch(s, c, i + 1) } else { i }
}
/// the pieces between the separators
pub open spec fn sp_split(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    let k = find_ch(s, c, 0);
    if 0 <= k < s.len() { seq![s.subrange(0, k)] + sp_split(s.subrange(k + 1, s.len() as int), c) } else { seq![s] }
}
pub open spec fn u16len(s: Seq<char>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { u16len(s.drop_last()) + (if s.last() as u32 >= 0x10000 { 2int } else { 1 }) }
}
pub open spec fn digit(c: char) -> Option<int> {
    if '0' <= c && c <= '9' { Some(c as int - 48) }
    else if 'a' <= c && c <= 'f' { Some(c as int - 87) }
    else if 'A' <= c && c <= 'F' { Some(c as int - 55) }
    else { None }
}
/// the value of a sequence of digits
pub open spec fn digits(s: Seq<char>, radix: int) -> Option<int> decreases s.len() {
    if s.len() == 0 {
        None
    } else {
        match digit(s.last()) {
            Some(d) => if d >= radix { None } else if s.len() == 1 { Some(d) } else {
                match digits(s.drop_last(), radix) { Some(v) => Some(v * radix + d), None => None }
            },
            None => None,
        }
    }
}
/// what `from_str_radix` of the unsigned types accepts
pub open spec fn uint(s: Seq<char>, radix: int, max: int) -> Option<int> {
    let t = if s.len() > 0 && s[0] == '+' { s.subrange(1, s.len() as int) } else { s };
    match digits(t, radix) { Some(v) => if v <= max { Some(v) } else { None }, None => None }
}

// Methods of the standard library that Verus has no specification for; the extraction replaces
// their calls by calls of these functions, which state what the library documents.
/// texts, owned or borrowed
pub trait Txt { spec fn t(&self) -> Seq<char>; }
impl Txt for str { open spec fn t(&self) -> Seq<char> { self@ } }
impl Txt for String { open spec fn t(&self) -> Seq<char> { self@ } }
impl<T: Txt + ?Sized> Txt for &T { open spec fn t(&self) -> Seq<char> { (**self).t() } }
#[verifier::external_body]
pub fn byte_len<S: Txt + ?Sized>(s: &S) -> (r: usize)
    ensures r == encode_utf8(s.t()).len(),
{ unimplemented!() }
/// `s.encode_utf16().count()`
#[verifier::external_body]
pub fn u16_count<S: Txt + ?Sized>(s: &S) -> (r: usize)
    ensures r == u16len(s.t()),
{ unimplemented!() }
#[verifier::external_body]
pub fn split_once<'a, S: Txt + ?Sized>(s: &'a S, c: char) -> (r: Option<(&'a str, &'a str)>)
    ensures ({
        let k = find_ch(s.t(), c, 0);
        if k < s.t().len() {
            r is Some && r->Some_0.0@ == s.t().subrange(0, k) && r->Some_0.1@ == s.t().subrange(k + 1, s.t().len() as int)
        } else { r is None }
    }),
{ unimplemented!() }
pub open spec fn views(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|s: &str| s@) }
/// `s.split(c)`
#[verifier::external_body]
pub fn split_str<'a, S: Txt + ?Sized>(s: &'a S, c: char) -> (r: Vec<&'a str>)
    ensures views(r@) == sp_split(s.t(), c),
{ unimplemented!() }
/// `s.chars().enumerate().find(|(_, ch)| !f(*ch))`
#[verifier::external_body]
pub fn find_not<F: Fn(char) -> bool>(s: &str, f: &F) -> (r: Option<(usize, char)>)
    requires forall|c: char| #[trigger] f.requires((c,)),
    ensures
        r matches Some((i, c)) ==> i < s@.len() && c == s@[i as int] && f.ensures((c,), false)
            && forall|k: int| 0 <= k < i ==> f.ensures((#[trigger] s@[k],), true),
        r is None ==> forall|k: int| 0 <= k < s@.len() ==> f.ensures((#[trigger] s@[k],), true),
{ unimplemented!() }
/// `s.starts_with(f)`
#[verifier::external_body]
pub fn starts_fn<F: Fn(char) -> bool>(s: &str, f: F) -> (r: bool)
    requires forall|c: char| #[trigger] f.requires((c,)),
    ensures s@.len() == 0 ==> !r, s@.len() > 0 ==> f.ensures((s@[0],), r),
{ unimplemented!() }
#[verifier::external_body]
pub fn starts_str<S: Txt + ?Sized>(s: &S, p: &str) -> (r: bool)
    ensures r == p@.is_prefix_of(s.t()),
{ unimplemented!() }
#[verifier::external_body]
pub fn starts_ch<S: Txt + ?Sized>(s: &S, c: char) -> (r: bool)
    ensures r == (s.t().len() > 0 && s.t()[0] == c),
{ unimplemented!() }
/// `&s[n..]` of a text whose first `n` characters are ASCII
#[verifier::external_body]
pub fn behind<'a, S: Txt + ?Sized>(s: &'a S, n: usize) -> (r: &'a str)
    requires n <= s.t().len(), forall|k: int| 0 <= k < n ==> (#[trigger] s.t()[k] as u32) < 128,
    ensures r@ == s.t().subrange(n as int, s.t().len() as int),
{ unimplemented!() }
/// `s.parse::<u32>()`
#[verifier::external_body]
pub fn parse_u32<S: Txt + ?Sized>(s: &S) -> (r: Result<u32, std::num::ParseIntError>)
    ensures match uint(s.t(), 10, u32::MAX as int) { Some(v) => r is Ok && r->Ok_0 == v, None => r is Err },
{ unimplemented!() }
#[verifier::external_body]
pub fn parse_u64<S: Txt + ?Sized>(s: &S) -> (r: Result<u64, std::num::ParseIntError>)
    ensures match uint(s.t(), 10, u64::MAX as int) { Some(v) => r is Ok && r->Ok_0 == v, None => r is Err },
{ unimplemented!() }
pub assume_specification [u32::from_str_radix] (s: &str, radix: u32) -> (r: Result<u32, std::num::ParseIntError>)
    requires 2 <= radix <= 16,
    ensures match uint(s@, radix as int, u32::MAX as int) { Some(v) => r is Ok && r->Ok_0 == v, None => r is Err };
pub assume_specification [u64::from_str_radix] (s: &str, radix: u32) -> (r: Result<u64, std::num::ParseIntError>)
    requires 2 <= radix <= 16,
    ensures match uint(s@, radix as int, u64::MAX as int) { Some(v) => r is Ok && r->Ok_0 == v, None => r is Err };
/// `s.chars().tuples()` for pairs
#[verifier::external_body]
pub fn char_pairs<S: Txt + ?Sized>(s: &S) -> (r: Vec<(char, char)>)
    ensures r@.len() == s.t().len() / 2, forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == (s.t()[2 * k], s.t()[2 * k + 1]),
{ unimplemented!() }
pub assume_specification [char::to_digit] (c: char, radix: u32) -> (r: Option<u32>)
    requires 2 <= radix <= 16,
    ensures match digit(c) { Some(d) => if d < radix { r == Some(d as u32) } else { r is None }, None => r is None };
#[verifier::external_body]
pub fn clone_paths(v: &Vec<PathBuf>) -> (r: Vec<PathBuf>)
    ensures r@ == v@,
{ v.clone() }
pub assume_specification [std::string::String::len] (s: &std::string::String) -> (r: usize)
    ensures r == encode_utf8(s@).len();

// ---- texts and bytes
pub open spec fn asc(s: Seq<char>) -> bool { vstd::utf8::is_ascii_chars(s) }
pub proof fn lemma_asc(s: Seq<char>)
    requires asc(s),
    ensures encode_utf8(s).len() == s.len(), u16len(s) == s.len(),
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128,
    decreases s.len()
{
    vstd::utf8::is_ascii_chars_encode_utf8(s);
    lemma_u16(s);
}
pub proof fn lemma_u16(s: Seq<char>)
    ensures s.len() <= u16len(s) <= 2 * s.len(), asc(s) ==> u16len(s) == s.len(),
    decreases s.len()
{
    if s.len() > 0 { lemma_u16(s.drop_last()); if asc(s) { assert(asc(s.drop_last())); assert((s.last() as u32) < 128); } }
}
pub proof fn lemma_decode_len(b: Seq<u8>)
    requires valid_utf8(b),
    ensures decode_utf8(b).len() <= b.len(),
    decreases b.len()
{
    reveal_with_fuel(decode_utf8, 2);
    if b.len() > 0 { lemma_decode_len(pop_first_scalar(b)); }
}
pub proof fn lemma_decode_asc(b: Seq<u8>)
    requires ascii(b), valid_utf8(b),
    ensures decode_utf8(b).len() == b.len(), asc(decode_utf8(b)),
        forall|i: int| 0 <= i < b.len() ==> #[trigger] decode_utf8(b)[i] == b[i] as char,
{
    let s = Seq::new(b.len(), |i: int| b[i] as char);
    assert(asc(s));
    vstd::utf8::is_ascii_chars_encode_utf8(s);
    assert(vstd::utf8::encode_utf8(s) =~= b);
    vstd::utf8::encode_utf8_decode_utf8(s);
}

// ---- helpers the extraction refers to ---------------------------------------------------

/// `assert!` and `debug_assert!` become calls of this function: the condition must be proved
pub fn debug_check(b: bool)
    requires b,
{
}

/// the text produced by `format!` is not specified
#[verifier::external_body]
pub fn fmt_opaque() -> String { unimplemented!() }

// ---- standard library (trusted) ---------------------------------------------------------

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPath(std::path::Path);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPathBuf(std::path::PathBuf);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(std::num::ParseIntError);

pub assume_specification [std::string::String::from_utf8] (v: std::vec::Vec<u8>) -> (r: std::result::Result<std::string::String, std::string::FromUtf8Error>)
    ensures r.is_ok() == valid_utf8(v@), r.is_ok() ==> r->Ok_0@ == decode_utf8(v@);

pub assume_specification [std::string::String::as_bytes] (s: &std::string::String) -> (r: &[u8])
    ensures r@ == encode_utf8(s@);

/// `<&[u8] as Into<Box<[u8]>>>::into`
#[verifier::external_body]
pub fn boxed_bytes(s: &[u8]) -> (r: Box<[u8]>)
    ensures r@ == s@,
{ s.into() }

pub assume_specification<'a, T> [std::option::Option::<&T>::copied] (o: std::option::Option<&'a T>) -> (r: std::option::Option<T>)
    where T: std::marker::Copy,
    ensures o is Some ==> r == Some(*o->Some_0), o is None ==> r is None;


/// conversions into `String` keep the text
pub axiom fn std_facts()
    ensures
        <String as FromSpec<&str>>::obeys_from_spec(),
        forall|s: &str| (#[trigger] <String as FromSpec<&str>>::from_spec(s))@ == s@,
        <String as FromSpec<String>>::obeys_from_spec(),
        forall|s: String| (#[trigger] <String as FromSpec<String>>::from_spec(s)) == s,
        <String as PartialEqSpec<&str>>::obeys_eq_spec(),
        forall|a: String, b: &str| #[trigger] <String as PartialEqSpec<&str>>::eq_spec(&a, &b) == (a@ == b@),
        <String as PartialEqSpec<str>>::obeys_eq_spec(),
        forall|a: String, b: &str| #[trigger] <String as PartialEqSpec<str>>::eq_spec(&a, b) == (a@ == b@);
pub broadcast axiom fn axiom_to_string(s: String, res: String)
    ensures #[trigger] vstd::string::to_string_from_display_ensures(&s, res) <==> res@ == s@;
pub open spec fn intos<S: IntoSpec<String>>(s: S, r: String) -> bool {
    <S as IntoSpec<String>>::obeys_into_spec() ==> r == <S as IntoSpec<String>>::into_spec(s)
}
pub broadcast group group_std { axiom_to_string, axiom_yields_vec, vstd::string::to_string_from_display_ensures_for_str }

/// what an iteration yields
pub uninterp spec fn yields<I: std::iter::IntoIterator>(i: I) -> Seq<I::Item>;
pub broadcast axiom fn axiom_yields_vec<T>(v: std::vec::Vec<T>)
    ensures #[trigger] yields::<std::vec::Vec<T>>(v) == v@;
pub assume_specification<T, A: std::alloc::Allocator, I: std::iter::IntoIterator<Item = T>> [<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend] (v: &mut std::vec::Vec<T, A>, i: I)
    ensures final(v)@ == old(v)@ + yields(i);

/// `is_ascii_*` on bytes and characters
pub trait AsciiSpec {
    spec fn spec_is_ascii_whitespace(&self) -> bool;
    spec fn spec_is_ascii_alphanumeric(&self) -> bool;
    spec fn spec_is_ascii_alphabetic(&self) -> bool;
    spec fn spec_is_ascii_digit(&self) -> bool;
    spec fn spec_is_ascii_hexdigit(&self) -> bool;
}
impl AsciiSpec for u8 {
    open spec fn spec_is_ascii_whitespace(&self) -> bool { is_ws(*self) }
    open spec fn spec_is_ascii_alphanumeric(&self) -> bool { is_alnum(*self) }
    open spec fn spec_is_ascii_alphabetic(&self) -> bool { is_letter(*self) }
    open spec fn spec_is_ascii_digit(&self) -> bool { 48 <= *self && *self <= 57 }
    open spec fn spec_is_ascii_hexdigit(&self) -> bool {
        (48 <= *self && *self <= 57) || (65 <= *self && *self <= 70) || (97 <= *self && *self <= 102)
    }
}
impl AsciiSpec for char {
    open spec fn spec_is_ascii_whitespace(&self) -> bool { (*self as u32) < 128 && is_ws(*self as u8) }
    open spec fn spec_is_ascii_alphanumeric(&self) -> bool { (*self as u32) < 128 && is_alnum(*self as u8) }
    open spec fn spec_is_ascii_alphabetic(&self) -> bool { (*self as u32) < 128 && is_letter(*self as u8) }
    open spec fn spec_is_ascii_digit(&self) -> bool { '0' <= *self && *self <= '9' }
    open spec fn spec_is_ascii_hexdigit(&self) -> bool {
        ('0' <= *self && *self <= '9') || ('A' <= *self && *self <= 'F') || ('a' <= *self && *self <= 'f')
    }
}
pub assume_specification [u8::is_ascii_whitespace] (b: &u8) -> (r: bool)
    ensures r == b.spec_is_ascii_whitespace();
pub assume_specification [u8::is_ascii_alphanumeric] (b: &u8) -> (r: bool)
    ensures r == b.spec_is_ascii_alphanumeric();
pub assume_specification [u8::is_ascii_alphabetic] (b: &u8) -> (r: bool)
    ensures r == b.spec_is_ascii_alphabetic();
pub assume_specification [u8::is_ascii_digit] (b: &u8) -> (r: bool)
    ensures r == b.spec_is_ascii_digit();
pub assume_specification [u8::is_ascii_hexdigit] (b: &u8) -> (r: bool)
    ensures r == b.spec_is_ascii_hexdigit();
pub assume_specification [char::is_ascii_whitespace] (b: &char) -> (r: bool)
    ensures r == b.spec_is_ascii_whitespace();
pub assume_specification [char::is_ascii_alphanumeric] (b: &char) -> (r: bool)
    ensures r == b.spec_is_ascii_alphanumeric();
pub assume_specification [char::is_ascii_alphabetic] (b: &char) -> (r: bool)
    ensures r == b.spec_is_ascii_alphabetic();
pub assume_specification [char::is_ascii_digit] (b: &char) -> (r: bool)
    ensures r == b.spec_is_ascii_digit();
pub assume_specification [char::is_ascii_hexdigit] (b: &char) -> (r: bool)
    ensures r == b.spec_is_ascii_hexdigit();


// ---- enum_map ---------------------------------------------------------------------------------

/// stands for `enum_map::EnumMap`: a total table
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
#[verifier::external_derive]
#[derive(Debug, Clone, Copy)]
pub struct EnumMap<K, V> { k: std::marker::PhantomData<K>, v: std::marker::PhantomData<V> }
impl<K, V> EnumMap<K, V> {
    pub uninterp spec fn at(&self, k: K) -> V;
    #[verifier::external_body]
    pub fn from_fn<F: Fn(K) -> V>(f: F) -> (r: Self)
        requires forall|k: K| #[trigger] f.requires((k,)),
        ensures forall|k: K| f.ensures((k,), #[trigger] r.at(k)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: K) -> (r: &V)
        ensures *r == self.at(k),
    { unimplemented!() }
}

/// the extension of a path, if it has one that is valid text
pub open spec fn sp_extension(p: &Path) -> Option<Seq<char>> { crate::host::ext_of(crate::host::owned(p)) }
/// `Path::extension` and `OsStr::to_str`
#[verifier::external_body]
pub fn extension_str(p: &Path) -> (r: Option<&str>)
    ensures (match r { Some(e) => Some(e@), None => None }) == sp_extension(p),
{ p.extension().and_then(|extension| extension.to_str()) }

// ---- hashed collections -----------------------------------------------------------------------

/// the type is a sound key: equality is equality of values, hashing agrees with it, and clones are equal
pub open spec fn key_like<V: PartialEq + Eq + std::hash::Hash + Clone>() -> bool {
    &&& vstd::std_specs::hash::obeys_key_model::<V>()
    &&& forall|a: V, b: V| #[trigger] cloned(a, b) ==> a == b
    &&& forall|a: V, b: V| #[trigger] call_ensures(V::clone, (&a,), b) ==> a == b
    &&& <V as vstd::std_specs::cmp::PartialEqSpec<V>>::obeys_eq_spec()
    &&& forall|a: V, b: V| #[trigger] <V as vstd::std_specs::cmp::PartialEqSpec<V>>::eq_spec(&a, &b) <==> a == b
}
/// the elements of a hashed set, in the order they are visited in
#[verifier::external_body]
pub fn elements<V: Clone>(s: &std::collections::HashSet<V>) -> (r: Vec<V>)
    ensures forall|v: V| s@.contains(v) <==> #[trigger] r@.contains(v),
{ unimplemented!() }
/// `m.entry(k).or_default().extend(d.iter().cloned())`
#[verifier::external_body]
pub fn entry_extend<K: Eq + std::hash::Hash, V: Eq + std::hash::Hash + Clone>(m: &mut std::collections::HashMap<K, std::collections::HashSet<V>>, k: K, d: &[V])
    requires key_like::<V>(), vstd::std_specs::hash::obeys_key_model::<K>(),
    ensures final(m)@.dom() == old(m)@.dom().insert(k),
        forall|x: K| x != k && old(m)@.dom().contains(x) ==> #[trigger] final(m)@[x] == old(m)@[x],
        forall|v: V| #[trigger] final(m)@[k]@.contains(v) <==> d@.contains(v) || (old(m)@.dom().contains(k) && old(m)@[k]@.contains(v)),
{ unimplemented!() }
/// `m.entry(k).or_default().insert(v)`
#[verifier::external_body]
pub fn entry_insert<K: Eq + std::hash::Hash, V: Eq + std::hash::Hash>(m: &mut std::collections::HashMap<K, std::collections::HashSet<V>>, k: K, v: V)
    requires vstd::std_specs::hash::obeys_key_model::<V>(), vstd::std_specs::hash::obeys_key_model::<K>(),
    ensures final(m)@.dom() == old(m)@.dom().insert(k),
        forall|x: K| x != k && old(m)@.dom().contains(x) ==> #[trigger] final(m)@[x] == old(m)@[x],
        forall|w: V| #[trigger] final(m)@[k]@.contains(w) <==> w == v || (old(m)@.dom().contains(k) && old(m)@[k]@.contains(w)),
{ unimplemented!() }
pub assume_specification<T> [<[T]>::reverse] (s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();

} // verus!
