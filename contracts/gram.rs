// The grammar of device-tree sources, with the issues it reports, as mathematical functions
// over the state of the look-ahead lexer.
use vstd::prelude::*;
use vstd::utf8::*;
use crate::spec::*;
use crate::lex::*;
use crate::dts::ast::*;
use crate::dts::data::{Position, Span};
use crate::dts::diagnostics::*;
use crate::dts::error_codes::*;
use crate::dts::tokens::lexer::*;
use crate::dts::tokens::token::*;
use std::sync::Arc;
use std::path::{Path as StdPath, PathBuf};
verus! {

// ---- the state of the parser ----------------------------------------------------------------

pub struct SPa {
    pub lx: SPk,
    /// issues reported so far
    pub ds: Seq<SDiag>,
    /// include paths
    pub paths: Seq<PathBuf>,
}
pub type SRes<T> = Result<T, SDiag>;

pub open spec fn emit(p: SPa, d: SDiag) -> SPa { SPa { ds: p.ds.push(d), ..p } }
pub open spec fn emit_if(p: SPa, b: bool, d: SDiag) -> SPa { if b { emit(p, d) } else { p } }
pub open spec fn take(p: SPa) -> SPa { SPa { lx: sp_take(p.lx), ..p } }
pub open spec fn peek(p: SPa) -> SPa { SPa { lx: sp_peek(p.lx), ..p } }
pub open spec fn top(p: SPa) -> Option<STok> { sp_top(p.lx) }
pub open spec fn src_of(p: SPa) -> Arc<StdPath> { p.lx.x.src }
/// end of input where a token is needed
pub open spec fn eof(p: SPa) -> SDiag { eof_at(sp_rawpos(p.lx), src_of(p)) }
pub open spec fn fuel_of(p: SPa) -> int { fuel(p.lx) }
pub open spec fn point(p: Position) -> Span { Span { start: p, end: p } }
pub open spec fn char_at(p: Position) -> Span {
    Span { start: p, end: Position { line: p.line, character: (p.character + 1) as u32 } }
}
pub open spec fn unexpected(t: STok) -> SDiag { expected_at(t.span, t.src) }
pub open spec fn diag(k: ErrorCode, span: Span, p: SPa) -> SDiag { SDiag { kind: k, span, src: src_of(p) } }
pub open spec fn diag_tok(k: ErrorCode, t: STok) -> SDiag { SDiag { kind: k, span: t.span, src: t.src } }
pub open spec fn err<T>(d: SDiag, p: SPa) -> (SRes<T>, SPa) { (Err(d), p) }
pub open spec fn ok<T>(x: T, p: SPa) -> (SRes<T>, SPa) { (Ok(x), p) }

/// positions as numbers
#[verifier::opaque]
pub open spec fn rank(p: Position) -> int { p.line * 0x1_0000_0000 + p.character }
pub open spec fn rank_of(p: SPa) -> int { rank(here(p.lx)) }
pub proof fn lemma_rank(a: Position, b: Position)
    ensures pos_le(a, b) <==> rank(a) <= rank(b),
{ reveal(rank); }
/// `q` is a later state than `p`
pub open spec fn later(p: SPa, q: SPa) -> bool {
    wf_pk(q.lx) && q.lx.x.d == p.lx.x.d && q.lx.x.src == p.lx.x.src && q.paths == p.paths
        && 0 <= fuel_of(q) <= fuel_of(p) && rank_of(p) <= rank_of(q)
}
/// at least one token was taken
pub open spec fn ahead(p: SPa, q: SPa) -> bool { later(p, q) && fuel_of(q) < fuel_of(p) }

pub proof fn lemma_state(p: SPa)
    requires wf_pk(p.lx),
    ensures later(p, peek(p)), later(p, take(p)), later(p, p), top(p) is Some ==> ahead(p, take(p)),
        top(peek(p)) == top(p), take(peek(p)) == take(p), peek(peek(p)) == peek(p),
        top(p) matches Some(t) ==> wf_tok(t) && t.src == src_of(p) && pos_le(here(p.lx), t.span.start) && here(take(p).lx) == t.span.end,
        pos_ok(here(p.lx)), pos_ok(sp_rawpos(p.lx)), pos_ok(p.lx.x.lp), pos_ok(peek(p).lx.x.lp), pos_ok(take(p).lx.x.lp), fuel_of(p) <= 2 * MAX_LEN + 1,
        src_of(take(p)) == src_of(p), src_of(peek(p)) == src_of(p),
{
    lemma_peek(p.lx);
    lemma_peek(peek(p).lx);
    lemma_peek(take(p).lx);
    lemma_rank(here(p.lx), here(peek(p).lx));
    lemma_rank(here(p.lx), here(take(p).lx));
}

pub proof fn lemma_later_pos(p: SPa, q: SPa)
    requires later(p, q),
    ensures pos_le(here(p.lx), here(q.lx)),
{ lemma_rank(here(p.lx), here(q.lx)); }

// ---- names ------------------------------------------------------------------------------------

pub enum NameKind { Label, Node, Unit, Prop }

pub open spec fn alnum_ch(c: char) -> bool {
    ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9')
}
pub open spec fn legal(k: NameKind, c: char) -> bool {
    match k {
        NameKind::Label => alnum_ch(c) || c == '_',
        NameKind::Node | NameKind::Unit => alnum_ch(c) || c == ',' || c == '.' || c == '_' || c == '+' || c == '-',
        NameKind::Prop => alnum_ch(c) || c == ',' || c == '.' || c == '_' || c == '+' || c == '-' || c == '?' || c == '#',
    }
}
pub open spec fn legal_first(k: NameKind, c: char) -> bool {
    match k {
        NameKind::Label => ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || c == '_',
        NameKind::Node => ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z'),
        NameKind::Unit | NameKind::Prop => true,
    }
}
/// the first character that is not legal, or the length
pub open spec fn first_bad(s: Seq<char>, k: NameKind, i: int) -> int decreases s.len() - i {
    if 0 <= i < s.len() && legal(k, s[i]) { first_bad(s, k, i + 1) } else { i }
}
pub open spec fn behind_chars(p: Position, n: int) -> Position { Position { line: p.line, character: (p.character + n) as u32 } }
/// what is wrong with a name that is written at a place
pub open spec fn name_issue(span: Span, s: Seq<char>, k: NameKind, src: Arc<StdPath>) -> Option<SDiag> {
    let i = first_bad(s, k, 0);
    if i < s.len() {
        Some(SDiag { kind: ErrorCode::IllegalChar, span: char_at(behind_chars(span.start, i)), src })
    } else if s.len() > 31 {
        Some(SDiag { kind: ErrorCode::NameTooLong, span, src })
    } else if s.len() == 0 {
        Some(SDiag { kind: ErrorCode::ExpectedName, span, src })
    } else if !legal_first(k, s[0]) {
        Some(SDiag { kind: ErrorCode::IllegalStart, span, src })
    } else {
        None
    }
}
#[verifier::opaque]
pub open spec fn chk(p: SPa, span: Span, s: Seq<char>, k: NameKind) -> SPa {
    match name_issue(span, s, k, src_of(p)) { Some(d) => emit(p, d), None => p }
}
pub open spec fn ext(span: Span, n: int) -> Span { Span { start: behind_chars(span.start, n), end: span.end } }
#[verifier::opaque]
pub open spec fn chk_node(p: SPa, span: Span, n: SName) -> SPa {
    if n.unit is None && n.name == "__symbols__"@ {
        p
    } else {
        let q = chk(p, span, n.name, NameKind::Node);
        match n.unit {
            Some(u) => chk(q, ext(span, u16len(n.name) + 1), u, NameKind::Unit),
            None => q,
        }
    }
}
pub proof fn lemma_first_bad(s: Seq<char>, k: NameKind, i: int)
    requires 0 <= i <= s.len(),
    ensures i <= first_bad(s, k, i) <= s.len(),
        forall|j: int| i <= j < first_bad(s, k, i) ==> legal(k, #[trigger] s[j]),
        first_bad(s, k, i) < s.len() ==> !legal(k, s[first_bad(s, k, i)]),
    decreases s.len() - i
{
    if i < s.len() && legal(k, s[i]) { lemma_first_bad(s, k, i + 1); }
}
pub proof fn lemma_first_bad_is(s: Seq<char>, k: NameKind, i: int, n: int)
    requires 0 <= i <= n <= s.len(), forall|j: int| i <= j < n ==> legal(k, #[trigger] s[j]), n < s.len() ==> !legal(k, s[n]),
    ensures first_bad(s, k, i) == n,
    decreases n - i
{
    if i < n { assert(legal(k, s[i])); lemma_first_bad_is(s, k, i + 1, n); }
}
pub proof fn lemma_legal_len(s: Seq<char>, k: NameKind)
    requires first_bad(s, k, 0) == s.len(),
    ensures encode_utf8(s).len() == s.len(),
{
    lemma_first_bad(s, k, 0);
    assert forall|j: int| 0 <= j < s.len() implies (#[trigger] s[j] as u32) < 128 by { assert(legal(k, s[j])); }
    assert(asc(s));
    lemma_asc(s);
}

// ---- references ---------------------------------------------------------------------------------

/// the components of a path are checked like node names, each at its place
pub open spec fn chk_comps(p: SPa, span: Span, c: Seq<Seq<char>>, i: int, off: int) -> SPa decreases c.len() - i {
    if 0 <= i < c.len() {
        let q = if c[i].len() == 0 { p } else { chk_node(p, ext(span, off), to_name(c[i])) };
        chk_comps(q, span, c, i + 1, off + u16len(c[i]) + 1)
    } else {
        p
    }
}
#[verifier::opaque]
pub open spec fn sp_reference(p: SPa, t: STok, r: SRef) -> (SWt<SRefr>, SPa) {
    match r {
        SRef::Simple(l) => (SWt { item: SRefr::Label(l), tok: t }, chk(p, t.span, l, NameKind::Label)),
        SRef::Path(s) => (
            SWt { item: SRefr::Path(to_path(s)), tok: t },
            // the first component starts behind the "&{"
            chk_comps(emit_if(p, s.len() == 0, diag_tok(ErrorCode::PathCannotBeEmpty, t)), t.span, sp_split(s, '/'), 0, 2),
        ),
    }
}
pub open spec fn comps_len(c: Seq<Seq<char>>, i: int) -> int decreases i {
    if i <= 0 { 0 } else { comps_len(c, i - 1) + u16len(c[i - 1]) + 1 }
}
pub proof fn lemma_u16_sum(a: Seq<char>, b: Seq<char>)
    ensures u16len(a + b) == u16len(a) + u16len(b),
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_u16_sum(a, b.drop_last());
    }
}
pub proof fn lemma_find_ch(s: Seq<char>, c: char, i: int)
    requires 0 <= i <= s.len(),
    ensures i <= find_ch(s, c, i) <= s.len(), find_ch(s, c, i) < s.len() ==> s[find_ch(s, c, i)] == c,
    decreases s.len() - i
{
    if i < s.len() && s[i] != c { lemma_find_ch(s, c, i + 1); }
}
pub proof fn lemma_comps_shift(a: Seq<char>, c: Seq<Seq<char>>, i: int)
    requires 0 <= i <= c.len(),
    ensures comps_len(seq![a] + c, i + 1) == u16len(a) + 1 + comps_len(c, i),
    decreases i
{
    let d = seq![a] + c;
    if i > 0 { lemma_comps_shift(a, c, i - 1); assert(d[i] == c[i - 1]); } else { assert(d[0] == a); assert(comps_len(d, 0) == 0); }
}
/// the pieces of a path, each with one separator, are as long as the path
pub proof fn lemma_split_len(s: Seq<char>, c: char)
    requires (c as u32) < 0x10000,
    ensures comps_len(sp_split(s, c), sp_split(s, c).len() as int) == u16len(s) + 1,
        forall|k: int| 0 <= k < sp_split(s, c).len() ==> (#[trigger] sp_split(s, c)[k]).len() <= s.len(),
    decreases s.len()
{
    lemma_find_ch(s, c, 0);
    let k = find_ch(s, c, 0);
    if k < s.len() {
        let a = s.subrange(0, k);
        let b = s.subrange(k + 1, s.len() as int);
        lemma_split_len(b, c);
        let r = sp_split(b, c);
        lemma_comps_shift(a, r, r.len() as int);
        assert(s =~= (a + seq![c]) + b);
        lemma_u16_sum(a + seq![c], b);
        lemma_u16_sum(a, seq![c]);
        assert(seq![c].drop_last() =~= Seq::<char>::empty());
        assert(u16len(Seq::<char>::empty()) == 0);
        assert(u16len(seq![c]) == 1);
        assert forall|j: int| 0 <= j < sp_split(s, c).len() implies (#[trigger] sp_split(s, c)[j]).len() <= s.len() by {
            if j > 0 { assert(sp_split(s, c)[j] == r[j - 1]); }
        }
    } else {
        let r = sp_split(s, c);
        assert(r == seq![s]);
        assert(comps_len(r, 0) == 0);
        assert(comps_len(r, 1) == u16len(s) + 1);
    }
}
pub proof fn lemma_comps_mono(c: Seq<Seq<char>>, i: int, j: int)
    requires 0 <= i <= j <= c.len(),
    ensures 0 <= comps_len(c, i) <= comps_len(c, j),
    decreases j
{
    if j > 0 { lemma_u16(c[j - 1]); if i < j { lemma_comps_mono(c, i, j - 1); } else { lemma_comps_mono(c, i - 1, j - 1); } }
}
pub proof fn lemma_to_name(s: Seq<char>)
    ensures to_name(s).name.len() <= s.len(), to_name(s).unit matches Some(u) ==> u.len() <= s.len(),
{
    lemma_find_ch(s, '@', 0);
}

// ---- values --------------------------------------------------------------------------------------

/// decimal, octal behind a leading zero, hexadecimal behind 0x
pub open spec fn sp_num(s: Seq<char>, max: int) -> Option<int> {
    if s.len() == 1 { uint(s, 10, max) }
    else if "0x"@.is_prefix_of(s) { uint(s.subrange(2, s.len() as int), 16, max) }
    else if s.len() > 0 && s[0] == '0' { uint(s.subrange(1, s.len() as int), 8, max) }
    else { uint(s, 10, max) }
}
/// behind an opening parenthesis: is there a matching one?
pub open spec fn sp_skip(p: SPa, depth: int) -> (bool, SPa) decreases fuel_of(p) {
    match top(p) {
        None => (false, peek(p)),
        Some(t) => {
            let q = take(p);
            if t.kind is CloseParen && depth == 1 {
                (true, q)
            } else if 0 <= fuel_of(q) < fuel_of(p) {
                sp_skip(q, if t.kind is OpenParen { depth + 1 } else if t.kind is CloseParen { depth - 1 } else { depth })
            } else {
                arbitrary()
            }
        }
    }
}
#[verifier::opaque]
pub open spec fn sp_cell(p: SPa) -> (SRes<SCell>, SPa) {
    let q = take(p);
    match top(p) {
        None => err(eof(p), q),
        Some(t) => match t.kind {
            SKind::Ref(r) => ok(SCell::Ref(sp_reference(q, t, r).0), sp_reference(q, t, r).1),
            SKind::Number(s) => match sp_num(s, u32::MAX as int) {
                Some(v) => ok(SCell::Num(SWt { item: v as u32, tok: t }), q),
                None => ok(SCell::Num(SWt { item: 0u32, tok: t }), emit(q, diag_tok(ErrorCode::IntError, t))),
            },
            SKind::OpenParen => {
                let (found, r) = sp_skip(q, 1);
                ok(SCell::Expr, emit_if(r, !found, diag_tok(ErrorCode::UnbalancedParentheses, t)))
            },
            _ => err(unexpected(t), q),
        },
    }
}
#[verifier::opaque]
pub open spec fn sp_mem(p: SPa) -> (SRes<SWt<u64>>, SPa) {
    let q = take(p);
    match top(p) {
        None => err(eof(p), q),
        Some(t) => match t.kind {
            SKind::Number(s) => match sp_num(s, u64::MAX as int) {
                Some(v) => ok(SWt { item: v as u64, tok: t }, q),
                None => ok(SWt { item: 0u64, tok: t }, emit(q, diag_tok(ErrorCode::IntError, t))),
            },
            _ => err(expected_at(point(behind_chars(q.lx.x.lp, 1)), src_of(p)), q),
        },
    }
}
/// two hexadecimal digits per byte
pub open spec fn bytes_of(s: Seq<char>) -> Option<Seq<u8>> decreases s.len() {
    if s.len() < 2 {
        Some(Seq::empty())
    } else {
        match (bytes_of(s.subrange(0, s.len() - 2)), digit(s[s.len() - 2]), digit(s[s.len() - 1])) {
            (Some(b), Some(h), Some(l)) => Some(b.push((h * 16 + l) as u8)),
            _ => None,
        }
    }
}
#[verifier::opaque]
pub open spec fn sp_bytestr(p: SPa) -> (SRes<SWt<Seq<u8>>>, SPa) {
    let q = take(p);
    match top(p) {
        None => err(eof(p), q),
        Some(t) => {
            let s = match t.kind { SKind::Number(s) => Some(s), SKind::Ident(s) => Some(s), _ => None };
            match s {
                Some(s) => if s.len() % 2 != 0 {
                    ok(SWt { item: Seq::empty(), tok: t }, emit(q, diag_tok(ErrorCode::OddNumberOfBytestringElements, t)))
                } else {
                    match bytes_of(s) {
                        Some(b) => ok(SWt { item: b, tok: t }, q),
                        None => ok(SWt { item: Seq::empty(), tok: t }, emit(q, diag_tok(ErrorCode::IntError, t))),
                    }
                },
                None => ok(SWt { item: Seq::empty(), tok: t }, emit(q, unexpected(t))),
            }
        }
    }
}
#[verifier::opaque]
pub open spec fn skip_label(p: SPa) -> SPa {
    match top(p) { Some(t) => if t.kind is Label { take(p) } else { peek(p) }, None => peek(p) }
}
pub proof fn lemma_skip(p: SPa)
    requires wf_pk(p.lx),
    ensures later(p, p), later(p, skip_label(p)),
{
    reveal(skip_label);
    lemma_state(p);
}
pub open spec fn sp_cells(p: SPa, acc: Seq<SCell>) -> (SRes<(Seq<SCell>, STok)>, SPa) decreases fuel_of(p) {
    let p1 = skip_label(p);
    match top(p1) {
        None => err(eof(p1), peek(p1)),
        Some(t) => if t.kind is ChevronRight { ok((acc, t), take(p1)) } else {
            let (r, q) = sp_cell(peek(p1));
            if 0 <= fuel_of(q) < fuel_of(p) {
                match r { Ok(c) => sp_cells(q, acc.push(c)), Err(d) => sp_cells(emit(q, d), acc) }
            } else { arbitrary() }
        },
    }
}
pub open spec fn sp_bytes(p: SPa, acc: Seq<SWt<Seq<u8>>>) -> (SRes<(Seq<SWt<Seq<u8>>>, STok)>, SPa) decreases fuel_of(p) {
    let p1 = skip_label(p);
    match top(p1) {
        None => err(eof(p1), peek(p1)),
        Some(t) => if t.kind is CloseBracket { ok((acc, t), take(p1)) } else {
            let (r, q) = sp_bytestr(peek(p1));
            match r {
                Ok(c) => if 0 <= fuel_of(q) < fuel_of(p) { sp_bytes(q, acc.push(c)) } else { arbitrary() },
                Err(d) => err(d, q),
            }
        },
    }
}
pub open spec fn cells_of(t: STok, x: (SRes<(Seq<SCell>, STok)>, SPa)) -> (SRes<SVal>, SPa) {
    match x { (Ok((c, e)), r) => ok(SVal::Cells(t, c, e), r), (Err(d), r) => err(d, r) }
}
pub open spec fn bytes_from(t: STok, x: (SRes<(Seq<SWt<Seq<u8>>>, STok)>, SPa)) -> (SRes<SVal>, SPa) {
    match x { (Ok((c, e)), r) => ok(SVal::Bytes(t, c, e), r), (Err(d), r) => err(d, r) }
}
/// a value behind an optional `/bits/` directive
pub open spec fn sp_value1(p: SPa) -> (SRes<SVal>, SPa) {
    let q = take(p);
    match top(p) {
        None => err(eof(p), q),
        Some(t) => match t.kind {
            SKind::String(s) => ok(SVal::Str(SWt { item: s, tok: t }), q),
            SKind::ChevronLeft => cells_of(t, sp_cells(q, Seq::empty())),
            SKind::Ref(x) => ok(SVal::Ref(sp_reference(q, t, x).0), sp_reference(q, t, x).1),
            SKind::OpenBracket => bytes_from(t, sp_bytes(q, Seq::empty())),
            _ => err(unexpected(t), q),
        },
    }
}
pub open spec fn is_dir(t: Option<STok>, d: SDir) -> bool { t matches Some(t) && t.kind == SKind::Directive(d) }
#[verifier::opaque]
pub open spec fn sp_value(p: SPa) -> (SRes<SVal>, SPa) {
    if is_dir(top(p), SDir::Bits) {
        let q = take(p);
        match top(q) {
            None => err(eof(q), take(q)),
            Some(w) => sp_value1(emit_if(take(q), !(w.kind is Number), unexpected(w))),
        }
    } else {
        sp_value1(peek(p))
    }
}
pub open spec fn sp_values(p: SPa, acc: Seq<SVal>) -> (SRes<Seq<SVal>>, SPa) decreases fuel_of(p) {
    let (r, q) = sp_value(skip_label(p));
    match r {
        Err(d) => err(d, q),
        Ok(v) => {
            let q1 = skip_label(q);
            match top(q1) {
                None => err(eof(q1), peek(q1)),
                Some(t) => if t.kind is Comma {
                    if 0 <= fuel_of(take(q1)) < fuel_of(p) { sp_values(take(q1), acc.push(v)) } else { arbitrary() }
                } else {
                    ok(acc.push(v), peek(q1))
                },
            }
        }
    }
}

// ---- nodes ----------------------------------------------------------------------------------------

#[verifier::opaque]
pub open spec fn sp_propname(p: SPa) -> (SRes<SWt<Seq<char>>>, SPa) {
    let q = take(p);
    match top(p) {
        None => err(eof(p), q),
        Some(t) => match t.kind {
            SKind::Ident(s) => ok(SWt { item: s, tok: t }, chk(q, t.span, s, NameKind::Prop)),
            _ => err(unexpected(t), q),
        },
    }
}
#[verifier::opaque]
pub open spec fn sp_nodename(p: SPa) -> (SRes<SWt<SName>>, SPa) {
    let q = take(p);
    match top(p) {
        None => err(eof(p), q),
        Some(t) => match t.kind {
            SKind::Ident(s) => ok(SWt { item: to_name(s), tok: t }, chk_node(q, t.span, to_name(s))),
            _ => err(unexpected(t), q),
        },
    }
}
/// A semicolon. A missing one costs one issue: in place of a token that can not be, or else
/// between the last token and what follows, which is left alone.
#[verifier::opaque]
pub open spec fn sp_semi(p: SPa) -> (SRes<Option<STok>>, SPa) {
    match top(p) {
        None => ok(None, emit(peek(p), expected_at(point(peek(p).lx.x.lp), src_of(p)))),
        Some(t) => match t.kind {
            SKind::Semicolon => ok(Some(t), take(p)),
            SKind::Unknown(_) | SKind::Comment(_) => {
                let q = take(p);
                let q = SPa { lx: SPk { x: sp_pseudo(q.lx.x, SKind::Semicolon), ..q.lx }, ..q };
                ok(None, emit(q, expected_at(t.span, src_of(p))))
            },
            _ => ok(None, emit(peek(p), expected_at(char_at(peek(p).lx.x.lp), src_of(p)))),
        },
    }
}
pub enum SStep { Item(SItem), End(STok) }
pub struct SHead { pub omit: Option<STok>, pub label: Option<SWt<Seq<char>>> }

pub open spec fn only_nodes(p: SPa, omit: Option<STok>) -> SPa {
    match omit { Some(t) => emit(p, diag(ErrorCode::IncorrectDirective, t.span, p)), None => p }
}
pub open spec fn after_node(p: SPa, seen: bool, x: SProp) -> SPa {
    emit_if(p, seen, diag(ErrorCode::PropertyAfterNode, prop_span(x), p))
}
pub open spec fn or_else(a: Option<STok>, b: STok) -> STok { match a { Some(t) => t, None => b } }

/// behind the name of a property or node
#[verifier::opaque]
pub open spec fn sp_named(p: SPa, h: SHead, name: STok, s: Seq<char>, seen: bool) -> (SRes<SStep>, SPa)
    decreases fuel_of(p), 0nat
{
    match top(p) {
        None => err(eof(p), peek(p)),
        Some(t) => match t.kind {
            SKind::OpenBrace => {
                let q = chk_node(peek(p), name.span, to_name(s));
                if 0 <= fuel_of(take(q)) < fuel_of(p) {
                    match sp_payload(q) {
                        (Ok(pay), r) => ok(
                            SStep::Item(SItem::Node(SNode { label: h.label, name: SWt { item: to_name(s), tok: name }, pay, omit: h.omit })), r),
                        (Err(d), r) => err(d, r),
                    }
                } else { arbitrary() }
            },
            SKind::Equal => {
                match sp_values(chk(take(p), name.span, s, NameKind::Prop), Seq::empty()) {
                    (Err(d), r) => err(d, r),
                    (Ok(v), r) => match sp_semi(r) {
                        (Err(d), r) => err(d, r),
                        (Ok(e), r) => {
                            let x = SProp { label: h.label, name: SWt { item: s, tok: name }, values: v, end: or_else(e, t) };
                            ok(SStep::Item(SItem::Prop(x)), after_node(only_nodes(r, h.omit), seen, x))
                        },
                    },
                }
            },
            SKind::Semicolon => {
                let r = chk(take(p), name.span, s, NameKind::Prop);
                let x = SProp { label: h.label, name: SWt { item: s, tok: name }, values: Seq::empty(), end: t };
                ok(SStep::Item(SItem::Prop(x)), only_nodes(after_node(r, seen, x), h.omit))
            },
            _ => err(expected_at(point(peek(p).lx.x.lp), src_of(p)), peek(p)),
        },
    }
}
/// a property, a node or the end of the body, behind an `/omit-if-no-ref/` and a label; `p` is behind `t`
#[verifier::opaque]
pub open spec fn sp_labelled(p: SPa, h: SHead, t: STok, seen: bool) -> (SRes<SStep>, SPa)
    decreases fuel_of(p), 1nat
{
    match t.kind {
        SKind::Ident(s) => sp_named(p, h, t, s, seen),
        SKind::CloseBrace => {
            let q = emit_if(p, h.label is Some || h.omit is Some, unexpected(t));
            match sp_semi(q) { (Ok(e), r) => ok(SStep::End(or_else(e, t)), r), (Err(d), r) => err(d, r) }
        },
        _ => err(unexpected(t), p),
    }
}
/// `p` is behind `t`
#[verifier::opaque]
pub open spec fn sp_omitted(p: SPa, omit: Option<STok>, t: STok, seen: bool) -> (SRes<SStep>, SPa)
    decreases fuel_of(p), 2nat
{
    match t.kind {
        SKind::Label(s) => {
            let q = chk(p, t.span, s, NameKind::Label);
            match top(q) {
                None => err(eof(q), take(q)),
                Some(u) => if 0 <= fuel_of(take(q)) < fuel_of(p) {
                    sp_labelled(take(q), SHead { omit, label: Some(SWt { item: s, tok: t }) }, u, seen)
                } else { arbitrary() },
            }
        },
        _ => sp_labelled(p, SHead { omit, label: None }, t, seen),
    }
}
/// one element of the body of a node
#[verifier::opaque]
pub open spec fn sp_item(p: SPa, seen: bool) -> (SRes<SStep>, SPa)
    decreases fuel_of(p), 3nat
{
    match top(p) {
        None => err(eof(p), take(p)),
        Some(t) => {
            let q = take(p);
            match t.kind {
                SKind::Directive(SDir::DelNode) => match sp_nodename(q) {
                    (Err(d), r) => err(d, r),
                    (Ok(n), r) => match sp_semi(r) {
                        (Err(d), r) => err(d, r),
                        (Ok(_), r) => ok(SStep::Item(SItem::DelNode(t, n)), r),
                    },
                },
                SKind::Directive(SDir::DelProp) => match sp_propname(q) {
                    (Err(d), r) => err(d, r),
                    (Ok(n), r) => match sp_semi(r) {
                        (Err(d), r) => err(d, r),
                        (Ok(_), r) => ok(SStep::Item(SItem::DelProp(t, n)), r),
                    },
                },
                SKind::Directive(SDir::Omit) => match top(q) {
                    None => err(eof(q), take(q)),
                    Some(u) => if 0 <= fuel_of(take(q)) < fuel_of(p) { sp_omitted(take(q), Some(t), u, seen) } else { arbitrary() },
                },
                _ => if 0 <= fuel_of(q) < fuel_of(p) { sp_omitted(q, None, t, seen) } else { arbitrary() },
            }
        }
    }
}
#[verifier::opaque]
pub open spec fn sp_items(p: SPa, acc: Seq<SItem>, seen: bool) -> (SRes<SPay>, SPa)
    decreases fuel_of(p), 4nat
{
    match sp_item(p, seen) {
        (Err(d), q) => err(d, q),
        (Ok(SStep::End(t)), q) => ok(SPay { items: acc, end: t }, q),
        (Ok(SStep::Item(i)), q) => if 0 <= fuel_of(q) < fuel_of(p) {
            sp_items(q, acc.push(i), seen || i is Node)
        } else { arbitrary() },
    }
}
/// the body of a node
#[verifier::opaque]
pub open spec fn sp_payload(p: SPa) -> (SRes<SPay>, SPa)
    decreases fuel_of(take(p)), 5nat
{
    let q = take(p);
    match top(p) {
        None => err(eof(p), q),
        Some(t) => if t.kind is OpenBrace { sp_items(q, Seq::empty(), false) } else {
            err(expected_at(point(sp_rawpos(p.lx)), src_of(p)), q)
        },
    }
}

// ---- one unfolding of each function at one place --------------------------------------------

pub proof fn lemma_named_step(p: SPa, h: SHead, name: STok, s: Seq<char>, seen: bool)
    ensures sp_named(p, h, name, s, seen) == ({
    match top(p) {
        None => err(eof(p), peek(p)),
        Some(t) => match t.kind {
            SKind::OpenBrace => {
                let q = chk_node(peek(p), name.span, to_name(s));
                if 0 <= fuel_of(take(q)) < fuel_of(p) {
                    match sp_payload(q) {
                        (Ok(pay), r) => ok(
                            SStep::Item(SItem::Node(SNode { label: h.label, name: SWt { item: to_name(s), tok: name }, pay, omit: h.omit })), r),
                        (Err(d), r) => err(d, r),
                    }
                } else { arbitrary() }
            },
            SKind::Equal => {
                match sp_values(chk(take(p), name.span, s, NameKind::Prop), Seq::empty()) {
                    (Err(d), r) => err(d, r),
                    (Ok(v), r) => match sp_semi(r) {
                        (Err(d), r) => err(d, r),
                        (Ok(e), r) => {
                            let x = SProp { label: h.label, name: SWt { item: s, tok: name }, values: v, end: or_else(e, t) };
                            ok(SStep::Item(SItem::Prop(x)), after_node(only_nodes(r, h.omit), seen, x))
                        },
                    },
                }
            },
            SKind::Semicolon => {
                let r = chk(take(p), name.span, s, NameKind::Prop);
                let x = SProp { label: h.label, name: SWt { item: s, tok: name }, values: Seq::empty(), end: t };
                ok(SStep::Item(SItem::Prop(x)), only_nodes(after_node(r, seen, x), h.omit))
            },
            _ => err(expected_at(point(peek(p).lx.x.lp), src_of(p)), peek(p)),
        },
    }
}),
{ reveal(sp_named); reveal(sp_labelled); reveal(sp_omitted); reveal(sp_item); reveal(sp_items); reveal(sp_payload); }
pub proof fn lemma_labelled_step(p: SPa, h: SHead, t: STok, seen: bool)
    ensures sp_labelled(p, h, t, seen) == ({
    match t.kind {
        SKind::Ident(s) => sp_named(p, h, t, s, seen),
        SKind::CloseBrace => {
            let q = emit_if(p, h.label is Some || h.omit is Some, unexpected(t));
            match sp_semi(q) { (Ok(e), r) => ok(SStep::End(or_else(e, t)), r), (Err(d), r) => err(d, r) }
        },
        _ => err(unexpected(t), p),
    }
}),
{ reveal(sp_named); reveal(sp_labelled); reveal(sp_omitted); reveal(sp_item); reveal(sp_items); reveal(sp_payload); }
pub proof fn lemma_omitted_step(p: SPa, omit: Option<STok>, t: STok, seen: bool)
    ensures sp_omitted(p, omit, t, seen) == ({
    match t.kind {
        SKind::Label(s) => {
            let q = chk(p, t.span, s, NameKind::Label);
            match top(q) {
                None => err(eof(q), take(q)),
                Some(u) => if 0 <= fuel_of(take(q)) < fuel_of(p) {
                    sp_labelled(take(q), SHead { omit, label: Some(SWt { item: s, tok: t }) }, u, seen)
                } else { arbitrary() },
            }
        },
        _ => sp_labelled(p, SHead { omit, label: None }, t, seen),
    }
}),
{ reveal(sp_named); reveal(sp_labelled); reveal(sp_omitted); reveal(sp_item); reveal(sp_items); reveal(sp_payload); }
pub proof fn lemma_item_step(p: SPa, seen: bool)
    ensures sp_item(p, seen) == ({
    match top(p) {
        None => err(eof(p), take(p)),
        Some(t) => {
            let q = take(p);
            match t.kind {
                SKind::Directive(SDir::DelNode) => match sp_nodename(q) {
                    (Err(d), r) => err(d, r),
                    (Ok(n), r) => match sp_semi(r) {
                        (Err(d), r) => err(d, r),
                        (Ok(_), r) => ok(SStep::Item(SItem::DelNode(t, n)), r),
                    },
                },
                SKind::Directive(SDir::DelProp) => match sp_propname(q) {
                    (Err(d), r) => err(d, r),
                    (Ok(n), r) => match sp_semi(r) {
                        (Err(d), r) => err(d, r),
                        (Ok(_), r) => ok(SStep::Item(SItem::DelProp(t, n)), r),
                    },
                },
                SKind::Directive(SDir::Omit) => match top(q) {
                    None => err(eof(q), take(q)),
                    Some(u) => if 0 <= fuel_of(take(q)) < fuel_of(p) { sp_omitted(take(q), Some(t), u, seen) } else { arbitrary() },
                },
                _ => if 0 <= fuel_of(q) < fuel_of(p) { sp_omitted(q, None, t, seen) } else { arbitrary() },
            }
        }
    }
}),
{ reveal(sp_named); reveal(sp_labelled); reveal(sp_omitted); reveal(sp_item); reveal(sp_items); reveal(sp_payload); }
pub proof fn lemma_items_step(p: SPa, acc: Seq<SItem>, seen: bool)
    ensures sp_items(p, acc, seen) == ({
    match sp_item(p, seen) {
        (Err(d), q) => err(d, q),
        (Ok(SStep::End(t)), q) => ok(SPay { items: acc, end: t }, q),
        (Ok(SStep::Item(i)), q) => if 0 <= fuel_of(q) < fuel_of(p) {
            sp_items(q, acc.push(i), seen || i is Node)
        } else { arbitrary() },
    }
}),
{ reveal(sp_named); reveal(sp_labelled); reveal(sp_omitted); reveal(sp_item); reveal(sp_items); reveal(sp_payload); }

pub proof fn lemma_payload_step(p: SPa)
    ensures sp_payload(p) == ({
    let q = take(p);
    match top(p) {
        None => err(eof(p), q),
        Some(t) => if t.kind is OpenBrace { sp_items(q, Seq::empty(), false) } else {
            err(expected_at(point(sp_rawpos(p.lx)), src_of(p)), q)
        },
    }
}),
{ reveal(sp_named); reveal(sp_labelled); reveal(sp_omitted); reveal(sp_item); reveal(sp_items); reveal(sp_payload); }

// ---- files ----------------------------------------------------------------------------------------

#[verifier::opaque]
pub open spec fn sp_ref(p: SPa) -> (SRes<SWt<SRefr>>, SPa) {
    let q = take(p);
    match top(p) {
        None => err(eof(p), q),
        Some(t) => match t.kind {
            SKind::Ref(r) => ok(sp_reference(q, t, r).0, sp_reference(q, t, r).1),
            _ => err(unexpected(t), q),
        },
    }
}
pub open spec fn with_semi(d: SDirv, p: SPa) -> (SRes<SPrim>, SPa) {
    match sp_semi(p) { (Ok(_), q) => ok(SPrim::Dir(d), q), (Err(e), q) => err(e, q) }
}
#[verifier::opaque]
pub open spec fn sp_prim(p: SPa) -> (SRes<SPrim>, SPa) {
    let q = take(p);
    match top(p) {
        None => err(eof(p), q),
        Some(t) => match t.kind {
            SKind::Directive(SDir::V1) => with_semi(SDirv::Header(t), q),
            SKind::Directive(SDir::Plugin) => with_semi(SDirv::Plugin(t), q),
            SKind::Directive(SDir::Mem) => match sp_mem(q) {
                (Err(d), r) => err(d, r),
                (Ok(a), r) => match sp_mem(r) {
                    (Err(d), r) => err(d, r),
                    (Ok(l), r) => with_semi(SDirv::Mem(a, l), r),
                },
            },
            SKind::Directive(SDir::Include) => match top(q) {
                None => err(eof(q), take(q)),
                Some(u) => match u.kind {
                    SKind::String(s) => {
                        let r = peek(take(q));
                        let x = SPrim::Dir(SDirv::Include(SInc { tok: t, file: SWt { item: s, tok: u }, paths: p.paths }));
                        match top(r) {
                            Some(v) => if v.kind is Semicolon { ok(x, emit(take(r), diag_tok(ErrorCode::ParserError, v))) } else { ok(x, r) },
                            None => ok(x, r),
                        }
                    },
                    _ => err(unexpected(u), take(q)),
                },
            },
            SKind::Directive(SDir::DelNode) => match sp_ref(q) {
                (Err(d), r) => err(d, r),
                (Ok(x), r) => with_semi(SDirv::DelNode(t, x), r),
            },
            SKind::Directive(SDir::Omit) => match sp_ref(q) {
                (Err(d), r) => err(d, r),
                (Ok(x), r) => with_semi(SDirv::Omit(t, x), r),
            },
            SKind::Ident(s) => if s == "#include"@ {
                match top(q) {
                    None => err(eof(q), take(q)),
                    Some(u) => match u.kind {
                        SKind::String(s) => ok(SPrim::CInclude(s), take(q)),
                        _ => err(unexpected(u), take(q)),
                    },
                }
            } else { err(unexpected(t), q) },
            SKind::Slash => match sp_payload(q) {
                (Err(d), r) => err(d, r),
                (Ok(pay), r) => ok(SPrim::Root(SNode { label: None, name: SWt { item: SName { name: "/"@, unit: None }, tok: t }, pay, omit: None }), r),
            },
            SKind::Ref(r) => {
                let (w, q) = sp_reference(q, t, r);
                match sp_payload(q) { (Err(d), r) => err(d, r), (Ok(pay), r) => ok(SPrim::Refd(w, pay), r) }
            },
            _ => err(unexpected(t), q),
        },
    }
}
/// the elements of a file, up to the first one that can not be read
pub open spec fn sp_file(p: SPa, acc: Seq<SPrim>) -> (SRes<Seq<SPrim>>, SPa) decreases fuel_of(p) {
    if top(p) is None {
        ok(acc, peek(p))
    } else {
        match sp_prim(peek(p)) {
            (Err(d), q) => err(d, q),
            (Ok(x), q) => if 0 <= fuel_of(q) < fuel_of(p) { sp_file(q, acc.push(x)) } else { arbitrary() },
        }
    }
}

// ---- views of vectors ---------------------------------------------------------------------

pub open spec fn v_ds(c: Seq<Diagnostic>) -> Seq<SDiag> { c.map_values(|c: Diagnostic| c@) }
pub broadcast proof fn lemma_push_ds(c: Seq<Diagnostic>, d: Diagnostic)
    ensures #[trigger] v_ds(c.push(d)) == v_ds(c).push(d@),
{ assert(v_ds(c.push(d)) =~= v_ds(c).push(d@)); }
pub broadcast proof fn lemma_push_cells(c: Seq<Cell>, d: Cell)
    ensures #[trigger] v_cells(c.push(d)) == v_cells(c).push(d@),
{ assert(v_cells(c.push(d)) =~= v_cells(c).push(d@)); }
pub broadcast proof fn lemma_push_bytes(c: Seq<WithToken<Vec<u8>>>, d: WithToken<Vec<u8>>)
    ensures #[trigger] v_bytes(c.push(d)) == v_bytes(c).push(wt_bytes(d)),
{ assert(v_bytes(c.push(d)) =~= v_bytes(c).push(wt_bytes(d))); }
pub broadcast proof fn lemma_push_vals(c: Seq<PropertyValue>, d: PropertyValue)
    ensures #[trigger] v_vals(c.push(d)) == v_vals(c).push(d@),
{ assert(v_vals(c.push(d)) =~= v_vals(c).push(d@)); }
pub broadcast proof fn lemma_push_items(c: Seq<NodeItem>, d: NodeItem)
    ensures #[trigger] v_items(c.push(d)) == v_items(c).push(v_item(d)),
{ assert(v_items(c.push(d)) =~= v_items(c).push(v_item(d))); }
pub broadcast proof fn lemma_push_prims(c: Seq<Primary>, d: Primary)
    ensures #[trigger] v_prims(c.push(d)) == v_prims(c).push(d@),
{ assert(v_prims(c.push(d)) =~= v_prims(c).push(d@)); }
pub broadcast proof fn lemma_no_ds(c: Seq<Diagnostic>)
    ensures c.len() == 0 ==> #[trigger] v_ds(c) == Seq::<SDiag>::empty(),
{ if c.len() == 0 { assert(v_ds(c) =~= Seq::empty()); } }
pub broadcast proof fn lemma_no_cells(c: Seq<Cell>)
    ensures c.len() == 0 ==> #[trigger] v_cells(c) == Seq::<SCell>::empty(),
{ if c.len() == 0 { assert(v_cells(c) =~= Seq::empty()); } }
pub broadcast proof fn lemma_no_bytes(c: Seq<WithToken<Vec<u8>>>)
    ensures c.len() == 0 ==> #[trigger] v_bytes(c) == Seq::<SWt<Seq<u8>>>::empty(),
{ if c.len() == 0 { assert(v_bytes(c) =~= Seq::empty()); } }
pub broadcast proof fn lemma_no_vals(c: Seq<PropertyValue>)
    ensures c.len() == 0 ==> #[trigger] v_vals(c) == Seq::<SVal>::empty(),
{ if c.len() == 0 { assert(v_vals(c) =~= Seq::empty()); } }
pub broadcast proof fn lemma_no_items(c: Seq<NodeItem>)
    ensures c.len() == 0 ==> #[trigger] v_items(c) == Seq::<SItem>::empty(),
{ if c.len() == 0 { assert(v_items(c) =~= Seq::empty()); } }
pub broadcast proof fn lemma_no_prims(c: Seq<Primary>)
    ensures c.len() == 0 ==> #[trigger] v_prims(c) == Seq::<SPrim>::empty(),
{ if c.len() == 0 { assert(v_prims(c) =~= Seq::empty()); } }

} // verus!
