// The lexical rules of device-tree sources as mathematical functions over the bytes of a text.
use vstd::prelude::*;
use vstd::utf8::*;
use crate::spec::*;
use crate::dts::data::{Position, Span};
use crate::dts::tokens::token::*;
use std::sync::Arc;
use std::path::Path;
verus! {

pub struct Lexed { pub kind: SKind, pub start: int, pub end: int, pub names: bool }

pub open spec fn lexed(kind: SKind, start: int, end: int, names: bool) -> Lexed {
    Lexed { kind, start, end, names }
}

pub open spec fn starts_name(b: u8) -> bool { is_letter(b) || is_name_punct(b) }

/// names, optionally with a unit address, and labels
pub open spec fn lex_ident(d: Seq<u8>, s: int, names: bool) -> Lexed {
    let e = scan(d, s, Cls::Name);
    if e < d.len() && d[e] == 58 {
        lexed(SKind::Label(txt(d, s, e)), s, e + 1, names)
    } else if e < d.len() && d[e] == 64 {
        let e2 = scan(d, e + 1, Cls::Name);
        lexed(SKind::Ident(txt(d, s, e2)), s, e2, names)
    } else {
        lexed(SKind::Ident(txt(d, s, e)), s, e, names)
    }
}

/// `i` is behind the `&`
pub open spec fn lex_ref(d: Seq<u8>, s: int, i: int, names: bool) -> Lexed {
    if i < d.len() && d[i] == 123 {
        let e = scan(d, i + 1, Cls::Not(125));
        if e < d.len() {
            lexed(SKind::Ref(SRef::Path(txt(d, i + 1, e))), s, e + 1, names)
        } else {
            lexed(SKind::Unknown(38), s, e, names)
        }
    } else if i < d.len() && is_letter(d[i]) {
        let e = scan(d, i, Cls::Label);
        lexed(SKind::Ref(SRef::Simple(txt(d, i, e))), s, e, names)
    } else {
        lexed(SKind::Ref(SRef::Simple(""@)), s, i, names)
    }
}

/// the bytes of a string literal from `i` on and the offset behind its closing quote
pub open spec fn str_at(d: Seq<u8>, i: int, esc: bool, buf: Seq<u8>) -> Option<(Seq<u8>, int)>
    decreases d.len() - i
{
    if i < 0 || i >= d.len() {
        None
    } else if d[i] == 92 {
        if esc { str_at(d, i + 1, false, buf.push(92)) } else { str_at(d, i + 1, true, buf) }
    } else if d[i] == 34 {
        if esc { str_at(d, i + 1, false, buf.push(34)) } else { Some((buf, i + 1)) }
    } else {
        str_at(d, i + 1, false, buf.push(d[i]))
    }
}

pub open spec fn lex_str(d: Seq<u8>, s: int, i: int, names: bool) -> Lexed {
    match str_at(d, i, false, Seq::empty()) {
        Some((b, e)) => lexed(SKind::String(decode_utf8(b)), s, e, names),
        None => lexed(SKind::Unknown(34), s, d.len() as int, names),
    }
}

/// where a block comment that runs at `i` ends
pub open spec fn cmt_end(d: Seq<u8>, i: int) -> Option<int>
    decreases d.len() - i
{
    if i < 0 || i >= d.len() {
        None
    } else if d[i] == 42 && i + 1 < d.len() && d[i + 1] == 47 {
        Some(i)
    } else {
        cmt_end(d, i + 1)
    }
}

pub open spec fn lex_block_comment(d: Seq<u8>, s: int, i: int, names: bool) -> Lexed {
    match cmt_end(d, i) {
        Some(e) => lexed(SKind::Comment(txt(d, i, e)), s, e + 2, names),
        None => lexed(SKind::Unknown(47), s, d.len() as int, names),
    }
}

pub open spec fn lex_line_comment(d: Seq<u8>, s: int, i: int, names: bool) -> Lexed {
    let e = scan(d, i, Cls::Not(10));
    lexed(SKind::Comment(txt(d, i, e)), s, e, names)
}

pub open spec fn sp_directive(t: Seq<char>) -> SDir {
    if t == "dts-v1"@ { SDir::V1 }
    else if t == "plugin"@ { SDir::Plugin }
    else if t == "memreserve"@ { SDir::Mem }
    else if t == "bits"@ { SDir::Bits }
    else if t == "delete-property"@ { SDir::DelProp }
    else if t == "delete-node"@ { SDir::DelNode }
    else if t == "omit-if-no-ref"@ { SDir::Omit }
    else if t == "include"@ { SDir::Include }
    else { SDir::Other(t) }
}

pub open spec fn lex_directive(d: Seq<u8>, s: int, i: int, names: bool) -> Lexed {
    let e = scan(d, i, Cls::Not(47));
    lexed(SKind::Directive(sp_directive(txt(d, i, e))), s, if e < d.len() { e + 1 } else { e }, names)
}

/// the token that starts at `s`, which is not at white space
pub open spec fn lex_tok(d: Seq<u8>, s: int, names: bool) -> Lexed {
    let c = d[s];
    if names && starts_name(c) || is_letter(c) || c == 95 {
        lex_ident(d, s, names)
    } else if 48 <= c && c <= 57 {
        let e = scan(d, s, Cls::Alnum);
        lexed(SKind::Number(txt(d, s, e)), s, e, names)
    } else if c == 38 {
        lex_ref(d, s, s + 1, names)
    } else if c == 34 {
        lex_str(d, s, s + 1, names)
    } else if c == 47 {
        if s + 1 < d.len() && d[s + 1] == 47 { lex_line_comment(d, s, s + 2, names) }
        else if s + 1 < d.len() && d[s + 1] == 42 { lex_block_comment(d, s, s + 2, names) }
        else if s + 1 < d.len() && is_letter(d[s + 1]) { lex_directive(d, s, s + 1, names) }
        else { lexed(SKind::Slash, s, s + 1, names) }
    }
    else if c == 59 { lexed(SKind::Semicolon, s, s + 1, true) }
    else if c == 61 { lexed(SKind::Equal, s, s + 1, false) }
    else if c == 91 { lexed(SKind::OpenBracket, s, s + 1, names) }
    else if c == 93 { lexed(SKind::CloseBracket, s, s + 1, names) }
    else if c == 40 { lexed(SKind::OpenParen, s, s + 1, names) }
    else if c == 41 { lexed(SKind::CloseParen, s, s + 1, names) }
    else if c == 123 { lexed(SKind::OpenBrace, s, s + 1, true) }
    else if c == 125 { lexed(SKind::CloseBrace, s, s + 1, names) }
    else if c == 60 { lexed(SKind::ChevronLeft, s, s + 1, names) }
    else if c == 62 { lexed(SKind::ChevronRight, s, s + 1, names) }
    else if c == 44 { lexed(SKind::Comma, s, s + 1, names) }
    else { lexed(SKind::Unknown(c), s, skip_cont(d, s + 1), names) }
}

// ---- the state of the lexer ---------------------------------------------------------------

pub struct SLx {
    pub d: Seq<u8>,
    pub off: int,
    /// whether names may start with any character of a name
    pub names: bool,
    pub lp: Position,
    pub src: Arc<Path>,
}

pub open spec fn wf_lx(x: SLx) -> bool {
    ok_data(x.d) && 0 <= x.off <= x.d.len() && bnd(x.d, x.off)
}

pub open spec fn at(x: SLx, off: int) -> SLx { SLx { off, ..x } }

pub open spec fn tok_of(x: SLx, l: Lexed) -> STok {
    STok { kind: l.kind, span: Span { start: pos_at(x.d, l.start), end: pos_at(x.d, l.end) }, src: x.src }
}

/// the next token, comments included
pub open spec fn sp_consume(x: SLx) -> (Option<STok>, SLx) {
    let lp = pos_at(x.d, x.off);
    let s = skip_ws(x.d, x.off);
    if s >= x.d.len() {
        (None, SLx { off: s, lp, ..x })
    } else {
        let l = lex_tok(x.d, s, x.names);
        (Some(tok_of(x, l)), SLx { off: l.end, names: l.names, lp, ..x })
    }
}

/// the next token that is not a comment
pub open spec fn sp_next(x: SLx) -> (Option<STok>, SLx)
    decreases x.d.len() - x.off
{
    let (t, y) = sp_consume(x);
    if t is Some && t->Some_0.kind is Comment {
        if 0 <= x.off < y.off && y.d == x.d && y.off <= x.d.len() { sp_next(y) } else { arbitrary() }
    } else {
        (t, y)
    }
}

pub proof fn lemma_cmt_end(d: Seq<u8>, i: int)
    requires 0 <= i,
    ensures cmt_end(d, i) matches Some(e) ==> i <= e && e + 1 < d.len() && d[e] == 42 && d[e + 1] == 47,
    decreases d.len() - i
{
    if i < d.len() && !(d[i] == 42 && i + 1 < d.len() && d[i + 1] == 47) { lemma_cmt_end(d, i + 1); }
}

pub proof fn lemma_str_at(d: Seq<u8>, i: int, esc: bool, buf: Seq<u8>)
    requires 0 <= i,
    ensures str_at(d, i, esc, buf) matches Some((b, e)) ==> i < e <= d.len() && d[e - 1] == 34,
    decreases d.len() - i
{
    if i < d.len() {
        if d[i] == 92 {
            if esc { lemma_str_at(d, i + 1, false, buf.push(92)) } else { lemma_str_at(d, i + 1, true, buf) }
        } else if d[i] == 34 {
            if esc { lemma_str_at(d, i + 1, false, buf.push(34)) }
        } else {
            lemma_str_at(d, i + 1, false, buf.push(d[i]))
        }
    }
}

/// every token covers at least one character and ends on a character boundary
pub proof fn lemma_lex_tok(d: Seq<u8>, s: int, names: bool)
    requires ok_data(d), 0 <= s < d.len(), bnd(d, s), !is_ws(d[s]),
    ensures ({
        let l = lex_tok(d, s, names);
        l.start == s && s < l.end <= d.len() && bnd(d, l.end)
    }),
{
    let c = d[s];
    if c < 0x80 { lemma_ascii_bnd(d, s); }
    lemma_bnd_start(d);
    if names && starts_name(c) || is_letter(c) || c == 95 {
        lemma_scan_ascii(d, s, Cls::Name);
        let e = scan(d, s, Cls::Name);
        assert(in_cls(Cls::Name, c));
        if e < d.len() && (d[e] == 58 || d[e] == 64) { lemma_ascii_bnd(d, e); }
        if e < d.len() && d[e] == 64 { lemma_scan_ascii(d, e + 1, Cls::Name); }
    } else if 48 <= c && c <= 57 {
        lemma_scan_ascii(d, s, Cls::Alnum);
        assert(in_cls(Cls::Alnum, c));
    } else if c == 38 {
        if s + 1 < d.len() && d[s + 1] == 123 {
            lemma_ascii_bnd(d, s + 1);
            lemma_scan_not(d, s + 2, 125);
            let e = scan(d, s + 2, Cls::Not(125));
            lemma_scan(d, s + 2, Cls::Not(125));
            if e < d.len() { lemma_ascii_bnd(d, e); }
        } else if s + 1 < d.len() && is_letter(d[s + 1]) {
            lemma_scan_ascii(d, s + 1, Cls::Label);
        }
    } else if c == 34 {
        lemma_str_at(d, s + 1, false, Seq::empty());
        match str_at(d, s + 1, false, Seq::empty()) {
            Some((b, e)) => { lemma_ascii_bnd(d, e - 1); }
            None => {}
        }
    } else if c == 47 {
        if s + 1 < d.len() && d[s + 1] == 47 {
            lemma_ascii_bnd(d, s + 1);
            lemma_scan_not(d, s + 2, 10);
        } else if s + 1 < d.len() && d[s + 1] == 42 {
            lemma_ascii_bnd(d, s + 1);
            lemma_cmt_end(d, s + 2);
            match cmt_end(d, s + 2) { Some(e) => { lemma_ascii_bnd(d, e + 1); } None => {} }
        } else if s + 1 < d.len() && is_letter(d[s + 1]) {
            lemma_scan_not(d, s + 1, 47);
            lemma_scan(d, s + 1, Cls::Not(47));
            let e = scan(d, s + 1, Cls::Not(47));
            if e < d.len() { lemma_ascii_bnd(d, e); }
        }
    } else {
        lemma_skip_cont(d, s + 1);
    }
}

/// limits and characters of the text that tokens carry
pub open spec fn text_ok(k: SKind) -> bool {
    match k {
        SKind::Ident(s) => asc(s) && s.len() <= MAX_LEN,
        SKind::Label(s) => asc(s) && s.len() <= MAX_LEN,
        SKind::Number(s) => asc(s) && s.len() <= MAX_LEN,
        SKind::Ref(SRef::Simple(s)) => asc(s) && s.len() <= MAX_LEN,
        SKind::Ref(SRef::Path(s)) => s.len() <= MAX_LEN,
        _ => true,
    }
}
pub proof fn lemma_txt_asc(d: Seq<u8>, a: int, b: int)
    requires ok_data(d), 0 <= a <= b <= d.len(), ascii(d.subrange(a, b)),
    ensures asc(txt(d, a, b)), txt(d, a, b).len() <= MAX_LEN,
{
    lemma_ascii_valid(d.subrange(a, b));
    lemma_decode_asc(d.subrange(a, b));
}
pub proof fn lemma_ident_text(d: Seq<u8>, s: int, names: bool)
    requires ok_data(d), 0 <= s < d.len(), bnd(d, s),
    ensures text_ok(lex_ident(d, s, names).kind),
{
    lemma_scan_ascii(d, s, Cls::Name);
    let e = scan(d, s, Cls::Name);
    lemma_txt_asc(d, s, e);
    if e < d.len() && d[e] == 64 {
        lemma_ascii_bnd(d, e);
        lemma_scan_ascii(d, e + 1, Cls::Name);
        let e2 = scan(d, e + 1, Cls::Name);
        assert forall|k: int| 0 <= k < e2 - s implies #[trigger] d.subrange(s, e2)[k] < 0x80 by {
            if k < e - s { assert(d.subrange(s, e)[k] < 0x80); }
            else if k > e - s { assert(d.subrange(e + 1, e2)[k - (e - s) - 1] < 0x80); }
        }
        lemma_txt_asc(d, s, e2);
    }
}
pub proof fn lemma_lex_text(d: Seq<u8>, s: int, names: bool)
    requires ok_data(d), 0 <= s < d.len(), bnd(d, s), !is_ws(d[s]),
    ensures text_ok(lex_tok(d, s, names).kind),
{
    let c = d[s];
    if names && starts_name(c) || is_letter(c) || c == 95 {
        lemma_ident_text(d, s, names);
    } else if 48 <= c && c <= 57 {
        lemma_scan_ascii(d, s, Cls::Alnum);
        lemma_txt_asc(d, s, scan(d, s, Cls::Alnum));
    } else if c == 38 {
        lemma_ascii_bnd(d, s);
        if s + 1 < d.len() && d[s + 1] == 123 {
            lemma_ascii_bnd(d, s + 1);
            lemma_scan_not(d, s + 2, 125);
            lemma_decode_len(d.subrange(s + 2, scan(d, s + 2, Cls::Not(125))));
        } else if s + 1 < d.len() && is_letter(d[s + 1]) {
            lemma_scan_ascii(d, s + 1, Cls::Label);
            lemma_txt_asc(d, s + 1, scan(d, s + 1, Cls::Label));
        } else {
            reveal_strlit("");
            assert(""@ =~= Seq::<char>::empty());
        }
    }
}

pub proof fn lemma_consume(x: SLx)
    requires wf_lx(x),
    ensures ({
        let (t, y) = sp_consume(x);
        &&& wf_lx(y) && y.d == x.d && y.src == x.src && y.lp == pos_at(x.d, x.off)
        &&& y.off >= x.off
        &&& t is Some ==> y.off > x.off && pos_lt(t->Some_0.span.start, t->Some_0.span.end)
        &&& t is None ==> y.off == x.d.len()
    }),
{
    lemma_skip_ws(x.d, x.off);
    let s = skip_ws(x.d, x.off);
    if s < x.d.len() {
        lemma_lex_tok(x.d, s, x.names);
        lemma_pos_lt(x.d, s, lex_tok(x.d, s, x.names).end);
    }
}

} // verus!
