// What the grammar yields: trees whose elements span from an earlier to a later token.
use vstd::prelude::*;
use vstd::utf8::*;
use crate::spec::*;
use crate::lex::*;
use crate::gram::*;
use crate::tree::*;
use crate::dts::ast::*;
use crate::dts::data::{Position, Span};
use crate::dts::error_codes::ErrorCode;
use crate::dts::tokens::lexer::*;
use crate::dts::tokens::token::*;
use std::sync::Arc;
use std::path::{Path as StdPath, PathBuf};
verus! {

/// a token of the text that is left
pub open spec fn tok_from(p: SPa, t: STok) -> bool { wf_tok(t) && pos_le(here(p.lx), t.span.start) }
/// a token of the text that was read
pub open spec fn past(t: STok, p: SPa) -> bool { wf_tok(t) && pos_le(t.span.end, here(p.lx)) }
/// nothing is read
pub open spec fn still(p: SPa, q: SPa) -> bool { q.lx == p.lx && q.paths == p.paths }
/// at least one token is read, if there is one
pub open spec fn onward(p: SPa, q: SPa) -> bool { later(p, q) && (top(p) is Some ==> fuel_of(q) < fuel_of(p)) }

pub proof fn lemma_tok_from(p: SPa, q: SPa, t: STok)
    requires later(p, q), tok_from(q, t),
    ensures tok_from(p, t),
{ lemma_later_pos(p, q); }
pub proof fn lemma_past(t: STok, p: SPa, q: SPa)
    requires past(t, p), later(p, q),
    ensures past(t, q),
{ lemma_later_pos(p, q); }
pub proof fn lemma_top(p: SPa)
    requires wf_pk(p.lx),
    ensures top(p) matches Some(t) ==> tok_from(p, t) && past(t, take(p)),
{ lemma_state(p); }

// ---- reading nothing ----------------------------------------------------------------------------

pub proof fn lemma_chk(p: SPa, span: Span, s: Seq<char>, k: NameKind)
    ensures still(p, chk(p, span, s, k)),
{ reveal(chk); }
pub proof fn lemma_chk_node(p: SPa, span: Span, n: SName)
    ensures still(p, chk_node(p, span, n)),
{
    reveal(chk_node);
    lemma_chk(p, span, n.name, NameKind::Node);
    match n.unit { Some(u) => lemma_chk(chk(p, span, n.name, NameKind::Node), ext(span, u16len(n.name) + 1), u, NameKind::Unit), None => {} }
}
pub proof fn lemma_chk_comps(p: SPa, span: Span, c: Seq<Seq<char>>, i: int, off: int)
    ensures still(p, chk_comps(p, span, c, i, off)),
    decreases c.len() - i
{
    if 0 <= i < c.len() {
        let q = if c[i].len() == 0 { p } else { chk_node(p, ext(span, off), to_name(c[i])) };
        lemma_chk_node(p, ext(span, off), to_name(c[i]));
        lemma_chk_comps(q, span, c, i + 1, off + u16len(c[i]) + 1);
    }
}
pub proof fn lemma_reference(p: SPa, t: STok, r: SRef)
    ensures still(p, sp_reference(p, t, r).1), sp_reference(p, t, r).0.tok == t,
{
    reveal(sp_reference);
    match r {
        SRef::Simple(l) => lemma_chk(p, t.span, l, NameKind::Label),
        SRef::Path(s) => lemma_chk_comps(emit_if(p, s.len() == 0, diag_tok(ErrorCode::PathCannotBeEmpty, t)), t.span, sp_split(s, '/'), 0, 2),
    }
}

// ---- values -------------------------------------------------------------------------------------

pub proof fn lemma_skip_parens(p: SPa, depth: int)
    requires wf_pk(p.lx),
    ensures later(p, sp_skip(p, depth).1),
    decreases fuel_of(p)
{
    lemma_state(p);
    match top(p) {
        Some(t) => {
            let q = take(p);
            if !(t.kind is CloseParen && depth == 1) {
                lemma_skip_parens(q, if t.kind is OpenParen { depth + 1 } else if t.kind is CloseParen { depth - 1 } else { depth });
            }
        },
        None => {},
    }
}
pub proof fn lemma_cell(p: SPa)
    requires wf_pk(p.lx),
    ensures onward(p, sp_cell(p).1),
{
    reveal(sp_cell);
    lemma_state(p);
    let q = take(p);
    match top(p) {
        Some(t) => match t.kind {
            SKind::Ref(r) => lemma_reference(q, t, r),
            SKind::OpenParen => lemma_skip_parens(q, 1),
            _ => {},
        },
        None => {},
    }
}
pub proof fn lemma_mem(p: SPa)
    requires wf_pk(p.lx),
    ensures onward(p, sp_mem(p).1),
{ reveal(sp_mem); lemma_state(p); }
pub proof fn lemma_bytestr(p: SPa)
    requires wf_pk(p.lx),
    ensures onward(p, sp_bytestr(p).1),
{ reveal(sp_bytestr); lemma_state(p); }
pub proof fn lemma_cells(p: SPa, acc: Seq<SCell>)
    requires wf_pk(p.lx),
    ensures later(p, sp_cells(p, acc).1), sp_cells(p, acc).0 matches Ok(c) ==> tok_from(p, c.1),
    decreases fuel_of(p)
{
    let p1 = skip_label(p);
    lemma_skip(p);
    lemma_state(p1);
    match top(p1) {
        None => {},
        Some(t) => if t.kind is ChevronRight { lemma_tok_from(p, p1, t); } else {
            let (r, q) = sp_cell(peek(p1));
            lemma_cell(peek(p1));
            assert(0 <= fuel_of(q) < fuel_of(p));
            match r {
                Ok(c) => { lemma_cells(q, acc.push(c)); if let Ok(c) = sp_cells(q, acc.push(c)).0 { lemma_tok_from(p, q, c.1); } },
                Err(d) => { lemma_cells(emit(q, d), acc); if let Ok(c) = sp_cells(emit(q, d), acc).0 { lemma_tok_from(p, emit(q, d), c.1); } },
            }
        },
    }
}
pub proof fn lemma_bytes(p: SPa, acc: Seq<SWt<Seq<u8>>>)
    requires wf_pk(p.lx),
    ensures later(p, sp_bytes(p, acc).1), sp_bytes(p, acc).0 matches Ok(c) ==> tok_from(p, c.1),
    decreases fuel_of(p)
{
    let p1 = skip_label(p);
    lemma_skip(p);
    lemma_state(p1);
    match top(p1) {
        None => {},
        Some(t) => if t.kind is CloseBracket { lemma_tok_from(p, p1, t); } else {
            let (r, q) = sp_bytestr(peek(p1));
            lemma_bytestr(peek(p1));
            match r {
                Ok(c) => { lemma_bytes(q, acc.push(c)); if let Ok(c) = sp_bytes(q, acc.push(c)).0 { lemma_tok_from(p, q, c.1); } },
                Err(d) => {},
            }
        },
    }
}
pub proof fn lemma_value1(p: SPa)
    requires wf_pk(p.lx),
    ensures onward(p, sp_value1(p).1), sp_value1(p).0 matches Ok(v) ==> span_ok(val_span(v)),
{
    lemma_state(p);
    lemma_top(p);
    let q = take(p);
    match top(p) {
        None => {},
        Some(t) => match t.kind {
            SKind::ChevronLeft => lemma_cells(q, Seq::empty()),
            SKind::Ref(x) => lemma_reference(q, t, x),
            SKind::OpenBracket => lemma_bytes(q, Seq::empty()),
            _ => {},
        },
    }
}
pub proof fn lemma_value(p: SPa)
    requires wf_pk(p.lx),
    ensures onward(p, sp_value(p).1), sp_value(p).0 matches Ok(v) ==> span_ok(val_span(v)),
{
    reveal(sp_value);
    lemma_state(p);
    if is_dir(top(p), SDir::Bits) {
        let q = take(p);
        lemma_state(q);
        match top(q) {
            None => {},
            Some(w) => lemma_value1(emit_if(take(q), !(w.kind is Number), unexpected(w))),
        }
    } else {
        lemma_value1(peek(p));
    }
}
pub proof fn lemma_values(p: SPa, acc: Seq<SVal>)
    requires wf_pk(p.lx), ok_vals(acc),
    ensures later(p, sp_values(p, acc).1), sp_values(p, acc).0 matches Ok(v) ==> ok_vals(v),
    decreases fuel_of(p)
{
    lemma_skip(p);
    let p0 = skip_label(p);
    let (r, q) = sp_value(p0);
    lemma_value(p0);
    match r {
        Err(d) => {},
        Ok(v) => {
            lemma_skip(q);
            let q1 = skip_label(q);
            lemma_state(q1);
            assert(ok_vals(acc.push(v)));
            match top(q1) {
                None => {},
                Some(t) => if t.kind is Comma { lemma_values(take(q1), acc.push(v)); },
            }
        }
    }
}

// ---- nodes ----------------------------------------------------------------------------------------

pub proof fn lemma_propname(p: SPa)
    requires wf_pk(p.lx),
    ensures onward(p, sp_propname(p).1),
{
    reveal(sp_propname);
    lemma_state(p);
    match top(p) { Some(t) => match t.kind { SKind::Ident(s) => lemma_chk(take(p), t.span, s, NameKind::Prop), _ => {} }, None => {} }
}
pub proof fn lemma_nodename(p: SPa)
    requires wf_pk(p.lx),
    ensures onward(p, sp_nodename(p).1),
{
    reveal(sp_nodename);
    lemma_state(p);
    match top(p) { Some(t) => match t.kind { SKind::Ident(s) => lemma_chk_node(take(p), t.span, to_name(s)), _ => {} }, None => {} }
}
pub proof fn lemma_pseudo(p: SPk, k: SKind)
    requires wf_pk(p),
    ensures ({
        let q = SPk { x: sp_pseudo(p.x, k), ..p };
        wf_pk(q) && fuel(q) == fuel(p) && here(q) == here(p) && q.x.d == p.x.d && q.x.src == p.x.src
    }),
{ reveal(wf_pk); reveal(fuel); reveal(here); }
pub proof fn lemma_semi(p: SPa)
    requires wf_pk(p.lx),
    ensures later(p, sp_semi(p).1), sp_semi(p).0 matches Ok(Some(t)) ==> tok_from(p, t),
{
    reveal(sp_semi);
    lemma_state(p);
    lemma_pseudo(take(p).lx, SKind::Semicolon);
}
/// what is known about the words in front of a name
pub open spec fn ok_head(h: SHead, t: STok) -> bool {
    h.label matches Some(l) ==> wf_tok(l.tok) && pos_le(l.tok.span.end, t.span.start)
}
pub open spec fn ok_step(t: STok, s: SRes<SStep>) -> bool {
    match s {
        Ok(SStep::Item(i)) => ok_item(i),
        Ok(SStep::End(e)) => wf_tok(e) && pos_le(t.span.start, e.span.start),
        Err(_) => true,
    }
}
pub proof fn lemma_named(p: SPa, h: SHead, name: STok, s: Seq<char>, seen: bool)
    requires wf_pk(p.lx), past(name, p), ok_head(h, name),
    ensures later(p, sp_named(p, h, name, s, seen).1), ok_step(name, sp_named(p, h, name, s, seen).0),
    decreases fuel_of(p), 0nat
{
    lemma_named_step(p, h, name, s, seen);
    lemma_state(p);
    lemma_top(p);
    match top(p) {
        None => {},
        Some(t) => match t.kind {
            SKind::OpenBrace => {
                let q = chk_node(peek(p), name.span, to_name(s));
                lemma_chk_node(peek(p), name.span, to_name(s));
                assert(take(q).lx == take(peek(p)).lx);
                lemma_payload(q);
                match sp_payload(q) {
                    (Ok(pay), r) => { lemma_tok_from(p, q, pay.end); },
                    (Err(d), r) => {},
                }
            },
            SKind::Equal => {
                let q = chk(take(p), name.span, s, NameKind::Prop);
                lemma_chk(take(p), name.span, s, NameKind::Prop);
                lemma_values(q, Seq::empty());
                match sp_values(q, Seq::empty()) {
                    (Ok(v), r) => {
                        lemma_semi(r);
                        match sp_semi(r) {
                            (Ok(Some(e)), u) => { lemma_tok_from(p, r, e); },
                            _ => {},
                        }
                    },
                    (Err(d), r) => {},
                }
            },
            SKind::Semicolon => { lemma_chk(take(p), name.span, s, NameKind::Prop); },
            _ => {},
        },
    }
}
pub proof fn lemma_labelled(p: SPa, h: SHead, t: STok, seen: bool)
    requires wf_pk(p.lx), past(t, p), ok_head(h, t),
    ensures later(p, sp_labelled(p, h, t, seen).1), ok_step(t, sp_labelled(p, h, t, seen).0),
    decreases fuel_of(p), 1nat
{
    lemma_labelled_step(p, h, t, seen);
    lemma_state(p);
    match t.kind {
        SKind::Ident(s) => lemma_named(p, h, t, s, seen),
        SKind::CloseBrace => { lemma_semi(emit_if(p, h.label is Some || h.omit is Some, unexpected(t))); },
        _ => {},
    }
}
pub proof fn lemma_omitted(p: SPa, omit: Option<STok>, t: STok, seen: bool)
    requires wf_pk(p.lx), past(t, p),
    ensures later(p, sp_omitted(p, omit, t, seen).1), ok_step(t, sp_omitted(p, omit, t, seen).0),
    decreases fuel_of(p), 2nat
{
    lemma_omitted_step(p, omit, t, seen);
    lemma_state(p);
    match t.kind {
        SKind::Label(s) => {
            let q = chk(p, t.span, s, NameKind::Label);
            lemma_chk(p, t.span, s, NameKind::Label);
            lemma_state(q);
            lemma_top(q);
            match top(q) {
                None => {},
                Some(u) => lemma_labelled(take(q), SHead { omit, label: Some(SWt { item: s, tok: t }) }, u, seen),
            }
        },
        _ => lemma_labelled(p, SHead { omit, label: None }, t, seen),
    }
}
pub open spec fn ok_stepped(p: SPa, s: SRes<SStep>) -> bool {
    match s {
        Ok(SStep::Item(i)) => ok_item(i),
        Ok(SStep::End(e)) => tok_from(p, e),
        Err(_) => true,
    }
}
pub proof fn lemma_item(p: SPa, seen: bool)
    requires wf_pk(p.lx),
    ensures onward(p, sp_item(p, seen).1), ok_stepped(p, sp_item(p, seen).0), sp_item(p, seen).0 is Ok ==> ahead(p, sp_item(p, seen).1),
    decreases fuel_of(p), 3nat
{
    lemma_item_step(p, seen);
    lemma_state(p);
    lemma_top(p);
    match top(p) {
        None => {},
        Some(t) => {
            let q = take(p);
            match t.kind {
                SKind::Directive(SDir::DelNode) => { lemma_nodename(q); lemma_semi(sp_nodename(q).1); },
                SKind::Directive(SDir::DelProp) => { lemma_propname(q); lemma_semi(sp_propname(q).1); },
                SKind::Directive(SDir::Omit) => {
                    lemma_state(q);
                    lemma_top(q);
                    match top(q) { None => {}, Some(u) => { lemma_omitted(take(q), Some(t), u, seen); } }
                },
                _ => { lemma_omitted(q, None, t, seen); },
            }
        }
    }
}
pub proof fn lemma_items(p: SPa, acc: Seq<SItem>, seen: bool)
    requires wf_pk(p.lx), forall|i: int| 0 <= i < acc.len() ==> ok_item(#[trigger] acc[i]),
    ensures later(p, sp_items(p, acc, seen).1), sp_items(p, acc, seen).0 matches Ok(b) ==> ok_pay(b) && tok_from(p, b.end),
    decreases fuel_of(p), 4nat
{
    lemma_items_step(p, acc, seen);
    lemma_item(p, seen);
    match sp_item(p, seen) {
        (Ok(SStep::Item(i)), q) => {
            lemma_items(q, acc.push(i), seen || i is Node);
            match sp_items(q, acc.push(i), seen || i is Node).0 { Ok(b) => lemma_tok_from(p, q, b.end), Err(_) => {} }
        },
        _ => {},
    }
}
pub proof fn lemma_payload(p: SPa)
    requires wf_pk(p.lx),
    ensures onward(p, sp_payload(p).1), sp_payload(p).0 matches Ok(b) ==> ok_pay(b) && tok_from(p, b.end),
    decreases fuel_of(take(p)), 5nat
{
    lemma_payload_step(p);
    lemma_state(p);
    let q = take(p);
    match top(p) {
        None => {},
        Some(t) => if t.kind is OpenBrace {
            lemma_items(q, Seq::empty(), false);
            match sp_items(q, Seq::empty(), false).0 { Ok(b) => lemma_tok_from(p, q, b.end), Err(_) => {} }
        },
    }
}

// ---- files ----------------------------------------------------------------------------------------

pub proof fn lemma_ref(p: SPa)
    requires wf_pk(p.lx),
    ensures onward(p, sp_ref(p).1),
{
    reveal(sp_ref);
    lemma_state(p);
    match top(p) { Some(t) => match t.kind { SKind::Ref(r) => lemma_reference(take(p), t, r), _ => {} }, None => {} }
}
pub proof fn lemma_prim(p: SPa)
    requires wf_pk(p.lx),
    ensures onward(p, sp_prim(p).1), sp_prim(p).0 matches Ok(x) ==> ok_prim(x),
{
    reveal(sp_prim);
    lemma_state(p);
    lemma_top(p);
    let q = take(p);
    match top(p) {
        None => {},
        Some(t) => match t.kind {
            SKind::Directive(SDir::V1) => lemma_semi(q),
            SKind::Directive(SDir::Plugin) => lemma_semi(q),
            SKind::Directive(SDir::Mem) => {
                lemma_mem(q);
                let r = sp_mem(q).1;
                lemma_mem(r);
                lemma_semi(sp_mem(r).1);
            },
            SKind::Directive(SDir::Include) => {
                lemma_state(q);
                lemma_top(q);
                match top(q) {
                    None => {},
                    Some(u) => { lemma_state(take(q)); lemma_state(peek(take(q))); },
                }
            },
            SKind::Directive(SDir::DelNode) => { lemma_ref(q); lemma_semi(sp_ref(q).1); },
            SKind::Directive(SDir::Omit) => { lemma_ref(q); lemma_semi(sp_ref(q).1); },
            SKind::Ident(s) => { lemma_state(q); },
            SKind::Slash => { lemma_payload(q); },
            SKind::Ref(r) => {
                let (w, u) = sp_reference(q, t, r);
                lemma_reference(q, t, r);
                lemma_payload(u);
            },
            _ => {},
        },
    }
}
pub proof fn lemma_file(p: SPa, acc: Seq<SPrim>)
    requires wf_pk(p.lx), ok_prims(acc),
    ensures sp_file(p, acc).0 matches Ok(e) ==> ok_prims(e), later(p, sp_file(p, acc).1),
    decreases fuel_of(p)
{
    lemma_state(p);
    if top(p) is Some {
        lemma_prim(peek(p));
        match sp_prim(peek(p)) {
            (Err(d), q) => {},
            (Ok(x), q) => { assert(ok_prims(acc.push(x))); lemma_file(q, acc.push(x)); },
        }
    }
}

} // verus!
