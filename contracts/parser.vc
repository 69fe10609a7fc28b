@module dts::parser file ginko/src/dts/parser.rs
@use crate::spec::*
@use crate::lex::*
@use crate::gram::*
@use vstd::utf8::encode_utf8
@use crate::dts::tokens::lexer::*
@use crate::dts::tokens::token::*
@use crate::dts::ast::*
@use crate::dts::diagnostics::*
@dropuse itertools::Itertools
@mapuse crate::dts::tokens::{CompilerDirective, Lexer, PeekingLexer, Reference, Token, TokenKind} => crate::dts::tokens::{CompilerDirective, Lexer, PeekingLexer, Reference, Token, TokenKind}
@text
broadcast use {group_std, lemma_push_ds, lemma_push_cells, lemma_push_bytes, lemma_push_vals, lemma_push_items, lemma_push_prims,
    lemma_no_ds, lemma_no_cells, lemma_no_bytes, lemma_no_vals, lemma_no_items, lemma_no_prims};

impl<R: Reader> Parser<R> {
    pub open spec fn view(&self) -> SPa {
        SPa { lx: self.lexer.view(), ds: v_ds(self.diagnostics@), paths: self.context.include_paths@ }
    }
    pub open spec fn wf(&self) -> bool { self.lexer.wf() }
}
pub open spec fn only_ds(p: SPa, q: SPa) -> bool { q.lx == p.lx && q.paths == p.paths }
/// a token was taken, if there was one
pub open spec fn step(p: SPa, q: SPa) -> bool { later(p, q) && (top(p) is Some ==> fuel_of(q) < fuel_of(p)) }
/// the two predicates decide which characters a name may have, and may have at its start
pub open spec fn decide<F: Fn(char) -> bool, G: Fn(char) -> bool>(f: F, g: G, k: NameKind) -> bool {
    &&& forall|c: char, r: bool| #[trigger] f.ensures((c,), r) ==> r == legal(k, c)
    &&& forall|c: char, r: bool| #[trigger] g.ensures((c,), r) ==> r == legal_first(k, c)
}
@fn Parser::new ret r
    requires lexer.wf(), pos_ok(lexer.view().lp),
    ensures r.wf(), r.view() == (SPa { lx: SPk { x: lexer.view(), pk: None }, ds: Seq::empty(), paths: context.include_paths@ }),
@proof body_start
    proof { reveal(wf_pk); }
@drop Parser::diagnostics
@fn Parser::from_text
@trusted conversion of `impl Into<String>`
@fn Parser::skip_tok
    requires old(self).wf(),
    ensures final(self).wf(), final(self).view() == take(old(self).view()), step(old(self).view(), final(self).view()),
@proof body_start
    proof { lemma_state(self.view()); }
@fn Parser::check_ident
    requires old(self).wf(), span.start.character <= 0xC000_0000, str@.len() <= MAX_LEN,
        forall|c: char| #[trigger] predicate.requires((c,)), forall|c: char| #[trigger] starting_chars.requires((c,)),
    ensures final(self).wf(),
        only_ds(old(self).view(), final(self).view()), later(old(self).view(), final(self).view()),
        forall|k: NameKind| #![trigger chk(old(self).view(), span, str@, k)] decide(predicate, starting_chars, k) ==> final(self).view() == chk(old(self).view(), span, str@, k),
@rewrite
F2: FnMut(char) -> bool >>> F2: Fn(char) -> bool
@rewrite
if let Some((pos, ch)) = str.chars().enumerate().find(|(_, ch)| !predicate(*ch)) >>> let bad__ = crate::spec::find_not(str, &predicate); proof { reveal(chk); lemma_state(self.view()); assert forall|k: NameKind| #![trigger chk(self.view(), span, str@, k)] decide(predicate, starting_chars, k) implies ({ let i = first_bad(str@, k, 0); match bad__ { Some((j, c)) => i == j, None => i == str@.len() && encode_utf8(str@).len() == str@.len() } }) by { match bad__ { Some((j, c)) => { lemma_first_bad_is(str@, k, 0, j as int); } None => { lemma_first_bad_is(str@, k, 0, str@.len() as int); lemma_legal_len(str@, k); } } } } if let Some((pos, ch)) = bad__
@rewrite
str.len() >>> crate::spec::byte_len(str)
@rewrite
!str.starts_with(starting_chars) >>> !crate::spec::starts_fn(str, starting_chars)
@fn Parser::check_is_label
    requires old(self).wf(), span.start.character <= 0xC000_0000, str@.len() <= MAX_LEN,
    ensures final(self).wf(), final(self).view() == chk(old(self).view(), span, str@, NameKind::Label), only_ds(old(self).view(), final(self).view()), later(old(self).view(), final(self).view()),
@fn Parser::check_is_node_name
    requires old(self).wf(), span.start.character <= 0x8000_0000, name@.name.len() <= MAX_LEN,
        name@.unit matches Some(u) ==> u.len() <= MAX_LEN,
    ensures final(self).wf(), final(self).view() == chk_node(old(self).view(), span, name@), only_ds(old(self).view(), final(self).view()), later(old(self).view(), final(self).view()),
@flag std
@proof body_start
    proof { reveal(chk_node); lemma_state(self.view()); lemma_u16(name@.name); }
@fn Parser::check_is_property_name
    requires old(self).wf(), span.start.character <= 0xC000_0000, str@.len() <= MAX_LEN,
    ensures final(self).wf(), final(self).view() == chk(old(self).view(), span, str@, NameKind::Prop), only_ds(old(self).view(), final(self).view()), later(old(self).view(), final(self).view()),
@fn Parser::reference ret r
    requires old(self).wf(), pos_ok(token@.span.start), text_ok(SKind::Ref(reference@)),
    ensures final(self).wf(), wt(r) == sp_reference(old(self).view(), token@, reference@).0,
        final(self).view() == sp_reference(old(self).view(), token@, reference@).1,
        only_ds(old(self).view(), final(self).view()), later(old(self).view(), final(self).view()),
@rewrite
NodeName::from(component) >>> NodeName::from(*component)
@proof body_start
    proof { reveal(sp_reference); lemma_state(self.view()); }
@proof loop 0 before
    let ghost c = sp_split(path@, '/');
    let ghost p1 = self.view();
    proof { lemma_split_len(path@, '/'); lemma_state(p1); }
@loop 0
    invariant i__0 <= seq__0@.len(), views(seq__0@) == c, c == sp_split(path@, '/'), path@.len() <= MAX_LEN,
        comps_len(c, c.len() as int) == u16len(path@) + 1, pos_ok(token@.span.start),
        forall|k: int| 0 <= k < c.len() ==> (#[trigger] c[k]).len() <= path@.len(),
        offset == 2 + comps_len(c, i__0 as int), self.wf(),
        chk_comps(self.view(), token@.span, c, i__0 as int, offset as int) == chk_comps(p1, token@.span, c, 0, 2),
        only_ds(p1, self.view()), later(p1, self.view()),
    decreases seq__0@.len() - i__0,
@proof loop 0 start
    proof { 
        assert(c[i__0 - 1] == component@);
        lemma_u16(path@);
        lemma_to_name(component@);
        lemma_comps_mono(c, i__0 as int, c.len() as int);
        lemma_comps_mono(c, i__0 - 1, i__0 as int);
    }
@text
pub open spec fn res<T: View>(r: Result<T>) -> SRes<T::V> { match r { Ok(x) => Ok(x@), Err(d) => Err(d@) } }
pub proof fn lemma_bytes_step(s: Seq<char>, i: int)
    requires 0 <= i, 2 * i + 2 <= s.len(), s.len() % 2 == 0,
    ensures bytes_of(s.subrange(0, 2 * i + 2)) == (match (bytes_of(s.subrange(0, 2 * i)), digit(s[2 * i]), digit(s[2 * i + 1])) { (Some(b), Some(h), Some(l)) => Some(b.push((h * 16 + l) as u8)), _ => None }),
        bytes_of(s.subrange(0, 2 * i + 2)) is None ==> bytes_of(s) is None,
    decreases s.len()
{
    let t = s.subrange(0, 2 * i + 2);
    assert(t.subrange(0, t.len() - 2) =~= s.subrange(0, 2 * i));
    if t.len() == s.len() { assert(t =~= s); } else {
        let u = s.subrange(0, s.len() - 2);
        assert(u.subrange(0, 2 * i + 2) =~= t);
        lemma_bytes_step(u, i);
    }
}
@fn Parser::number_u32 ret r
    requires old(self).wf(),
    ensures final(self).wf(), res(r) == sp_cell(old(self).view()).0, final(self).view() == sp_cell(old(self).view()).1,
        step(old(self).view(), final(self).view()),

@proof body_start
    let ghost p = self.view();
    proof { reveal(sp_cell); lemma_state(p); reveal_strlit("0x"); }
@proof after_let tok 0
    proof { match tok@.kind { SKind::Number(s) => lemma_asc(s), _ => {} } }
@fn Parser::memreserve_number_u64 ret r
    requires old(self).wf(),
    ensures final(self).wf(), res(r) == sp_mem(old(self).view()).0, final(self).view() == sp_mem(old(self).view()).1,
        step(old(self).view(), final(self).view()),
@proof body_start
    let ghost p = self.view();
    proof { reveal(sp_mem); lemma_state(p); reveal_strlit("0x"); }
@proof after_let tok 0
    proof { match tok@.kind { SKind::Number(s) => lemma_asc(s), _ => {} } }
@fn Parser::byte_string ret r
    requires old(self).wf(),
    ensures final(self).wf(), res(r) == sp_bytestr(old(self).view()).0, final(self).view() == sp_bytestr(old(self).view()).1,
        step(old(self).view(), final(self).view()),
@proof body_start
    let ghost p = self.view();
    proof { reveal(sp_bytestr); lemma_state(p); }
@proof after_let tok 0
    proof { match tok@.kind { SKind::Number(s) => lemma_asc(s), SKind::Ident(s) => lemma_asc(s), _ => {} } }
@proof loop 0 before
    let ghost s = raw_str@;
    proof { assert(s.subrange(0, 0) =~= Seq::empty()); assert(bytes@ =~= Seq::empty()); }
@loop 0
    invariant i__0 <= seq__0@.len(), seq__0@.len() == s.len() / 2, s.len() % 2 == 0, s == raw_str@,
        forall|k: int| 0 <= k < seq__0@.len() ==> #[trigger] seq__0@[k] == (s[2 * k], s[2 * k + 1]),
        p == old(self).view(), bytes_of(s.subrange(0, 2 * i__0)) == Some(bytes@),
        self.wf(), self.view() == take(p), step(p, take(p)), top(p) == Some(tok@), wf_tok(tok@),
        tok@.kind == SKind::Number(s) || tok@.kind == SKind::Ident(s),
    decreases seq__0@.len() - i__0,
@proof loop 0 start
    proof { reveal(sp_bytestr); lemma_bytes_step(s, i__0 - 1); }
@proof loop 0 after
    proof { assert(s.subrange(0, s.len() as int) =~= s); }
@fn Parser::skip_expression_starting_with_paren ret r
    requires old(self).wf(),
    ensures final(self).wf(), r == sp_skip(old(self).view(), 1).0, final(self).view() == sp_skip(old(self).view(), 1).1,
        later(old(self).view(), final(self).view()),
@proof body_start
    let ghost p = self.view();
    proof { lemma_state(p); }
@loop 0
    invariant p == old(self).view(), self.wf(), later(p, self.view()), depth >= 1, (depth as int) + fuel_of(self.view()) <= 1 + fuel_of(p), fuel_of(p) <= 2 * MAX_LEN + 1,
        sp_skip(self.view(), depth as int) == sp_skip(p, 1),
    decreases fuel_of(self.view()),
@proof loop 0 start
    proof { lemma_state(self.view()); }
@fn Parser::property_value ret r
    requires old(self).wf(),
    ensures final(self).wf(), res(r) == sp_value(old(self).view()).0, final(self).view() == sp_value(old(self).view()).1,
        step(old(self).view(), final(self).view()),
@proof body_start
    let ghost p = self.view();
    proof { reveal(sp_value); lemma_state(p); lemma_state(take(p)); lemma_state(peek(p)); }
@proof before_call expect_next 1
    proof { lemma_state(self.view()); assert(later(p, self.view())); }
@loop 0
    invariant_except_break sp_cells(self.view(), v_cells(cells@)) == sp_cells(q0, Seq::empty()),
    invariant p == old(self).view(), self.wf(), ahead(p, self.view()), fuel_of(self.view()) <= fuel_of(q0), ahead(p, q0), sp_value(p) == cells_of(tok@, sp_cells(q0, Seq::empty())),
    ensures self.wf(), ahead(p, self.view()), sp_cells(q0, Seq::empty()) == (ok::<(Seq<SCell>, STok)>((v_cells(cells@), end_tok@), self.view())),
    decreases fuel_of(self.view()),
@proof loop 0 before
    let ghost q0 = self.view();
    proof {  lemma_state(q0); }
@proof loop 0 start
    proof { lemma_skip(self.view()); lemma_state(skip_label(self.view())); }
@loop 1
    invariant_except_break sp_bytes(self.view(), v_bytes(byte_strings@)) == sp_bytes(q0, Seq::empty()),
    invariant p == old(self).view(), self.wf(), ahead(p, self.view()), fuel_of(self.view()) <= fuel_of(q0), ahead(p, q0), sp_value(p) == bytes_from(tok@, sp_bytes(q0, Seq::empty())),
    ensures self.wf(), ahead(p, self.view()), sp_bytes(q0, Seq::empty()) == (ok::<(Seq<SWt<Seq<u8>>>, STok)>((v_bytes(byte_strings@), end@), self.view())),
    decreases fuel_of(self.view()),
@proof loop 1 before
    let ghost q0 = self.view();
    proof {  lemma_state(q0); }
@proof loop 1 start
    proof { lemma_skip(self.view()); lemma_state(skip_label(self.view())); }
@fn Parser::skip_optional_label
    requires old(self).wf(),
    ensures final(self).wf(), final(self).view() == skip_label(old(self).view()), later(old(self).view(), final(self).view()),
@proof body_start
    proof { reveal(skip_label); lemma_state(self.view()); }
@fn Parser::property_values ret r
    requires old(self).wf(),
    ensures final(self).wf(), final(self).view() == sp_values(old(self).view(), Seq::empty()).1, later(old(self).view(), final(self).view()),
        (match r { Ok(v) => Ok(v_vals(v@)), Err(d) => Err(d@) }) == sp_values(old(self).view(), Seq::empty()).0,
@proof body_start
    let ghost p = self.view();
    proof { lemma_state(p); }
@loop 0
    invariant_except_break sp_values(self.view(), v_vals(values@)) == sp_values(p, Seq::empty()),
    invariant p == old(self).view(), self.wf(), later(p, self.view()),
    ensures self.wf(), later(p, self.view()), sp_values(p, Seq::empty()) == (ok::<Seq<SVal>>(v_vals(values@), self.view())),
    decreases fuel_of(self.view()),
@proof loop 0 start
    proof { lemma_skip(self.view()); lemma_state(skip_label(self.view())); }
@proof after_call property_value 0
    proof { lemma_skip(self.view()); lemma_state(skip_label(self.view())); }
@fn Parser::property_name ret r
    requires old(self).wf(),
    ensures final(self).wf(), res(r) == sp_propname(old(self).view()).0, final(self).view() == sp_propname(old(self).view()).1,
        step(old(self).view(), final(self).view()),
@proof body_start
    proof { reveal(sp_propname); lemma_state(self.view()); }
@fn Parser::node_name ret r
    requires old(self).wf(),
    ensures final(self).wf(), res(r) == sp_nodename(old(self).view()).0, final(self).view() == sp_nodename(old(self).view()).1,
        step(old(self).view(), final(self).view()),
@proof body_start
    proof { reveal(sp_nodename); lemma_state(self.view()); match top(self.view()) { Some(t) => match t.kind { SKind::Ident(s) => { lemma_to_name(s); lemma_asc(s); } _ => {} }, None => {} } }
@fn Parser::expect_semicolon ret r
    requires old(self).wf(),
    ensures final(self).wf(), final(self).view() == sp_semi(old(self).view()).1, later(old(self).view(), final(self).view()),
        (match r { Ok(t) => Ok(opt_tok(t)), Err(d) => Err(d@) }) == sp_semi(old(self).view()).0,
        r matches Ok(Some(t)) ==> wf_tok(t@) && t@.src == src_of(old(self).view()) && pos_le(here(old(self).view().lx), t@.span.start),
@proof body_start
    proof { reveal(sp_semi); lemma_state(self.view()); }
@fn Parser::file ret r
    requires old(self).wf(),
    ensures final(self).wf(), final(self).view() == sp_file(old(self).view(), Seq::empty()).1,
        (match r { Ok(f) => Ok(v_prims(f.elements@)), Err(d) => Err(d@) }) == sp_file(old(self).view(), Seq::empty()).0,
        r matches Ok(f) ==> f.source == src_of(old(self).view()),
@proof body_start
    let ghost p = self.view();
    proof { lemma_state(p); }
@loop 0
    invariant_except_break later(p, peek(self.view())), later(self.view(), peek(self.view())), top(peek(self.view())) == top(self.view()), sp_file(self.view(), v_prims(elements@)) == sp_file(p, Seq::empty()),
    invariant p == old(self).view(), self.wf(), later(p, self.view()),
    ensures self.wf(), later(p, self.view()), sp_file(p, Seq::empty()) == (ok::<Seq<SPrim>>(v_prims(elements@), self.view())),
    decreases fuel_of(self.view()),
@proof loop 0 start
    proof { lemma_state(self.view()); }
@proof loop 0 end
    proof { lemma_state(self.view()); }
@fn Parser::parse_reference ret r
    requires old(self).wf(),
    ensures final(self).wf(), res(r) == sp_ref(old(self).view()).0, final(self).view() == sp_ref(old(self).view()).1,
        step(old(self).view(), final(self).view()),
@proof body_start
    proof { reveal(sp_ref); lemma_state(self.view()); }
@fn Parser::primary ret r
    requires old(self).wf(),
    ensures final(self).wf(), res(r) == sp_prim(old(self).view()).0, final(self).view() == sp_prim(old(self).view()).1,
        step(old(self).view(), final(self).view()),
@flag std
@proof body_start
    proof { reveal(sp_prim); lemma_state(self.view()); lemma_state(take(self.view())); lemma_state(take(take(self.view()))); }
@rewrite
self.lexer.peek_kind() == Some(&TokenKind::Semicolon) >>> matches!(self.lexer.peek_kind(), Some(TokenKind::Semicolon))
@rewrite
self.context.include_paths.clone() >>> crate::spec::clone_paths(&self.context.include_paths)
@fn Parser::node_payload ret r
    requires old(self).wf(),
    ensures final(self).wf(), final(self).view() == sp_payload(old(self).view()).1, step(old(self).view(), final(self).view()),
        (match r { Ok(p) => Ok(v_pay(p)), Err(d) => Err(d@) }) == sp_payload(old(self).view()).0,
    decreases fuel_of(old(self).view()),
@fattr #[verifier::spinoff_prover]
@fattr #[verifier::rlimit(80)]
@rewrite
&node_name >>> node_name.item()
@rewrite
&ident >>> ident.item()
@proof body_start
    let ghost p = self.view();
    proof { lemma_state(p); lemma_state(take(p)); lemma_payload_step(p); }
@proof loop 0 before
    let ghost q0 = self.view();
@loop 0
    invariant_except_break sp_items(self.view(), v_items(items@), node_discovered) == sp_items(q0, Seq::empty(), false),
    invariant p == old(self).view(), self.wf(), ahead(p, self.view()), sp_payload(p) == sp_items(q0, Seq::empty(), false),
    ensures self.wf(), ahead(p, self.view()), sp_payload(p) == (ok::<SPay>(SPay { items: v_items(items@), end: end@ }, self.view())),
    decreases fuel_of(self.view()),
@proof loop 0 start
    let ghost v = self.view();
    let ghost seen = node_discovered;
    let ghost acc = v_items(items@);
    let ghost s0 = sp_item(v, seen);
    proof { lemma_state(v); lemma_state(take(v)); lemma_items_step(v, acc, seen); lemma_item_step(v, seen); }
@proof after_let tok 1
    let ghost v1 = self.view();
    let ghost h1 = opt_tok(omit_if_no_ref);
    let ghost s1 = sp_omitted(v1, h1, tok@, seen);
    proof { assert(s0 == s1); assert(ahead(p, v1) && fuel_of(v1) < fuel_of(v)); assert(wf_tok(tok@)); lemma_state(v1); lemma_omitted_step(v1, h1, tok@, seen); }
@proof after_let tok 2
    let ghost h = SHead { omit: opt_tok(omit_if_no_ref), label: wt_opt(label) };
    let ghost v2 = self.view();
    let ghost s2 = sp_labelled(v2, h, tok@, seen);
    proof { assert(s1 == s2); assert(s0 == s2); assert(ahead(p, v2) && fuel_of(v2) < fuel_of(v)); assert(wf_tok(tok@)); lemma_state(v2); lemma_labelled_step(v2, h, tok@, seen); }
@proof after_let ident 0
    let ghost v3 = self.view();
    let ghost s3 = sp_named(v3, h, ident.token@, ident.item@, seen);
    let ghost hs = head_span(h.label, ident.token@);
    proof { assert(s2 == s3); assert(s0 == s3); assert(ahead(p, v3) && fuel_of(v3) < fuel_of(v)); assert(wf_tok(ident.token@)); assert(ident.token@.src == src_of(v3)); lemma_state(v3); assert(pos_lt(hs.start, here(self.view().lx))); lemma_to_name(ident.item@); lemma_asc(ident.item@); lemma_named_step(v3, h, ident.token@, ident.item@, seen); }
@proof loop 0 after
    proof { lemma_v_pay(NodePayload { items, end }); }
@proof before_call check_is_property_name 0
    let ghost w0 = self.view();
    proof { lemma_state(w0); }
@proof after_call property_values 0
    proof { lemma_rank(here(w0.lx), here(self.view().lx)); }
@proof after_call push 0
    proof { assert(s0 == ok::<SStep>(SStep::Item(v_item(items@.last())), self.view())); assert(v_items(items@) == acc.push(v_item(items@.last()))); }
@proof after_call push 1
    proof { assert(s0 == ok::<SStep>(SStep::Item(v_item(items@.last())), self.view())); assert(v_items(items@) == acc.push(v_item(items@.last()))); }
@proof after_call push 3
    proof { assert(s3 == ok::<SStep>(SStep::Item(v_item(items@.last())), self.view())); assert(v_items(items@) == acc.push(v_item(items@.last()))); }
@proof after_call push 6
    proof { assert(s3 == ok::<SStep>(SStep::Item(v_item(items@.last())), self.view())); assert(v_items(items@) == acc.push(v_item(items@.last()))); }
@proof after_call push 9
    proof { assert(s3 == ok::<SStep>(SStep::Item(v_item(items@.last())), self.view())); assert(v_items(items@) == acc.push(v_item(items@.last()))); }
