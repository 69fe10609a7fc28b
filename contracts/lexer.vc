@module dts::tokens::lexer file ginko/src/dts/tokens/lexer.rs
@use crate::spec::*
@use crate::lex::*
@use crate::dts::tokens::token::*
@use crate::dts::data::*
@use crate::dts::diagnostics::*
@use crate::dts::error_codes::*
@use vstd::utf8::*
@text
broadcast use group_std;
impl<R: Reader> Lexer<R> {
    pub open spec fn view(&self) -> SLx {
        SLx {
            d: self.reader.data(),
            off: self.reader.off(),
            names: self.state is ExpectingNodeOrPropertyName,
            lp: self.last_pos,
            src: self.source,
        }
    }
    pub open spec fn wf(&self) -> bool { self.reader.wf() && wf_lx(self.view()) }
}
/// the predicate decides membership in the class
pub open spec fn decides<F: Fn(u8) -> bool>(f: F, c: Cls) -> bool {
    forall|b: u8, r: bool| #[trigger] f.ensures((b,), r) ==> r == in_cls(c, b)
}
@fn Lexer::from_text ret r
    requires true,
@trusted conversion of `impl Into<String>`
@fn Lexer::new ret r
    requires reader.wf(), bnd(reader.data(), reader.off()),
    ensures r.wf(), r.view() == (SLx { d: reader.data(), off: reader.off(), names: true, lp: Position { line: 0, character: 0 }, src: source }),
@proof body_start
    proof { reader.lemma_wf(); }
@inside impl HasSource for Lexer<R>
    open spec fn src(&self) -> Arc<Path> { self.source }
@fn <Lexer as HasSource>::source
@fn Lexer::skip_whitespace
    requires old(self).wf(),
    ensures final(self).wf(), final(self).view() == at(old(self).view(), skip_ws(old(self).view().d, old(self).view().off)),
@proof body_start
    let ghost x = self.view();
@loop 0
    invariant self.wf(), self.view() == at(x, self.view().off),
        skip_ws(x.d, self.view().off) == skip_ws(x.d, x.off),
    decreases x.d.len() - self.view().off,
@proof loop 0 start
    proof { lemma_ascii_bnd(x.d, self.view().off - 1); }
@proof loop 0 before
    proof { self.reader.lemma_wf(); }
@fn Lexer::read_while ret r
    requires old(self).reader.wf(), forall|b: u8| #[trigger] cond.requires((b,)),
    ensures final(self).reader.wf(),
        old(self).view().off <= final(self).view().off <= old(self).view().d.len(),
        final(self).view() == at(old(self).view(), final(self).view().off),
        r@ == old(self).view().d.subrange(old(self).view().off, final(self).view().off),
        forall|c: Cls| #![trigger scan(old(self).view().d, old(self).view().off, c)] decides(cond, c) ==> final(self).view().off == scan(old(self).view().d, old(self).view().off, c),
@proof body_start
    let ghost x = self.view();
    proof { self.reader.lemma_wf(); assert(x.d.subrange(x.off, x.off) =~= Seq::empty()); }
@loop 0
    invariant self.reader.wf(), self.view() == at(x, self.view().off), x.off <= self.view().off <= x.d.len(), 0 <= x.off,
        forall|b: u8| #[trigger] cond.requires((b,)),
        vec@ == x.d.subrange(x.off, self.view().off),
        forall|c: Cls| #![trigger scan(x.d, x.off, c)] decides(cond, c) ==> scan(x.d, self.view().off, c) == scan(x.d, x.off, c),
    ensures self.reader.wf(), self.view() == at(x, self.view().off), x.off <= self.view().off <= x.d.len(),
        vec@ == x.d.subrange(x.off, self.view().off),
        forall|c: Cls| #![trigger scan(x.d, x.off, c)] decides(cond, c) ==> self.view().off == scan(x.d, x.off, c),
    decreases x.d.len() - self.view().off,
@proof after_call skip 0
    proof { assert(x.d.subrange(x.off, self.view().off) =~= x.d.subrange(x.off, self.view().off - 1).push(ch)); }
@fn Lexer::unterminated ret r
    requires self.reader.wf(), pos_lt(start, pos_at(self.view().d, self.view().off)),
    ensures r@ == (STok { kind: SKind::Unknown(ch), span: Span { start: start, end: pos_at(self.view().d, self.view().off) }, src: self.view().src }),
@fn Lexer::pos ret r
    requires self.reader.wf(),
    ensures r == pos_at(self.view().d, self.view().off),
@fn Lexer::path_or_reference ret r
    requires old(self).wf(), old(self).view().off >= 1, old(self).view().d[old(self).view().off - 1] == 38,
        start == pos_at(old(self).view().d, old(self).view().off - 1),
    ensures ({
        let x = old(self).view();
        let l = lex_ref(x.d, x.off - 1, x.off, x.names);
        final(self).wf() && final(self).view() == at(x, l.end) && r is Some && r->Some_0@ == tok_of(x, l)
    }),
@proof body_start
    let ghost x = self.view();
    let ghost l = lex_ref(x.d, x.off - 1, x.off, x.names);
    proof {
        lemma_ascii_bnd(x.d, x.off - 1);
        lemma_lex_tok(x.d, x.off - 1, x.names);
        lemma_pos_lt(x.d, x.off - 1, l.end);
        if x.off < x.d.len() && x.d[x.off] == 123 { lemma_ascii_bnd(x.d, x.off); lemma_scan_not(x.d, x.off + 1, 125); }
        if x.off < x.d.len() && is_letter(x.d[x.off]) { lemma_scan_ascii(x.d, x.off, Cls::Label); }
    }
@fn Lexer::ident_or_label ret r
    requires old(self).wf(), old(self).view().off < old(self).view().d.len(),
        starts_name(old(self).view().d[old(self).view().off]),
        start == pos_at(old(self).view().d, old(self).view().off),
    ensures ({
        let x = old(self).view();
        let l = lex_ident(x.d, x.off, x.names);
        final(self).wf() && final(self).view() == at(x, l.end) && r@ == tok_of(x, l)
    }),
@proof body_start
    let ghost x = self.view();
    let ghost l = lex_ident(x.d, x.off, x.names);
    let ghost e = scan(x.d, x.off, Cls::Name);
    proof {
        lemma_lex_tok(x.d, x.off, true);
        lemma_pos_lt(x.d, x.off, l.end);
        lemma_scan_ascii(x.d, x.off, Cls::Name);
        if e < x.d.len() && x.d[e] == 64 {
            lemma_ascii_bnd(x.d, e);
            lemma_scan_ascii(x.d, e + 1, Cls::Name);
            let e2 = scan(x.d, e + 1, Cls::Name);
            lemma_sub_valid(x.d, x.off, e2);
            assert(x.d.subrange(x.off, e).push(64) + x.d.subrange(e + 1, e2) =~= x.d.subrange(x.off, e2));
        }
    }
@fn Lexer::line_comment ret r
    requires old(self).wf(), old(self).view().off >= 2, bnd(old(self).view().d, old(self).view().off - 2),
        pos == pos_at(old(self).view().d, old(self).view().off - 2),
    ensures ({
        let x = old(self).view();
        let l = lex_line_comment(x.d, x.off - 2, x.off, x.names);
        final(self).wf() && final(self).view() == at(x, l.end) && r@ == tok_of(x, l)
    }),
@proof body_start
    let ghost x = self.view();
    proof {
        lemma_scan_not(x.d, x.off, 10);
        lemma_pos_lt(x.d, x.off - 2, scan(x.d, x.off, Cls::Not(10)));
    }
@fn Lexer::multi_line_comment ret r
    requires old(self).wf(), old(self).view().off >= 2, bnd(old(self).view().d, old(self).view().off - 2),
        pos == pos_at(old(self).view().d, old(self).view().off - 2),
    ensures ({
        let x = old(self).view();
        let l = lex_block_comment(x.d, x.off - 2, x.off, x.names);
        final(self).wf() && final(self).view() == at(x, l.end) && r is Some && r->Some_0@ == tok_of(x, l)
    }),
@proof body_start
    let ghost x = self.view();
    proof { lemma_bnd_start(x.d); assert(x.d.subrange(x.off, x.off) =~= Seq::empty()); }
@loop 0
    invariant x == old(self).view(), self.reader.wf(), self.view() == at(x, self.view().off), wf_lx(x), x.off >= 2, bnd(x.d, x.off - 2), bnd(x.d, x.d.len() as int),
        x.off <= self.view().off <= x.d.len(),
        pos == pos_at(x.d, x.off - 2),
        buf@ == x.d.subrange(x.off, self.view().off),
        cmt_end(x.d, self.view().off) == cmt_end(x.d, x.off),
    decreases x.d.len() - self.view().off,
@proof loop 0 start
    proof {
        let i = self.view().off;
        if i < x.d.len() {
            assert(x.d.subrange(x.off, i + 1) =~= x.d.subrange(x.off, i).push(x.d[i]));
            lemma_pos_lt(x.d, x.off - 2, i + 1);
            if x.d[i] == 42 { lemma_ascii_bnd(x.d, i); lemma_sub_valid(x.d, x.off, i); }
            if i + 1 < x.d.len() { lemma_pos_lt(x.d, x.off - 2, i + 2); if x.d[i + 1] == 47 { lemma_ascii_bnd(x.d, i + 1); } }
        } else {
            lemma_pos_lt(x.d, x.off - 2, i);
        }
    }
@fn Lexer::compiler_directive ret r
    requires old(self).wf(), old(self).view().off >= 1, bnd(old(self).view().d, old(self).view().off - 1),
        pos == pos_at(old(self).view().d, old(self).view().off - 1),
    ensures ({
        let x = old(self).view();
        let l = lex_directive(x.d, x.off - 1, x.off, x.names);
        final(self).wf() && final(self).view() == at(x, l.end) && r@ == tok_of(x, l)
    }),
@proof body_start
    let ghost x = self.view();
    proof {
        lemma_scan_not(x.d, x.off, 47);
        lemma_scan(x.d, x.off, Cls::Not(47));
        let e = scan(x.d, x.off, Cls::Not(47));
        if e < x.d.len() { lemma_ascii_bnd(x.d, e); lemma_pos_lt(x.d, x.off - 1, e + 1); }
        lemma_pos_lt(x.d, x.off - 1, e);
    }
@fn Lexer::string ret r
    requires old(self).wf(), old(self).view().off >= 1, bnd(old(self).view().d, old(self).view().off - 1),
        pos == pos_at(old(self).view().d, old(self).view().off - 1),
    ensures ({
        let x = old(self).view();
        let l = lex_str(x.d, x.off - 1, x.off, x.names);
        final(self).wf() && final(self).view() == at(x, l.end) && r is Some && r->Some_0@ == tok_of(x, l)
    }),
@proof body_start
    let ghost x = self.view();
    let ghost mut p = x.off;
    let ghost mut b0: Seq<u8> = Seq::empty();
    proof { lemma_bnd_start(x.d); assert(x.d.subrange(x.off, x.off) =~= Seq::empty()); lemma_ascii_valid(b0); assert(b0 + x.d.subrange(p, p) =~= b0); }
@loop 0
    invariant x == old(self).view(), self.reader.wf(), self.view() == at(x, self.view().off), wf_lx(x), x.off >= 1, bnd(x.d, x.off - 1), bnd(x.d, x.d.len() as int),
        x.off <= p <= self.view().off <= x.d.len(), bnd(x.d, p),
        pos == pos_at(x.d, x.off - 1),
        valid_utf8(b0), buf@ == b0 + x.d.subrange(p, self.view().off),
        str_at(x.d, self.view().off, is_escaped, buf@) == str_at(x.d, x.off, false, Seq::empty()),
    decreases x.d.len() - self.view().off,
@proof loop 0 start
    proof {
        let i = self.view().off;
        if i < x.d.len() {
            lemma_pos_lt(x.d, x.off - 1, i + 1);
            if x.d[i] < 0x80 {
                lemma_ascii_bnd(x.d, i);
                lemma_sub_valid(x.d, p, i);
                valid_utf8_concat(b0, x.d.subrange(p, i));
                if x.d[i] == 92 || x.d[i] == 34 {
                    p = i + 1;
                    if is_escaped {
                        let t = seq![x.d[i]];
                        assert(ascii(t));
                        lemma_ascii_valid(t);
                        valid_utf8_concat(buf@, t);
                        b0 = buf@ + t;
                        assert(b0 =~= buf@.push(x.d[i]));
                    } else {
                        b0 = buf@;
                    }
                    assert(b0 + x.d.subrange(p, p) =~= b0);
                }
            }
            if x.d[i] != 92 && x.d[i] != 34 {
                assert(b0 + x.d.subrange(p, i + 1) =~= buf@.push(x.d[i]));
            }
        } else {
            lemma_pos_lt(x.d, x.off - 1, i);
        }
    }
@fn Lexer::number ret r
    requires old(self).wf(), old(self).view().off < old(self).view().d.len(),
        is_alnum(old(self).view().d[old(self).view().off]),
        pos == pos_at(old(self).view().d, old(self).view().off),
    ensures ({
        let x = old(self).view();
        let e = scan(x.d, x.off, Cls::Alnum);
        final(self).wf() && final(self).view() == at(x, e) && r@ == tok_of(x, lexed(SKind::Number(txt(x.d, x.off, e)), x.off, e, x.names))
    }),
@proof body_start
    let ghost x = self.view();
    proof { lemma_scan_ascii(x.d, x.off, Cls::Alnum); lemma_pos_lt(x.d, x.off, scan(x.d, x.off, Cls::Alnum)); }
@fn Lexer::insert_pseudo_kind
    requires old(self).wf(),
    ensures final(self).wf(), final(self).view() == sp_pseudo(old(self).view(), kind@),
@fn Lexer::consume ret r
    requires old(self).wf(),
    ensures final(self).wf(), final(self).view() == sp_consume(old(self).view()).1,
        opt_tok(r) == sp_consume(old(self).view()).0,
@proof body_start
    let ghost x = self.view();
    let ghost s = skip_ws(x.d, x.off);
    proof {
        lemma_consume(x);
        lemma_skip_ws(x.d, x.off);
        if s < x.d.len() {
            lemma_lex_tok(x.d, s, x.names);
            lemma_pos_lt(x.d, s, lex_tok(x.d, s, x.names).end);
            lemma_pos_lt(x.d, s, s + 1);
            if x.d[s] < 0x80 { lemma_ascii_bnd(x.d, s); }
            if s + 1 < x.d.len() && x.d[s + 1] < 0x80 { lemma_ascii_bnd(x.d, s + 1); }
        }
    }
@loop 0
    invariant self.reader.wf(), self.view() == at(SLx { lp: pos_at(x.d, x.off), ..x }, self.view().off), wf_lx(x),
        0 <= s < self.view().off <= x.d.len(),
        lex_tok(x.d, s, x.names).end == skip_cont(x.d, self.view().off),
    ensures self.reader.wf(), self.view() == at(SLx { lp: pos_at(x.d, x.off), ..x }, lex_tok(x.d, s, x.names).end),
    decreases x.d.len() - self.view().off,
@text
/// tokens can be made up, which resets what is expected next
pub open spec fn sp_pseudo(x: SLx, k: SKind) -> SLx {
    match k {
        SKind::Semicolon => SLx { names: true, ..x },
        SKind::Equal => SLx { names: false, ..x },
        SKind::CloseParen => SLx { names: true, ..x },
        _ => x,
    }
}
@end
@only *
@inherent impl Iterator for Lexer<R>
@inherent impl Iterator for PeekingLexer<R>
@fn <Lexer as Iterator>::next ret r
    requires old(self).wf(),
    ensures final(self).wf(), final(self).view() == sp_next(old(self).view()).1,
        opt_tok(r) == sp_next(old(self).view()).0,
@proof body_start
    let ghost x = self.view();
@loop 0
    invariant x == old(self).view(), self.wf(), sp_next(self.view()) == sp_next(x),
    decreases self.view().d.len() - self.view().off,
@proof loop 0 start
    proof { lemma_consume(self.view()); }
@text
/// a lexer with one token of look-ahead
pub struct SPk { pub x: SLx, pub pk: Option<Option<STok>> }
#[verifier::opaque]
pub open spec fn sp_peek(p: SPk) -> SPk {
    if p.pk is Some { p } else { SPk { x: sp_next(p.x).1, pk: Some(sp_next(p.x).0) } }
}
/// the token that comes next
#[verifier::opaque]
pub open spec fn sp_top(p: SPk) -> Option<STok> { sp_peek(p).pk->Some_0 }
#[verifier::opaque]
pub open spec fn sp_take(p: SPk) -> SPk { SPk { pk: None, ..sp_peek(p) } }
pub open spec fn sp_lastpos(p: SPk) -> Position { p.x.lp }
/// where the raw text is read from
pub open spec fn sp_rawpos(p: SPk) -> Position { pos_at(p.x.d, p.x.off) }

pub open spec fn pos_ok(p: Position) -> bool { p.line <= MAX_LEN && p.character <= 2 * MAX_LEN }
pub open spec fn wf_tok(t: STok) -> bool {
    pos_lt(t.span.start, t.span.end) && pos_ok(t.span.start) && pos_ok(t.span.end) && text_ok(t.kind)
}
pub open spec fn pos_le(a: Position, b: Position) -> bool { a == b || pos_lt(a, b) }
/// where the next token starts, or a position before
#[verifier::opaque]
pub open spec fn here(p: SPk) -> Position {
    match p.pk { Some(Some(t)) => t.span.start, _ => sp_rawpos(p) }
}
#[verifier::opaque]
pub open spec fn wf_pk(p: SPk) -> bool {
    wf_lx(p.x) && pos_ok(p.x.lp) && (p.pk matches Some(Some(t)) ==> wf_tok(t) && t.span.end == sp_rawpos(p) && t.src == p.x.src)
}
/// decreases with every token taken
#[verifier::opaque]
pub open spec fn fuel(p: SPk) -> int {
    2 * (p.x.d.len() - p.x.off) + (if p.pk matches Some(Some(_)) { 1int } else { 0 })
}
pub open spec fn eof_at(p: Position, src: Arc<Path>) -> SDiag {
    SDiag { kind: ErrorCode::UnexpectedEOF, span: Span { start: p, end: p }, src }
}
pub open spec fn opt_toks(t: Option<Option<Token>>) -> Option<Option<STok>> {
    match t { Some(t) => Some(opt_tok(t)), None => None }
}
impl<R: Reader> PeekingLexer<R> {
    pub open spec fn view(&self) -> SPk { SPk { x: self.lexer.view(), pk: opt_toks(self.peeked) } }
    pub open spec fn wf(&self) -> bool { self.lexer.wf() && wf_pk(self.view()) }
}
pub proof fn lemma_next(x: SLx)
    requires wf_lx(x), pos_ok(x.lp),
    ensures ({
        let (t, y) = sp_next(x);
        &&& wf_lx(y) && y.d == x.d && y.src == x.src && y.off >= x.off && pos_ok(y.lp)
        &&& t is Some ==> y.off > x.off && wf_tok(t->Some_0) && t->Some_0.src == x.src && t->Some_0.span.end == pos_at(y.d, y.off)
            && pos_le(pos_at(x.d, x.off), t->Some_0.span.start)
        &&& pos_le(pos_at(x.d, x.off), pos_at(y.d, y.off))
        &&& t is None ==> y.off == x.d.len()
    }),
    decreases x.d.len() - x.off
{
    lemma_consume(x);
    let (t, y) = sp_consume(x);
    lemma_pos_bound(x.d, x.off);
    lemma_pos_bound(x.d, y.off);
    lemma_pos_mono(x.d, x.off, y.off);
    if t is Some {
        lemma_skip_ws(x.d, x.off);
        let s = skip_ws(x.d, x.off);
        lemma_lex_tok(x.d, s, x.names);
        lemma_lex_text(x.d, s, x.names);
        lemma_pos_bound(x.d, s);
        lemma_pos_bound(x.d, y.off);
        lemma_pos_mono(x.d, x.off, s);
        lemma_pos_mono(x.d, s, y.off);
        if t->Some_0.kind is Comment { lemma_next(y); }
    }
}
pub proof fn lemma_peek(p: SPk)
    requires wf_pk(p),
    ensures ({
        let q = sp_peek(p);
        &&& wf_pk(q) && q.x.d == p.x.d && q.x.src == p.x.src && fuel(q) <= fuel(p)
        &&& wf_pk(sp_take(p)) && fuel(sp_take(p)) <= fuel(q)
        &&& pos_ok(sp_rawpos(p)) && pos_ok(here(p))
        &&& pos_le(here(p), here(q)) && pos_le(here(q), here(sp_take(p)))
        &&& sp_top(p) is Some ==> fuel(sp_take(p)) < fuel(q) && wf_tok(sp_top(p)->Some_0) && sp_top(p)->Some_0.src == p.x.src
            && pos_le(here(p), sp_top(p)->Some_0.span.start) && here(sp_take(p)) == sp_top(p)->Some_0.span.end
        &&& sp_top(q) == sp_top(p) && sp_take(q) == sp_take(p) && sp_peek(q) == q
        &&& sp_take(p).x == q.x && 0 <= fuel(q) && 0 <= fuel(sp_take(p)) && fuel(p) <= 2 * MAX_LEN + 1 && pos_ok(p.x.lp)
    }),
{
    reveal(sp_peek); reveal(sp_top); reveal(sp_take); reveal(here); reveal(wf_pk); reveal(fuel);
    lemma_next(p.x);
    lemma_pos_bound(p.x.d, p.x.off);
}
@text
impl<R: Reader> vstd::std_specs::convert::FromSpecImpl<Lexer<R>> for PeekingLexer<R> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Lexer<R>) -> Self { PeekingLexer { lexer: v, peeked: None } }
}
@fn <PeekingLexer as From<Lexer<R>>>::from ret r
    ensures r.view() == (SPk { x: value.view(), pk: None }),
@inside impl HasSource for PeekingLexer<R>
    open spec fn src(&self) -> Arc<Path> { self.lexer.source }
@fn <PeekingLexer as HasSource>::source
@fn PeekingLexer::peek ret r
    requires old(self).wf(),
    ensures final(self).wf(), final(self).view() == sp_peek(old(self).view()),
        opt_ref(r) == sp_top(old(self).view()),
@proof body_start
    proof { reveal(sp_peek); reveal(sp_top); reveal(sp_take); reveal(here); reveal(wf_pk); reveal(fuel); lemma_peek(self.view()); }
@fn PeekingLexer::peek_kind ret r
    requires old(self).wf(),
    ensures final(self).wf(), final(self).view() == sp_peek(old(self).view()),
        r is Some == sp_top(old(self).view()) is Some,
        r is Some ==> r->Some_0@ == sp_top(old(self).view())->Some_0.kind,
@proof body_start
    proof { reveal(sp_peek); reveal(sp_top); reveal(sp_take); reveal(here); reveal(wf_pk); reveal(fuel); }
@rewrite
self.peek().map(|tok| &tok.kind) >>> match self.peek() { Some(tok) => Some(&tok.kind), None => None }
@fn PeekingLexer::peek_expect ret r
    requires old(self).wf(),
    ensures final(self).wf(), final(self).view() == sp_peek(old(self).view()),
        r is Ok == sp_top(old(self).view()) is Some,
        r matches Ok(t) ==> Some(t@) == sp_top(old(self).view()),
        r matches Err(d) ==> d@ == eof_at(sp_rawpos(old(self).view()), old(self).view().x.src),
@proof body_start
    proof { reveal(sp_peek); reveal(sp_top); reveal(sp_take); reveal(here); reveal(wf_pk); reveal(fuel); }
@fn PeekingLexer::expect ret r
    requires old(self).wf(),
    ensures final(self).wf(), final(self).view() == sp_take(old(self).view()),
        ({
            let p = old(self).view();
            match sp_top(p) {
                None => r is Err && r->Err_0@ == eof_at(sp_rawpos(p), p.x.src),
                Some(t) => if t.kind == kind@ { r is Ok && r->Ok_0@ == t } else {
                    r is Err && r->Err_0@ == expected_at(Span { start: sp_rawpos(p), end: sp_rawpos(p) }, p.x.src)
                }
            }
        }),
@proof body_start
    proof { reveal(sp_peek); reveal(sp_top); reveal(sp_take); reveal(here); reveal(wf_pk); reveal(fuel); lemma_peek(self.view()); }
@fn PeekingLexer::expect_next ret r
    requires old(self).wf(),
    ensures final(self).wf(), final(self).view() == sp_take(old(self).view()),
        r is Ok == sp_top(old(self).view()) is Some,
        r matches Ok(t) ==> Some(t@) == sp_top(old(self).view()),
        r matches Err(d) ==> d@ == eof_at(sp_rawpos(old(self).view()), old(self).view().x.src),
@proof body_start
    proof { reveal(sp_peek); reveal(sp_top); reveal(sp_take); reveal(here); reveal(wf_pk); reveal(fuel); lemma_peek(self.view()); }
@fn PeekingLexer::insert_pseudo_kind
    requires old(self).wf(),
    ensures final(self).wf(), fuel(final(self).view()) == fuel(old(self).view()), here(final(self).view()) == here(old(self).view()), final(self).view() == (SPk { x: sp_pseudo(old(self).view().x, kind@), ..old(self).view() }),
@proof body_start
    proof { reveal(sp_peek); reveal(sp_top); reveal(sp_take); reveal(here); reveal(wf_pk); reveal(fuel); }
@fn PeekingLexer::last_pos ret r
    ensures r == self.view().x.lp,
@fn <PeekingLexer as Iterator>::next ret r
    requires old(self).wf(),
    ensures final(self).wf(), final(self).view() == sp_take(old(self).view()),
        opt_tok(r) == sp_top(old(self).view()),
@proof body_start
    proof { reveal(sp_peek); reveal(sp_top); reveal(sp_take); reveal(here); reveal(wf_pk); reveal(fuel); lemma_peek(self.view()); }
