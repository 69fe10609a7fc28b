// What is known about syntax trees: which items lie where, and which trees the later stages rely on.
use vstd::prelude::*;
use crate::spec::*;
use crate::lex::*;
use crate::dts::ast::*;
use crate::dts::data::{Position, Span};
use crate::dts::tokens::token::*;
use crate::dts::tokens::lexer::*;
use std::sync::Arc;
use std::path::{Path as StdPath, PathBuf};
verus! {

// ---- the items a cursor can be on ----------------------------------------------------------------

pub enum SAt { Prop(SProp), Node(SNode), Ref(SRefr), Label(SWt<Seq<char>>), Inc(SInc) }
/// an item and its place
pub struct Spot { pub span: Span, pub item: SAt }

/// start inclusive, end exclusive
pub open spec fn covers(s: Span, c: Position) -> bool { pos_le(s.start, c) && pos_lt(c, s.end) }
/// the first item that covers the position
pub open spec fn find(s: Seq<Spot>, c: Position) -> Option<SAt> decreases s.len() {
    if s.len() == 0 { None } else {
        match find(s.drop_last(), c) {
            Some(x) => Some(x),
            None => if covers(s.last().span, c) { Some(s.last().item) } else { None },
        }
    }
}
pub open spec fn or<T>(a: Option<T>, b: Option<T>) -> Option<T> { match a { Some(x) => Some(x), None => b } }
pub broadcast proof fn lemma_find_add(a: Seq<Spot>, b: Seq<Spot>, c: Position)
    ensures #[trigger] find(a + b, c) == or(find(a, c), find(b, c)),
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_find_add(a, b.drop_last(), c);
    }
}
pub broadcast proof fn lemma_find_one(x: Spot, c: Position)
    ensures #[trigger] find(seq![x], c) == (if covers(x.span, c) { Some(x.item) } else { None }),
{
    assert(seq![x].drop_last() =~= Seq::<Spot>::empty());
    reveal_with_fuel(find, 2);
    assert(seq![x].last() == x);
}
pub broadcast proof fn lemma_find_none(c: Position)
    ensures #[trigger] find(Seq::<Spot>::empty(), c) == None::<SAt>,
{}

pub open spec fn spot_ref(r: SWt<SRefr>) -> Spot { Spot { span: r.tok.span, item: SAt::Ref(r.item) } }
pub open spec fn spots_label(l: Option<SWt<Seq<char>>>) -> Seq<Spot> {
    match l { Some(l) => seq![Spot { span: l.tok.span, item: SAt::Label(l) }], None => seq![] }
}
pub open spec fn spots_cells(c: Seq<SCell>, n: int) -> Seq<Spot> decreases n {
    if n <= 0 { seq![] } else {
        match c[n - 1] { SCell::Ref(r) => spots_cells(c, n - 1) + seq![spot_ref(r)], _ => spots_cells(c, n - 1) }
    }
}
pub open spec fn spots_val(v: SVal) -> Seq<Spot> {
    match v { SVal::Cells(_, c, _) => spots_cells(c, c.len() as int), SVal::Ref(r) => seq![spot_ref(r)], _ => seq![] }
}
pub open spec fn spots_vals(v: Seq<SVal>, n: int) -> Seq<Spot> decreases n {
    if n <= 0 { seq![] } else { spots_vals(v, n - 1) + spots_val(v[n - 1]) }
}
pub open spec fn spots_prop(p: SProp) -> Seq<Spot> { spots_label(p.label) + spots_vals(p.values, p.values.len() as int) }
pub open spec fn spots_node(n: SNode) -> Seq<Spot> decreases n { spots_label(n.label) + spots_pay(n.pay, n.pay.items.len() as int) }
pub open spec fn spots_pay(p: SPay, n: int) -> Seq<Spot> decreases p, n {
    if 0 < n <= p.items.len() { spots_pay(p, n - 1) + spots_item(p.items[n - 1]) } else { seq![] }
}
pub open spec fn spots_item(i: SItem) -> Seq<Spot> decreases i {
    match i { SItem::Prop(p) => spots_prop(p), SItem::Node(n) => spots_node(n), _ => seq![] }
}
pub open spec fn spots_body(p: SPay) -> Seq<Spot> { spots_pay(p, p.items.len() as int) }
pub open spec fn spots_dir(d: SDirv) -> Seq<Spot> {
    match d {
        SDirv::Include(i) => seq![Spot { span: inc_span(i), item: SAt::Inc(i) }],
        SDirv::DelNode(_, r) | SDirv::Omit(_, r) => seq![spot_ref(r)],
        _ => seq![],
    }
}
pub open spec fn spots_prim(p: SPrim) -> Seq<Spot> {
    match p {
        SPrim::Dir(d) => spots_dir(d),
        SPrim::Root(n) => spots_node(n),
        SPrim::Refd(r, p) => seq![spot_ref(r)] + spots_body(p),
        SPrim::CInclude(_) => seq![],
    }
}
/// every reference, label and include of a file, in the order of the source
pub open spec fn spots_file(e: Seq<SPrim>, n: int) -> Seq<Spot> decreases n {
    if n <= 0 { seq![] } else { spots_file(e, n - 1) + spots_prim(e[n - 1]) }
}

/// an item found among the first ones stays the first one
pub proof fn lemma_find_file(e: Seq<SPrim>, n: int, m: int, c: Position)
    requires n <= m, find(spots_file(e, n), c) is Some,
    ensures find(spots_file(e, m), c) == find(spots_file(e, n), c),
    decreases m - n
{
    if n < m { lemma_find_file(e, n, m - 1, c); if m > 0 { lemma_find_add(spots_file(e, m - 1), spots_prim(e[m - 1]), c); } }
}
pub proof fn lemma_find_pay(e: SPay, n: int, m: int, c: Position)
    requires n <= m <= e.items.len(), find(spots_pay(e, n), c) is Some,
    ensures find(spots_pay(e, m), c) == find(spots_pay(e, n), c),
    decreases m - n
{
    if n < m { lemma_find_pay(e, n, m - 1, c); if m > 0 { lemma_find_add(spots_pay(e, m - 1), spots_item(e.items[m - 1]), c); } }
}
pub proof fn lemma_find_vals(e: Seq<SVal>, n: int, m: int, c: Position)
    requires n <= m, find(spots_vals(e, n), c) is Some,
    ensures find(spots_vals(e, m), c) == find(spots_vals(e, n), c),
    decreases m - n
{
    if n < m { lemma_find_vals(e, n, m - 1, c); if m > 0 { lemma_find_add(spots_vals(e, m - 1), spots_val(e[m - 1]), c); } }
}
pub proof fn lemma_find_cells(e: Seq<SCell>, n: int, m: int, c: Position)
    requires n <= m, find(spots_cells(e, n), c) is Some,
    ensures find(spots_cells(e, m), c) == find(spots_cells(e, n), c),
    decreases m - n
{
    if n < m { lemma_find_cells(e, n, m - 1, c);
        if m > 0 { match e[m - 1] { SCell::Ref(r) => { lemma_find_add(spots_cells(e, m - 1), seq![spot_ref(r)], c); }, _ => {} } } }
}

// ---- trees whose spans are not reversed -----------------------------------------------------------

pub open spec fn ok_vals(v: Seq<SVal>) -> bool { forall|i: int| 0 <= i < v.len() ==> span_ok(val_span(#[trigger] v[i])) }
pub open spec fn ok_prop(p: SProp) -> bool { span_ok(prop_span(p)) && ok_vals(p.values) }
pub open spec fn ok_node(n: SNode) -> bool decreases n { span_ok(node_span(n)) && ok_pay(n.pay) }
pub open spec fn ok_pay(p: SPay) -> bool decreases p {
    forall|i: int| 0 <= i < p.items.len() ==> ok_item(#[trigger] p.items[i])
}
pub open spec fn ok_item(i: SItem) -> bool decreases i {
    match i { SItem::Prop(p) => ok_prop(p), SItem::Node(n) => ok_node(n), _ => true }
}
pub open spec fn ok_dir(d: SDirv) -> bool { match d { SDirv::Include(i) => span_ok(inc_span(i)), _ => true } }
pub open spec fn ok_prim(p: SPrim) -> bool {
    match p { SPrim::Dir(d) => ok_dir(d), SPrim::Root(n) => ok_node(n), SPrim::Refd(r, p) => span_ok(refd_span(r, p)) && ok_pay(p), SPrim::CInclude(_) => true }
}
pub open spec fn ok_prims(e: Seq<SPrim>) -> bool { forall|i: int| 0 <= i < e.len() ==> ok_prim(#[trigger] e[i]) }

// ---- an include that is found ends behind its start -----------------------------------------------

/// whether all includes among the items are not reversed
pub open spec fn straight(s: Seq<Spot>) -> bool {
    forall|k: int| 0 <= k < s.len() ==> ((#[trigger] s[k]).item matches SAt::Inc(i) ==> span_ok(inc_span(i)))
}
pub proof fn lemma_straight_find(s: Seq<Spot>, c: Position)
    requires straight(s),
    ensures find(s, c) matches Some(SAt::Inc(i)) ==> span_ok(inc_span(i)),
    decreases s.len()
{ if s.len() > 0 { lemma_straight_find(s.drop_last(), c); assert(s.last() == s[s.len() - 1]); } }
pub proof fn lemma_straight_add(a: Seq<Spot>, b: Seq<Spot>)
    requires straight(a), straight(b),
    ensures straight(a + b),
{
    assert forall|k: int| 0 <= k < (a + b).len() implies ((#[trigger] (a + b)[k]).item matches SAt::Inc(i) ==> span_ok(inc_span(i))) by {
        if k < a.len() { assert((a + b)[k] == a[k]); } else { assert((a + b)[k] == b[k - a.len()]); }
    }
}
proof fn lemma_straight_cells(c: Seq<SCell>, n: int)
    requires n <= c.len(),
    ensures straight(spots_cells(c, n)),
    decreases n
{ if n > 0 { lemma_straight_cells(c, n - 1); match c[n - 1] { SCell::Ref(r) => { lemma_straight_add(spots_cells(c, n - 1), seq![spot_ref(r)]); }, _ => {} } } }
proof fn lemma_straight_vals(v: Seq<SVal>, n: int)
    requires n <= v.len(),
    ensures straight(spots_vals(v, n)),
    decreases n
{
    if n > 0 {
        lemma_straight_vals(v, n - 1);
        match v[n - 1] { SVal::Cells(_, c, _) => { lemma_straight_cells(c, c.len() as int); }, _ => {} }
        lemma_straight_add(spots_vals(v, n - 1), spots_val(v[n - 1]));
    }
}
proof fn lemma_straight_node(n: SNode)
    ensures straight(spots_node(n)),
    decreases n
{
    lemma_straight_pay(n.pay, n.pay.items.len() as int);
    lemma_straight_add(spots_label(n.label), spots_pay(n.pay, n.pay.items.len() as int));
}
proof fn lemma_straight_pay(p: SPay, n: int)
    ensures straight(spots_pay(p, n)),
    decreases p, n
{
    if 0 < n <= p.items.len() {
        lemma_straight_pay(p, n - 1);
        lemma_straight_item(p.items[n - 1]);
        lemma_straight_add(spots_pay(p, n - 1), spots_item(p.items[n - 1]));
    }
}
proof fn lemma_straight_item(i: SItem)
    ensures straight(spots_item(i)),
    decreases i
{
    match i {
        SItem::Prop(p) => { lemma_straight_vals(p.values, p.values.len() as int); lemma_straight_add(spots_label(p.label), spots_vals(p.values, p.values.len() as int)); },
        SItem::Node(n) => { lemma_straight_node(n); },
        _ => {},
    }
}
pub proof fn lemma_straight_file(e: Seq<SPrim>, n: int)
    requires ok_prims(e), n <= e.len(),
    ensures straight(spots_file(e, n)),
    decreases n
{
    if n > 0 {
        lemma_straight_file(e, n - 1);
        let p = e[n - 1];
        assert(ok_prim(p));
        match p {
            SPrim::Root(x) => { lemma_straight_node(x); },
            SPrim::Refd(r, x) => { lemma_straight_pay(x, x.items.len() as int); lemma_straight_add(seq![spot_ref(r)], spots_body(x)); },
            _ => {},
        }
        assert(straight(spots_prim(p)));
        lemma_straight_add(spots_file(e, n - 1), spots_prim(p));
    }
}

} // verus!
