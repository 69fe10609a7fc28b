@module dts::visitor file ginko/src/dts/visitor.rs
@use crate::spec::*
@use crate::lex::*
@use crate::tree::*
@use crate::dts::ast::*
@use crate::dts::tokens::token::*
@use crate::dts::data::*
@mapuse crate::dts::NodeItem => crate::dts::ast::NodeItem
@text
broadcast use {lemma_find_add, lemma_find_one, lemma_find_none};

pub open spec fn v_at(i: ItemAtCursor<'_>) -> SAt {
    match i {
        ItemAtCursor::Property(p) => SAt::Prop(p@),
        ItemAtCursor::Node(n) => SAt::Node(v_node(*n)),
        ItemAtCursor::Reference(r) => SAt::Ref(r@),
        ItemAtCursor::Label(l) => SAt::Label(wt(*l)),
        ItemAtCursor::Include(i) => SAt::Inc(v_inc(*i)),
    }
}
pub open spec fn at(r: Option<ItemAtCursor<'_>>) -> Option<SAt> { match r { Some(i) => Some(v_at(i)), None => None } }
@fn DtsFile::item_at_cursor ret r
    requires ok_prims(self@.elements),
    ensures at(r) == find(spots_file(self@.elements, self@.elements.len() as int), *cursor),
@loop 0
    invariant i__0 <= seq__0@.len(), seq__0@ == self.elements@, ok_prims(self@.elements), self@.elements == v_prims(self.elements@),
        find(spots_file(self@.elements, i__0 as int), *cursor) is None,
    decreases seq__0@.len() - i__0,
@proof loop 0 start
    proof {
    assert(i__0 <= seq__0@.len());
    lemma_find_add(spots_file(self@.elements, i__0 - 1), spots_prim(self@.elements[i__0 - 1]), *cursor);
    assert(spots_file(self@.elements, i__0 as int) == spots_file(self@.elements, i__0 - 1) + spots_prim(self@.elements[i__0 - 1]));
    if find(spots_file(self@.elements, i__0 as int), *cursor) is Some { lemma_find_file(self@.elements, i__0 as int, self@.elements.len() as int, *cursor); }
    }
@fn Primary::item_at_cursor ret r
    requires ok_prim(self@),
    ensures at(r) == find(spots_prim(self@), *cursor),
@fn AnyDirective::item_at_cursor ret r
    requires ok_dir(v_dir(*self)),
    ensures at(r) == find(spots_dir(v_dir(*self)), *cursor),
@fn ReferencedNode::item_at_cursor ret r
    ensures at(r) == find(spots_prim(SPrim::Refd(wt(self.reference), v_pay(self.payload))), *cursor),
@fn Node::item_at_cursor ret r
    ensures at(r) == find(spots_node(v_node(*self)), *cursor),
    decreases self,
@fn NodePayload::item_at_cursor ret r
    ensures at(r) == find(spots_body(v_pay(*self)), *cursor),
    decreases self,
@loop 0
    invariant i__0 <= seq__0@.len(), seq__0@ == self.items@, 
        find(spots_pay(v_pay(*self), i__0 as int), *cursor) is None,
    decreases seq__0@.len() - i__0,
@proof loop 0 start
    proof {
    lemma_v_pay(*self);
    assert(i__0 <= seq__0@.len());
    lemma_find_add(spots_pay(v_pay(*self), i__0 - 1), spots_item(v_pay(*self).items[i__0 - 1]), *cursor);
    assert(spots_pay(v_pay(*self), i__0 as int) == spots_pay(v_pay(*self), i__0 - 1) + spots_item(v_pay(*self).items[i__0 - 1]));
    if find(spots_pay(v_pay(*self), i__0 as int), *cursor) is Some { lemma_find_pay(v_pay(*self), i__0 as int, v_pay(*self).items.len() as int, *cursor); }
    }
@proof loop 0 after
    proof { lemma_v_pay(*self); }
@fn NodeItem::item_at_cursor ret r
    ensures at(r) == find(spots_item(v_item(*self)), *cursor),
    decreases self,
@fn Property::item_at_cursor ret r
    ensures at(r) == find(spots_prop(self@), *cursor),
@loop 0
    invariant i__0 <= seq__0@.len(), seq__0@ == self.values@, find(spots_label(self@.label), *cursor) is None,
        find(spots_vals(self@.values, i__0 as int), *cursor) is None,
    decreases seq__0@.len() - i__0,
@proof loop 0 start
    proof {
    assert(i__0 <= seq__0@.len());
    lemma_find_add(spots_vals(self@.values, i__0 - 1), spots_val(self@.values[i__0 - 1]), *cursor);
    assert(spots_vals(self@.values, i__0 as int) == spots_vals(self@.values, i__0 - 1) + spots_val(self@.values[i__0 - 1]));
    if find(spots_vals(self@.values, i__0 as int), *cursor) is Some { lemma_find_vals(self@.values, i__0 as int, self@.values.len() as int, *cursor); }
    }
@fn PropertyValue::item_at_cursor ret r
    ensures at(r) == find(spots_val(self@), *cursor),
@loop 0
    invariant i__0 <= seq__0@.len(), seq__0@ == cells@, spots_val(self@) == spots_cells(v_cells(cells@), v_cells(cells@).len() as int),
        find(spots_cells(v_cells(cells@), i__0 as int), *cursor) is None,
    decreases seq__0@.len() - i__0,
@proof loop 0 start
    proof {
    let c = v_cells(cells@);
    assert(c[i__0 - 1] == seq__0@[i__0 - 1]@);
    match c[i__0 - 1] { SCell::Ref(r) => {
        lemma_find_add(spots_cells(c, i__0 - 1), seq![spot_ref(r)], *cursor);
        lemma_find_one(spot_ref(r), *cursor);
        assert(spots_cells(c, i__0 as int) == spots_cells(c, i__0 - 1) + seq![spot_ref(r)]); }, _ => {} }
    if find(spots_cells(v_cells(cells@), i__0 as int), *cursor) is Some { lemma_find_cells(v_cells(cells@), i__0 as int, v_cells(cells@).len() as int, *cursor); }
    }
@proof before_call item 0
    assert(spot_ref(wt(*reference)).item == SAt::Ref(reference.item@));
    assert(find(spots_cells(v_cells(cells@), i__0 as int), *cursor) == Some(SAt::Ref(reference.item@)));
    assert(spots_val(self@) == spots_cells(v_cells(cells@), v_cells(cells@).len() as int));
