@module dts::ast file ginko/src/dts/ast.rs
@use crate::spec::*
@use crate::host::*
@use crate::dts::tokens::token::*
@dropuse itertools::Itertools
@dropuse std::fmt::*
@use crate::fmt::{Display, Formatter, group_text}
@drop impl Display for Cell
@drop impl Display for PropertyValue
@drop impl Display for Property
@drop impl Display for NodeItem
@drop impl Display for NodePayload
@drop impl Display for Node
@drop impl Display for Memreserve
@drop impl Display for DtsFile
@drop impl Display for Include
@drop impl Display for AnyDirective
@drop impl Display for ReferencedNode
@drop impl Display for Primary
@rewrite
std::fmt::Result >>> crate::fmt::Result
@drop impl LowerHex for*
@drop impl Deref for*
@drop Path::iter
@noderive WithToken PartialEq
@noderive NodeName PartialEq
@noderive NodeName Eq
@noderive Path PartialEq
@noderive Path Eq
@noderive Reference PartialEq
@noderive Reference Eq
@noderive Cell PartialEq
@noderive Cell Eq
@noderive PropertyValue PartialEq
@noderive PropertyValue Eq
@noderive Property PartialEq
@noderive Property Eq
@noderive Node PartialEq
@noderive Node Eq
@noderive NodeItem PartialEq
@noderive NodeItem Eq
@noderive NodePayload PartialEq
@noderive NodePayload Eq
@noderive Memreserve PartialEq
@noderive Memreserve Eq
@noderive DtsFile PartialEq
@noderive DtsFile Eq
@noderive Include PartialEq
@noderive Include Eq
@noderive AnyDirective PartialEq
@noderive AnyDirective Eq
@noderive ReferencedNode PartialEq
@noderive ReferencedNode Eq
@noderive Primary PartialEq
@noderive Primary Eq
@text
broadcast use {group_std, vstd::std_specs::vec::axiom_vec_index_decreases};

/// The syntax tree as a mathematical value.
pub struct SWt<T> { pub item: T, pub tok: STok }
pub struct SName { pub name: Seq<char>, pub unit: Option<Seq<char>> }
pub enum SRefr { Label(Seq<char>), Path(Seq<SName>) }
pub enum SCell { Num(SWt<u32>), Ref(SWt<SRefr>), Expr }
pub enum SVal {
    Str(SWt<Seq<char>>),
    Cells(STok, Seq<SCell>, STok),
    Ref(SWt<SRefr>),
    Bytes(STok, Seq<SWt<Seq<u8>>>, STok),
}
pub struct SProp { pub label: Option<SWt<Seq<char>>>, pub name: SWt<Seq<char>>, pub values: Seq<SVal>, pub end: STok }
pub struct SPay { pub items: Seq<SItem>, pub end: STok }
pub struct SNode { pub label: Option<SWt<Seq<char>>>, pub name: SWt<SName>, pub pay: SPay, pub omit: Option<STok> }
pub enum SItem { Prop(SProp), Node(SNode), DelNode(STok, SWt<SName>), DelProp(STok, SWt<Seq<char>>) }
pub struct SInc { pub tok: STok, pub file: SWt<Seq<char>>, pub paths: Seq<PathBuf> }
pub enum SDirv {
    Header(STok), Plugin(STok), Mem(SWt<u64>, SWt<u64>), Include(SInc), DelNode(STok, SWt<SRefr>), Omit(STok, SWt<SRefr>),
}
pub enum SPrim { Dir(SDirv), Root(SNode), Refd(SWt<SRefr>, SPay), CInclude(Seq<char>) }
pub struct SFile { pub elements: Seq<SPrim>, pub src: Arc<StdPath> }

pub open spec fn wt<T: View>(w: WithToken<T>) -> SWt<T::V> { SWt { item: w.item@, tok: w.token@ } }
pub open spec fn wt_opt<T: View>(w: Option<WithToken<T>>) -> Option<SWt<T::V>> {
    match w { Some(w) => Some(wt(w)), None => None }
}
impl<T: View> View for WithToken<T> {
    type V = SWt<T::V>;
    open spec fn view(&self) -> SWt<T::V> { wt(*self) }
}
impl View for NodeName {
    type V = SName;
    open spec fn view(&self) -> SName {
        SName { name: self.name@, unit: match self.unit_address { Some(u) => Some(u@), None => None } }
    }
}
impl View for Path {
    type V = Seq<SName>;
    open spec fn view(&self) -> Seq<SName> { names_view(self.elements@) }
}
impl View for Reference {
    type V = SRefr;
    open spec fn view(&self) -> SRefr {
        match self { Reference::Label(l) => SRefr::Label(l@), Reference::Path(p) => SRefr::Path(p@) }
    }
}
impl View for Cell {
    type V = SCell;
    open spec fn view(&self) -> SCell {
        match self { Cell::Number(n) => SCell::Num(wt_u32(*n)), Cell::Reference(r) => SCell::Ref(wt(*r)), Cell::Expression => SCell::Expr }
    }
}
pub open spec fn wt_u32(w: WithToken<u32>) -> SWt<u32> { SWt { item: w.item, tok: w.token@ } }
pub open spec fn wt_u64(w: WithToken<u64>) -> SWt<u64> { SWt { item: w.item, tok: w.token@ } }
pub open spec fn wt_bytes(w: WithToken<Vec<u8>>) -> SWt<Seq<u8>> { SWt { item: w.item@, tok: w.token@ } }
pub open spec fn v_cells(c: Seq<Cell>) -> Seq<SCell> { c.map_values(|c: Cell| c@) }
pub open spec fn v_bytes(c: Seq<WithToken<Vec<u8>>>) -> Seq<SWt<Seq<u8>>> { c.map_values(|c: WithToken<Vec<u8>>| wt_bytes(c)) }
impl View for PropertyValue {
    type V = SVal;
    open spec fn view(&self) -> SVal {
        match self {
            PropertyValue::String(s) => SVal::Str(wt(*s)),
            PropertyValue::Cells(a, c, b) => SVal::Cells(a@, v_cells(c@), b@),
            PropertyValue::Reference(r) => SVal::Ref(wt(*r)),
            PropertyValue::ByteStrings(a, c, b) => SVal::Bytes(a@, v_bytes(c@), b@),
        }
    }
}
pub open spec fn v_vals(c: Seq<PropertyValue>) -> Seq<SVal> { c.map_values(|c: PropertyValue| c@) }
impl View for Property {
    type V = SProp;
    open spec fn view(&self) -> SProp {
        SProp { label: wt_opt(self.label), name: wt(self.name), values: v_vals(self.values@), end: self.end@ }
    }
}
pub open spec fn v_node(n: Node) -> SNode decreases n {
    SNode { label: wt_opt(n.label), name: wt(n.name), pay: v_pay(n.payload), omit: opt_tok(n.omit_if_no_ref) }
}
pub open spec fn v_pay(p: NodePayload) -> SPay decreases p {
    SPay {
        items: Seq::new(p.items@.len(), |i: int| if 0 <= i < p.items@.len() { v_item(p.items@[i]) } else { arbitrary() }),
        end: p.end@,
    }
}
pub open spec fn v_item(i: NodeItem) -> SItem decreases i {
    match i {
        NodeItem::Property(p) => SItem::Prop((*p)@),
        NodeItem::Node(n) => SItem::Node(v_node(*n)),
        NodeItem::DeletedNode(t, n) => SItem::DelNode(t@, wt(n)),
        NodeItem::DeletedProperty(t, n) => SItem::DelProp(t@, wt(n)),
    }
}
pub open spec fn v_items(c: Seq<NodeItem>) -> Seq<SItem> { c.map_values(|c: NodeItem| v_item(c)) }
pub proof fn lemma_v_pay(p: NodePayload)
    ensures v_pay(p) == (SPay { items: v_items(p.items@), end: p.end@ }),
{
    assert(v_pay(p).items =~= v_items(p.items@));
}
pub open spec fn v_inc(i: Include) -> SInc { SInc { tok: i.include_token@, file: wt(i.file_name), paths: i.include_paths@ } }
pub open spec fn v_dir(d: AnyDirective) -> SDirv {
    match d {
        AnyDirective::DtsHeader(t) => SDirv::Header(t@),
        AnyDirective::Plugin(t) => SDirv::Plugin(t@),
        AnyDirective::Memreserve(m) => SDirv::Mem(wt_u64(m.address), wt_u64(m.length)),
        AnyDirective::Include(i) => SDirv::Include(v_inc(i)),
        AnyDirective::DeletedNode(t, r) => SDirv::DelNode(t@, wt(r)),
        AnyDirective::OmitIfNoRef(t, r) => SDirv::Omit(t@, wt(r)),
    }
}
impl View for Primary {
    type V = SPrim;
    open spec fn view(&self) -> SPrim {
        match self {
            Primary::Directive(d) => SPrim::Dir(v_dir(*d)),
            Primary::Root(n) => SPrim::Root(v_node(**n)),
            Primary::ReferencedNode(r) => SPrim::Refd(wt(r.reference), v_pay(r.payload)),
            Primary::CStyleInclude(s) => SPrim::CInclude(s@),
        }
    }
}
pub open spec fn v_prims(c: Seq<Primary>) -> Seq<SPrim> { c.map_values(|c: Primary| c@) }
impl View for DtsFile {
    type V = SFile;
    open spec fn view(&self) -> SFile { SFile { elements: v_prims(self.elements@), src: self.source } }
}

// conversions are specified at the functions
impl vstd::std_specs::convert::FromSpecImpl<String> for NodeName {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: String) -> Self { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<&str> for NodeName {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &str) -> Self { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<WithToken<String>> for WithToken<NodeName> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: WithToken<String>) -> Self { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<&str> for Path {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &str) -> Self { arbitrary() }
}
// ---- names and paths ---------------------------------------------------------------------

/// a name is split at its first `@`
pub open spec fn to_name(s: Seq<char>) -> SName {
    let k = find_ch(s, '@', 0);
    if k < s.len() {
        SName { name: s.subrange(0, k), unit: Some(s.subrange(k + 1, s.len() as int)) }
    } else {
        SName { name: s, unit: None }
    }
}
/// the components of a path
pub open spec fn to_path(s: Seq<char>) -> Seq<SName> { names_of(sp_split(s, '/')) }
pub open spec fn names_of(c: Seq<Seq<char>>) -> Seq<SName> decreases c.len() {
    if c.len() == 0 { seq![] }
    else if c.last().len() == 0 { names_of(c.drop_last()) }
    else { names_of(c.drop_last()).push(to_name(c.last())) }
}
pub open spec fn names_view(v: Seq<NodeName>) -> Seq<SName> { v.map_values(|n: NodeName| n@) }
pub proof fn lemma_names_push(v: Seq<NodeName>, n: NodeName)
    ensures names_view(v.push(n)) == names_view(v).push(n@),
{
    assert(names_view(v.push(n)) =~= names_view(v).push(n@));
}
pub proof fn lemma_names_step(c: Seq<Seq<char>>, i: int)
    requires 0 <= i < c.len(),
    ensures names_of(c.subrange(0, i + 1)) == (if c[i].len() == 0 { names_of(c.subrange(0, i)) } else { names_of(c.subrange(0, i)).push(to_name(c[i])) }),
{
    assert(c.subrange(0, i + 1).drop_last() =~= c.subrange(0, i));
}
pub open spec fn span_to(a: Span, b: Span) -> Span { Span { start: a.start, end: b.end } }
pub open spec fn val_span(v: SVal) -> Span {
    match v {
        SVal::Str(s) => s.tok.span,
        SVal::Cells(a, _, b) => span_to(a.span, b.span),
        SVal::Ref(r) => r.tok.span,
        SVal::Bytes(a, _, b) => span_to(a.span, b.span),
    }
}
pub open spec fn val_src(v: SVal) -> Arc<StdPath> {
    match v { SVal::Str(s) => s.tok.src, SVal::Cells(a, _, _) => a.src, SVal::Ref(r) => r.tok.src, SVal::Bytes(a, _, _) => a.src }
}
pub open spec fn head_span(label: Option<SWt<Seq<char>>>, name: STok) -> Span {
    match label { Some(l) => l.tok.span, None => name.span }
}
pub open spec fn prop_span(p: SProp) -> Span { span_to(head_span(p.label, p.name.tok), p.end.span) }
pub open spec fn node_span(n: SNode) -> Span { span_to(head_span(n.label, n.name.tok), n.pay.end.span) }
pub open spec fn refd_span(r: SWt<SRefr>, p: SPay) -> Span { span_to(r.tok.span, p.end.span) }
pub open spec fn inc_span(i: SInc) -> Span { span_to(i.tok.span, i.file.tok.span) }
/// a span from one token to another is not empty or reversed
pub open spec fn span_ok(s: Span) -> bool { pos_lt(s.start, s.end) }

@inside impl HasSpan for WithToken<T>
    open spec fn sp(&self) -> Span { self.token@.span }
    open spec fn sp_ok(&self) -> bool { true }
@fn <WithToken as HasSpan>::span
@inside impl HasSource for WithToken<T>
    open spec fn src(&self) -> Arc<StdPath> { self.token@.src }
@fn <WithToken as HasSource>::source
@fn WithToken::new ret r
    ensures r.item == item, r.token == token,
@fn WithToken::item ret r
    ensures *r == self.item,
@fn <NodeName as From<String>>::from ret r
    ensures r@ == to_name(value@),
@flag std
@fn <NodeName as From<&str>>::from ret r
    ensures r@ == to_name(value@),
@flag std
@fn <WithToken as From<WithToken<String>>>::from ret r
    ensures wt(r) == (SWt { item: to_name(value.item@), tok: value.token@ }),
@fn NodeName::simple ret r
    ensures r.unit_address is None, intos(name, r.name),
@fn NodeName::with_address ret r
    ensures r.unit_address is Some, intos(name, r.name), intos(address, r.unit_address->Some_0),
@fn Path::new ret r
    ensures r.elements == elements,
@fn Path::empty ret r
    ensures r@ == Seq::<SName>::empty(),
@fn Path::with_child ret r
    ensures r@ == self@.push(child@),
@fn <Path as From<&str>>::from ret r
    ensures r@ == to_path(value@),
@rewrite
value .split('/') .filter(|component| !component.is_empty()) .map(NodeName::from) .collect_vec() >>> { let seq__ = crate::spec::split_str(value, '/'); let mut out__: Vec<NodeName> = Vec::new(); let mut i__: usize = 0; while i__ < seq__.len() invariant i__ <= seq__@.len(), views(seq__@) == sp_split(value@, '/'), names_view(out__@) == names_of(views(seq__@).subrange(0, i__ as int)), decreases seq__@.len() - i__ { let component = &seq__[i__]; proof { lemma_names_step(views(seq__@), i__ as int); } if !component.is_empty() { let n__ = NodeName::from(*component); proof { lemma_names_push(out__@, n__); } out__.push(n__); } i__ = i__ + 1; } proof { assert(views(seq__@).subrange(0, seq__@.len() as int) =~= views(seq__@)); } out__ }
@inside impl HasSpan for PropertyValue
    open spec fn sp(&self) -> Span { val_span(self@) }
    open spec fn sp_ok(&self) -> bool { span_ok(self.sp()) }
@fn <PropertyValue as HasSpan>::span
@inside impl HasSpan for Property
    open spec fn sp(&self) -> Span { prop_span(self@) }
    open spec fn sp_ok(&self) -> bool { span_ok(self.sp()) }
@fn <Property as HasSpan>::span
@inside impl HasSpan for Node
    open spec fn sp(&self) -> Span { node_span(v_node(*self)) }
    open spec fn sp_ok(&self) -> bool { span_ok(self.sp()) }
@fn <Node as HasSpan>::span
@inside impl HasSource for PropertyValue
    open spec fn src(&self) -> Arc<StdPath> { val_src(self@) }
@fn <PropertyValue as HasSource>::source
@inside impl HasSource for DtsFile
    open spec fn src(&self) -> Arc<StdPath> { self.source }
@fn <DtsFile as HasSource>::source
@inside impl HasSource for Include
    open spec fn src(&self) -> Arc<StdPath> { self.include_token@.src }
@fn <Include as HasSource>::source
@inside impl HasSpan for Include
    open spec fn sp(&self) -> Span { inc_span(v_inc(*self)) }
    open spec fn sp_ok(&self) -> bool { span_ok(self.sp()) }
@fn <Include as HasSpan>::span
@inside impl HasSpan for ReferencedNode
    open spec fn sp(&self) -> Span { refd_span(wt(self.reference), v_pay(self.payload)) }
    open spec fn sp_ok(&self) -> bool { span_ok(self.sp()) }
@fn <ReferencedNode as HasSpan>::span
@fn Property::empty ret r
    ensures r@ == (SProp { label: wt_opt(label), name: wt(name), values: seq![], end: end@ }),
@proof body_start
    proof { assert(v_vals(Seq::empty()) =~= Seq::empty()); }
@fn Memreserve::new ret r
    ensures r.address == address, r.length == length,
@fn Primary::as_include ret r
    ensures match self@ {
        SPrim::Dir(SDirv::Include(i)) => r is Some && v_inc(*r->Some_0) == i,
        _ => r is None,
    },
@fn Include::path ret r
    ensures (match r { Ok(p) => Some(p), Err(_) => None }) == lookup(self.include_paths@, self.file_name.item@),
@rewrite
self.include_paths.iter().find_map(|include_path| { let path = include_path.join(self.file_name.to_string()); dunce::canonicalize(path).ok() }) >>> { let mut found__: Option<PathBuf> = None; let mut i__: usize = 0; while i__ < self.include_paths.len() && found__.is_none() invariant i__ <= self.include_paths@.len(), found__ is None ==> first_in(self.include_paths@, self.file_name.item@, 0) == first_in(self.include_paths@, self.file_name.item@, i__ as int), found__ matches Some(p__) ==> first_in(self.include_paths@, self.file_name.item@, 0) == Some(p__), decreases self.include_paths@.len() - i__ { let include_path = &self.include_paths[i__]; i__ = i__ + 1; let path = crate::host::join(include_path, self.file_name.item().clone()); found__ = crate::host::canonicalize(path).ok(); } found__ }
@rewrite
dunce::canonicalize(self.file_name.to_string()) >>> crate::host::canonicalize_text(self.file_name.item().clone())
@end
@text
pub open spec fn name_text(n: SName) -> Seq<char> { match n.unit { Some(u) => n.name + ("@"@ + u), None => n.name } }
/// the first n names
pub open spec fn names_text(p: Seq<SName>, n: int) -> Seq<char> decreases n {
    if n <= 0 { seq![] } else { names_text(p, n - 1) + ("/"@ + name_text(p[n - 1])) }
}
pub open spec fn path_text(p: Seq<SName>) -> Seq<char> { if p.len() == 0 { "/"@ } else { names_text(p, p.len() as int) } }
pub open spec fn refr_text(r: SRefr) -> Seq<char> { match r { SRefr::Label(l) => "&"@ + l, SRefr::Path(p) => "&{"@ + (path_text(p) + "}"@) } }
@inside impl Display for NodeName
    open spec fn shown(&self) -> Seq<char> { name_text(self@) }
@fn <NodeName as Display>::fmt
@flag text
@proof body_start
    broadcast use group_text;
@inside impl Display for Path
    open spec fn shown(&self) -> Seq<char> { path_text(self@) }
@fn <Path as Display>::fmt
@flag text
@proof body_start
    broadcast use group_text;
    let ghost t0 = f.text();
@loop 0
    invariant i__0 <= seq__0@.len(), seq__0@ == self.elements@, f.sure() == old(f).sure(), f.text() == t0 + names_text(self@, i__0 as int),
    decreases seq__0@.len() - i__0,
@proof loop 0 start
    proof { assert(self@[i__0 - 1] == element@); }
@inside impl Display for Reference
    open spec fn shown(&self) -> Seq<char> { refr_text(self@) }
@fn <Reference as Display>::fmt
@flag text
@proof body_start
    broadcast use group_text;
@inside impl Display for WithToken<T>
    open spec fn shown(&self) -> Seq<char> { self.item.shown() }
@fn <WithToken as Display>::fmt
@flag text
@end
