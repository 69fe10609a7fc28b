//! Real trees and diagnostics in canonical form
use crate::lexref::Pos;
use crate::tree::*;
use ginko::dts::verif::ast as v;
use ginko::dts::{AnyDirective, Diagnostic, HasSpan, NodeItem, NodePayload, Position, Primary, Span};

pub fn pos(p: Position) -> Pos {
    (p.line(), p.character())
}
pub fn sp(s: Span) -> Sp {
    (pos(s.start()), pos(s.end()))
}
pub fn name(n: &v::NodeName) -> Name {
    Name { name: n.name.clone(), unit: n.unit_address.clone() }
}
pub fn reference(r: &v::Reference) -> Ref {
    match r {
        v::Reference::Label(l) => Ref::Label(l.clone()),
        v::Reference::Path(p) => Ref::Path(p.iter().map(name).collect()),
    }
}
fn text(t: &v::WithToken<String>) -> (String, Sp) {
    (t.item().clone(), sp(t.span()))
}
pub fn value(x: &v::PropertyValue) -> Val {
    let s = sp(x.span());
    match x {
        v::PropertyValue::String(t) => Val::Str(t.item().clone(), s),
        v::PropertyValue::Reference(r) => Val::Ref(reference(r.item()), s),
        v::PropertyValue::Cells(_, c, _) => Val::Cells(
            c.iter()
                .map(|c| match c {
                    v::Cell::Number(n) => Cell::Num(*n.item(), sp(n.span())),
                    v::Cell::Reference(r) => Cell::Ref(reference(r.item()), sp(r.span())),
                    v::Cell::Expression => Cell::Expr,
                })
                .collect(),
            s,
        ),
        v::PropertyValue::ByteStrings(_, b, _) => Val::Bytes(b.iter().map(|b| (b.item().clone(), sp(b.span()))).collect(), s),
    }
}
fn body(p: &NodePayload) -> Body {
    let items = p
        .items
        .iter()
        .map(|i| match i {
            NodeItem::Property(p) => Item::Prop(Prop {
                label: p.label.as_ref().map(text),
                name: text(&p.name),
                vals: p.values.iter().map(value).collect(),
                end: Some(sp(p.end.span())),
            }),
            NodeItem::Node(n) => Item::Node(node(n)),
            NodeItem::DeletedNode(t, n) => Item::DelNode(sp(t.span()), name(n.item()), sp(n.span())),
            NodeItem::DeletedProperty(t, n) => Item::DelProp(sp(t.span()), n.item().clone(), sp(n.span())),
        })
        .collect();
    Body { items, end: Some(sp(p.end.span())) }
}
pub fn node(n: &ginko::dts::Node) -> Node {
    Node {
        label: n.label.as_ref().map(text),
        omit: n.omit_if_no_ref.as_ref().map(|t| sp(t.span())),
        name: (name(n.name.item()), sp(n.name.span())),
        body: body(&n.payload),
    }
}
/// Fields of `Memreserve` are private; they are read off its debug form
fn memreserve(m: &v::Memreserve) -> ((u64, Sp), (u64, Sp)) {
    let d = format!("{m:?}");
    let items: Vec<u64> = d.split("item: ").skip(1).map(|x| x.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap()).collect();
    let spans: Vec<Sp> = d
        .split("span: Span { start: ")
        .skip(1)
        .map(|x| {
            let n: Vec<u32> = x.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).take(4).map(|x| x.parse().unwrap()).collect();
            ((n[0], n[1]), (n[2], n[3]))
        })
        .collect();
    ((items[0], spans[0]), (items[1], spans[1]))
}
pub fn file(f: &v::DtsFile) -> File {
    f.elements
        .iter()
        .map(|p| match p {
            Primary::Root(n) => Prim::Root(node(n)),
            Primary::ReferencedNode(r) => Prim::RefNode(reference(r.reference.item()), sp(r.reference.span()), body(&r.payload)),
            Primary::CStyleInclude(s) => Prim::CInclude(s.clone()),
            Primary::Directive(d) => match d {
                AnyDirective::DtsHeader(t) => Prim::Header(sp(t.span())),
                AnyDirective::Plugin(t) => Prim::Plugin(sp(t.span())),
                AnyDirective::Memreserve(m) => {
                    let (a, b) = memreserve(m);
                    Prim::Mem(a, b)
                }
                AnyDirective::Include(i) => Prim::Include(sp(i.include_token.span()), i.file_name.item().clone(), sp(i.file_name.span())),
                AnyDirective::DeletedNode(t, r) => Prim::Del(sp(t.span()), reference(r.item()), sp(r.span())),
                AnyDirective::OmitIfNoRef(t, r) => Prim::Omit(sp(t.span()), reference(r.item()), sp(r.span())),
            },
        })
        .collect()
}
pub fn diag(d: &Diagnostic) -> Diag {
    let s = sp(d.span);
    Diag { code: format!("{:?}", d.kind), s: s.0, e: s.1, msg: d.message.clone(), slack: None, about: "" }
}
