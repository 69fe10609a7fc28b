// What the analysis of a file finds, as a function of its tree and of the files it includes.
use vstd::prelude::*;
use crate::spec::*;
use crate::lex::*;
use crate::tree::*;
use crate::host::*;
use crate::dts::ast::*;
use crate::dts::data::{FileType, Position, Span};
use crate::dts::diagnostics::*;
use crate::dts::error_codes::*;
use crate::dts::tokens::token::*;
use std::sync::Arc;
use std::path::{Path as StdPath, PathBuf};
verus! {

pub enum SLab { Node(SNode), Prop(SProp) }
/// what a file defines, together with its includes
pub struct SCtx { pub labels: Map<Seq<char>, SLab>, pub paths: Map<Seq<char>, Seq<SName>>, pub nodes: Map<Seq<SName>, SNode> }
/// a file of a project
pub struct SPf { pub perr: Seq<SDiag>, pub aerr: Seq<SDiag>, pub file: Option<SFile>, pub ctx: Option<SCtx>, pub typ: FileType, pub src: Seq<char> }
pub struct SEnv { pub files: Map<PathBuf, SPf>, pub sev: SeverityMap, pub typ: FileType, pub src: Arc<StdPath> }
/// which file includes which
pub type Edges = ISet<(PathBuf, PathBuf)>;
pub struct SAn { pub ds: Seq<SDiag>, pub ctx: SCtx, pub unres: Seq<SWt<SRefr>>, pub plugin: bool, pub first: bool, pub header: bool, pub edges: Edges }

pub open spec fn erroneous(f: SPf, sev: SeverityMap) -> bool { one_error(f.perr + f.aerr, sev) }
pub open spec fn one_error(d: Seq<SDiag>, sev: SeverityMap) -> bool {
    exists|k: int| 0 <= k < d.len() && sev.inner.at((#[trigger] d[k]).kind) == Severity::Error
}
pub proof fn lemma_any(a: Seq<SDiag>, b: Seq<SDiag>, sev: SeverityMap)
    ensures one_error(a + b, sev) <==> one_error(a, sev) || one_error(b, sev),
{
    let c = a + b;
    if one_error(a, sev) { let k = choose|k: int| 0 <= k < a.len() && sev.inner.at((#[trigger] a[k]).kind) == Severity::Error; assert(c[k] == a[k]); }
    if one_error(b, sev) { let k = choose|k: int| 0 <= k < b.len() && sev.inner.at((#[trigger] b[k]).kind) == Severity::Error; assert(c[a.len() + k] == b[k]); }
    if one_error(c, sev) {
        let k = choose|k: int| 0 <= k < c.len() && sev.inner.at((#[trigger] c[k]).kind) == Severity::Error;
        if k < a.len() { assert(a[k] == c[k]); } else { assert(b[k - a.len()] == c[k]); }
    }
}
pub open spec fn no_ctx() -> SCtx { SCtx { labels: Map::empty(), paths: Map::empty(), nodes: Map::empty() } }
/// definitions of `b` take precedence
pub open spec fn both(a: SCtx, b: SCtx) -> SCtx {
    SCtx { labels: a.labels.union_prefer_right(b.labels), paths: a.paths.union_prefer_right(b.paths), nodes: a.nodes.union_prefer_right(b.nodes) }
}
pub open spec fn find_ref(c: SCtx, r: SRefr) -> Option<SNode> {
    match r {
        SRefr::Label(l) => if c.labels.contains_key(l) { match c.labels[l] { SLab::Node(n) => Some(n), _ => None } } else { None },
        SRefr::Path(p) => if c.nodes.contains_key(p) { Some(c.nodes[p]) } else { None },
    }
}
pub open spec fn at_tok(k: ErrorCode, t: STok) -> SDiag { SDiag { kind: k, span: t.span, src: t.src } }
pub open spec fn note(a: SAn, b: bool, d: SDiag) -> SAn { if b { SAn { ds: a.ds.push(d), ..a } } else { a } }
pub open spec fn begun(a: SAn) -> SAn { SAn { first: true, ..a } }
/// references are only reported in sources that are no plugins (so far)
pub open spec fn complete(typ: FileType, a: SAn) -> bool { typ == FileType::DtSource && !a.plugin }

// ---- values ---------------------------------------------------------------------------------------

pub open spec fn refs_cells(c: Seq<SCell>, n: int) -> Seq<SWt<SRefr>> decreases n {
    if n <= 0 { seq![] } else {
        match c[n - 1] { SCell::Ref(r) => refs_cells(c, n - 1).push(r), _ => refs_cells(c, n - 1) }
    }
}
pub open spec fn refs_val(v: SVal) -> Seq<SWt<SRefr>> {
    match v { SVal::Cells(_, c, _) => refs_cells(c, c.len() as int), SVal::Ref(r) => seq![r], _ => seq![] }
}
/// the references in the values, in order
pub open spec fn refs_vals(v: Seq<SVal>, n: int) -> Seq<SWt<SRefr>> decreases n {
    if n <= 0 { seq![] } else { refs_vals(v, n - 1) + refs_val(v[n - 1]) }
}
/// one issue for each value that is no string
pub open spec fn non_strings(v: Seq<SVal>, n: int) -> Seq<SDiag> decreases n {
    if n <= 0 { seq![] }
    else if v[n - 1] is Str { non_strings(v, n - 1) }
    else { non_strings(v, n - 1).push(SDiag { kind: ErrorCode::NonStringInCompatible, span: val_span(v[n - 1]), src: val_src(v[n - 1]) }) }
}
/// a property up to its n-th value
pub open spec fn prop_to(a: SAn, p: SProp, n: int) -> SAn {
    SAn {
        ctx: SCtx { labels: match p.label { Some(l) => a.ctx.labels.insert(l.item, SLab::Prop(p)), None => a.ctx.labels }, ..a.ctx },
        unres: a.unres + refs_vals(p.values, n),
        ..a
    }
}
pub open spec fn an_prop(a: SAn, p: SProp) -> SAn {
    SAn {
        ctx: SCtx { labels: match p.label { Some(l) => a.ctx.labels.insert(l.item, SLab::Prop(p)), None => a.ctx.labels }, ..a.ctx },
        unres: a.unres + refs_vals(p.values, p.values.len() as int),
        ds: if p.name.item == "compatible"@ { a.ds + non_strings(p.values, p.values.len() as int) } else { a.ds },
        ..a
    }
}

// ---- nodes ----------------------------------------------------------------------------------------

/// a node at a path: it is known by its path and by its label
pub open spec fn define(a: SAn, n: SNode, path: Seq<SName>) -> SAn {
    SAn {
        ctx: SCtx {
            labels: match n.label { Some(l) => a.ctx.labels.insert(l.item, SLab::Node(n)), None => a.ctx.labels },
            paths: match n.label { Some(l) => a.ctx.paths.insert(l.item, path), None => a.ctx.paths },
            nodes: a.ctx.nodes.insert(path, n),
        },
        ..a
    }
}
pub open spec fn an_node(a: SAn, n: SNode, path: Seq<SName>) -> SAn decreases n {
    an_pay(define(a, n, path), n.pay, n.pay.items.len() as int, path)
}
pub open spec fn an_pay(a: SAn, p: SPay, k: int, path: Seq<SName>) -> SAn decreases p, k {
    if 0 < k <= p.items.len() { an_item(an_pay(a, p, k - 1, path), p.items[k - 1], path) } else { a }
}
pub open spec fn an_item(a: SAn, i: SItem, path: Seq<SName>) -> SAn decreases i {
    match i { SItem::Prop(p) => an_prop(a, p), SItem::Node(n) => an_node(a, n, path.push(n.name.item)), _ => a }
}

// ---- files ----------------------------------------------------------------------------------------

pub open spec fn unresolved(typ: FileType, a: SAn, r: SWt<SRefr>) -> SAn { note(a, complete(typ, a), at_tok(ErrorCode::UnresolvedReference, r.tok)) }
/// a reference that must be known here, and the path it stands for
pub open spec fn an_ref(typ: FileType, a: SAn, r: SWt<SRefr>) -> (Seq<SName>, SAn) {
    match r.item {
        SRefr::Label(l) => if a.ctx.paths.contains_key(l) { (a.ctx.paths[l], a) } else { (seq![], unresolved(typ, a, r)) },
        SRefr::Path(p) => (p, if a.ctx.nodes.contains_key(p) { a } else { unresolved(typ, a, r) }),
    }
}
pub open spec fn an_refd(typ: FileType, a: SAn, r: SWt<SRefr>, p: SPay) -> SAn {
    // files that are no plain sources are not complete: their nodes are taken to be at the root
    let (path, b) = if typ == FileType::DtSource { an_ref(typ, a, r) } else { (seq![], a) };
    an_pay(b, p, p.items.len() as int, path)
}
/// the i-th step
pub open spec fn step(e: Edges, s: Seq<PathBuf>, i: int) -> bool { e.contains((s[i], s[i + 1])) }
pub open spec fn walk_of(e: Edges, s: Seq<PathBuf>) -> bool {
    s.len() >= 2 && forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] step(e, s, i)
}
/// a walk along the edges from `v` back to it
pub open spec fn cyclic(e: Edges, v: PathBuf) -> bool { exists|s: Seq<PathBuf>| #[trigger] walk_of(e, s) && s[0] == v && s.last() == v }
pub open spec fn inc_file(i: SInc) -> Option<PathBuf> { lookup(i.paths, i.file.item) }
/// the path that a file is known by
pub open spec fn known_as(p: PathBuf) -> PathBuf { match canon(p) { Some(c) => c, None => p } }
/// everything that the included file defines is known behind the include
pub open spec fn an_inc(e: SEnv, a: SAn, i: SInc) -> SAn {
    match inc_file(i) {
        None => a,
        Some(p) => {
            let b = SAn { edges: a.edges.insert((p, owned(&*e.src))), ..a };
            if cyclic(b.edges, p) {
                note(b, true, SDiag { kind: ErrorCode::CyclicDependencyError, span: inc_span(i), src: i.tok.src })
            } else if !e.files.contains_key(known_as(p)) { b } else {
                let f = e.files[known_as(p)];
                let c = note(b, erroneous(f, e.sev), SDiag { kind: ErrorCode::ErrorsInInclude, span: inc_span(i), src: i.tok.src });
                match f.ctx { Some(x) => SAn { ctx: both(c.ctx, x), ..c }, None => c }
            }
        }
    }
}
pub open spec fn an_header(a: SAn, t: STok) -> SAn {
    let b = if a.header { note(a, true, at_tok(ErrorCode::DuplicateDirective, t)) } else { note(a, a.first, at_tok(ErrorCode::MisplacedDtsHeader, t)) };
    SAn { header: true, ..b }
}
pub open spec fn an_prim(e: SEnv, a: SAn, p: SPrim) -> SAn {
    match p {
        SPrim::Dir(SDirv::Header(t)) => an_header(a, t),
        SPrim::Dir(SDirv::Mem(_, _)) => begun(a),
        SPrim::Dir(SDirv::Include(i)) => an_inc(e, a, i),
        SPrim::Dir(SDirv::Plugin(_)) => SAn { plugin: true, ..begun(a) },
        SPrim::Dir(SDirv::DelNode(_, r)) => begun(an_ref(e.typ, a, r).1),
        SPrim::Dir(SDirv::Omit(_, r)) => begun(an_ref(e.typ, a, r).1),
        SPrim::Root(n) => begun(an_node(a, n, seq![])),
        SPrim::Refd(r, p) => begun(an_refd(e.typ, a, r, p)),
        SPrim::CInclude(_) => a,
    }
}
pub open spec fn an_prims(e: SEnv, a: SAn, p: Seq<SPrim>, n: int) -> SAn decreases n {
    if n <= 0 { a } else { an_prim(e, an_prims(e, a, p, n - 1), p[n - 1]) }
}
pub open spec fn is_known(c: SCtx, r: SRefr) -> bool {
    match r { SRefr::Label(l) => c.labels.contains_key(l), SRefr::Path(p) => c.nodes.contains_key(p) }
}
/// the references in values, when all of the file is known
pub open spec fn an_unres(typ: FileType, a: SAn, u: Seq<SWt<SRefr>>, n: int) -> SAn decreases n {
    if n <= 0 { a } else {
        let b = an_unres(typ, a, u, n - 1);
        if is_known(b.ctx, u[n - 1].item) { b } else { unresolved(typ, b, u[n - 1]) }
    }
}
pub open spec fn an_begin(e: SEnv, edges: Edges) -> SAn {
    SAn { ds: seq![], ctx: no_ctx(), unres: seq![], plugin: e.typ == FileType::DtSourceOverlay, first: false, header: false, edges }
}
pub open spec fn no_header(e: SEnv) -> SDiag {
    SDiag { kind: ErrorCode::NonDtsV1, span: Span { start: Position { line: 0, character: 0 }, end: Position { line: 0, character: 0 } }, src: e.src }
}
pub open spec fn analyzed(e: SEnv, edges: Edges, p: Seq<SPrim>) -> SAn {
    let a = an_prims(e, an_begin(e, edges), p, p.len() as int);
    let b = note(a, !a.header && e.typ == FileType::DtSource, no_header(e));
    an_unres(e.typ, b, b.unres, b.unres.len() as int)
}


// ---- the analysis of one file does not see the other edges ------------------------------------------

pub open spec fn we(a: SAn, x: Edges) -> SAn { SAn { edges: x, ..a } }
pub proof fn lemma_node_we(a: SAn, n: SNode, path: Seq<SName>, x: Edges)
    ensures an_node(we(a, x), n, path) == we(an_node(a, n, path), x), an_node(a, n, path).edges == a.edges,
    decreases n
{
    assert(define(we(a, x), n, path) == we(define(a, n, path), x));
    lemma_pay_we(define(a, n, path), n.pay, n.pay.items.len() as int, path, x);
}
pub proof fn lemma_pay_we(a: SAn, p: SPay, k: int, path: Seq<SName>, x: Edges)
    ensures an_pay(we(a, x), p, k, path) == we(an_pay(a, p, k, path), x), an_pay(a, p, k, path).edges == a.edges,
    decreases p, k
{
    if 0 < k <= p.items.len() {
        lemma_pay_we(a, p, k - 1, path, x);
        lemma_item_we(an_pay(a, p, k - 1, path), p.items[k - 1], path, x);
    }
}
pub proof fn lemma_item_we(a: SAn, i: SItem, path: Seq<SName>, x: Edges)
    ensures an_item(we(a, x), i, path) == we(an_item(a, i, path), x), an_item(a, i, path).edges == a.edges,
    decreases i
{
    match i { SItem::Node(n) => { lemma_node_we(a, n, path.push(n.name.item), x); }, _ => {} }
}
pub proof fn lemma_ref_we(typ: FileType, a: SAn, r: SWt<SRefr>, x: Edges)
    ensures an_ref(typ, we(a, x), r) == (an_ref(typ, a, r).0, we(an_ref(typ, a, r).1, x)), an_ref(typ, a, r).1.edges == a.edges,
{}
pub proof fn lemma_refd_we(typ: FileType, a: SAn, r: SWt<SRefr>, p: SPay, x: Edges)
    ensures an_refd(typ, we(a, x), r, p) == we(an_refd(typ, a, r, p), x), an_refd(typ, a, r, p).edges == a.edges,
{
    lemma_ref_we(typ, a, r, x);
    let (path, b) = if typ == FileType::DtSource { an_ref(typ, a, r) } else { (seq![], a) };
    lemma_pay_we(b, p, p.items.len() as int, path, x);
}
pub proof fn lemma_unres_edges(typ: FileType, a: SAn, x: Edges, u: Seq<SWt<SRefr>>, n: int)
    ensures an_unres(typ, we(a, x), u, n) == we(an_unres(typ, a, u, n), x), an_unres(typ, a, u, n).edges == a.edges,
    decreases n
{ if n > 0 { lemma_unres_edges(typ, a, x, u, n - 1); } }

} // verus!
