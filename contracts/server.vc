@module ls::server file ginko_ls/src/server.rs
@use crate::spec::*
@use crate::lex::*
@use crate::tree::*
@use crate::host::*
@use crate::anal::*
@use crate::proj::*
@use crate::hist::*
@use crate::lsp::*
@use crate::fmt::group_text
@use crate::dts::ast::*
@use crate::dts::tokens::token::*
@use crate::dts::visitor::ItemAtCursor
@use crate::dts::project::{sane, Project, usable, issues, seen, tree_at, referenced, file_at}
@use crate::dts::error_codes::SeverityMap
@use crate::dts::data::{FileType, HasSpan, Span}
@use crate::dts::diagnostics::Severity
@use crate::aview::*
@use vstd::utf8::encode_utf8
@dropuse ginko::*
@dropuse itertools::*
@dropuse parking_lot::*
@dropuse serde::*
@dropuse serde_json::*
@dropuse tower_lsp::*
@dropuse url::*
@inherent impl LanguageServer for Backend
@rewrite
ginko::dts::Position >>> crate::dts::data::Position
@rewrite
ginko::dts::Diagnostic >>> crate::dts::diagnostics::Diagnostic
@rewrite
RwLock<Project> >>> Project
@rewrite
self.project.write() >>> self.project
@rewrite
async fn >>> fn
@rewrite
.await >>>
@rewrite
= self.project.read(); >>> = &self.project;
@text
pub open spec fn l_pos(p: crate::dts::data::Position) -> Position { Position { line: p.line, character: p.character } }
pub open spec fn l_range(s: Span) -> Range { Range { start: l_pos(s.start), end: l_pos(s.end) } }
pub open spec fn g_pos(p: Position) -> crate::dts::data::Position { crate::dts::data::Position { line: p.line, character: p.character } }
pub open spec fn l_severity(s: Severity) -> DiagnosticSeverity {
    match s { Severity::Error => DiagnosticSeverity(1), Severity::Warning => DiagnosticSeverity(2), Severity::Hint => DiagnosticSeverity(4) }
}
/// the published form of an issue
pub open spec fn shows(l: Diagnostic, d: crate::dts::diagnostics::Diagnostic, sev: SeverityMap) -> bool {
    &&& l.range == l_range(d.span)
    &&& l.message@ == d.message@
    &&& l.code matches Some(NumberOrString::String(s)) && s@ == code_name(d.kind)
    &&& l.severity == Some(l_severity(sev.inner.at(d.kind)))
    &&& l.source matches Some(s) && s@ == "ginko_ls"@
    &&& l.code_description is None && l.related_information is None && l.tags is None && l.data is None
}
pub open spec fn shows_all(l: Seq<Diagnostic>, d: Seq<crate::dts::diagnostics::Diagnostic>, sev: SeverityMap) -> bool {
    l.len() == d.len() && forall|i: int| 0 <= i < l.len() ==> shows(#[trigger] l[i], d[i], sev)
}
@fn Backend::new ret r
    ensures fine(r), r.client == client, r.project.files.map() == Map::<PathBuf, crate::dts::project::ProjectFile>::empty(), crate::dts::error_codes::standard(r.severities),
@rewrite
RwLock::new(Project::default()) >>> Project::default()
@fn lsp_severity_from_severity ret r
    ensures r == l_severity(severity_level),
@fn lsp_range_from_span ret r
    ensures r == l_range(span),
@fn lsp_pos_from_pos ret r
    ensures r == l_pos(pos),
@fn ginko_span_to_range ret r
    ensures r == l_range(span),
@fn position_to_ginko_position ret r
    ensures r == g_pos(position),
@fn ginko_position_to_position ret r
    ensures r == l_pos(position),
@fn range_to_ginko_span ret r
    ensures r == (Span { start: g_pos(range.start), end: g_pos(range.end) }),
@fn Backend::lsp_diag_from_diag ret r
    ensures shows(r, *diagnostic, self.severities),
@flag std
@rewrite
diagnostic.kind.as_ref().to_string() >>> name_of_code(diagnostic.kind)
@rewrite
..Default::default() >>> ..Diagnostic::default()
@end
@text
/// files are known by absolute names
pub open spec fn all_absolute(f: Files) -> bool { forall|k: PathBuf| #[trigger] f.contains_key(k) ==> absolute(k) }
/// what every request relies on, and keeps
pub open spec fn fine(b: Backend) -> bool { usable(b.project) && all_absolute(v_files(b.project.files.map())) }
/// the lists of issues of all files, in any order
pub open spec fn published(p: Project, sev: SeverityMap, a: Seq<Sent>, b: Seq<Sent>) -> bool {
    exists|keys: Seq<PathBuf>| #[trigger] sent_all(p, sev, keys, a, b) && keys.no_duplicates() && forall|k: PathBuf| #[trigger] keys.contains(k) <==> p.files.map().contains_key(k)
}
pub open spec fn sent_all(p: Project, sev: SeverityMap, keys: Seq<PathBuf>, a: Seq<Sent>, b: Seq<Sent>) -> bool {
    &&& b.len() == a.len() + keys.len() && a.is_prefix_of(b)
    &&& forall|i: int| 0 <= i < keys.len() ==> sent_one(p, sev, #[trigger] keys[i], b[a.len() + i])
}
/// the list of issues of one file
pub open spec fn sent_one(p: Project, sev: SeverityMap, k: PathBuf, s: Sent) -> bool {
    &&& url_of(k) == Some(s.url) && s.version is None
    &&& p.files.map().contains_key(k) && shows_all(s.issues, issues(p.files.map()[k]), sev)
}
pub proof fn lemma_files_dom(p: Project, k: PathBuf)
    ensures v_files(p.files.map()).contains_key(k) == p.files.map().contains_key(k),
{}
/// `project.get_diagnostics(file).map(|diag| self.lsp_diag_from_diag(diag)).collect_vec()`
fn converted(b: &Backend, v: Vec<&crate::dts::diagnostics::Diagnostic>) -> (r: Vec<Diagnostic>)
    ensures shows_all(r@, seen(v@), b.severities),
{
    let mut r: Vec<Diagnostic> = Vec::new();
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), r@.len() == i, forall|k: int| 0 <= k < i ==> shows(#[trigger] r@[k], seen(v@)[k], b.severities),
        decreases v@.len() - i,
    { let x = b.lsp_diag_from_diag(v[i]); r.push(x); i = i + 1; }
    r
}
@fn ProjectConfig::from_value ret r
    ensures r.includes@ == includes_in(value),
@rewrite
serde_json::from_value(value).unwrap_or_default() >>> config_of(value)
@fn Backend::url_to_file_path ret r
    ensures r == file_of(url),
@rewrite
MessageType::ERROR >>> error_type()
@fn Backend::publish_diagnostics
    requires fine(*old(self)),
    ensures final(self).project == old(self).project, final(self).severities == old(self).severities,
        published(old(self).project, old(self).severities, old(self).client.sent(), final(self).client.sent()),
@rewrite
&self >>> &mut self
@rewrite
self .project .read() .files() .map(|file| file.to_owned()) .collect_vec() >>> owned_paths(self.project.files())
@rewrite
self .project .read() .get_diagnostics(&file) .map(|diag| self.lsp_diag_from_diag(diag)) .collect_vec() >>> converted(self, self.project.get_diagnostics(file.as_path()))
@rewrite
Url::from_file_path(&file).unwrap() >>> Url::of_path(file.as_path()).unwrap()
@loop 0
    invariant fine(*self), self.project == old(self).project, self.severities == old(self).severities,
        i__0 <= seq__0@.len(), seq__0@ == keys, forall|k: PathBuf| #[trigger] keys.contains(k) <==> self.project.files.map().contains_key(k),
        sent_all(self.project, self.severities, keys.subrange(0, i__0 as int), old(self).client.sent(), self.client.sent()),
    decreases seq__0@.len() - i__0,
@proof after_let file_paths 0
    let ghost keys = file_paths@;
@proof loop 0 start
    let ghost before = self.client.sent();
    proof {
        assert(keys.contains(*file)); assert(self.project.files.map().contains_key(*file)); lemma_files_dom(self.project, *file);
        assert(v_files(self.project.files.map()).contains_key(*file));
        axiom_url(arbitrary(), *file);
    }
@proof loop 0 end
    proof {
        let a = old(self).client.sent();
        let b = self.client.sent();
        assert(b == before.push(b.last()));
        let ks = keys.subrange(0, i__0 as int);
        let k0 = keys.subrange(0, i__0 - 1);
        assert(ks.drop_last() =~= k0);
        assert forall|i: int| 0 <= i < ks.len() implies sent_one(self.project, self.severities, #[trigger] ks[i], b[a.len() + i]) by {
            if i < i__0 - 1 { assert(k0[i] == ks[i]); assert(sent_one(self.project, self.severities, k0[i], before[a.len() + i])); }
        }
    }
@proof loop 0 after
    proof { assert(keys.subrange(0, keys.len() as int) =~= keys); assert(sent_all(self.project, self.severities, keys, old(self).client.sent(), self.client.sent())); }
@text
/// a document has a new text
pub open spec fn given(a: Project, b: Project, path: PathBuf, text: Seq<char>) -> bool {
    &&& b.include_paths == a.include_paths && b.severities == a.severities
    &&& texts_after(v_files(a.files.map()), v_files(b.files.map()), known_as(path), text, type_of(path))
    &&& parsed(v_files(b.files.map()), b.include_paths@, known_as(path))
    &&& all_settled(v_files(b.files.map()), b.severities)
    &&& sane(a) ==> sane(b)
}
pub proof fn lemma_given(a: Project, b: Project, path: PathBuf, text: Seq<char>)
    requires given(a, b, path, text), all_absolute(v_files(a.files.map())), absolute(path),
    ensures all_absolute(v_files(b.files.map())),
{
    axiom_absolute(path);
    assert forall|k: PathBuf| #[trigger] v_files(b.files.map()).contains_key(k) implies absolute(k) by {
        axiom_absolute(k);
        if v_files(a.files.map()).contains_key(k) {} else if k != known_as(path) { assert(canon(k) == Some(k)); }
    }
}
/// the server after a document got a text
pub open spec fn taken_up(a: Backend, b: Backend, uri: Url, text: Seq<char>) -> bool {
    match file_of(uri) {
        None => b.project == a.project && b.client.sent() == a.client.sent(),
        Some(p) => given(a.project, b.project, p, text) && published(b.project, b.severities, a.client.sent(), b.client.sent()),
    }
}
/// the outline of a document
pub struct SSym {
    pub name: Seq<char>, pub kind: SymbolKind, pub tags: Option<Seq<SymbolTag>>, pub range: Range, pub sel: Range,
    pub children: Option<Seq<SSym>>, pub plain: bool,
}
#[verifier::opaque]
pub open spec fn v_sym(s: DocumentSymbol) -> SSym decreases s {
    SSym {
        name: s.name@, kind: s.kind, tags: match s.tags { Some(t) => Some(t@), None => None }, range: s.range, sel: s.selection_range,
        children: match s.children {
            Some(v) => Some(Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { v_sym(v@[i]) } else { arbitrary() })),
            None => None,
        },
        plain: s.detail is None && s.deprecated is None,
    }
}
pub open spec fn v_syms(c: Seq<DocumentSymbol>) -> Seq<SSym> { c.map_values(|c: DocumentSymbol| v_sym(c)) }
pub open spec fn a_sym(name: Seq<char>, kind: SymbolKind, deleted: bool, range: Span, sel: Span, children: Option<Seq<SSym>>) -> SSym {
    SSym { name, kind, tags: if deleted { Some(seq![SymbolTag(1)]) } else { None }, range: l_range(range), sel: l_range(sel), children, plain: true }
}
pub open spec fn k_file() -> SymbolKind { SymbolKind(1) }
pub open spec fn k_module() -> SymbolKind { SymbolKind(2) }
pub open spec fn k_property() -> SymbolKind { SymbolKind(7) }
pub open spec fn k_field() -> SymbolKind { SymbolKind(8) }
pub open spec fn from_to(a: STok, b: STok) -> Span { Span { start: a.span.start, end: b.span.end } }
pub open spec fn sym_node(n: SNode) -> SSym decreases n { a_sym(n.name.item.name, k_module(), false, node_span(n), n.name.tok.span, Some(syms_of(n.pay))) }
pub open spec fn syms_of(p: SPay) -> Seq<SSym> decreases p {
    Seq::new(p.items.len(), |i: int| if 0 <= i < p.items.len() { sym_item(p.items[i]) } else { arbitrary() })
}
pub open spec fn sym_item(i: SItem) -> SSym decreases i {
    match i {
        SItem::Prop(p) => a_sym(p.name.item, k_property(), false, prop_span(p), p.name.tok.span, None),
        SItem::Node(n) => sym_node(n),
        SItem::DelNode(t, n) => a_sym(name_text(n.item), k_module(), true, from_to(t, n.tok), n.tok.span, None),
        SItem::DelProp(t, n) => a_sym(n.item, k_property(), true, from_to(t, n.tok), n.tok.span, None),
    }
}
pub open spec fn sym_prim(p: SPrim) -> Option<SSym> {
    match p {
        SPrim::Root(n) => Some(sym_node(n)),
        SPrim::Refd(r, p) => Some(a_sym(refr_text(r.item), k_module(), false, refd_span(r, p), r.tok.span, Some(syms_of(p)))),
        SPrim::Dir(SDirv::Include(i)) => Some(a_sym("include "@ + i.file.item, k_file(), false, inc_span(i), i.file.tok.span, None)),
        SPrim::Dir(SDirv::DelNode(t, r)) => Some(a_sym(refr_text(r.item), k_module(), true, from_to(t, r.tok), r.tok.span, None)),
        SPrim::Dir(SDirv::Omit(t, r)) => Some(a_sym(refr_text(r.item), k_field(), false, from_to(t, r.tok), r.tok.span, None)),
        _ => None,
    }
}
/// the outline of the first elements
pub open spec fn outline(e: Seq<SPrim>, n: int) -> Seq<SSym> decreases n {
    if n <= 0 { seq![] } else { match sym_prim(e[n - 1]) { Some(s) => outline(e, n - 1).push(s), None => outline(e, n - 1) } }
}
/// what is shown about the item at a position
pub open spec fn answer(p: Project, path: PathBuf, c: crate::dts::data::Position) -> Option<Seq<char>> {
    match item_at(p, path, c) {
        Some(SAt::Ref(r)) => match referenced(p, path, r) { Some(n) => Some("Node "@ + n.name.item.name), None => None },
        Some(SAt::Label(l)) => Some(l.item),
        Some(SAt::Inc(i)) => Some(i.file.item),
        _ => None,
    }
}
pub open spec fn item_at(p: Project, path: PathBuf, c: crate::dts::data::Position) -> Option<SAt> {
    match tree_at(p, path) { Some(f) => find(spots_file(f.elements, f.elements.len() as int), c), None => None }
}
/// where the item at a position leads to
pub open spec fn target(p: Project, path: PathBuf, c: crate::dts::data::Position) -> Option<(PathBuf, Range)> {
    match item_at(p, path, c) {
        Some(SAt::Ref(r)) => match referenced(p, path, r) { Some(n) => Some((owned(&*n.name.tok.src), l_range(n.name.tok.span))), None => None },
        Some(SAt::Inc(i)) => match inc_file(i) { Some(q) => if url_of(q) is Some { Some((q, l_range(inc_span(i)))) } else { None }, None => None },
        _ => None,
    }
}
/// the trees of all documents are sound
pub proof fn lemma_trees(p: Project, path: PathBuf)
    requires usable(p),
    ensures tree_at(p, path) matches Some(f) ==> ok_prims(f.elements),
        forall|c: crate::dts::data::Position| #[trigger] item_at(p, path, c) matches Some(SAt::Inc(i)) ==> span_ok(inc_span(i)),
{
    let k = known_as(path);
    lemma_files_dom(p, k);
    if p.files.map().contains_key(k) { lemma_tree(v_files(p.files.map()), k); }
    assert forall|c: crate::dts::data::Position| (#[trigger] item_at(p, path, c) matches Some(SAt::Inc(i)) ==> span_ok(inc_span(i))) by {
        if let Some(f) = tree_at(p, path) { lemma_straight_file(f.elements, f.elements.len() as int); lemma_straight_find(spots_file(f.elements, f.elements.len() as int), c); }
    }
}
pub proof fn lemma_trees_all(p: Project)
    requires usable(p),
    ensures forall|path: PathBuf| #[trigger] tree_at(p, path) matches Some(f) ==> ok_prims(f.elements),
{ assert forall|path: PathBuf| #[trigger] tree_at(p, path) is Some implies ok_prims(tree_at(p, path)->Some_0.elements) by { lemma_trees(p, path); } }
pub broadcast proof fn lemma_v_sym(s: DocumentSymbol)
    ensures #[trigger] v_sym(s) == (SSym {
        name: s.name@, kind: s.kind, tags: match s.tags { Some(t) => Some(t@), None => None }, range: s.range, sel: s.selection_range,
        children: match s.children { Some(v) => Some(v_syms(v@)), None => None },
        plain: s.detail is None && s.deprecated is None,
    }),
{
    reveal(v_sym);
    match s.children { Some(v) => { assert(v_sym(s).children->Some_0 =~= v_syms(v@)); }, None => {} }
}
@fn <Backend as LanguageServer>::initialize ret r
    requires fine(*old(self)),
    ensures fine(*final(self)), final(self).project.files == old(self).project.files, final(self).client == old(self).client,
@rewrite
&self >>> &mut self
@rewrite
params.initialization_options.unwrap_or_default() >>> or_null(params.initialization_options)
@fn <Backend as LanguageServer>::did_change_configuration
    requires fine(*old(self)),
    ensures fine(*final(self)), final(self).project.files == old(self).project.files,
        published(final(self).project, final(self).severities, old(self).client.sent(), final(self).client.sent()),
@rewrite
&self >>> &mut self
@fn <Backend as LanguageServer>::initialized
@rewrite
_: >>> p__:
@fn <Backend as LanguageServer>::shutdown
@fn <Backend as LanguageServer>::did_save
@rewrite
_: >>> p__:
@fn <Backend as LanguageServer>::did_open
    requires fine(*old(self)), encode_utf8(params.text_document.text@).len() <= MAX_LEN,
    ensures fine(*final(self)), final(self).severities == old(self).severities,
        taken_up(*old(self), *final(self), params.text_document.uri, params.text_document.text@),
@rewrite
&self >>> &mut self
@proof body_start
    let ghost p0 = self.project;
    let ghost t0 = params.text_document.text@;
    proof { axiom_url(params.text_document.uri, arbitrary()); }
@proof after_call add_file_with_text 0
    proof { assert(given(p0, self.project, file_path, t0)); lemma_given(p0, self.project, file_path, t0); }
@fn <Backend as LanguageServer>::did_change
    requires fine(*old(self)), params.content_changes@.len() > 0 ==> encode_utf8(params.content_changes@.last().text@).len() <= MAX_LEN,
    ensures fine(*final(self)), final(self).severities == old(self).severities,
        params.content_changes@.len() == 0 ==> final(self).project == old(self).project && final(self).client.sent() == old(self).client.sent(),
        params.content_changes@.len() > 0 ==> taken_up(*old(self), *final(self), params.text_document.uri, params.content_changes@.last().text@),
@rewrite
&self >>> &mut self
@rewrite
params.content_changes.into_iter().last() >>> last_of(params.content_changes)
@proof body_start
    let ghost p0 = self.project;
    let ghost t0 = params.content_changes@.last().text@;
    proof { axiom_url(params.text_document.uri, arbitrary()); }
@proof after_call add_file_with_text 0
    proof { assert(given(p0, self.project, file_path, t0)); lemma_given(p0, self.project, file_path, t0); }
@fn <Backend as LanguageServer>::did_close
    requires fine(*old(self)),
    ensures fine(*final(self)), final(self).severities == old(self).severities, final(self).client == old(self).client,
        final(self).project.include_paths == old(self).project.include_paths,
        match file_of(params.text_document.uri) {
            None => final(self).project == old(self).project,
            Some(p) => final(self).project.files.map() == old(self).project.files.map().remove(known_as(p)),
        },
@rewrite
&self >>> &mut self
@rewrite
&file_path >>> file_path.as_path()
@proof body_start
    let ghost f0 = v_files(self.project.files.map());
@proof after_call remove_file 0
    proof { lemma_removed(f0, v_files(self.project.files.map()), known_as(file_path)); }
@fn <Backend as LanguageServer>::hover ret r
    requires fine(*self),
    ensures r matches Ok(h) && match file_of(params.text_document_position_params.text_document.uri) {
        None => h is None,
        Some(p) => match answer(self.project, p, g_pos(params.text_document_position_params.position)) {
            None => h is None,
            Some(t) => h matches Some(Hover { contents: HoverContents::Scalar(MarkedString::String(s)), range: None }) && s@ == t,
        },
    },
@rewrite
&file_path >>> file_path.as_path()
@proof body_start
    hide(usable); hide(all_absolute); hide(find); hide(spots_file); hide(find_ref); hide(ok_prims);
    broadcast use crate::spec::group_std;
    proof { crate::spec::std_facts(); if let Some(p__) = file_of(params.text_document_position_params.text_document.uri) { lemma_trees(self.project, p__); } }
@fn <Backend as LanguageServer>::goto_definition ret r
    requires fine(*self),
    ensures r matches Ok(h) && match file_of(params.text_document_position_params.text_document.uri) {
        None => h is None,
        Some(p) => match target(self.project, p, g_pos(params.text_document_position_params.position)) {
            None => h is None,
            Some((q, range)) => h matches Some(GotoDefinitionResponse::Scalar(l)) && url_of(q) == Some(l.uri) && l.range == range,
        },
    },
@rewrite
&file_path >>> file_path.as_path()
@rewrite
Url::from_file_path(path).unwrap() >>> Url::must(crate::host::to_owned(&path).as_path())
@rewrite
.and_then(|path| Url::from_file_path(path).ok()) >>> .and_then(|path: PathBuf| -> (u__: Option<Url>) ensures u__ == url_of(path) { Url::of_path(path.as_path()).ok() })
@proof body_start
    hide(usable); hide(all_absolute); hide(find); hide(spots_file); hide(find_ref); hide(ok_prims);
    proof { if let Some(p__) = file_of(params.text_document_position_params.text_document.uri) { lemma_trees(self.project, p__); } }
@fn <Backend as LanguageServer>::document_symbol ret r
    requires fine(*self),
    ensures r matches Ok(h) && match file_of(params.text_document.uri) {
        None => h is None,
        Some(p) => match tree_at(self.project, p) {
            None => h is None,
            Some(f) => h matches Some(DocumentSymbolResponse::Nested(v)) && v_syms(v@) == outline(f.elements, f.elements.len() as int),
        },
    },
@flag text
@rewrite
&file_path >>> file_path.as_path()
@rewrite
root .elements .iter() .filter_map(|el| match el { >>> { let all__ = &root.elements; let ghost e__ = root@.elements; let mut nodes__: Vec<DocumentSymbol> = Vec::new(); let mut i__: usize = 0; while i__ < all__.len() invariant i__ <= all__@.len(), e__ == v_prims(all__@), ok_prims(e__), v_syms(nodes__@) == outline(e__, i__ as int), decreases all__@.len() - i__ { let el = &all__[i__]; i__ = i__ + 1; proof { assert(e__[i__ - 1] == el@); assert(ok_prim(e__[i__ - 1])); } broadcast use lemma_v_sym; let found__ = match el {
@rewrite
_ => None, }) .collect_vec() >>> _ => None, }; proof {
        lemma_v_sym(found__->Some_0);
        let l = v_sym(found__->Some_0); let w = sym_prim(e__[i__ - 1])->Some_0;
        match *el {
            Primary::Root(_) => { assert(l == w); },
            Primary::ReferencedNode(_) => { assert(l.name == w.name); assert(l.children == w.children); assert(l =~~= w); },
            Primary::Directive(AnyDirective::Include(_)) => { assert(l.name == w.name); assert(l =~~= w); },
            Primary::Directive(AnyDirective::DeletedNode(_, _)) => { assert(l.name == w.name); assert(l.tags->Some_0 =~= w.tags->Some_0); assert(l =~~= w); },
            Primary::Directive(AnyDirective::OmitIfNoRef(_, _)) => { assert(l.name == w.name); assert(l =~~= w); },
            _ => { assert(found__ is None); },
        }
        assert((match found__ { Some(s__) => Some(v_sym(s__)), None => None }) == sym_prim(e__[i__ - 1])); } if let Some(s__) = found__ { let ghost n0__ = nodes__@; nodes__.push(s__); proof { assert(v_syms(nodes__@) =~= v_syms(n0__).push(v_sym(s__))); } } } nodes__ }
@proof body_start
    hide(usable); hide(all_absolute); hide(fine); hide(syms_of); hide(sym_node); hide(ok_pay); hide(ok_node); hide(known_as);
    broadcast use {group_text, crate::spec::group_std};
    proof { crate::spec::std_facts(); reveal(fine); lemma_trees_all(self.project); }
@fn <Backend as LanguageServer>::document_symbol::node_payload_to_symbol ret r
    requires ok_pay(v_pay(*payload)),
    ensures v_syms(r@) == syms_of(v_pay(*payload)),
    decreases payload,
@flag text
@proof body_start
    broadcast use {group_text, lemma_v_sym, crate::spec::group_std};
    proof { crate::spec::std_facts(); lemma_v_pay(*payload); }
@loop 0
    invariant i__0 <= seq__0@.len(), seq__0@ == payload.items@, v_items(payload.items@) == v_pay(*payload).items, ok_pay(v_pay(*payload)),
        v_syms(children@) == syms_of(v_pay(*payload)).subrange(0, i__0 as int),
    decreases seq__0@.len() - i__0,
@proof loop 0 start
    broadcast use {lemma_v_sym, crate::spec::group_std};
    proof { assert(v_pay(*payload).items[i__0 - 1] == v_item(*el)); assert(ok_item(v_pay(*payload).items[i__0 - 1])); }
    let ghost c0 = children@;
@proof loop 0 end
    proof {
        lemma_v_sym(document_symbol);
        let l = v_sym(document_symbol); let w = sym_item(v_item(*el));
        match *el {
            NodeItem::Property(_) => { assert(l.name == w.name); assert(l =~~= w); },
            NodeItem::Node(_) => { assert(l == w); },
            NodeItem::DeletedNode(_, _) => { assert(l.name == w.name); assert(l.tags->Some_0 =~= w.tags->Some_0); assert(l =~~= w); },
            NodeItem::DeletedProperty(_, _) => { assert(l.name == w.name); assert(l.tags->Some_0 =~= w.tags->Some_0); assert(l =~~= w); },
        }
        assert(v_sym(children@.last()) == sym_item(v_item(*el)));
        assert(v_syms(children@) =~= v_syms(c0).push(v_sym(children@.last())));
        assert(syms_of(v_pay(*payload)).subrange(0, i__0 as int) =~= syms_of(v_pay(*payload)).subrange(0, i__0 - 1).push(sym_item(v_item(*el))));
    }
@proof loop 0 after
    proof { assert(syms_of(v_pay(*payload)).subrange(0, payload.items@.len() as int) =~= syms_of(v_pay(*payload))); }
@fn <Backend as LanguageServer>::document_symbol::node_to_symbol ret r
    requires ok_node(v_node(*node)),
    ensures v_sym(r) == sym_node(v_node(*node)),
    decreases node,
@rewrite
node.name.name.clone() >>> node.name.item().name.clone()
@proof body_start
    broadcast use lemma_v_sym;
@end
@text
pub proof fn lemma_removed(f: Files, g: Files, k: PathBuf)
    requires fit(f), no_tree_no_finding(f), all_absolute(f), g.dom() == f.dom().remove(k), forall|q: PathBuf| g.contains_key(q) ==> #[trigger] g[q] == f[q],
    ensures fit(g), no_tree_no_finding(g), all_absolute(g),
{
    assert forall|q: PathBuf| g.contains_key(q) implies f.contains_key(q) && #[trigger] g[q] == f[q] by { assert(f.dom().remove(k).contains(q)); }
    assert forall|q: PathBuf| #[trigger] g.contains_key(q) implies known_as(q) == q && once_parsed(g, q) && encode_utf8(g[q].src).len() <= MAX_LEN by {
        assert(g[q] == f[q]); assert(f.contains_key(q));
        let ds = choose|ds: Seq<PathBuf>| #[trigger] parsed(f, ds, q);
        let known = choose|known: Set<PathBuf>| base(f[q]) == #[trigger] parsed_pf(q, f[q].src, f[q].typ, ds, known);
        assert(base(g[q]) == parsed_pf(q, g[q].src, g[q].typ, ds, known));
        assert(parsed(g, ds, q));
    }
    assert forall|q: PathBuf| #[trigger] g.contains_key(q) && g[q].file is None implies g[q].ctx is None && g[q].aerr.len() == 0 by { assert(g[q] == f[q]); assert(f.contains_key(q)); }
    assert forall|q: PathBuf| #[trigger] g.contains_key(q) implies absolute(q) by { assert(g[q] == f[q]); assert(f.contains_key(q)); }
}
