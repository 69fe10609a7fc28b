// The values behind the types of the analysis and the project.
use vstd::prelude::*;
use crate::spec::*;
use crate::gram::*;
use crate::host::*;
use crate::anal::*;
use crate::dts::analysis::*;
use crate::dts::project::*;
use crate::dts::import_guard::*;
use crate::dts::ast::*;
use crate::dts::data::*;
use crate::dts::error_codes::*;
use crate::dts::diagnostics::*;
use std::sync::Arc;
use std::path::{Path as StdPath, PathBuf};
verus! {

pub open spec fn v_lab(l: Labeled) -> SLab {
    match l { Labeled::Node(n) => SLab::Node(v_node(*n)), Labeled::Property(p) => SLab::Prop((*p)@) }
}
pub open spec fn v_labs(m: Map<Seq<char>, Labeled>) -> Map<Seq<char>, SLab> { m.map_values(|l: Labeled| v_lab(l)) }
pub open spec fn v_paths(m: Map<Seq<char>, Path>) -> Map<Seq<char>, Seq<SName>> { m.map_values(|l: Path| l@) }
pub open spec fn v_nodes(m: Map<Seq<SName>, Arc<Node>>) -> Map<Seq<SName>, SNode> { m.map_values(|l: Arc<Node>| v_node(*l)) }
pub open spec fn v_ctx(c: AnalysisContext) -> SCtx {
    SCtx { labels: v_labs(c.labels.map()), paths: v_paths(c.label_paths.map()), nodes: v_nodes(c.flat_nodes.map()) }
}
pub open spec fn v_refs(c: Seq<WithToken<Reference>>) -> Seq<SWt<SRefr>> { c.map_values(|r: WithToken<Reference>| wt(r)) }
pub open spec fn sa(c: FileContext<'_>, edges: Edges) -> SAn {
    SAn {
        ds: v_ds(c.diagnostics@),
        ctx: SCtx { labels: v_labs(c.labels.map()), paths: v_paths(c.label_paths.map()), nodes: v_nodes(c.flat_nodes.map()) },
        unres: v_refs(c.unresolved_references@), plugin: c.is_plugin, first: c.first_non_include, header: c.dts_header_seen, edges,
    }
}
pub open spec fn sx(c: FileContext<'_>) -> SAn { sa(c, ISet::empty()) }
pub open spec fn edges_of(g: ImportGuard<PathBuf>) -> Edges { ISet::new(|p: (PathBuf, PathBuf)| edge(g.nodes@, p.0, p.1)) }
pub open spec fn env(p: Project, typ: FileType, src: Arc<StdPath>) -> SEnv {
    SEnv { files: v_files(p.files.map()), sev: p.severities, typ, src }
}
/// the file under analysis stays the same
pub open spec fn same(a: FileContext<'_>, b: FileContext<'_>) -> bool { a.project == b.project && a.file_type == b.file_type }

pub open spec fn v_pf(f: ProjectFile) -> SPf {
    SPf {
        perr: v_ds(f.parser_diagnostics@), aerr: v_ds(f.analysis_diagnostics@),
        file: match f.file { Some(x) => Some(x@), None => None },
        ctx: match f.context { Some(x) => Some(v_ctx(x)), None => None },
        typ: f.file_type, src: f.source@,
    }
}
pub open spec fn v_files(m: Map<PathBuf, ProjectFile>) -> Map<PathBuf, SPf> { m.map_values(|f: ProjectFile| v_pf(f)) }

pub broadcast proof fn lemma_labs_insert(m: Map<Seq<char>, Labeled>, k: Seq<char>, v: Labeled)
    ensures #[trigger] v_labs(m.insert(k, v)) == v_labs(m).insert(k, v_lab(v)),
{ assert(v_labs(m.insert(k, v)) =~= v_labs(m).insert(k, v_lab(v))); }
pub broadcast proof fn lemma_paths_insert(m: Map<Seq<char>, Path>, k: Seq<char>, v: Path)
    ensures #[trigger] v_paths(m.insert(k, v)) == v_paths(m).insert(k, v@),
{ assert(v_paths(m.insert(k, v)) =~= v_paths(m).insert(k, v@)); }
pub broadcast proof fn lemma_nodes_insert(m: Map<Seq<SName>, Arc<Node>>, k: Seq<SName>, v: Arc<Node>)
    ensures #[trigger] v_nodes(m.insert(k, v)) == v_nodes(m).insert(k, v_node(*v)),
{ assert(v_nodes(m.insert(k, v)) =~= v_nodes(m).insert(k, v_node(*v))); }
pub broadcast proof fn lemma_labs_union(m: Map<Seq<char>, Labeled>, o: Map<Seq<char>, Labeled>)
    ensures #[trigger] v_labs(m.union_prefer_right(o)) == v_labs(m).union_prefer_right(v_labs(o)),
{ assert(v_labs(m.union_prefer_right(o)) =~= v_labs(m).union_prefer_right(v_labs(o))); }
pub broadcast proof fn lemma_paths_union(m: Map<Seq<char>, Path>, o: Map<Seq<char>, Path>)
    ensures #[trigger] v_paths(m.union_prefer_right(o)) == v_paths(m).union_prefer_right(v_paths(o)),
{ assert(v_paths(m.union_prefer_right(o)) =~= v_paths(m).union_prefer_right(v_paths(o))); }
pub broadcast proof fn lemma_nodes_union(m: Map<Seq<SName>, Arc<Node>>, o: Map<Seq<SName>, Arc<Node>>)
    ensures #[trigger] v_nodes(m.union_prefer_right(o)) == v_nodes(m).union_prefer_right(v_nodes(o)),
{ assert(v_nodes(m.union_prefer_right(o)) =~= v_nodes(m).union_prefer_right(v_nodes(o))); }
pub broadcast proof fn lemma_no_maps()
    ensures
        #[trigger] v_labs(Map::<Seq<char>, Labeled>::empty()) == Map::<Seq<char>, SLab>::empty(),
        #[trigger] v_paths(Map::<Seq<char>, Path>::empty()) == Map::<Seq<char>, Seq<SName>>::empty(),
        #[trigger] v_nodes(Map::<Seq<SName>, Arc<Node>>::empty()) == Map::<Seq<SName>, SNode>::empty(),
{
    assert(v_labs(Map::<Seq<char>, Labeled>::empty()) =~= Map::<Seq<char>, SLab>::empty());
    assert(v_paths(Map::<Seq<char>, Path>::empty()) =~= Map::<Seq<char>, Seq<SName>>::empty());
    assert(v_nodes(Map::<Seq<SName>, Arc<Node>>::empty()) =~= Map::<Seq<SName>, SNode>::empty());
}
pub broadcast proof fn lemma_push_refs(c: Seq<WithToken<Reference>>, r: WithToken<Reference>)
    ensures #[trigger] v_refs(c.push(r)) == v_refs(c).push(wt(r)),
{ assert(v_refs(c.push(r)) =~= v_refs(c).push(wt(r))); }

pub broadcast proof fn lemma_cat_none<T>(a: Seq<T>, b: Seq<T>)
    ensures b.len() == 0 ==> #[trigger] (a + b) == a,
{ if b.len() == 0 { assert(a + b =~= a); } }
pub broadcast proof fn lemma_cat_push<T>(a: Seq<T>, b: Seq<T>, x: T)
    ensures #[trigger] (a + b).push(x) == a + b.push(x), 
{ assert((a + b).push(x) =~= a + b.push(x)); }
pub broadcast proof fn lemma_push_cat<T>(a: Seq<T>, b: Seq<T>, x: T)
    ensures #[trigger] (a + b.push(x)) == (a + b).push(x),
{ assert((a + b).push(x) =~= a + b.push(x)); }
pub broadcast proof fn lemma_cat_cat<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>)
    ensures #[trigger] ((a + b) + c) == a + (b + c),
{ assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn lemma_files_insert(m: Map<PathBuf, ProjectFile>, k: PathBuf, v: ProjectFile)
    ensures #[trigger] v_files(m.insert(k, v)) == v_files(m).insert(k, v_pf(v)),
{ assert(v_files(m.insert(k, v)) =~= v_files(m).insert(k, v_pf(v))); }
/// the guard knows the edges and finds their circles
pub proof fn lemma_edges(g: ImportGuard<PathBuf>, h: ImportGuard<PathBuf>, p: PathBuf, d: PathBuf)
    requires forall|a: PathBuf, b: PathBuf| #[trigger] edge(h.nodes@, a, b) <==> edge(g.nodes@, a, b) || (a == p && seq![d].contains(b)),
    ensures edges_of(h) == edges_of(g).insert((p, d)), cyclic(edges_of(h), p) <==> on_circle(h.nodes@, p),
{
    assert(seq![d][0] == d);
    assert forall|x: (PathBuf, PathBuf)| edges_of(h).contains(x) <==> edges_of(g).insert((p, d)).contains(x) by {
        assert(edge(h.nodes@, x.0, x.1) <==> edge(g.nodes@, x.0, x.1) || (x.0 == p && seq![d].contains(x.1)));
        assert(seq![d].contains(x.1) <==> x.1 == d);
    }
    assert(edges_of(h) =~= edges_of(g).insert((p, d)));
    let e = edges_of(h);
    assert forall|s: Seq<PathBuf>| walk_of(e, s) <==> walk(h.nodes@, s) by {
        if walk_of(e, s) { assert forall|i: int| 0 <= i < s.len() - 1 implies edge(h.nodes@, #[trigger] s[i], s[i + 1]) by { assert(step(e, s, i)); assert(e.contains((s[i], s[i + 1]))); } }
        if walk(h.nodes@, s) { assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] step(e, s, i) by { assert(edge(h.nodes@, s[i], s[i + 1])); } }
    }
    if on_circle(h.nodes@, p) { let s = choose|s: Seq<PathBuf>| circle(h.nodes@, p, s); assert(walk_of(e, s)); }
    if cyclic(e, p) { let s = choose|s: Seq<PathBuf>| #[trigger] walk_of(e, s) && s[0] == p && s.last() == p; assert(circle(h.nodes@, p, s)); }
}

} // verus!
