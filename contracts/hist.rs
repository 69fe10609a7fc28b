// What is known about the files of a project is a function of their texts.
use vstd::prelude::*;
use vstd::utf8::encode_utf8;
use crate::spec::*;
use crate::lex::*;
use crate::gram::*;
use crate::tree::*;
use crate::host::*;
use crate::anal::*;
use crate::proj::*;
use crate::dts::ast::*;
use crate::dts::data::{FileType, Position, Span};
use crate::dts::diagnostics::*;
use crate::dts::error_codes::*;
use crate::dts::tokens::token::*;
use std::sync::Arc;
use std::path::{Path as StdPath, PathBuf};
verus! {

// ---- the state of a project -----------------------------------------------------------------------

/// a file before its analysis
pub open spec fn base(x: SPf) -> SPf { SPf { aerr: seq![], ctx: None, ..x } }
pub open spec fn same_base(f: Files, g: Files) -> bool {
    f.dom() == g.dom() && forall|k: PathBuf| #[trigger] f.contains_key(k) ==> base(f[k]) == base(g[k])
}
/// no include of the file leads back to itself
pub open spec fn clear(f: Files, k: PathBuf) -> bool { forall|p: PathBuf| #[trigger] needs(f, k, p) ==> !reach(f, p, p) }
pub open spec fn env_of(f: Files, sev: SeverityMap, k: PathBuf, t: SFile) -> SEnv { SEnv { files: f, sev, typ: f[k].typ, src: t.src } }
/// what the analysis of a file finds, given what is known about the others
pub open spec fn finding(f: Files, sev: SeverityMap, k: PathBuf, t: SFile) -> SAn { analyzed(env_of(f, sev, k, t), ISet::empty(), t.elements) }
pub open spec fn settled(f: Files, sev: SeverityMap, k: PathBuf) -> bool {
    match f[k].file {
        Some(t) => clear(f, k) ==> f[k].ctx == Some(finding(f, sev, k, t).ctx) && f[k].aerr == finding(f, sev, k, t).ds,
        None => f[k].ctx is None && f[k].aerr.len() == 0,
    }
}
pub open spec fn parsed(f: Files, dirs: Seq<PathBuf>, k: PathBuf) -> bool {
    exists|known: Set<PathBuf>| base(f[k]) == #[trigger] parsed_pf(k, f[k].src, f[k].typ, dirs, known)
}
/// ... for some include directories
pub open spec fn once_parsed(f: Files, k: PathBuf) -> bool { exists|dirs: Seq<PathBuf>| #[trigger] parsed(f, dirs, k) }
/// files are parsed and known by their canonical names
pub open spec fn fit(f: Files) -> bool {
    forall|k: PathBuf| #[trigger] f.contains_key(k) ==> known_as(k) == k && once_parsed(f, k) && encode_utf8(f[k].src).len() <= MAX_LEN
}
/// files are analysed
pub open spec fn all_settled(f: Files, sev: SeverityMap) -> bool { forall|k: PathBuf| #[trigger] f.contains_key(k) ==> settled(f, sev, k) }
pub proof fn lemma_fit(f: Files, dirs: Seq<PathBuf>)
    requires loaded_all(f, dirs),
    ensures fit(f),
{ assert forall|k: PathBuf| #[trigger] f.contains_key(k) implies once_parsed(f, k) by { assert(parsed(f, dirs, k)); } }
/// files are parsed; known by their canonical names; includes that can be read are there
pub open spec fn loaded_all(f: Files, dirs: Seq<PathBuf>) -> bool {
    &&& forall|k: PathBuf| #[trigger] f.contains_key(k) ==> known_as(k) == k && parsed(f, dirs, k) && encode_utf8(f[k].src).len() <= MAX_LEN
    &&& forall|k: PathBuf, p: PathBuf| #[trigger] includes(f, k, p) && content(p) is Some ==> f.contains_key(p)
}
pub open spec fn healthy(f: Files, sev: SeverityMap, dirs: Seq<PathBuf>) -> bool {
    loaded_all(f, dirs) && forall|k: PathBuf| #[trigger] f.contains_key(k) ==> settled(f, sev, k)
}
pub proof fn lemma_tree(f: Files, k: PathBuf)
    requires fit(f), f.contains_key(k),
    ensures f[k].file matches Some(t) ==> t.src == shared(k) && owned(&*t.src) == k && ok_prims(t.elements),
{
    let dirs = choose|dirs: Seq<PathBuf>| #[trigger] parsed(f, dirs, k);
    let known = choose|known: Set<PathBuf>| base(f[k]) == #[trigger] parsed_pf(k, f[k].src, f[k].typ, dirs, known);
    axiom_shared(k);
    lemma_parsed_ok(k, f[k].src, dirs);
}

// ---- circles --------------------------------------------------------------------------------------

pub proof fn lemma_base(f: Files, g: Files)
    requires same_base(f, g),
    ensures
        forall|a: PathBuf, b: PathBuf| includes(f, a, b) == #[trigger] includes(g, a, b),
        forall|a: PathBuf, b: PathBuf| needs(f, a, b) == #[trigger] needs(g, a, b),
        forall|a: PathBuf, b: PathBuf| reach(f, a, b) == #[trigger] reach(g, a, b),
        forall|a: PathBuf| clear(f, a) == #[trigger] clear(g, a),
        forall|o: Seq<PathBuf>| in_place(f, o) == #[trigger] in_place(g, o),
{
    assert forall|a: PathBuf, b: PathBuf| includes(f, a, b) == #[trigger] includes(g, a, b) by {
        assert(f.dom().contains(a) == g.dom().contains(a));
        if f.contains_key(a) { assert(base(f[a]).file == base(g[a]).file); }
    }
    assert forall|a: PathBuf, b: PathBuf| needs(f, a, b) == #[trigger] needs(g, a, b) by {
        assert(includes(f, a, b) == includes(g, a, b)); assert(f.dom().contains(b) == g.dom().contains(b));
    }
    assert forall|s: Seq<PathBuf>| chain(f, s) == #[trigger] chain(g, s) by {
        if chain(f, s) { assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] hop(g, s, i) by { assert(hop(f, s, i) == hop(g, s, i)); assert(needs(f, s[i], s[i + 1]) == needs(g, s[i], s[i + 1])); } }
        if chain(g, s) { assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] hop(f, s, i) by { assert(hop(f, s, i) == hop(g, s, i)); assert(needs(f, s[i], s[i + 1]) == needs(g, s[i], s[i + 1])); } }
    }
    assert forall|a: PathBuf, b: PathBuf| reach(f, a, b) == #[trigger] reach(g, a, b) by {
        if reach(f, a, b) { let s = choose|s: Seq<PathBuf>| #[trigger] chain(f, s) && s[0] == a && s.last() == b; assert(chain(g, s)); }
        if reach(g, a, b) { let s = choose|s: Seq<PathBuf>| #[trigger] chain(g, s) && s[0] == a && s.last() == b; assert(chain(f, s) == chain(g, s)); }
    }
    assert forall|a: PathBuf| clear(f, a) == #[trigger] clear(g, a) by {
        if clear(f, a) { assert forall|p: PathBuf| #[trigger] needs(g, a, p) implies !reach(g, p, p) by { assert(needs(f, a, p) == needs(g, a, p)); assert(reach(f, p, p) == reach(g, p, p)); } }
        if clear(g, a) { assert forall|p: PathBuf| #[trigger] needs(f, a, p) implies !reach(f, p, p) by { assert(needs(f, a, p) == needs(g, a, p)); assert(reach(f, p, p) == reach(g, p, p)); } }
    }
    assert forall|o: Seq<PathBuf>| in_place(f, o) == #[trigger] in_place(g, o) by {
        if in_place(f, o) { assert forall|j: int, q: PathBuf| 0 <= j < o.len() && #[trigger] needs(g, o[j], q) implies reach(g, o[j], o[j]) || before(o, j, q) by { assert(needs(f, o[j], q) == needs(g, o[j], q)); assert(reach(f, o[j], o[j]) == reach(g, o[j], o[j])); } }
        if in_place(g, o) { assert forall|j: int, q: PathBuf| 0 <= j < o.len() && #[trigger] needs(f, o[j], q) implies reach(f, o[j], o[j]) || before(o, j, q) by { assert(needs(f, o[j], q) == needs(g, o[j], q)); assert(reach(f, o[j], o[j]) == reach(g, o[j], o[j])); } }
    }
}
/// a file on a circle has an include on the circle
pub proof fn lemma_clear(f: Files, k: PathBuf)
    requires clear(f, k),
    ensures !reach(f, k, k),
{
    if reach(f, k, k) {
        let s = choose|s: Seq<PathBuf>| #[trigger] chain(f, s) && s[0] == k && s.last() == k;
        let p = s[1];
        assert(hop(f, s, 0));
        if s.len() > 2 {
            let t = s.skip(1);
            assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] hop(f, t, i) by { assert(hop(f, s, i + 1)); }
            assert(chain(f, t) && t[0] == p && t.last() == k);
            lemma_reach_on(f, p, k, p);
        } else { assert(p == k); }
    }
}
/// all edges stand for includes
pub open spec fn edges_in(f: Files, e: Edges) -> bool { forall|p: PathBuf, a: PathBuf| #[trigger] e.contains((p, a)) ==> includes(f, a, p) }
/// a circle of edges is a circle of includes
pub proof fn lemma_cyclic(f: Files, e: Edges, p: PathBuf)
    requires edges_in(f, e), cyclic(e, p),
    ensures f.contains_key(p), reach(f, p, p),
{
    let s = choose|s: Seq<PathBuf>| #[trigger] walk_of(e, s) && s[0] == p && s.last() == p;
    let n = s.len() as int;
    let t = Seq::new(s.len(), |i: int| s[n - 1 - i]);
    assert forall|i: int| 0 <= i < n implies f.contains_key(#[trigger] s[i]) by {
        if i > 0 { assert(step(e, s, i - 1)); assert(includes(f, s[i], s[i - 1])); }
        else { assert(s[0] == s[n - 1]); assert(step(e, s, n - 2)); assert(includes(f, s[n - 1], s[n - 2])); }
    }
    assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] hop(f, t, i) by {
        let j = n - 2 - i;
        assert(step(e, s, j));
        assert(includes(f, s[j + 1], s[j]));
        assert(f.contains_key(s[j]));
    }
    assert(chain(f, t) && t[0] == p && t.last() == p);
}

// ---- the analysis does not depend on what it does not see ------------------------------------------

/// names that includes stand for are canonical
pub proof fn lemma_inc_known(t: SFile, p: PathBuf)
    requires names(t, p),
    ensures known_as(p) == p,
{
    let i = choose|i: int| 0 <= i < all_incs(t).len() && inc_file(#[trigger] all_incs(t)[i]) == Some(p);
    lemma_lookup(all_incs(t)[i].paths, all_incs(t)[i].file.item);
}
pub proof fn lemma_incs(e: Seq<SPrim>, n: int, i: int)
    requires 0 <= i < n <= e.len(), inc_in(e[i]) is Some,
    ensures exists|j: int| 0 <= j < incs(e, n).len() && #[trigger] incs(e, n)[j] == inc_in(e[i])->Some_0,
    decreases n
{
    let x = inc_in(e[i])->Some_0;
    if i == n - 1 { assert(incs(e, n)[incs(e, n - 1).len() as int] == x); } else {
        lemma_incs(e, n - 1, i);
        let j = choose|j: int| 0 <= j < incs(e, n - 1).len() && #[trigger] incs(e, n - 1)[j] == x;
        assert(incs(e, n)[j] == x);
    }
}
pub proof fn lemma_names(t: SFile, i: int)
    requires 0 <= i < t.elements.len(), inc_in(t.elements[i]) is Some,
    ensures inc_file(inc_in(t.elements[i])->Some_0) matches Some(p) ==> names(t, p),
{ lemma_incs(t.elements, t.elements.len() as int, i); }
/// without circles the edges do not matter
pub proof fn lemma_free(e: SEnv, f: Files, k: PathBuf, t: SFile, a: SAn, x: Edges, n: int)
    requires
        clear(f, k), f.contains_key(k), f[k].file == Some(t), owned(&*e.src) == k, 0 <= n <= t.elements.len(),
        edges_in(f, a.edges), edges_in(f, x),
    ensures ({
        let b = an_prims(e, a, t.elements, n);
        let c = an_prims(e, we(a, x), t.elements, n);
        c == we(b, c.edges) && edges_in(f, b.edges) && edges_in(f, c.edges)
    }),
    decreases n
{
    if n > 0 {
        lemma_free(e, f, k, t, a, x, n - 1);
        let b = an_prims(e, a, t.elements, n - 1);
        let c = an_prims(e, we(a, x), t.elements, n - 1);
        let p = t.elements[n - 1];
        match p {
            SPrim::Root(m) => { lemma_node_we(b, m, seq![], c.edges); lemma_node_we(c, m, seq![], c.edges); },
            SPrim::Refd(r, m) => {
                let (path, d) = if e.typ == FileType::DtSource { an_ref(e.typ, b, r) } else { (seq![], b) };
                lemma_pay_we(d, m, m.items.len() as int, path, c.edges);
                lemma_pay_we(we(d, c.edges), m, m.items.len() as int, path, c.edges);
            },
            SPrim::Dir(SDirv::Include(i)) => {
                lemma_names(t, n - 1);
                match inc_file(i) {
                    None => {},
                    Some(q) => {
                        let eb = b.edges.insert((q, k));
                        let ec = c.edges.insert((q, k));
                        assert(includes(f, k, q));
                        assert(edges_in(f, eb)); assert(edges_in(f, ec));
                        if cyclic(eb, q) { lemma_cyclic(f, eb, q); assert(needs(f, k, q)); }
                        if cyclic(ec, q) { lemma_cyclic(f, ec, q); assert(needs(f, k, q)); }
                    },
                }
            },
            _ => {},
        }
    }
}
/// the edges of a file are those of its includes, whatever circles there are
pub proof fn lemma_edges_in(e: SEnv, f: Files, k: PathBuf, t: SFile, a: SAn, n: int)
    requires f.contains_key(k), f[k].file == Some(t), owned(&*e.src) == k, 0 <= n <= t.elements.len(), edges_in(f, a.edges),
    ensures edges_in(f, an_prims(e, a, t.elements, n).edges),
    decreases n
{
    if n > 0 {
        lemma_edges_in(e, f, k, t, a, n - 1);
        let b = an_prims(e, a, t.elements, n - 1);
        match t.elements[n - 1] {
            SPrim::Root(m) => { lemma_node_we(b, m, seq![], b.edges); },
            SPrim::Refd(r, m) => {
                let (path, d) = if e.typ == FileType::DtSource { an_ref(e.typ, b, r) } else { (seq![], b) };
                lemma_pay_we(d, m, m.items.len() as int, path, b.edges);
            },
            SPrim::Dir(SDirv::Include(i)) => { lemma_names(t, n - 1); },
            _ => {},
        }
    }
}
/// only the included files matter
pub open spec fn agree(e: SEnv, g: SEnv, t: SFile) -> bool {
    &&& e.sev == g.sev && e.typ == g.typ && e.src == g.src
    &&& forall|p: PathBuf| #[trigger] names(t, p) ==> e.files.contains_key(known_as(p)) == g.files.contains_key(known_as(p))
        && (e.files.contains_key(known_as(p)) ==> e.files[known_as(p)] == g.files[known_as(p)])
}
pub proof fn lemma_agree(e: SEnv, g: SEnv, t: SFile, a: SAn, n: int)
    requires agree(e, g, t), 0 <= n <= t.elements.len(),
    ensures an_prims(e, a, t.elements, n) == an_prims(g, a, t.elements, n),
    decreases n
{
    if n > 0 {
        lemma_agree(e, g, t, a, n - 1);
        if inc_in(t.elements[n - 1]) is Some { lemma_names(t, n - 1); }
    }
}
/// an analysis that saw the same included files finds the same
pub proof fn lemma_finding(f: Files, g: Files, sev: SeverityMap, k: PathBuf, t: SFile, x: Edges)
    requires
        clear(f, k), f.contains_key(k), f[k].file == Some(t), owned(&*t.src) == k, edges_in(f, x), g[k].typ == f[k].typ,
        forall|p: PathBuf| #[trigger] includes(f, k, p) ==> f.contains_key(p) == g.contains_key(p) && (f.contains_key(p) ==> f[p] == g[p]),
    ensures ({
        let a = analyzed(env_of(f, sev, k, t), x, t.elements);
        a.ctx == finding(g, sev, k, t).ctx && a.ds == finding(g, sev, k, t).ds
    }),
{
    let e = env_of(f, sev, k, t);
    let h = env_of(g, sev, k, t);
    let n = t.elements.len() as int;
    assert forall|p: PathBuf| #[trigger] names(t, p) implies e.files.contains_key(known_as(p)) == h.files.contains_key(known_as(p))
        && (e.files.contains_key(known_as(p)) ==> e.files[known_as(p)] == h.files[known_as(p)]) by {
        lemma_inc_known(t, p);
        assert(includes(f, k, p));
    }
    let a0 = an_begin(e, ISet::empty());
    assert(we(a0, x) == an_begin(e, x));
    lemma_free(e, f, k, t, a0, x, n);
    lemma_agree(e, h, t, a0, n);
    let a = an_prims(e, a0, t.elements, n);
    let b = an_prims(e, we(a0, x), t.elements, n);
    let a1 = note(a, !a.header && e.typ == FileType::DtSource, no_header(e));
    let b1 = note(b, !b.header && e.typ == FileType::DtSource, no_header(e));
    assert(b1 == we(a1, b.edges));
    lemma_unres_edges(e.typ, a1, b.edges, a1.unres, a1.unres.len() as int);
}

// ---- histories do not matter ------------------------------------------------------------------------

pub open spec fn behind(f: Files, k: PathBuf) -> Set<PathBuf> { f.dom().filter(|q: PathBuf| reach(f, k, q)) }
pub open spec fn acyclic(f: Files) -> bool { forall|k: PathBuf| !#[trigger] reach(f, k, k) }
pub proof fn lemma_behind(f: Files, k: PathBuf, p: PathBuf)
    requires acyclic(f), needs(f, k, p),
    ensures behind(f, p).len() < behind(f, k).len(),
{
    lemma_reach_one(f, k, p);
    assert(behind(f, k).contains(p));
    assert(!reach(f, p, p));
    assert forall|q: PathBuf| behind(f, p).contains(q) implies #[trigger] behind(f, k).remove(p).contains(q) by { lemma_reach_from(f, k, p, q); }
    vstd::set_lib::lemma_len_subset(behind(f, p), behind(f, k).remove(p));
}
/// every include can be read
pub open spec fn readable(f: Files) -> bool { forall|k: PathBuf, p: PathBuf| #[trigger] includes(f, k, p) ==> content(p) is Some }
pub proof fn lemma_issues_readable(a: Set<PathBuf>, b: Set<PathBuf>, c: Seq<SInc>, n: int)
    requires 0 <= n <= c.len(), forall|i: int| 0 <= i < c.len() ==> (inc_file(#[trigger] c[i]) matches Some(p) ==> content(p) is Some),
    ensures inc_issues(a, c, n) == inc_issues(b, c, n),
    decreases n
{ if n > 0 { lemma_issues_readable(a, b, c, n - 1); assert(inc_file(c[n - 1]) matches Some(p) ==> content(p) is Some); } }
/// the trees and the issues of parsing follow from the texts
pub proof fn lemma_same_parsed(f: Files, g: Files, dirs: Seq<PathBuf>, k: PathBuf)
    requires loaded_all(f, dirs), loaded_all(g, dirs), readable(f), f.contains_key(k), g.contains_key(k), f[k].src == g[k].src, f[k].typ == g[k].typ,
    ensures base(f[k]) == base(g[k]),
{
    let a = choose|known: Set<PathBuf>| base(f[k]) == #[trigger] parsed_pf(k, f[k].src, f[k].typ, dirs, known);
    let b = choose|known: Set<PathBuf>| base(g[k]) == #[trigger] parsed_pf(k, g[k].src, g[k].typ, dirs, known);
    match parse_of(k, f[k].src, dirs).0 {
        Ok(e) => {
            let t = SFile { elements: e, src: shared(k) };
            assert(base(f[k]).file == Some(t));
            assert forall|i: int| 0 <= i < all_incs(t).len() implies (inc_file(#[trigger] all_incs(t)[i]) matches Some(p) ==> content(p) is Some) by {
                match inc_file(all_incs(t)[i]) { Some(p) => { assert(names(t, p)); assert(includes(f, k, p)); }, None => {} }
            }
            lemma_issues_readable(a, b, all_incs(t), all_incs(t).len() as int);
        },
        Err(_) => {},
    }
}
pub open spec fn same_texts(f: Files, g: Files) -> bool {
    f.dom() == g.dom() && forall|k: PathBuf| #[trigger] f.contains_key(k) ==> f[k].src == g[k].src && f[k].typ == g[k].typ
}
pub proof fn lemma_same_at(f: Files, g: Files, sev: SeverityMap, dirs: Seq<PathBuf>, k: PathBuf)
    requires healthy(f, sev, dirs), healthy(g, sev, dirs), same_texts(f, g), readable(f), acyclic(f), f.contains_key(k),
    ensures f[k] == g[k],
    decreases behind(f, k).len()
{
    assert(f.dom().contains(k) == g.dom().contains(k));
    assert forall|q: PathBuf| #[trigger] f.contains_key(q) implies base(f[q]) == base(g[q]) by {
        assert(f.dom().contains(q) == g.dom().contains(q));
        lemma_same_parsed(f, g, dirs, q);
    }
    lemma_base(f, g);
    assert(base(f[k]) == base(g[k]));
    assert(settled(f, sev, k) && settled(g, sev, k));
    match f[k].file {
        None => { assert(f[k].aerr =~= g[k].aerr); },
        Some(t) => {
            assert(clear(f, k));
            assert(clear(g, k));
            assert forall|p: PathBuf| #[trigger] includes(f, k, p) implies f.contains_key(p) == g.contains_key(p) && (f.contains_key(p) ==> f[p] == g[p]) by {
                assert(f.dom().contains(p) == g.dom().contains(p));
                if f.contains_key(p) { assert(needs(f, k, p)); lemma_behind(f, k, p); lemma_same_at(f, g, sev, dirs, p); }
            }
            lemma_fit(f, dirs);
            lemma_tree(f, k);
            lemma_finding(f, g, sev, k, t, ISet::empty());
            assert(f[k].aerr == g[k].aerr);
        },
    }
    assert(f[k] == g[k]);
}
/// Two projects that have the same texts know the same about them, however they got there
/// (as long as no files include each other in a circle and every file that is included can be read).
pub proof fn lemma_same(f: Files, g: Files, sev: SeverityMap, dirs: Seq<PathBuf>)
    requires healthy(f, sev, dirs), healthy(g, sev, dirs), same_texts(f, g), readable(f), acyclic(f),
    ensures f == g,
{
    assert forall|k: PathBuf| f.contains_key(k) implies f[k] == g[k] by { lemma_same_at(f, g, sev, dirs, k); }
    assert(f =~= g);
}

// ---- adding a file ----------------------------------------------------------------------------------

/// the texts behind a new text: everything else stays, and only included files come in
pub open spec fn texts_after(f: Files, g: Files, k: PathBuf, text: Seq<char>, typ: FileType) -> bool {
    &&& g.contains_key(k) && g[k].src == text && g[k].typ == typ
    &&& forall|q: PathBuf| #[trigger] f.contains_key(q) && q != k ==> g.contains_key(q) && g[q].src == f[q].src && g[q].typ == f[q].typ
    &&& forall|q: PathBuf| #[trigger] g.contains_key(q) && !f.contains_key(q) && q != k ==> content(q) == Some(g[q].src) && canon(q) == Some(q) && g[q].typ == type_of(q)
}
pub proof fn lemma_parsed_in(f: Files, dirs: Seq<PathBuf>, k: PathBuf, x: SPf, text: Seq<char>, typ: FileType, known: Set<PathBuf>)
    requires f.contains_key(k), f[k] == x, x == parsed_pf(k, text, typ, dirs, known),
    ensures parsed(f, dirs, k), f[k].src == text, f[k].typ == typ,
{ assert(base(x) == x) by { assert(x.aerr =~= seq![]); } }
pub proof fn lemma_taken_fit(f: Files, g: Files, dirs: Seq<PathBuf>, k: PathBuf, text: Seq<char>, typ: FileType)
    requires fit(f), taken(f, g, dirs, k, text, typ), known_as(k) == k, encode_utf8(text).len() <= MAX_LEN,
    ensures fit(g), parsed(g, dirs, k), texts_after(f, g, k, text, typ),
{
    lemma_parsed_in(g, dirs, k, g[k], text, typ, f.dom().insert(k));
    assert forall|q: PathBuf| #[trigger] g.contains_key(q) implies known_as(q) == q && once_parsed(g, q) && encode_utf8(g[q].src).len() <= MAX_LEN by {
        if q == k { assert(parsed(g, dirs, q)); }
        else if f.contains_key(q) {
            assert(g[q] == f[q]);
            let ds = choose|ds: Seq<PathBuf>| #[trigger] parsed(f, ds, q);
            let known = choose|known: Set<PathBuf>| base(f[q]) == #[trigger] parsed_pf(q, f[q].src, f[q].typ, ds, known);
            assert(base(g[q]) == parsed_pf(q, g[q].src, g[q].typ, ds, known));
            assert(parsed(g, ds, q));
        } else {
            assert(loaded(q, g[q], dirs, f.dom().insert(k)));
            axiom_content(q);
            lemma_parsed_in(g, dirs, q, g[q], content(q)->Some_0, type_of(q), f.dom().insert(k));
            assert(parsed(g, dirs, q));
        }
    }
    assert forall|q: PathBuf| #[trigger] g.contains_key(q) && !f.contains_key(q) && q != k implies content(q) == Some(g[q].src) && canon(q) == Some(q) && g[q].typ == type_of(q) by {
        lemma_parsed_in(g, dirs, q, g[q], content(q)->Some_0, type_of(q), f.dom().insert(k));
    }
}
/// what is said about a file before its analysis stays
pub proof fn lemma_stay(f: Files, g: Files, dirs: Seq<PathBuf>)
    requires same_base(f, g),
    ensures fit(f) ==> fit(g), loaded_all(f, dirs) ==> loaded_all(g, dirs), forall|k: PathBuf| f.contains_key(k) && #[trigger] parsed(f, dirs, k) ==> parsed(g, dirs, k),
{
    lemma_base(f, g);
    assert forall|k: PathBuf| f.contains_key(k) == #[trigger] g.contains_key(k) by { assert(f.dom().contains(k) == g.dom().contains(k)); }
    assert forall|ds: Seq<PathBuf>, k: PathBuf| f.contains_key(k) && #[trigger] parsed(f, ds, k) implies parsed(g, ds, k) by {
        assert(base(f[k]) == base(g[k])); assert(base(f[k]).src == f[k].src && base(g[k]).src == g[k].src && base(f[k]).typ == f[k].typ && base(g[k]).typ == g[k].typ);
        let known = choose|known: Set<PathBuf>| base(f[k]) == #[trigger] parsed_pf(k, f[k].src, f[k].typ, ds, known);
        assert(base(g[k]) == parsed_pf(k, g[k].src, g[k].typ, ds, known));
    }
    if fit(f) {
        assert forall|k: PathBuf| #[trigger] g.contains_key(k) implies known_as(k) == k && once_parsed(g, k) && encode_utf8(g[k].src).len() <= MAX_LEN by {
            assert(f.contains_key(k)); assert(base(f[k]) == base(g[k])); assert(base(f[k]).src == f[k].src && base(g[k]).src == g[k].src);
            let ds = choose|ds: Seq<PathBuf>| #[trigger] parsed(f, ds, k); assert(parsed(g, ds, k));
        }
    }
    if loaded_all(f, dirs) {
        assert forall|k: PathBuf| #[trigger] g.contains_key(k) implies known_as(k) == k && parsed(g, dirs, k) && encode_utf8(g[k].src).len() <= MAX_LEN by {
            assert(f.contains_key(k)); assert(base(f[k]) == base(g[k])); assert(base(f[k]).src == f[k].src && base(g[k]).src == g[k].src); assert(parsed(f, dirs, k));
        }
        assert forall|k: PathBuf, p: PathBuf| #[trigger] includes(g, k, p) && content(p) is Some implies g.contains_key(p) by { assert(includes(f, k, p)); assert(f.contains_key(p)); }
    }
}
/// a project whose files are loaded stays so
pub proof fn lemma_loaded(f: Files, g: Files, dirs: Seq<PathBuf>, k: PathBuf, text: Seq<char>, typ: FileType)
    requires loaded_all(f, dirs), taken(f, g, dirs, k, text, typ), known_as(k) == k, encode_utf8(text).len() <= MAX_LEN,
    ensures loaded_all(g, dirs), texts_after(f, g, k, text, typ),
{
    assert forall|q: PathBuf| #[trigger] g.contains_key(q) implies known_as(q) == q && parsed(g, dirs, q) && encode_utf8(g[q].src).len() <= MAX_LEN by {
        if q == k { lemma_parsed_in(g, dirs, q, g[q], text, typ, f.dom().insert(k)); }
        else if f.contains_key(q) {
            assert(g[q] == f[q]);
            let known = choose|known: Set<PathBuf>| base(f[q]) == #[trigger] parsed_pf(q, f[q].src, f[q].typ, dirs, known);
            assert(base(g[q]) == parsed_pf(q, g[q].src, g[q].typ, dirs, known));
        } else {
            assert(loaded(q, g[q], dirs, f.dom().insert(k)));
            axiom_content(q);
            lemma_parsed_in(g, dirs, q, g[q], content(q)->Some_0, type_of(q), f.dom().insert(k));
        }
    }
    assert forall|q: PathBuf, p: PathBuf| #[trigger] includes(g, q, p) && content(p) is Some implies g.contains_key(p) by {
        if f.contains_key(q) && q != k { assert(g[q] == f[q]); assert(includes(f, q, p)); assert(f.contains_key(p)); }
    }
    lemma_parsed_in(g, dirs, k, g[k], text, typ, f.dom().insert(k));
    assert forall|q: PathBuf| #[trigger] g.contains_key(q) && !f.contains_key(q) && q != k implies content(q) == Some(g[q].src) && canon(q) == Some(q) && g[q].typ == type_of(q) by {
        lemma_parsed_in(g, dirs, q, g[q], content(q)->Some_0, type_of(q), f.dom().insert(k));
    }
}
/// files without a tree have nothing to be analysed
pub open spec fn no_tree_no_finding(f: Files) -> bool {
    forall|k: PathBuf| #[trigger] f.contains_key(k) && f[k].file is None ==> f[k].ctx is None && f[k].aerr.len() == 0
}
/// the first files of the order are analysed
pub open spec fn analysed(f: Files, sev: SeverityMap, o: Seq<PathBuf>, n: int) -> bool {
    forall|j: int| 0 <= j < n ==> settled(f, sev, #[trigger] o[j])
}
pub proof fn lemma_analysed(f: Files, g: Files, sev: SeverityMap, o: Seq<PathBuf>, n: int, x: Edges)
    requires
        fit(f), in_place(f, o), o.no_duplicates(), 0 <= n < o.len(), analysed(f, sev, o, n), edges_in(f, x),
        forall|k: PathBuf| #[trigger] o.contains(k) <==> f.contains_key(k),
        f[o[n]].file is Some,
        ({ let t = f[o[n]].file->Some_0; let a = analyzed(env_of(f, sev, o[n], t), x, t.elements);
           g == f.insert(o[n], SPf { ctx: Some(a.ctx), aerr: a.ds, ..f[o[n]] }) }),
    ensures same_base(f, g), fit(g), in_place(g, o), analysed(g, sev, o, n + 1),
        ({ let t = f[o[n]].file->Some_0; edges_in(g, analyzed(env_of(f, sev, o[n], t), x, t.elements).edges) }),
{
    let k = o[n];
    let t = f[k].file->Some_0;
    let a = analyzed(env_of(f, sev, k, t), x, t.elements);
    assert(o.contains(k));
    assert(f.contains_key(k));
    assert(g.dom() =~= f.dom());
    assert forall|q: PathBuf| #[trigger] f.contains_key(q) implies base(f[q]) == base(g[q]) by {}
    lemma_base(f, g);
    lemma_tree(f, k);
    lemma_stay(f, g, Seq::empty());
    // edges
    {
        let e = env_of(f, sev, k, t);
        let b = an_begin(e, x);
        let m = t.elements.len() as int;
        lemma_edges_in(e, f, k, t, b, m);
        let c = an_prims(e, b, t.elements, m);
        let d = note(c, !c.header && e.typ == FileType::DtSource, no_header(e));
        lemma_unres_edges(e.typ, d, d.edges, d.unres, d.unres.len() as int);
        assert forall|p: PathBuf, b: PathBuf| #[trigger] a.edges.contains((p, b)) implies includes(g, b, p) by { assert(includes(f, b, p) == includes(g, b, p)); }
    }
    assert forall|j: int| 0 <= j < n + 1 implies settled(g, sev, #[trigger] o[j]) by {
        let q = o[j];
        assert(o.contains(q));
        assert(clear(f, q) == clear(g, q));
        if g[q].file is Some && clear(f, q) {
            let u = f[q].file->Some_0;
            lemma_tree(f, q);
            lemma_clear(f, q);
            assert forall|p: PathBuf| #[trigger] includes(f, q, p) implies f.contains_key(p) == g.contains_key(p) && (f.contains_key(p) ==> f[p] == g[p]) by {
                assert(f.dom().contains(p) == g.dom().contains(p));
                if f.contains_key(p) {
                    assert(needs(f, o[j], p));
                    assert(before(o, j, p));
                    let i = choose|i: int| 0 <= i < j && #[trigger] o[i] == p;
                    assert(p != k);
                }
            }
            if j == n { lemma_finding(f, g, sev, q, u, x); } else {
                assert(settled(f, sev, o[j]));
                lemma_finding(f, g, sev, q, u, ISet::empty());
            }
        } else if j < n { assert(settled(f, sev, o[j])); }
    }
}

pub proof fn lemma_same_base(f: Files, g: Files, h: Files)
    requires same_base(f, g), same_base(g, h),
    ensures same_base(f, h),
{ assert forall|k: PathBuf| #[trigger] f.contains_key(k) implies base(f[k]) == base(h[k]) by { assert(g.dom().contains(k)); assert(g.contains_key(k)); } }
pub proof fn lemma_texts(f: Files, g: Files, h: Files, k: PathBuf, text: Seq<char>, typ: FileType)
    requires same_base(g, h), texts_after(f, g, k, text, typ),
    ensures texts_after(f, h, k, text, typ),
{
    assert forall|q: PathBuf| g.contains_key(q) == #[trigger] h.contains_key(q) by { assert(g.dom().contains(q) == h.dom().contains(q)); }
    assert forall|q: PathBuf| #[trigger] g.contains_key(q) implies h[q].src == g[q].src && h[q].typ == g[q].typ by { assert(base(g[q]) == base(h[q])); assert(base(g[q]).src == g[q].src); assert(base(h[q]).src == h[q].src); }
    assert(h.contains_key(k));
}

} // verus!
