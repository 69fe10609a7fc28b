// What a project knows about its files, as a function of their texts.
use vstd::prelude::*;
use vstd::utf8::*;
use crate::spec::*;
use crate::lex::*;
use crate::gram::*;
use crate::tree::*;
use crate::host::*;
use crate::anal::*;
use crate::dts::ast::*;
use crate::dts::data::{FileType, Position, Span};
use crate::dts::diagnostics::*;
use crate::dts::error_codes::*;
use crate::dts::tokens::token::*;
use crate::dts::tokens::lexer::*;
use std::sync::Arc;
use std::path::{Path as StdPath, PathBuf};
verus! {

pub type Files = Map<PathBuf, SPf>;

// ---- includes -------------------------------------------------------------------------------------

pub open spec fn inc_in(p: SPrim) -> Option<SInc> { match p { SPrim::Dir(SDirv::Include(i)) => Some(i), _ => None } }
/// the includes among the first elements of a file
pub open spec fn incs(e: Seq<SPrim>, n: int) -> Seq<SInc> decreases n {
    if n <= 0 { seq![] } else { match inc_in(e[n - 1]) { Some(i) => incs(e, n - 1).push(i), None => incs(e, n - 1) } }
}
pub open spec fn all_incs(t: SFile) -> Seq<SInc> { incs(t.elements, t.elements.len() as int) }
pub open spec fn names(t: SFile, p: PathBuf) -> bool { exists|i: int| 0 <= i < all_incs(t).len() && inc_file(#[trigger] all_incs(t)[i]) == Some(p) }
/// file `a` has an include that stands for `b`
pub open spec fn includes(f: Files, a: PathBuf, b: PathBuf) -> bool {
    f.contains_key(a) && match f[a].file { Some(t) => names(t, b), None => false }
}
/// ... and `b` is part of the project
pub open spec fn needs(f: Files, a: PathBuf, b: PathBuf) -> bool { includes(f, a, b) && f.contains_key(b) }
/// the i-th step
pub open spec fn hop(f: Files, s: Seq<PathBuf>, i: int) -> bool { needs(f, s[i], s[i + 1]) }
pub open spec fn chain(f: Files, s: Seq<PathBuf>) -> bool {
    s.len() >= 2 && forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] hop(f, s, i)
}
/// file `a` includes `b`, directly or over other files
pub open spec fn reach(f: Files, a: PathBuf, b: PathBuf) -> bool { exists|s: Seq<PathBuf>| #[trigger] chain(f, s) && s[0] == a && s.last() == b }
pub proof fn lemma_reach_one(f: Files, a: PathBuf, b: PathBuf)
    requires needs(f, a, b),
    ensures reach(f, a, b),
{
    let s = seq![a, b];
    assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] hop(f, s, i) by { assert(s[0] == a && s[1] == b); }
    assert(chain(f, s) && s[0] == a && s.last() == b);
}
pub proof fn lemma_reach_on(f: Files, a: PathBuf, b: PathBuf, c: PathBuf)
    requires reach(f, a, b), needs(f, b, c),
    ensures reach(f, a, c),
{
    let s = choose|s: Seq<PathBuf>| #[trigger] chain(f, s) && s[0] == a && s.last() == b;
    let t = s.push(c);
    assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] hop(f, t, i) by {
        if i < s.len() - 1 { assert(hop(f, s, i)); } else { assert(t[i] == s.last()); }
    }
    assert(chain(f, t) && t[0] == a && t.last() == c);
}
pub proof fn lemma_reach_from(f: Files, a: PathBuf, b: PathBuf, c: PathBuf)
    requires needs(f, a, b), reach(f, b, c),
    ensures reach(f, a, c),
{
    let s = choose|s: Seq<PathBuf>| #[trigger] chain(f, s) && s[0] == b && s.last() == c;
    let t = seq![a] + s;
    assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] hop(f, t, i) by {
        if i > 0 { assert(hop(f, s, i - 1)); assert(t[i] == s[i - 1]); assert(t[i + 1] == s[i]); } else { assert(t[0] == a); assert(t[1] == s[0]); }
    }
    assert(chain(f, t) && t[0] == a && t.last() == c);
}

// ---- the order of analysis ----------------------------------------------------------------------

/// every file comes after the ones that it includes, unless it includes itself in the end
pub open spec fn in_place(f: Files, o: Seq<PathBuf>) -> bool {
    forall|j: int, q: PathBuf| 0 <= j < o.len() && #[trigger] needs(f, o[j], q) ==> reach(f, o[j], o[j]) || before(o, j, q)
}
pub open spec fn before(o: Seq<PathBuf>, j: int, q: PathBuf) -> bool { exists|k: int| 0 <= k < j && #[trigger] o[k] == q }
/// files that were visited but are not in the order yet lead to the path
pub open spec fn stacked(f: Files, v: Set<PathBuf>, o: Seq<PathBuf>, path: PathBuf) -> bool {
    &&& o.no_duplicates() && in_place(f, o)
    &&& forall|q: PathBuf| o.contains(q) ==> #[trigger] v.contains(q)
    &&& forall|q: PathBuf| #[trigger] v.contains(q) ==> f.contains_key(q)
    &&& forall|q: PathBuf| #[trigger] v.contains(q) && !o.contains(q) && f.contains_key(path) ==> reach(f, q, path)
}
/// `w` and `u` came about from `v` and `o`
pub open spec fn visited_on(f: Files, v: Set<PathBuf>, o: Seq<PathBuf>, w: Set<PathBuf>, u: Seq<PathBuf>) -> bool {
    &&& u.no_duplicates() && in_place(f, u)
    &&& forall|q: PathBuf| u.contains(q) ==> #[trigger] w.contains(q)
    &&& forall|q: PathBuf| #[trigger] w.contains(q) ==> f.contains_key(q)
    &&& forall|q: PathBuf| #[trigger] v.contains(q) ==> w.contains(q)
    &&& forall|q: PathBuf| #[trigger] o.contains(q) ==> u.contains(q)
    &&& forall|q: PathBuf| (#[trigger] w.contains(q) && !u.contains(q)) <==> (v.contains(q) && !o.contains(q))
}
/// a file is put behind its includes: the step of the visit
pub proof fn lemma_placed(f: Files, v0: Set<PathBuf>, o0: Seq<PathBuf>, v: Set<PathBuf>, o: Seq<PathBuf>, path: PathBuf)
    requires stacked(f, v0, o0, path), !v0.contains(path), f.contains_key(path), visited_on(f, v0.insert(path), o0, v, o),
        forall|q: PathBuf| #[trigger] needs(f, path, q) ==> v.contains(q),
    ensures visited_on(f, v0, o0, v, o.push(path)), v.contains(path),
{
    assert(!o.contains(path)) by { assert(v0.insert(path).contains(path) && !o0.contains(path)); }
    assert forall|q: PathBuf| #[trigger] v.contains(q) && !o.contains(q) && q != path implies reach(f, q, path) by { assert(v0.insert(path).contains(q) && !o0.contains(q)); }
    lemma_place(f, v, o, path);
    let u = o.push(path);
    assert(u[o.len() as int] == path);
    assert forall|q: PathBuf| u.contains(q) <==> o.contains(q) || q == path by {
        if o.contains(q) { let k = choose|k: int| 0 <= k < o.len() && o[k] == q; assert(u[k] == q); }
    }
    assert forall|q: PathBuf| (#[trigger] v.contains(q) && !u.contains(q)) <==> (v0.contains(q) && !o0.contains(q)) by {
        assert((v.contains(q) && !o.contains(q)) <==> (v0.insert(path).contains(q) && !o0.contains(q)));
    }
    assert(v0.insert(path).contains(path));
}
/// the file is put behind its includes
pub proof fn lemma_place(f: Files, v: Set<PathBuf>, o: Seq<PathBuf>, path: PathBuf)
    requires in_place(f, o), f.contains_key(path),
        forall|q: PathBuf| #[trigger] v.contains(q) && !o.contains(q) && q != path ==> reach(f, q, path),
        forall|q: PathBuf| #[trigger] needs(f, path, q) ==> v.contains(q),
    ensures in_place(f, o.push(path)),
{
    let u = o.push(path);
    assert forall|j: int, q: PathBuf| 0 <= j < u.len() && #[trigger] needs(f, u[j], q) implies reach(f, u[j], u[j]) || before(u, j, q) by {
        if j < o.len() {
            assert(u[j] == o[j]);
            assert(reach(f, o[j], o[j]) || before(o, j, q));
            if before(o, j, q) { let k = choose|k: int| 0 <= k < j && #[trigger] o[k] == q; assert(u[k] == q); }
        } else {
            assert(v.contains(q));
            if o.contains(q) { let k = choose|k: int| 0 <= k < o.len() && o[k] == q; assert(u[k] == q); }
            else if q == path { lemma_reach_one(f, path, path); }
            else { lemma_reach_from(f, path, q, path); }
        }
    }
}
pub proof fn lemma_fewer(f: Files, v: Set<PathBuf>)
    requires forall|q: PathBuf| #[trigger] v.contains(q) ==> f.contains_key(q),
    ensures v.len() <= f.dom().len(),
{
    assert(v.subset_of(f.dom()));
    vstd::set_lib::lemma_len_subset(v, f.dom());
}

// ---- what a text is parsed to ---------------------------------------------------------------------

pub open spec fn start_of(path: PathBuf, text: Seq<char>, dirs: Seq<PathBuf>) -> SPa {
    let x = SLx { d: encode_utf8(text), off: 0, names: true, lp: Position { line: 0, character: 0 }, src: shared(path) };
    SPa { lx: SPk { x, pk: None }, ds: seq![], paths: dirs }
}
/// the directories that includes of a file are looked up in
pub open spec fn dirs_of(path: PathBuf, dirs: Seq<PathBuf>) -> Seq<PathBuf> {
    match parent_of(path) { Some(d) => seq![d] + dirs, None => dirs }
}
pub open spec fn parse_of(path: PathBuf, text: Seq<char>, dirs: Seq<PathBuf>) -> (SRes<Seq<SPrim>>, SPa) {
    sp_file(start_of(path, text, dirs_of(path, dirs)), seq![])
}
/// an include that cannot be found or read
pub open spec fn inc_issue(known: Set<PathBuf>, i: SInc) -> Option<SDiag> {
    let d = SDiag { kind: ErrorCode::IOError, span: inc_span(i), src: i.tok.src };
    match inc_file(i) {
        None => Some(d),
        Some(p) => if !known.contains(p) && content(p) is None { Some(d) } else { None },
    }
}
pub open spec fn inc_issues(known: Set<PathBuf>, c: Seq<SInc>, n: int) -> Seq<SDiag> decreases n {
    if n <= 0 { seq![] } else {
        match inc_issue(known, c[n - 1]) { Some(d) => inc_issues(known, c, n - 1).push(d), None => inc_issues(known, c, n - 1) }
    }
}
/// a file, as its text is parsed
pub open spec fn parsed_pf(path: PathBuf, text: Seq<char>, typ: FileType, dirs: Seq<PathBuf>, known: Set<PathBuf>) -> SPf {
    let (r, q) = parse_of(path, text, dirs);
    match r {
        Ok(e) => {
            let t = SFile { elements: e, src: shared(path) };
            SPf { perr: q.ds + inc_issues(known, all_incs(t), all_incs(t).len() as int), aerr: seq![], file: Some(t), ctx: None, typ, src: text }
        },
        Err(d) => SPf { perr: q.ds.push(d), aerr: seq![], file: None, ctx: None, typ, src: text },
    }
}
/// the type of a file with this name
pub open spec fn type_of(p: PathBuf) -> FileType { match ext_of(p) { Some(e) => crate::dts::data::sp_file_type(e), None => FileType::Unknown } }
/// the two sets have the same unreadable files
pub open spec fn same_unread(a: Set<PathBuf>, b: Set<PathBuf>) -> bool {
    forall|p: PathBuf| content(p) is None ==> (#[trigger] a.contains(p) <==> b.contains(p))
}
pub proof fn lemma_inc_issues(a: Set<PathBuf>, b: Set<PathBuf>, c: Seq<SInc>, n: int)
    requires same_unread(a, b),
    ensures inc_issues(a, c, n) == inc_issues(b, c, n),
    decreases n
{
    if n > 0 { lemma_inc_issues(a, b, c, n - 1); assert(inc_issue(a, c[n - 1]) == inc_issue(b, c[n - 1])) by {
        match inc_file(c[n - 1]) { Some(p) => { assert(content(p) is None ==> (a.contains(p) <==> b.contains(p))); }, None => {} }
    } }
}
pub proof fn lemma_parsed_pf(path: PathBuf, text: Seq<char>, typ: FileType, dirs: Seq<PathBuf>, a: Set<PathBuf>, b: Set<PathBuf>)
    requires same_unread(a, b),
    ensures parsed_pf(path, text, typ, dirs, a) == parsed_pf(path, text, typ, dirs, b),
{
    match parse_of(path, text, dirs).0 {
        Ok(e) => { let t = SFile { elements: e, src: shared(path) }; lemma_inc_issues(a, b, all_incs(t), all_incs(t).len() as int); },
        Err(_) => {},
    }
}
/// a file was given a text
pub open spec fn taken(f: Files, g: Files, dirs: Seq<PathBuf>, k: PathBuf, text: Seq<char>, typ: FileType) -> bool {
    &&& g.contains_key(k) && g[k] == parsed_pf(k, text, typ, dirs, f.dom().insert(k))
    &&& forall|q: PathBuf| #[trigger] f.contains_key(q) && q != k ==> g.contains_key(q) && g[q] == f[q]
    &&& forall|q: PathBuf| #[trigger] g.contains_key(q) && !f.contains_key(q) && q != k ==> loaded(q, g[q], dirs, f.dom().insert(k))
    &&& forall|q: PathBuf, p: PathBuf| (!f.contains_key(q) || q == k) && #[trigger] includes(g, q, p) && content(p) is Some ==> g.contains_key(p)
}
pub proof fn lemma_taken(f: Files, g: Files, dirs: Seq<PathBuf>, k: PathBuf, text: Seq<char>)
    requires taken(f, g, dirs, k, text, type_of(k)), !f.contains_key(k), content(k) == Some(text), canon(k) == Some(k),
    ensures grown(f, g, dirs),
{
    assert(same_unread(f.dom().insert(k), f.dom()));
    assert forall|q: PathBuf| #[trigger] g.contains_key(q) && !f.contains_key(q) implies loaded(q, g[q], dirs, f.dom()) by {
        lemma_parsed_pf(q, content(q)->Some_0, type_of(q), dirs, f.dom().insert(k), f.dom());
    }
}
/// files came in because they are included: nothing that was known changed
pub open spec fn grown(f: Files, g: Files, dirs: Seq<PathBuf>) -> bool {
    &&& forall|k: PathBuf| #[trigger] f.contains_key(k) ==> g.contains_key(k) && g[k] == f[k]
    &&& forall|k: PathBuf| #[trigger] g.contains_key(k) && !f.contains_key(k) ==> loaded(k, g[k], dirs, f.dom())
    &&& forall|k: PathBuf, p: PathBuf| !f.contains_key(k) && #[trigger] includes(g, k, p) && content(p) is Some ==> g.contains_key(p)
}
pub open spec fn loaded(k: PathBuf, x: SPf, dirs: Seq<PathBuf>, known: Set<PathBuf>) -> bool {
    content(k) is Some && canon(k) == Some(k) && x == parsed_pf(k, content(k)->Some_0, type_of(k), dirs, known)
}
pub proof fn lemma_grown(f: Files, g: Files, h: Files, dirs: Seq<PathBuf>)
    requires grown(f, g, dirs), grown(g, h, dirs),
    ensures grown(f, h, dirs),
{
    assert forall|k: PathBuf| #[trigger] h.contains_key(k) && !f.contains_key(k) implies loaded(k, h[k], dirs, f.dom()) by {
        if g.contains_key(k) { assert(h[k] == g[k]); } else {
            assert(same_unread(g.dom(), f.dom()));
            lemma_parsed_pf(k, content(k)->Some_0, type_of(k), dirs, g.dom(), f.dom());
        }
    }
    assert forall|k: PathBuf, p: PathBuf| !f.contains_key(k) && #[trigger] includes(h, k, p) && content(p) is Some implies h.contains_key(p) by {
        if g.contains_key(k) { assert(includes(g, k, p)); assert(g.contains_key(p)); }
    }
}

/// the file itself comes last
pub proof fn lemma_end(f: Files, d: SPf, g: Files, x: SPf, dirs: Seq<PathBuf>, k: PathBuf, text: Seq<char>, typ: FileType)
    requires grown(f.insert(k, d), g, dirs), x == parsed_pf(k, text, typ, dirs, f.dom().insert(k)),
        forall|p: PathBuf| x.file is Some && #[trigger] names(x.file->Some_0, p) && content(p) is Some ==> g.contains_key(p),
    ensures taken(f, g.insert(k, x), dirs, k, text, typ),
{
    let fd = f.insert(k, d);
    let h = g.insert(k, x);
    assert(fd.dom() =~= f.dom().insert(k));
    assert forall|q: PathBuf| #[trigger] f.contains_key(q) && q != k implies h.contains_key(q) && h[q] == f[q] by { assert(fd.contains_key(q)); }
    assert forall|q: PathBuf, p: PathBuf| (!f.contains_key(q) || q == k) && #[trigger] includes(h, q, p) && content(p) is Some implies h.contains_key(p) by {
        if q == k { assert(names(x.file->Some_0, p)); assert(g.contains_key(p)); } else { assert(!fd.contains_key(q)); assert(includes(g, q, p)); assert(g.contains_key(p)); }
    }
}
pub proof fn lemma_first_in(dirs: Seq<PathBuf>, name: Seq<char>, i: int)
    ensures first_in(dirs, name, i) matches Some(p) ==> canon(p) == Some(p),
    decreases dirs.len() - i
{
    if 0 <= i < dirs.len() {
        axiom_canon(joined(dirs[i], name));
        lemma_first_in(dirs, name, i + 1);
    }
}
/// what is found is canonical
pub proof fn lemma_lookup(dirs: Seq<PathBuf>, name: Seq<char>)
    ensures lookup(dirs, name) matches Some(p) ==> canon(p) == Some(p),
{ lemma_first_in(dirs, name, 0); axiom_canon(path_of(name)); }
pub proof fn lemma_ok_inc(e: Seq<SPrim>, n: int, i: int)
    requires ok_prims(e), 0 <= i < incs(e, n).len(), n <= e.len(),
    ensures span_ok(inc_span(incs(e, n)[i])),
    decreases n
{
    if n > 0 { assert(ok_prim(e[n - 1])); if i < incs(e, n - 1).len() { lemma_ok_inc(e, n - 1, i); } }
}
pub proof fn lemma_parsed_ok(path: PathBuf, text: Seq<char>, dirs: Seq<PathBuf>)
    requires encode_utf8(text).len() <= MAX_LEN,
    ensures parse_of(path, text, dirs).0 matches Ok(e) ==> ok_prims(e),
{
    encode_utf8_valid_utf8(text);
    let p = start_of(path, text, dirs_of(path, dirs));
    reveal(wf_pk);
    lemma_bnd_start(p.lx.x.d);
    crate::okay::lemma_file(p, seq![]);
}

} // verus!
