@module dts::project file ginko/src/dts/project.rs
@use crate::spec::*
@use crate::lex::*
@use crate::gram::*
@use crate::tree::*
@use crate::host::*
@use crate::anal::*
@use crate::aview::*
@use crate::dts::analysis::*
@use crate::dts::ast::*
@use crate::dts::tokens::token::*
@use crate::dts::diagnostics::*
@use crate::dts::data::*
@dropuse itertools::*
@dropuse std::iter::empty
@dropuse std::{fs, io}
@mapuse std::collections::HashMap => crate::host::HashMap
@mapuse std::collections::HashSet => crate::host::HashSet
@use crate::proj::*
@use crate::hist::*
@use vstd::utf8::encode_utf8
@use crate::dts::visitor::*
@text
broadcast use {lemma_no_ds, lemma_files_insert};
pub open spec fn file_at(p: Project, path: PathBuf) -> Option<SPf> {
    let k = known_as(path);
    if p.files.map().contains_key(k) { Some(v_pf(p.files.map()[k])) } else { None }
}
pub open spec fn tree_at(p: Project, path: PathBuf) -> Option<SFile> { match file_at(p, path) { Some(f) => f.file, None => None } }
pub open spec fn ctx_at(p: Project, path: PathBuf) -> Option<SCtx> { match file_at(p, path) { Some(f) => f.ctx, None => None } }
/// the node that a reference in a file stands for
pub open spec fn referenced(p: Project, path: PathBuf, r: SRefr) -> Option<SNode> {
    match ctx_at(p, path) { Some(c) => find_ref(c, r), None => None }
}
@mapuse crate::dts::Parser => crate::dts::parser::Parser
@mapuse crate::dts::ParserContext => crate::dts::parser::ParserContext
@noderive ProjectFile Default
@noderive Project Default
@drop Project::all_diagnostics
@drop Project::project_files
@drop Project::assert_no_diagnostics
@fn ProjectFile::parsed ret r
    ensures v_pf(r) == (SPf { perr: v_ds(diagnostics@), aerr: seq![], file: Some(file@), ctx: None, typ: file_type, src: source@ }),
@fn ProjectFile::unrecoverable ret r
    ensures v_pf(r) == (SPf { perr: v_ds(diagnostics@), aerr: seq![], file: None, ctx: None, typ: file_type, src: source@ }),
@fn ProjectFile::has_errors ret r
    ensures r == erroneous(v_pf(*self), *severity_map),
@expect ProjectFile::diagnostics
self.parser_diagnostics.iter().chain(&self.analysis_diagnostics)
@rewrite
self.diagnostics().any(|diagnostic| diagnostic.severity(severity_map) == Severity::Error) >>> { let mut any__ = false; let a__ = &self.parser_diagnostics; let mut i__: usize = 0; while i__ < a__.len() invariant a__@ == self.parser_diagnostics@, i__ <= a__@.len(), any__ <==> (exists|k: int| 0 <= k < i__ && severity_map.inner.at((#[trigger] v_ds(a__@)[k]).kind) == Severity::Error), decreases a__@.len() - i__ { let diagnostic = &a__[i__]; i__ = i__ + 1; proof { assert(v_ds(a__@)[i__ - 1] == diagnostic@); } if diagnostic.severity(severity_map) == Severity::Error { any__ = true; } } let b__ = &self.analysis_diagnostics; let mut j__: usize = 0; let ghost any0__ = any__; while j__ < b__.len() invariant b__@ == self.analysis_diagnostics@, j__ <= b__@.len(), a__@ == self.parser_diagnostics@, any0__ == one_error(v_ds(a__@), *severity_map), any__ <==> any0__ || (exists|k: int| 0 <= k < j__ && severity_map.inner.at((#[trigger] v_ds(b__@)[k]).kind) == Severity::Error), decreases b__@.len() - j__ { let diagnostic = &b__[j__]; j__ = j__ + 1; proof { assert(v_ds(b__@)[j__ - 1] == diagnostic@); } if diagnostic.severity(severity_map) == Severity::Error { any__ = true; } } proof { lemma_any(v_ds(a__@), v_ds(b__@), *severity_map); } any__ }
@fn project_path ret r
    ensures r == known_as(owned(path)),
@rewrite
dunce::canonicalize(path).unwrap_or_else(|_| path.to_path_buf()) >>> match crate::host::canonicalize(path.to_path_buf()) { Ok(p__) => p__, Err(_) => path.to_path_buf() }
@fn Project::get_file ret r
    ensures match r {
        Some(f) => self.files.map().contains_key(known_as(owned(path))) && *f == self.files.map()[known_as(owned(path))],
        None => !self.files.map().contains_key(known_as(owned(path))),
    },
@rewrite
self.files.get(&project_path(path)) >>> { let p__ = project_path(path); self.files.get(&p__) }
@fn Project::set_include_paths
    ensures final(self).files == old(self).files, final(self).severities == old(self).severities,
        final(self).include_paths@.len() == include_paths@.len(),
        forall|i: int| 0 <= i < include_paths@.len() ==> final(self).include_paths@[i] == (match canon(path_of(#[trigger] include_paths@[i]@)) { Some(p) => p, None => path_of(""@) }),
@rewrite
include_paths .iter() .map(|path| dunce::canonicalize(path).unwrap_or_default()) .collect::<Vec<PathBuf>>() >>> { let mut out__: Vec<PathBuf> = Vec::new(); let mut i__: usize = 0; while i__ < include_paths.len() invariant i__ <= include_paths@.len(), out__@.len() == i__, forall|k: int| 0 <= k < i__ ==> out__@[k] == (match canon(path_of(#[trigger] include_paths@[k]@)) { Some(p) => p, None => path_of(""@) }), decreases include_paths@.len() - i__ { let path = &include_paths[i__]; i__ = i__ + 1; let p__ = match crate::host::canonicalize_text(path.clone()) { Ok(p__) => p__, Err(_) => crate::host::empty_path() }; out__.push(p__); } out__ }

@fn ProjectFile::analysis_context ret r
    ensures (match r { Some(c) => Some(v_ctx(*c)), None => None }) == v_pf(*self).ctx,
@fn ProjectFile::source ret r
    ensures *r == self.source,
@fn Project::remove_file
    ensures final(self).files.map() == old(self).files.map().remove(known_as(owned(path))), final(self).include_paths == old(self).include_paths, final(self).severities == old(self).severities,
@rewrite
self.files.remove(&project_path(path)) >>> { let p__ = project_path(path); self.files.remove(&p__) }
@fn Project::get_analysis ret r
    ensures (match r { Some(c) => Some(v_ctx(*c)), None => None }) == ctx_at(*self, owned(path)),
@fn Project::get_root ret r
    ensures (match r { Some(f) => Some(f@), None => None }) == tree_at(*self, owned(path)),
@fn Project::find_at_pos ret r
    requires tree_at(*self, owned(path)) matches Some(f) ==> ok_prims(f.elements),
    ensures crate::dts::visitor::at(r) == (match tree_at(*self, owned(path)) { Some(f) => find(spots_file(f.elements, f.elements.len() as int), *position), None => None }),
@rewrite
|file| file.file.as_ref() >>> |file: &'a ProjectFile| -> (r: Option<&'a DtsFile>) ensures match r { Some(f) => file.file == Some(*f), None => file.file is None } { file.file.as_ref() }
@fn Project::document_reference ret r
    ensures (match r { Some(t) => Some(t@), None => None }) == (match referenced(*self, owned(path), reference@) { Some(n) => Some("Node "@ + n.name.item.name), None => None }),
@flag text
@rewrite
referenced.name.name.clone() >>> referenced.name.item().name.clone()
@proof body_start
    broadcast use crate::fmt::group_text;
@fn Project::get_node_position ret r
    ensures r == (match referenced(*self, owned(path), reference@) { Some(n) => Some((n.name.tok.span, n.name.tok.src)), None => None }),

@text
/// derived
impl ProjectFile {
    #[verifier::external_body]
    fn default() -> ProjectFile { unimplemented!() }
}
/// the includes of a file
fn includes_of(e: &Vec<Primary>) -> (r: Vec<&Include>)
    ensures r@.len() == incs(v_prims(e@), e@.len() as int).len(), forall|k: int| 0 <= k < r@.len() ==> v_inc(*#[trigger] r@[k]) == incs(v_prims(e@), e@.len() as int)[k],
{
    let mut r: Vec<&Include> = Vec::new();
    let mut i: usize = 0;
    while i < e.len()
        invariant i <= e@.len(), r@.len() == incs(v_prims(e@), i as int).len(), forall|k: int| 0 <= k < r@.len() ==> v_inc(*#[trigger] r@[k]) == incs(v_prims(e@), i as int)[k],
        decreases e@.len() - i,
    {
        let x = &e[i];
        i = i + 1;
        proof { assert(v_prims(e@)[i - 1] == x@); }
        if let Some(y) = x.as_include() { r.push(y); }
    }
    r
}
@fn Project::compute_key_order ret r
    ensures ({
        let f = v_files(self.files.map());
        r@.no_duplicates() && in_place(f, r@) && forall|k: PathBuf| #[trigger] r@.contains(k) <==> f.contains_key(k)
    }),
@rewrite
self.files.keys().sorted() >>> crate::host::sorted_keys(&self.files)
@proof body_start
    let ghost f = v_files(self.files.map());
@loop 0
    invariant f == v_files(self.files.map()), i__0 <= seq__0@.len(), seq__0@.map_values(|k: &PathBuf| *k) == sorted(self.files.map().dom()),
        forall|k: PathBuf| sorted(self.files.map().dom()).contains(k) <==> self.files.map().contains_key(k),
        visited_on(f, Set::empty(), Seq::empty(), visited.set(), order@),
        forall|j: int| 0 <= j < i__0 ==> visited.set().contains(#[trigger] sorted(self.files.map().dom())[j]),
    decreases seq__0@.len() - i__0,
@proof loop 0 after
    proof {
        assert forall|k: PathBuf| #[trigger] order@.contains(k) <==> f.contains_key(k) by {
            if f.contains_key(k) {
                assert(sorted(self.files.map().dom()).contains(k));
                let j = choose|j: int| 0 <= j < sorted(self.files.map().dom()).len() && sorted(self.files.map().dom())[j] == k;
                assert(visited.set().contains(k));
            } else if order@.contains(k) { assert(visited.set().contains(k)); }
        }
    }
@fn Project::push_after_includes
    requires stacked(v_files(self.files.map()), old(visited).set(), old(order)@, *path),
    ensures visited_on(v_files(self.files.map()), old(visited).set(), old(order)@, final(visited).set(), final(order)@),
        self.files.map().contains_key(*path) ==> final(visited).set().contains(*path),
    decreases self.files.map().dom().len() - old(visited).set().len(),
@proof body_start
    let ghost f = v_files(self.files.map());
    let ghost v0 = visited.set();
    let ghost o0 = order@;
    proof { axiom_path_buf(); }
@rewrite
dts_file .elements .iter() .filter_map(|el| el.as_include()) >>> includes_of(&dts_file.elements)
@loop 0
    invariant f == v_files(self.files.map()), f.contains_key(*path), f[*path].file == Some(dts_file@), i__0 <= seq__0@.len(),
        seq__0@.len() == all_incs(dts_file@).len(), forall|k: int| 0 <= k < seq__0@.len() ==> v_inc(*#[trigger] seq__0@[k]) == all_incs(dts_file@)[k],
        visited_on(f, v0.insert(*path), o0, visited.set(), order@), stacked(f, v0, o0, *path), !v0.contains(*path), v0 == old(visited).set(),
        forall|k: int, q: PathBuf| 0 <= k < i__0 && inc_file(#[trigger] all_incs(dts_file@)[k]) == Some(q) && f.contains_key(q) ==> #[trigger] visited.set().contains(q),
    decreases seq__0@.len() - i__0,
@proof before_call push_after_includes 0
    proof {
        let p = include_path;
        let v = visited.set();
        lemma_fewer(f, v); lemma_fewer(f, v0.insert(*path));
        assert(v0.insert(*path).subset_of(v));
        vstd::set_lib::lemma_len_subset(v0.insert(*path), v);
        assert(f.dom() =~= self.files.map().dom()); assert(v0.insert(*path).len() == v0.len() + 1);
        if f.contains_key(p) {
            assert(inc_file(all_incs(dts_file@)[i__0 - 1]) == Some(p));
            assert(needs(f, *path, p));
            assert forall|q: PathBuf| #[trigger] v.contains(q) && !order@.contains(q) implies reach(f, q, p) by {
                if q == *path { lemma_reach_one(f, q, p); } else { assert(v0.contains(q) && !o0.contains(q)); lemma_reach_on(f, q, *path, p); }
            }
        }
    }
@proof before_call push 0
    proof {
        let v = visited.set();
        assert forall|q: PathBuf| #[trigger] needs(f, *path, q) implies v.contains(q) by {
            let t = f[*path].file->Some_0;
            let k = choose|k: int| 0 <= k < all_incs(t).len() && inc_file(#[trigger] all_incs(t)[k]) == Some(q);
        }
        lemma_placed(f, v0, o0, visited.set(), order@, *path);
    }

@fn Project::parse_file
    requires encode_utf8(text@).len() <= MAX_LEN,
    ensures
        final(self).include_paths == old(self).include_paths, final(self).severities == old(self).severities,
        taken(v_files(old(self).files.map()), v_files(final(self).files.map()), old(self).include_paths@, file_name, text@, file_type),
@fattr #[verifier::exec_allows_no_decreases_clause]
@proof body_start
    let ghost f0 = v_files(self.files.map());
    let ghost dirs = self.include_paths@;
    let ghost key = file_name;
    proof { axiom_path_buf(); axiom_shared(file_name); lemma_parsed_ok(file_name, text@, dirs); }
@rewrite
file_name.clone().into() >>> crate::host::share(file_name.clone())
@rewrite
file_name.parent() >>> file_name.as_path().parent()
@rewrite
parent.into() >>> parent.to_path_buf()
@rewrite
file.elements .iter() .filter_map(|primary| primary.as_include()) .for_each(|include| self.parse_included_file(&mut parser.diagnostics, include)); >>> let all__ = includes_of(&file.elements); let ghost t = SFile { elements: v_prims(file.elements@), src: shared(file_name) }; let ghost ds0 = v_ds(parser.diagnostics@); let ghost fd = v_files(self.files.map()); let mut i__: usize = 0; while i__ < all__.len() invariant i__ <= all__@.len(), t == (SFile { elements: v_prims(file.elements@), src: shared(file_name) }), all__@.len() == all_incs(t).len(), forall|k: int| 0 <= k < all__@.len() ==> v_inc(*#[trigger] all__@[k]) == all_incs(t)[k], ok_prims(t.elements), self.include_paths == old(self).include_paths, self.severities == old(self).severities, dirs == old(self).include_paths@, grown(fd, v_files(self.files.map()), dirs), v_ds(parser.diagnostics@) == ds0 + inc_issues(fd.dom(), all_incs(t), i__ as int), forall|k: int, p: PathBuf| 0 <= k < i__ && inc_file(#[trigger] all_incs(t)[k]) == Some(p) && content(p) is Some ==> #[trigger] v_files(self.files.map()).contains_key(p), decreases all__@.len() - i__ { let include = all__[i__]; i__ = i__ + 1; let ghost g = v_files(self.files.map()); proof { lemma_ok_inc(t.elements, t.elements.len() as int, i__ - 1); assert(same_unread(g.dom(), fd.dom())); assert(self.files.map().dom() =~= g.dom()); lemma_inc_issues(g.dom(), fd.dom(), all_incs(t), i__ as int); assert(inc_issue(g.dom(), all_incs(t)[i__ - 1]) == inc_issue(fd.dom(), all_incs(t)[i__ - 1])) by { match inc_file(all_incs(t)[i__ - 1]) { Some(p) => { assert(content(p) is None ==> (g.dom().contains(p) <==> fd.dom().contains(p))); }, None => {} } } } self.parse_included_file(&mut parser.diagnostics, include); proof { let h = v_files(self.files.map()); lemma_grown(fd, g, h, dirs); assert forall|k: int, p: PathBuf| 0 <= k < i__ && inc_file(#[trigger] all_incs(t)[k]) == Some(p) && content(p) is Some implies #[trigger] h.contains_key(p) by { if k < i__ - 1 { assert(g.contains_key(p)); } } } }
@proof after_let parser 0
    proof {
        assert(parser.context.include_paths@ =~= dirs_of(file_name, dirs));
        assert(v_ds(parser.diagnostics@) =~= Seq::empty());
        assert(parser.view() == start_of(file_name, text@, dirs_of(file_name, dirs)));
    }
@proof before_call insert 2
    let ghost g0 = v_files(self.files.map());
@proof after_call insert 2
    proof {
        let x = v_files(self.files.map())[key];
        assert(x == parsed_pf(key, text@, file_type, dirs, f0.dom().insert(key))) by { assert(fd.dom() =~= f0.dom().insert(key)); }
        assert forall|p: PathBuf| x.file is Some && #[trigger] names(x.file->Some_0, p) && content(p) is Some implies g0.contains_key(p) by {
            let k = choose|k: int| 0 <= k < all_incs(t).len() && inc_file(#[trigger] all_incs(t)[k]) == Some(p);
        }
        lemma_end(f0, fd[key], g0, x, dirs, key, text@, file_type);
    }
@proof before_call insert 3
    let ghost ds3 = v_ds(parser.diagnostics@);
@proof after_call insert 3
    proof {
        let g = v_files(self.files.map());
        assert(ds3 == parse_of(key, text@, dirs).1.ds.push(parse_of(key, text@, dirs).0->Err_0));
        assert(g[key] == parsed_pf(key, text@, file_type, dirs, f0.dom().insert(key)));
        assert forall|q: PathBuf, p: PathBuf| (!f0.contains_key(q) || q == key) && #[trigger] includes(g, q, p) implies false by {}
    }
@fn Project::parse_included_file
    requires span_ok(inc_span(v_inc(*include))),
    ensures
        final(self).include_paths == old(self).include_paths, final(self).severities == old(self).severities,
        grown(v_files(old(self).files.map()), v_files(final(self).files.map()), old(self).include_paths@),
        v_ds(final(diagnostics)@) == (match inc_issue(old(self).files.map().dom(), v_inc(*include)) { Some(d) => v_ds(old(diagnostics)@).push(d), None => v_ds(old(diagnostics)@) }),
        inc_file(v_inc(*include)) matches Some(p) ==> content(p) is Some ==> final(self).files.map().contains_key(p),
@fattr #[verifier::exec_allows_no_decreases_clause]
@rewrite
fs::read_to_string(&canonicalized_path) >>> crate::host::read_to_string(&canonicalized_path)
@proof body_start
    let ghost f0 = v_files(self.files.map());
    let ghost dirs = self.include_paths@;
@proof after_call parse_file 0
    proof {
        let g = v_files(self.files.map());
        let p = inc_file(v_inc(*include))->Some_0;
        lemma_lookup(include.include_paths@, include.file_name.item@);
        lemma_taken(f0, g, dirs, p, content(p)->Some_0);
    }

@text
/// what is known about the files is a function of their texts
pub open spec fn sane(p: Project) -> bool { healthy(v_files(p.files.map()), p.severities, p.include_paths@) }
/// what adding a file needs: the files were parsed some time
pub open spec fn usable(p: Project) -> bool { fit(v_files(p.files.map())) && no_tree_no_finding(v_files(p.files.map())) }
pub proof fn lemma_usable(p: Project)
    requires sane(p),
    ensures usable(p),
{
    let f = v_files(p.files.map());
    lemma_fit(f, p.include_paths@);
    assert forall|k: PathBuf| #[trigger] f.contains_key(k) && f[k].file is None implies f[k].ctx is None && f[k].aerr.len() == 0 by { assert(settled(f, p.severities, k)); }
}
@fn Project::add_file_with_text
    requires encode_utf8(text@).len() <= MAX_LEN, usable(*old(self)),
    ensures
        final(self).include_paths == old(self).include_paths, final(self).severities == old(self).severities,
        sane(*old(self)) ==> sane(*final(self)),
        usable(*final(self)), all_settled(v_files(final(self).files.map()), final(self).severities),
        parsed(v_files(final(self).files.map()), final(self).include_paths@, known_as(file_name)),
        texts_after(v_files(old(self).files.map()), v_files(final(self).files.map()), known_as(file_name), text@, file_type),
@rewrite
project_path(&file_name) >>> project_path(file_name.as_path())
@proof body_start
    let ghost f0 = v_files(self.files.map());
    let ghost dirs = self.include_paths@;
    let ghost sev = self.severities;
    let ghost key0 = known_as(file_name);
    let ghost text0 = text@;
    let ghost was_sane = sane(*self);
    proof { axiom_canon(file_name); axiom_path_buf(); assert(known_as(key0) == key0); }
@proof after_call parse_file 0
    let ghost f1 = v_files(self.files.map());
    proof {
        lemma_taken_fit(f0, f1, dirs, key0, text0, file_type);
        if was_sane { lemma_loaded(f0, f1, dirs, key0, text0, file_type); }
        assert(no_tree_no_finding(f1)) by {
            assert forall|k: PathBuf| #[trigger] f1.contains_key(k) && f1[k].file is None implies f1[k].ctx is None && f1[k].aerr.len() == 0 by {
                if f0.contains_key(k) && k != key0 { assert(f1[k] == f0[k]); }
            }
        }
    }
@loop 0
    invariant seq__0@ == keys@, i__0 <= seq__0@.len(), self.include_paths == old(self).include_paths, self.severities == old(self).severities, sev == self.severities, dirs == self.include_paths@,
        fit(v_files(self.files.map())), in_place(v_files(self.files.map()), keys@), keys@.no_duplicates(),
        forall|k: PathBuf| #[trigger] keys@.contains(k) <==> v_files(self.files.map()).contains_key(k),
        analysed(v_files(self.files.map()), sev, keys@, i__0 as int), no_tree_no_finding(v_files(self.files.map())),
        edges_in(v_files(self.files.map()), edges_of(analysis.import_guard)), same_base(f1, v_files(self.files.map())),
    decreases seq__0@.len() - i__0,
@proof loop 0 start
    let ghost f = v_files(self.files.map());
    let ghost x = edges_of(analysis.import_guard);
    proof { assert(keys@.contains(keys@[i__0 - 1])); lemma_tree(f, *key); assert(f.contains_key(*key)); }
@proof after_let result 0
    let ghost t = f[*key].file->Some_0;
    proof { assert(v_ctx(result.context) == analyzed(env_of(f, sev, *key, t), x, t.elements).ctx); }
@proof loop 0 end
    proof {
        let g = v_files(self.files.map());
        let a = analyzed(env_of(f, sev, *key, t), x, t.elements);
        assert(g =~= f.insert(*key, SPf { ctx: Some(a.ctx), aerr: a.ds, ..f[*key] }));
        lemma_analysed(f, g, sev, keys@, i__0 - 1, x);
        lemma_same_base(f1, f, g);
    }
@proof loop 0 after
    proof {
        let g = v_files(self.files.map());
        assert forall|k: PathBuf| #[trigger] g.contains_key(k) implies settled(g, sev, k) by {
            assert(keys@.contains(k));
            let j = choose|j: int| 0 <= j < keys@.len() && keys@[j] == k;
            assert(settled(g, sev, keys@[j]));
        }
        lemma_stay(f1, g, dirs);
        assert(parsed(f1, dirs, key0));
        lemma_texts(f0, f1, g, key0, text0, file_type);
    }
@fn Project::add_file ret r
    requires sane(*old(self)),
    ensures
        final(self).include_paths == old(self).include_paths, final(self).severities == old(self).severities,
        sane(*final(self)),
        r is Ok <==> canon(path_of(file_name@)) is Some && content(canon(path_of(file_name@))->Some_0) is Some,
        r is Err ==> final(self).files == old(self).files,
        r is Ok ==> ({
            let p = canon(path_of(file_name@))->Some_0;
            texts_after(v_files(old(self).files.map()), v_files(final(self).files.map()), p, content(p)->Some_0, type_of(p))
        }),
@rewrite
dunce::canonicalize(file_name) >>> crate::host::canonicalize_text(file_name)
@rewrite
fs::read_to_string(file_name.clone()) >>> crate::host::read_to_string(&file_name)
@proof body_start
    proof { axiom_canon(path_of(file_name@)); lemma_usable(*self); }
@text
/// the issues of a file in the order in which they are listed
pub open spec fn issues(f: ProjectFile) -> Seq<Diagnostic> { f.parser_diagnostics@ + f.analysis_diagnostics@ }
/// an iteration over shared values stands for the values
pub open spec fn seen<T>(r: Seq<&T>) -> Seq<T> { r.map_values(|x: &T| *x) }
/// `a.iter().chain(b)`
pub fn chained<'a, T>(a: &'a Vec<T>, b: &'a Vec<T>) -> (r: Vec<&'a T>)
    ensures seen(r@) == a@ + b@,
{
    let mut r: Vec<&'a T> = Vec::new();
    proof { assert(seen(r@) =~= a@.subrange(0, 0)); }
    let mut i: usize = 0;
    while i < a.len()
        invariant i <= a@.len(), seen(r@) == a@.subrange(0, i as int),
        decreases a@.len() - i,
    { let ghost r0 = r@; let x: &'a T = &a[i]; r.push(x); proof { assert(*x == a@[i as int]); assert(seen(r@) =~= seen(r0).push(*x)); assert(a@.subrange(0, i + 1) =~= a@.subrange(0, i as int).push(a@[i as int])); } i = i + 1; }
    proof { assert(a@.subrange(0, a@.len() as int) =~= a@); }
    proof { assert(a@ + b@.subrange(0, 0) =~= a@); }
    let mut j: usize = 0;
    while j < b.len()
        invariant j <= b@.len(), seen(r@) == a@ + b@.subrange(0, j as int),
        decreases b@.len() - j,
    { let ghost r0 = r@; let x: &'a T = &b[j]; r.push(x); proof { assert(*x == b@[j as int]); assert(seen(r@) =~= seen(r0).push(*x)); assert(a@ + b@.subrange(0, j + 1) =~= (a@ + b@.subrange(0, j as int)).push(b@[j as int])); } j = j + 1; }
    proof { assert(b@.subrange(0, b@.len() as int) =~= b@); }
    r
}
/// derived
impl Project {
    pub fn default() -> (r: Project)
        ensures r.files.map() == Map::<PathBuf, ProjectFile>::empty(), r.include_paths@.len() == 0, crate::dts::error_codes::standard(r.severities), sane(r),
    {
        let r = Project { files: HashMap::default(), include_paths: Vec::new(), severities: SeverityMap::default() };
        proof { assert(v_files(r.files.map()).dom() =~= Set::empty()); }
        r
    }
}
@fn ProjectFile::diagnostics ret r
    ensures seen(r@) == issues(*self),
@rewrite
impl Iterator<Item = &Diagnostic> >>> Vec<&Diagnostic>
@rewrite
self.parser_diagnostics.iter().chain(&self.analysis_diagnostics) >>> chained(&self.parser_diagnostics, &self.analysis_diagnostics)
@fn Project::get_diagnostics ret r
    ensures seen(r@) == (if self.files.map().contains_key(known_as(owned(path))) { issues(self.files.map()[known_as(owned(path))]) } else { Seq::empty() }),
@rewrite
Box<dyn Iterator<Item = &Diagnostic> + '_> >>> Vec<&Diagnostic>
@rewrite
Box::new(empty()) >>> { let e__: Vec<&Diagnostic> = Vec::new(); proof { assert(seen(e__@) =~= Seq::<Diagnostic>::empty()); } e__ }
@rewrite
Box::new(file.diagnostics()) >>> file.diagnostics()
@fn Project::files ret r
    ensures seen_paths(r@).no_duplicates(), forall|k: PathBuf| #[trigger] seen_paths(r@).contains(k) <==> self.files.map().contains_key(k),
@rewrite
impl Iterator<Item = &Path> >>> Vec<&Path>
@rewrite
self.files.keys().map(|key| key.as_path()) >>> crate::host::key_paths(&self.files)
@end
