@module dts::analysis file ginko/src/dts/analysis.rs
@use crate::spec::*
@use crate::lex::*
@use crate::gram::*
@use crate::tree::*
@use crate::host::*
@use crate::anal::*
@use crate::aview::*
@use crate::dts::ast::*
@use crate::dts::tokens::token::*
@use crate::dts::tokens::lexer::*
@use crate::dts::diagnostics::*
@use crate::dts::import_guard::*
@use crate::dts::project::*
@use crate::dts::data::*
@mapuse std::collections::HashMap => crate::host::HashMap
@mapuse crate::dts::Diagnostic => crate::dts::diagnostics::Diagnostic
@mapuse crate::dts::FileType => crate::dts::data::FileType
@mapuse crate::dts::Position => crate::dts::data::Position
@mapuse crate::dts::Project => crate::dts::project::Project
@text
broadcast use {lemma_labs_insert, lemma_paths_insert, lemma_nodes_insert, lemma_labs_union, lemma_paths_union, lemma_nodes_union, lemma_no_maps, lemma_push_refs, lemma_push_ds, lemma_no_ds};
@fn Analysis::new ret r
    ensures edges_of(r.import_guard) =~= ISet::<(PathBuf, PathBuf)>::empty(),
@fn AnalysisContext::get_node_by_label ret r
    ensures (match r { Some(n) => Some(v_node(**n)), None => None }) == find_ref(v_ctx(*self), SRefr::Label(label@)),
@fn AnalysisContext::get_node_by_path ret r
    ensures (match r { Some(n) => Some(v_node(**n)), None => None }) == find_ref(v_ctx(*self), SRefr::Path(path@)),
@fn AnalysisContext::get_referenced ret r
    ensures (match r { Some(n) => Some(v_node(**n)), None => None }) == find_ref(v_ctx(*self), reference@),
@fn FileContext::add_diagnostic
    ensures same(*old(self), *final(self)), sx(*final(self)) == note(sx(*old(self)), true, diagnostic@),
@fn FileContext::resolve_reference ret r
    ensures match r { Some(p) => v_paths(self.label_paths.map()).contains_key(label@) && p@ == v_paths(self.label_paths.map())[label@], None => !v_paths(self.label_paths.map()).contains_key(label@) },
@fn FileContext::into_result ret r
    ensures v_ctx(r.context) == sa(self, ISet::empty()).ctx, r.diagnostics == self.diagnostics,
@fn Analysis::analyze_file ret r
    requires ok_prims(file@.elements),
    ensures ({
        let a = analyzed(env(*project, file_type, file@.src), edges_of(old(self).import_guard), file@.elements);
        v_ctx(r.context) == a.ctx && v_ds(r.diagnostics@) == a.ds && edges_of(final(self).import_guard) == a.edges
    }),
@proof body_start
    let ghost e = env(*project, file_type, file@.src);
    let ghost a0 = an_begin(e, edges_of(self.import_guard));
    let ghost a1 = an_prims(e, a0, file@.elements, file@.elements.len() as int);
@loop 0
    invariant e == env(*project, file_type, file@.src), ctx.project == project, ctx.file_type == file_type, seq__0@ == file.elements@, i__0 <= seq__0@.len(),
        file@.elements == v_prims(file.elements@), ok_prims(file@.elements),
        sa(ctx, edges_of(self.import_guard)) == an_prims(e, a0, file@.elements, i__0 as int),
    decreases seq__0@.len() - i__0,
@proof loop 0 start
    let ghost b = sx(ctx);
    let ghost x = edges_of(self.import_guard);
    let ghost el = file@.elements[i__0 - 1];
    proof {
        assert(ok_prim(el)); assert(el == file.elements@[i__0 - 1]@);
        assert(we(b, x) == an_prims(e, a0, file@.elements, i__0 - 1));
        match el {
            SPrim::Dir(SDirv::DelNode(_, r)) => lemma_ref_we(e.typ, b, r, x),
            SPrim::Dir(SDirv::Omit(_, r)) => lemma_ref_we(e.typ, b, r, x),
            SPrim::Root(n) => lemma_node_we(b, n, seq![], x),
            SPrim::Refd(r, p) => lemma_refd_we(e.typ, b, r, p, x),
            _ => {},
        }
    }
@proof loop 0 before
    proof { assert(v_refs(ctx.unresolved_references@) =~= Seq::empty()); assert(a0 == sa(ctx, edges_of(self.import_guard))); }
@proof loop 0 after
    proof { assert(sa(ctx, edges_of(self.import_guard)) == a1); }
@proof before_call resolve_references 0
    let ghost a2 = sa(ctx, edges_of(self.import_guard));
    proof { assert(a2 == note(a1, !a1.header && e.typ == FileType::DtSource, no_header(e))); assert(a2.unres.len() == ctx.unresolved_references@.len()); }
@proof after_call resolve_references 0
    proof {
        lemma_unres_edges(e.typ, we(a2, ISet::empty()), a2.edges, a2.unres, a2.unres.len() as int);
        assert(sa(ctx, edges_of(self.import_guard)) == an_unres(e.typ, a2, a2.unres, a2.unres.len() as int));
        assert(sa(ctx, edges_of(self.import_guard)) == analyzed(e, edges_of(old(self).import_guard), file@.elements));
        assert(sa(ctx, ISet::empty()).ctx == sa(ctx, edges_of(self.import_guard)).ctx);
    }
@fn Analysis::analyze_include
    requires span_ok(inc_span(v_inc(*include))),
    ensures same(*old(ctx), *final(ctx)),
        sa(*final(ctx), edges_of(final(self).import_guard)) == an_inc(env(*old(ctx).project, old(ctx).file_type, parent@.src), sa(*old(ctx), edges_of(old(self).import_guard)), v_inc(*include)),
@proof body_start
    proof { axiom_path_buf(); }
    let ghost g0 = self.import_guard;
@rewrite
.add(path.clone(), &[parent.source.clone().to_path_buf()]) >>> .add(path.clone(), crate::host::one(crate::host::to_owned(&parent.source)).as_slice())
@rewrite
ctx.project.get_file(&path) >>> ctx.project.get_file(path.as_path())
@proof before_call cyclic_dependency_error 0
    proof { lemma_edges(g0, self.import_guard, path, owned(&*parent.source)); }
@proof before_call get_file 0
    proof { lemma_edges(g0, self.import_guard, path, owned(&*parent.source)); }
@fn Analysis::unresolved_reference_error
    ensures same(*old(ctx), *final(ctx)),
        sx(*final(ctx)) == note(sx(*old(ctx)), complete(old(ctx).file_type, sx(*old(ctx))), SDiag { kind: ErrorCode::UnresolvedReference, span, src: source }),
@fn Analysis::resolve_reference ret r
    ensures same(*old(ctx), *final(ctx)), *final(self) == *old(self),
        (r@, sx(*final(ctx))) == an_ref(old(ctx).file_type, sx(*old(ctx)), wt(*reference)),
@fn Analysis::analyze_referenced_node
    requires ok_pay(v_pay(node.payload)),
    ensures same(*old(ctx), *final(ctx)), *final(self) == *old(self),
        sx(*final(ctx)) == an_refd(old(ctx).file_type, sx(*old(ctx)), wt(node.reference), v_pay(node.payload)),
@fn Analysis::resolve_references
    ensures same(*old(ctx), *final(ctx)),
        sx(*final(ctx)) == an_unres(old(ctx).file_type, sx(*old(ctx)), v_refs(old(ctx).unresolved_references@), old(ctx).unresolved_references@.len() as int),
@loop 0
    invariant same(*old(ctx), *ctx), seq__0@ == old(ctx).unresolved_references@, i__0 <= seq__0@.len(),
        sx(*ctx) == an_unres(old(ctx).file_type, sx(*old(ctx)), v_refs(seq__0@), i__0 as int),
    decreases seq__0@.len() - i__0,
@fn Analysis::analyze_node
    requires ok_node(v_node(*node)),
    ensures same(*old(ctx), *final(ctx)), *final(self) == *old(self),
        sx(*final(ctx)) == an_node(sx(*old(ctx)), v_node(*node), path@),
    decreases node,
@proof before_call analyze_node_payload 0
    proof {
        assert(sx(*ctx) == define(sx(*old(ctx)), v_node(*node), path@)) by {
            let a = sx(*ctx); let b = define(sx(*old(ctx)), v_node(*node), path@);
            assert(a.ctx.labels == b.ctx.labels); assert(a.ctx.paths == b.ctx.paths); assert(a.ctx.nodes == b.ctx.nodes);
        }
    }
@fn Analysis::analyze_node_payload
    requires ok_pay(v_pay(*payload)),
    ensures same(*old(ctx), *final(ctx)), *final(self) == *old(self),
        sx(*final(ctx)) == an_pay(sx(*old(ctx)), v_pay(*payload), v_pay(*payload).items.len() as int, path@),
    decreases payload,
@loop 0
    invariant same(*old(ctx), *ctx), *self == *old(self), seq__0@ == payload.items@, i__0 <= seq__0@.len(), ok_pay(v_pay(*payload)),
        v_pay(*payload).items == v_items(payload.items@),
        sx(*ctx) == an_pay(sx(*old(ctx)), v_pay(*payload), i__0 as int, path@),
    decreases seq__0@.len() - i__0,
@proof body_start
    proof { lemma_v_pay(*payload); }
@proof loop 0 start
    let ghost c0 = *ctx;
    proof { assert(ok_item(v_pay(*payload).items[i__0 - 1])); assert(v_pay(*payload).items[i__0 - 1] == v_item(payload.items@[i__0 - 1])); }
@proof loop 0 end
    proof {
        assert(sx(*ctx) == an_item(sx(c0), v_item(*item), path@)) by {}
        assert(sx(*ctx) == an_pay(sx(*old(ctx)), v_pay(*payload), i__0 as int, path@)) by {
            assert(sx(*ctx) == an_item(sx(c0), v_item(*item), path@));
        }
    }
@fn Analysis::check_is_string_list
    requires ok_vals(v_vals(values@)),
    ensures same(*old(ctx), *final(ctx)), *final(self) == *old(self),
        sx(*final(ctx)) == (SAn { ds: sx(*old(ctx)).ds + non_strings(v_vals(values@), values@.len() as int), ..sx(*old(ctx)) }),
@loop 0
    invariant same(*old(ctx), *ctx), *self == *old(self), seq__0@ == values@, i__0 <= seq__0@.len(), ok_vals(v_vals(values@)),
        sx(*ctx) == (SAn { ds: sx(*old(ctx)).ds + non_strings(v_vals(values@), i__0 as int), ..sx(*old(ctx)) }),
    decreases seq__0@.len() - i__0,
@proof body_start
    proof { assert(sx(*ctx).ds + non_strings(v_vals(values@), 0) =~= sx(*ctx).ds); }
@proof loop 0 start
    let ghost n0 = non_strings(v_vals(values@), i__0 - 1);
    proof { assert(span_ok(val_span(v_vals(values@)[i__0 - 1]))); assert(value@ == v_vals(values@)[i__0 - 1]); }
@proof loop 0 end
    proof { assert(sx(*ctx).ds =~= sx(*old(ctx)).ds + non_strings(v_vals(values@), i__0 as int)); }
@fn Analysis::check_is_single_string
    ensures *final(_ctx) == *old(_ctx), *final(self) == *old(self),
@fn Analysis::check_is_single_u32
    ensures *final(_ctx) == *old(_ctx), *final(self) == *old(self),
@fn Analysis::analyze_property
    requires ok_vals((*property)@.values),
    ensures same(*old(ctx), *final(ctx)), *final(self) == *old(self),
        sx(*final(ctx)) == an_prop(sx(*old(ctx)), (*property)@),
@rewrite
property.name.as_str() >>> property.name.item().as_str()
@proof body_start
    proof { assert(sx(*ctx).unres + refs_vals((*property)@.values, 0) =~= sx(*ctx).unres); }
@loop 0
    invariant same(*old(ctx), *ctx), *self == *old(self), seq__0@ == property.values@, i__0 <= seq__0@.len(), ok_vals((*property)@.values),
        sx(*ctx) == prop_to(sx(*old(ctx)), (*property)@, i__0 as int),
    decreases seq__0@.len() - i__0,
@proof loop 0 start
    let ghost c0 = *ctx;
@proof loop 0 end
    proof {
        assert(sx(*ctx) == prop_to(sx(*old(ctx)), (*property)@, i__0 as int)) by {
            assert(sx(c0) == prop_to(sx(*old(ctx)), (*property)@, i__0 - 1));
            let a = sx(*ctx);
            let o = sx(*old(ctx)).unres;
            let r = refs_vals((*property)@.values, i__0 - 1);
            assert(value@ == (*property)@.values[i__0 - 1]);
            assert(a == (SAn { unres: sx(c0).unres + refs_val(value@), ..sx(c0) }));
            assert((o + r) + refs_val(value@) =~= o + (r + refs_val(value@)));
        }
    }
@proof after_call check_is_string_list 0
    proof {
        assert(sx(*ctx) == an_prop(sx(*old(ctx)), (*property)@)) by {
        }
    }
@fn Analysis::analyze_property_value
    ensures same(*old(ctx), *final(ctx)), *final(self) == *old(self),
        sx(*final(ctx)) == (SAn { unres: sx(*old(ctx)).unres + refs_val(value@), ..sx(*old(ctx)) }),
@proof body_start
    let ghost o = sx(*ctx).unres;
    proof {
        assert(o + seq![] =~= o);
        match value@ { SVal::Cells(_, c, _) => { assert(o + refs_cells(c, 0) =~= o); }, SVal::Ref(r) => { assert(o + seq![r] =~= o.push(r)); }, _ => {} }
    }
@loop 0
    invariant same(*old(ctx), *ctx), *self == *old(self), seq__0@ == cells@, i__0 <= seq__0@.len(), refs_val(value@) == refs_cells(v_cells(cells@), cells@.len() as int),
        sx(*ctx) == (SAn { unres: sx(*old(ctx)).unres + refs_cells(v_cells(cells@), i__0 as int), ..sx(*old(ctx)) }),
    decreases seq__0@.len() - i__0,
@proof loop 0 start
    let ghost c0 = *ctx;
@proof loop 0 end
    proof {
        assert(sx(*ctx) == (SAn { unres: sx(*old(ctx)).unres + refs_cells(v_cells(cells@), i__0 as int), ..sx(*old(ctx)) })) by {
            let o = sx(*old(ctx)); let a = sx(c0);
            assert(a.unres == o.unres + refs_cells(v_cells(cells@), i__0 - 1));
            assert(cell@ == v_cells(cells@)[i__0 - 1]);
            match cell@ { SCell::Ref(r) => { assert(a.unres.push(r) =~= o.unres + refs_cells(v_cells(cells@), i__0 - 1).push(r)); }, _ => {} }
        }
    }
@fn Analysis::analyze_cell
    ensures same(*old(ctx), *final(ctx)), *final(self) == *old(self),
        sx(*final(ctx)) == (SAn { unres: (match value@ { SCell::Ref(r) => sx(*old(ctx)).unres.push(r), _ => sx(*old(ctx)).unres }), ..sx(*old(ctx)) }),
@fn Analysis::analyze_reference
    ensures same(*old(ctx), *final(ctx)), *final(self) == *old(self),
        sx(*final(ctx)) == (SAn { unres: sx(*old(ctx)).unres.push(wt(*reference)), ..sx(*old(ctx)) }),
