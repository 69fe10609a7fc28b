@module dts::import_guard file ginko/src/dts/import_guard.rs
@use crate::spec::*
@noderive CyclicDependencyError PartialEq
@noderive CyclicDependencyError Eq
@noderive CyclicDependencyError Clone
@noderive ImportGuard Default
@text
broadcast use vstd::std_specs::hash::group_hash_axioms;

/// `a` depends on `b`
pub open spec fn edge<V>(g: Map<V, HashSet<V>>, a: V, b: V) -> bool { g.dom().contains(a) && g[a]@.contains(b) }
/// the derived `Default`
impl<V: Hash + Eq + Clone> ImportGuard<V> {
    #[verifier::external_body]
    pub fn default() -> (r: Self)
        ensures r.nodes@ == Map::<V, HashSet<V>>::empty(),
    { unimplemented!() }
}
/// a walk along dependencies
pub open spec fn walk<V>(g: Map<V, HashSet<V>>, s: Seq<V>) -> bool {
    s.len() >= 2 && forall|i: int| 0 <= i < s.len() - 1 ==> edge(g, #[trigger] s[i], s[i + 1])
}
/// a walk from an element back to it
pub open spec fn circle<V>(g: Map<V, HashSet<V>>, v: V, s: Seq<V>) -> bool { walk(g, s) && s[0] == v && s.last() == v }
pub open spec fn on_circle<V>(g: Map<V, HashSet<V>>, v: V) -> bool { exists|s: Seq<V>| circle(g, v, s) }
/// a set of everything that something depends on
pub proof fn targets<V>(g: Map<V, HashSet<V>>) -> (t: Set<V>)
    ensures forall|a: V, b: V| #[trigger] edge(g, a, b) ==> t.contains(b),
    decreases g.dom().len()
{
    if g.dom().len() == 0 {
        Set::empty()
    } else {
        let k = g.dom().choose();
        let h = g.remove(k);
        let t0 = targets(h);
        let t = t0.union(g[k]@);
        assert forall|a: V, b: V| #[trigger] edge(g, a, b) implies t.contains(b) by {
            if a != k { assert(edge(h, a, b)); }
        }
        t
    }
}
/// a circle through `start` lies in a set that is closed under dependencies
pub proof fn lemma_closed<V>(g: Map<V, HashSet<V>>, keys: Set<V>, s: Seq<V>, i: int)
    requires walk(g, s), 1 <= i < s.len(), forall|b: V| #[trigger] edge(g, s[0], b) ==> keys.contains(b),
        forall|a: V, b: V| keys.contains(a) && #[trigger] edge(g, a, b) ==> keys.contains(b),
    ensures keys.contains(s[i]),
    decreases i
{
    assert(edge(g, s[i - 1], s[i - 1 + 1]));
    if i > 1 { lemma_closed(g, keys, s, i - 1); }
}
/// an element waits at its place, counted from the bottom of the stack
pub open spec fn waits<V>(s: Seq<V>, at: Map<V, int>, k: V) -> bool {
    0 <= at[k] < s.len() && s[s.len() - 1 - at[k]] == k
}
/// what holds of the elements seen so far: each was found from its parent, which was seen earlier
pub open spec fn known<V>(g: Map<V, HashSet<V>>, start: V, visited: Set<V>, parent: Map<V, V>, depth: Map<V, nat>) -> bool {
    &&& depth.dom().contains(start)
    &&& forall|v: V| #[trigger] visited.contains(v) ==> v == start || parent.dom().contains(v)
    &&& forall|k: V| #[trigger] parent.dom().contains(k) ==> visited.contains(parent[k]) && edge(g, parent[k], k)
            && depth.dom().contains(parent[k]) && (k != start ==> depth.dom().contains(k) && depth[parent[k]] < depth[k])
}
@fn CyclicDependencyError::new ret r
    ensures r.elements == elements,
@fn CyclicDependencyError::cycle ret r
    ensures *r == self.elements,
@fn ImportGuard::add ret r
    requires key_like::<V>(),
    ensures
        forall|a: V, b: V| #[trigger] edge(final(self).nodes@, a, b) <==> edge(old(self).nodes@, a, b) || (a == element && dependencies@.contains(b)),
        r is Ok <==> !on_circle(final(self).nodes@, element),
        r matches Err(e) ==> circle(final(self).nodes@, element, e.elements@),
@rewrite
self.nodes.entry(element.clone()).or_default().extend(dependencies.iter().cloned()) >>> crate::spec::entry_extend(&mut self.nodes, element.clone(), dependencies)
@rewrite
self.back_track.entry(dependency.clone()).or_default().insert(element.clone()) >>> crate::spec::entry_insert(&mut self.back_track, dependency.clone(), element.clone())
@proof loop 0 before
    let ghost g = self.nodes@;
@loop 0
    invariant key_like::<V>(), self.nodes@ == g, i__0 <= seq__0@.len(), seq__0@ == dependencies@,
    decreases seq__0@.len() - i__0,
@fn ImportGuard::check_for_cyclic_dependencies ret r
    requires key_like::<V>(),
    ensures r is Ok <==> !on_circle(self.nodes@, start), r matches Err(e) ==> circle(self.nodes@, start, e.elements@),
@rewrite
self.nodes.get(&node) >>> (match self.nodes.get(&node) { Some(set__) => Some(crate::spec::elements(set__)), None => None })
@proof body_start
    let ghost g = self.nodes@;
    let ghost all;
    proof { all = targets(g); }
    let ghost mut depth: Map<V, nat> = Map::empty().insert(start, 0nat);
    let ghost mut at: Map<V, int> = Map::empty();
@loop 0
    invariant key_like::<V>(), self.nodes@ == g, forall|a: V, b: V| #[trigger] edge(g, a, b) ==> all.contains(b),
        known(g, start, visited@, parent@, depth),
        forall|k: V| #[trigger] parent@.dom().contains(k) ==> visited@.contains(k) && k != start || waits(stack@, at, k),
        forall|k: V| #[trigger] visited@.contains(k) ==> forall|b: V| #[trigger] edge(g, k, b) ==> parent@.dom().contains(b),
        stack@.no_duplicates(),
        forall|i: int| 0 <= i < stack@.len() ==> parent@.dom().contains(#[trigger] stack@[i]) || (stack@[i] == start && !visited@.contains(start)),
        forall|i: int| 0 <= i < stack@.len() ==> visited@.contains(#[trigger] stack@[i]) ==> stack@[i] == start,
        visited@.contains(start) || (stack@ == seq![start] && parent@.dom() == Set::<V>::empty() && visited@ == Set::<V>::empty()),
    ensures stack@.len() == 0,
    decreases all.len() - parent@.dom().len(), stack@.len(),
@proof loop 0 end
    proof {
        assert forall|k: V| #[trigger] parent@.dom().contains(k) implies all.contains(k) by { assert(edge(g, parent@[k], k)); }
        vstd::set_lib::lemma_len_subset(parent@.dom(), all);
    }
@proof loop 2 start
    proof { assert(seq__2@.contains(seq__2@[i__2 - 1])); assert(edge(g, node, seq__2@[i__2 - 1])); }
@proof loop 2 after
    proof { assert forall|b: V| #[trigger] edge(g, node, b) implies parent@.dom().contains(b) by { assert(seq__2@.contains(b)); } }
@proof loop 0 after
    proof {
        assert forall|s: Seq<V>| !circle(g, start, s) by {
            if circle(g, start, s) { lemma_closed(g, parent@.dom(), s, s.len() - 1); }
        }
    }
@proof loop 1 before
    proof { assert(node == start); assert(parent@.dom().contains(start)); }
@loop 1
    invariant_except_break prev is Some, cycle@.last() != start || cycle@.len() == 1, prev matches Some(p) ==> visited@.contains(p) && edge(g, p, cycle@.last()) && parent@.dom().contains(cycle@.last()) && p == parent@[cycle@.last()],
        depth.dom().contains(prev.unwrap()),
    invariant key_like::<V>(), self.nodes@ == g, known(g, start, visited@, parent@, depth), node == start, cycle@.len() >= 1, cycle@[0] == start,
        forall|i: int| 0 <= i < cycle@.len() - 1 ==> edge(g, #[trigger] cycle@[i + 1], cycle@[i]),
    ensures cycle@.len() >= 2, cycle@.last() == start,
    decreases depth[prev.unwrap()],
@proof loop 1 after
    proof {
        let s = cycle@.reverse();
        assert forall|i: int| 0 <= i < s.len() - 1 implies edge(g, #[trigger] s[i], s[i + 1]) by {
            let j = s.len() - 2 - i;
            assert(edge(g, cycle@[j + 1], cycle@[j]));
        }
        assert(circle(g, start, s));
    }
@proof loop 2 before
    let ghost n0 = parent@.dom();
    let ghost st0 = stack@;
@loop 2
    invariant key_like::<V>(), self.nodes@ == g, 
        forall|a: V, b: V| #[trigger] edge(g, a, b) ==> all.contains(b),
        i__2 <= seq__2@.len(), g.dom().contains(node), forall|v: V| g[node]@.contains(v) <==> #[trigger] seq__2@.contains(v),
        known(g, start, visited@, parent@, depth), visited@.contains(node), depth.dom().contains(node),
        forall|k: V| #[trigger] parent@.dom().contains(k) ==> visited@.contains(k) && k != start || waits(stack@, at, k),
        forall|k: V| #[trigger] visited@.contains(k) && k != node ==> forall|b: V| #[trigger] edge(g, k, b) ==> parent@.dom().contains(b),
        forall|i: int| 0 <= i < i__2 ==> parent@.dom().contains(#[trigger] seq__2@[i]),
        stack@.no_duplicates(), visited@.contains(start),
        forall|i: int| 0 <= i < stack@.len() ==> parent@.dom().contains(#[trigger] stack@[i]),
        forall|i: int| 0 <= i < stack@.len() ==> visited@.contains(#[trigger] stack@[i]) ==> stack@[i] == start,
        parent@.dom().len() >= n0.len(), parent@.dom().len() == n0.len() ==> stack@ == st0,
    decreases seq__2@.len() - i__2,
@proof after_call insert 1
    proof { at = at.insert(*neighbor, stack@.len() as int); if *neighbor != start { depth = depth.insert(*neighbor, depth[node] + 1); } }
