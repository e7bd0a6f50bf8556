//@ include div_total.rs float.rs points.rs std.rs deque.rs
//@ set nl=off
//@ assume lib_pred.vc
//@ use lib_ring.vc
//@ raw
/// front edges and triangle corners are vertices
pub open spec fn edges_ok(f: Seq<Edge>, n: int) -> bool { forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]).0 < n && f[i].1 < n }
pub open spec fn tris_ok(t: Seq<u32>, n: int) -> bool { t.len() % 3 == 0 && forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] < n }
pub open spec fn is_end(f: Seq<Edge>, n: usize) -> bool { exists|i: int| 0 <= i < f.len() && (#[trigger] f[i]).0 == n || 0 <= i < f.len() && f[i].1 == n }
/// the weight of the directed edges of the triangles
pub open spec fn tsum(t: Seq<u32>, w: spec_fn(Edge) -> real) -> real decreases t.len() {
    if t.len() < 3 { 0real } else { let n = t.len() as int; let (a, b, c) = (t[n - 3] as usize, t[n - 2] as usize, t[n - 1] as usize); tsum(t.take(n - 3), w) + w((a, b)) + w((b, c)) + w((c, a)) }
}
/// a weight that counts an edge and its reverse against each other
pub open spec fn anti(w: spec_fn(Edge) -> real) -> bool { forall|a: usize, b: usize| #[trigger] w((a, b)) == -w((b, a)) }
/// the weight of the boundary: loop j is polygons[j] -> ... -> polygons[j + 1] - 1 -> polygons[j]
pub open spec fn bsum(polygons: Seq<usize>, k: int, w: spec_fn(Edge) -> real) -> real decreases k { if k <= 0 { 0real } else { bsum(polygons, k - 1, w) + wsum(ring(range(polygons[k - 1] as int, polygons[k] as int)), w) } }
/// triangles and front together have the boundary's edges, up to cancellation
pub open spec fn balanced(t: Seq<u32>, f: Seq<Edge>, polygons: Seq<usize>) -> bool { forall|w: spec_fn(Edge) -> real| anti(w) ==> #[trigger] tsum(t, w) + wsum(f, w) == bsum(polygons, polygons.len() - 1, w) }
pub open spec fn count_w(e: Edge) -> spec_fn(Edge) -> real { |x: Edge| (if x == e { 1real } else { 0real }) - (if x == (e.1, e.0) { 1real } else { 0real }) }
/// what the balance says about one edge: how often it occurs minus how often its reverse occurs
pub proof fn theorem_closed(t: Seq<u32>, polygons: Seq<usize>, e: Edge) requires balanced(t, Seq::empty(), polygons) ensures tsum(t, count_w(e)) == bsum(polygons, polygons.len() - 1, count_w(e))
{ let w = count_w(e); assert forall|a: usize, b: usize| #[trigger] w((a, b)) == -w((b, a)) by {} assert(anti(w)); assert(tsum(t, w) + wsum(Seq::<Edge>::empty(), w) == bsum(polygons, polygons.len() - 1, w)); }
pub proof fn lemma_add_tri(t: Seq<u32>, a: usize, b: usize, c: usize, w: spec_fn(Edge) -> real)
    requires a <= u32::MAX, b <= u32::MAX, c <= u32::MAX ensures tsum(t.push(a as u32).push(b as u32).push(c as u32), w) == tsum(t, w) + w((a, b)) + w((b, c)) + w((c, a))
{ let u = t.push(a as u32).push(b as u32).push(c as u32); assert(u.take(u.len() - 3) =~= t); }
pub proof fn lemma_front(f: Seq<Edge>, e: Edge, w: spec_fn(Edge) -> real) ensures wsum(seq![e] + f, w) == w(e) + wsum(f, w) { lemma_wsum_cat(seq![e], f, w); lemma_wsum_one(e, w); }
pub proof fn lemma_swap(f: Seq<Edge>, i: int, w: spec_fn(Edge) -> real) requires 0 <= i < f.len() ensures wsum(f.update(i, f[0]).skip(1), w) == wsum(f, w) - w(f[i])
{
    let g = f.skip(1); assert(f =~= seq![f[0]] + g); lemma_front(g, f[0], w);
    if i > 0 {
        let h = f.update(i, f[0]).skip(1); let a = g.take(i - 1); let b = g.skip(i);
        assert(h =~= (a + seq![f[0]]) + b); assert(g =~= (a + seq![f[i]]) + b);
        lemma_wsum_cat(a + seq![f[0]], b, w); lemma_wsum_cat(a + seq![f[i]], b, w); lemma_wsum_cat(a, seq![f[0]], w); lemma_wsum_cat(a, seq![f[i]], w); lemma_wsum_one(f[0], w); lemma_wsum_one(f[i], w);
    } else { assert(f.update(i, f[0]).skip(1) =~= g); }
}
/// g is f with the edge e added, or with its reverse taken out
pub open spec fn closed_by(f: Seq<Edge>, g: Seq<Edge>, e: Edge) -> bool { g == seq![e] + f || exists|i: int| 0 <= i < f.len() && f[i] == (e.1, e.0) && g == #[trigger] f.update(i, f[0]).skip(1) }
pub proof fn lemma_closed_by(f: Seq<Edge>, g: Seq<Edge>, e: Edge, n: int, w: spec_fn(Edge) -> real)
    requires closed_by(f, g, e), edges_ok(f, n), e.0 < n, e.1 < n ensures anti(w) ==> wsum(g, w) == wsum(f, w) + w(e), edges_ok(g, n)
{
    if g == seq![e] + f { lemma_front(f, e, w); }
    else { let i = choose|i: int| 0 <= i < f.len() && f[i] == (e.1, e.0) && g == #[trigger] f.update(i, f[0]).skip(1); lemma_swap(f, i, w); assert(anti(w) ==> w((e.0, e.1)) == -w((e.1, e.0))); }
}
/// one step of the front
pub proof fn lemma_advance(t: Seq<u32>, f0: Seq<Edge>, e: Edge, x: usize, f1: Seq<Edge>, f2: Seq<Edge>, polygons: Seq<usize>, n: int)
    requires balanced(t, f0, polygons), f0.len() > 0, f0.last() == e, closed_by(f0.drop_last(), f1, (e.0, x)), closed_by(f1, f2, (x, e.1)), edges_ok(f0, n), x < n, n <= u32::MAX, tris_ok(t, n)
    ensures balanced(t.push(e.0 as u32).push(e.1 as u32).push(x as u32), f2, polygons), edges_ok(f2, n), tris_ok(t.push(e.0 as u32).push(e.1 as u32).push(x as u32), n)
{
    let u = t.push(e.0 as u32).push(e.1 as u32).push(x as u32); assert(f0[f0.len() - 1] == e);
    assert forall|w: spec_fn(Edge) -> real| anti(w) implies #[trigger] tsum(u, w) + wsum(f2, w) == bsum(polygons, polygons.len() - 1, w) by {
        lemma_add_tri(t, e.0, e.1, x, w); lemma_closed_by(f0.drop_last(), f1, (e.0, x), n, w); lemma_closed_by(f1, f2, (x, e.1), n, w);
        assert(tsum(t, w) + wsum(f0, w) == bsum(polygons, polygons.len() - 1, w)); assert(w((x, e.0)) == -w((e.0, x)) && w((e.1, x)) == -w((x, e.1)));
    }
    lemma_closed_by(f0.drop_last(), f1, (e.0, x), n, |z: Edge| 0real); lemma_closed_by(f1, f2, (x, e.1), n, |z: Edge| 0real);
}
pub proof fn lemma_edges(f0: Seq<Edge>, x: usize, f1: Seq<Edge>, f2: Seq<Edge>, n: int)
    requires f0.len() > 0, closed_by(f0.drop_last(), f1, (f0.last().0, x)), closed_by(f1, f2, (x, f0.last().1)), edges_ok(f0, n), x < n ensures edges_ok(f2, n)
{ assert(f0[f0.len() - 1] == f0.last()); lemma_closed_by(f0.drop_last(), f1, (f0.last().0, x), n, |z: Edge| 0real); lemma_closed_by(f1, f2, (x, f0.last().1), n, |z: Edge| 0real); }
/// sorting keeps what holds of every item
pub proof fn lemma_items(a: Seq<(usize, Float)>, b: Seq<(usize, Float)>, f: Seq<Edge>, s: Option<usize>)
    requires a.to_multiset() == b.to_multiset(), all_ends(a, f, s) ensures all_ends(b, f, s)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|i: int| 0 <= i < b.len() implies is_end(f, (#[trigger] b[i]).0) && s != Some(b[i].0) by {
        assert(b.contains(b[i])); assert(a.to_multiset().count(b[i]) > 0); assert(a.contains(b[i]));
        let j = choose|j: int| 0 <= j < a.len() && a[j] == b[i]; assert(is_end(f, a[j].0));
    }
}
pub open spec fn all_ends(a: Seq<(usize, Float)>, f: Seq<Edge>, s: Option<usize>) -> bool { forall|i: int| 0 <= i < a.len() ==> is_end(f, (#[trigger] a[i]).0) && s != Some(a[i].0) }
//@ fn Point2::is_inside_triangle params=a,b,c ret=r
    ensures true
//@ fn is_segments_intersect params=a,b,c,d ret=r
    ensures true
//@ fn shape_factor params=a,b,c ret=r
    ensures true
//@ fn point_on_normal_bisector params=a,b,ratio ret=r
    ensures true
//@ fn find_intersection_with_front params=start,end,selected_node,front,vertices ret=r hint=__dd:Vec<(usize,Float)>
    requires start < vertices@.len(), end < vertices@.len(), edges_ok(front@, vertices@.len() as int), selected_node is Some ==> selected_node->0 < vertices@.len()
    ensures r is Some ==> is_end(front@, r->0) && selected_node != r
//@ ghost start
    let ghost mut items = Seq::<(usize, Float)>::empty();
//@ loop 0
    $s0@ == front@, $n0 == front@.len(), all_ends($out0@, front@, selected_node),
//@ ghost loop0.start
    let ghost before = $out0@; proof { assert(front@[$j0 as int].0 < vertices@.len()); }
//@ ghost loop0.end
    proof { assert(is_end(front@, front@[$j0 as int].0) && is_end(front@, front@[$j0 as int].1)); }
//@ ghost loop0.after
    proof { items = $out0@; }
//@ ghost loop1.before
    proof { lemma_items(items, nearby_nodes@, front@, selected_node); items = nearby_nodes@; }
//@ loop 2
    $s2@ == items, $n2 == items.len(), all_ends(items, front@, selected_node), all_ends(__dd@, front@, selected_node),
//@ ghost loop2.after
    proof { items = __dd@; }
//@ ghost loop3.before
    proof { lemma_items(items, nearby_nodes@, front@, selected_node); }
//@ fn generate_triangular_mesh params=points,polygons ret=r attr=exec_allows_no_decreases_clause
    requires loops_ok(points@, polygons@)
    ensures r.0@.len() >= points@.len(), r.0@.take(points@.len() as int) == points@,
        r.0@.len() <= u32::MAX ==> tris_ok(r.1@, r.0@.len() as int) && balanced(r.1@, Seq::empty(), polygons@)
//@ loop 0
    loops_ok(points@, polygons@), $n0 == polygons@.len() - 1, edges_ok(front@, points@.len() as int), forall|w: spec_fn(Edge) -> real| #[trigger] wsum(front@, w) == bsum(polygons@, $i0 as int, w),
//@ ghost loop0.start
    proof { lemma_mono(points@, polygons@, $j0 as int, $j0 + 1); }
    let ghost f0 = front@;
//@ loop 0.0
    $b0_0 == start, $e0_0 == end - 1, start < end <= points@.len(), front@ == f0 + path(range(start as int, $i0_0 + 1)), edges_ok(front@, points@.len() as int),
//@ ghost loop0.0.before
    proof { assert(front@ =~= f0 + path(range(start as int, start + 1))); }
//@ ghost loop0.0.end
    proof { assert(front@ =~= f0 + path(range(start as int, $i0_0 + 1))); }
//@ ghost loop0.end
    proof {
        let (st, en) = (polygons@[$j0 as int], polygons@[$j0 + 1]);
        let c = range(st as int, en as int); let e: Edge = ((en - 1) as usize, st);
        assert(ring(c) =~= path(c) + seq![e]); assert(front@ =~= f0 + ring(c));
        assert forall|w: spec_fn(Edge) -> real| #[trigger] wsum(front@, w) == bsum(polygons@, $i0 as int, w) by { lemma_wsum_cat(f0, ring(c), w); assert(wsum(f0, w) == bsum(polygons@, $j0 as int, w)); }
    }
//@ ghost loop1.before
    proof { assert forall|w: spec_fn(Edge) -> real| anti(w) implies #[trigger] tsum(triangles@, w) + wsum(front@, w) == bsum(polygons@, polygons.len() - 1, w) by {} assert(balanced(triangles@, front@, polygons@)); fg = front@; }
//@ loop 1
    front@ == fg, vertices@.len() >= points@.len(), vertices@.take(points@.len() as int) == points@, edges_ok(front@, vertices@.len() as int),
    vertices@.len() <= u32::MAX ==> tris_ok(triangles@, vertices@.len() as int) && balanced(triangles@, front@, polygons@),
//@ ghost loop1.start
    let ghost (f0, t0, n0) = (fg, triangles@, vertices@.len() as int);
    proof { assert(f0 =~= front@.push(edge)); assert(f0[f0.len() - 1] == edge); assert(front@ == f0.drop_last()); f1 = seq![(edge.0, vertices@.len() as usize)] + front@; xv = vertices@.len() as usize; }
//@ loop 1.0
    front@ == f0.drop_last(), edges_ok(front@, n0), vertices@.len() == n0, edge.0 < n0, edge.1 < n0, selected_node is Some ==> is_end(front@, selected_node->0) && selected_node->0 < n0,
//@ ghost loop1.0.end
    proof { assert(selected_node->0 < n0); }
//@ loop 1.1
    $s1_1@ == front@, $n1_1 == front@.len(), $hit1_1 ==> front@[$i1_1 as int] == (node, edge.0),
//@ loop 1.2
    $s1_2@ == front@, $n1_2 == front@.len(), $hit1_2 ==> front@[$i1_2 as int] == (edge.1, node),
//@ ghost loop1.2.before
    proof { assert(closed_by(f0.drop_last(), front@, (edge.0, node))); f1 = front@; xv = node; }
//@ ghost loop1.end
    proof {
        let e = f0.last();
        lemma_edges(f0, xv, f1, front@, vertices@.len() as int);
        if vertices@.len() <= u32::MAX {
            let x = xv;
            assert(triangles@ == t0.push(e.0 as u32).push(e.1 as u32).push(x as u32));
            lemma_advance(t0, f0, e, x, f1, front@, polygons@, vertices@.len() as int);
        }
        fg = front@;
    }
//@ ghost start
    let ghost mut f1 = Seq::<Edge>::empty(); let ghost mut xv = 0usize; let ghost mut fg = Seq::<Edge>::empty();
