# minimum spanning trees.  An arbitrary forest to compare with: fpar(v) = parent of v (negative: none), fdep = depth.
logic fpar(Int): Int
logic fdep(Int): Int
# an arbitrary labelling of the nodes
logic lab(Int): Int
pred forest() = forall v {fpar(v)}: fpar(v) >= 0 ==> fdep(fpar(v)) < fdep(v)
pred inF(u, v) = fpar(u) == v || fpar(v) == u
# fc, fw = 1 and weight for the edges of the forest, 0 otherwise; rep = representative node of the component
ghostfield Graph.fc AReal
ghostfield Graph.fw AReal
pred fmarks(g) = forall k {g->fc[k]} {g->fw[k]}: g->fc[k] == (inF(g->edges[k].src, g->edges[k].dest) ? 1.0 : 0.0) && g->fw[k] == (inF(g->edges[k].src, g->edges[k].dest) ? g->edges[k].weight : 0.0)
ghostfield MST.rep AInt
ghostfield MST.ki AInt
ghostfield MST.kl AInt
# rt chooses one node of each component, kl lists the r others
pred chosen(rt, ki, kl, n, r) = (forall u {rt[u]}: 0 <= u < n ==> 0 <= rt[u] < n && rt[rt[u]] == rt[u] && (ki[u] == -1 <==> rt[u] == u) && (ki[u] != -1 ==> 0 <= ki[u] < r && kl[ki[u]] == u))
|  && (forall x {kl[x]}: 0 <= x < r ==> 0 <= kl[x] < n && ki[kl[x]] == x)
# every edge of the tree t has both ends in one class of lab
pred closed(t) = forall e {t->edges[e].src} {t->edges[e].dest}: 0 <= e < t->num_edges ==> lab(t->edges[e].src) == lab(t->edges[e].dest)
pred fromgraph(t, g) = forall e {t->edges[e].src} {t->edges[e].dest} {t->edges[e].weight}: 0 <= e < t->num_edges ==>
|  names(g, t->edges[e].src, t->edges[e].dest) && t->edges[e].weight == g->edges_matrix[t->edges[e].src][t->edges[e].dest].weight && t->edges[e].prob == g->edges_matrix[t->edges[e].src][t->edges[e].dest].prob

lemma MulMono(a@Real, b@Real, d@Real)
  requires a <= b && d >= 0.0
  ensures a * d <= b * d
lemma MulDelta(a@Real, d, d2)
  requires d - 1 <= d2 <= d + 1
  ensures a * real(d2) == a * real(d) + (d2 > d ? a : d2 < d ? 0.0 - a : 0.0)
lemma Tail(c@AReal, w@AReal, x@Real, k, n)
  requires 0 <= k <= n && (forall j {w[j]}: k <= j < n ==> w[j] >= x * c[j])
  measure n
  step if n > k then use Tail(c, w, x, k, n - 1)
  step if n > k then use RSumStep(c, n - 1)
  step if n > k then use RSumStep(w, n - 1)
  ensures rsum(w, n) - rsum(w, k) >= x * (rsum(c, n) - rsum(c, k))
# one component
lemma OneComp(rt@AInt, ki@AInt, kl@AInt, n, r)
  requires chosen(rt, ki, kl, n, r) && r == n - 1
  step if exists u, v: 0 <= u < n && 0 <= v < n && rt[u] != rt[v] then obtain u: 0 <= u < n && exists v: 0 <= v < n && rt[u] != rt[v]
  step if exists u1, v1: 0 <= u1 < n && 0 <= v1 < n && rt[u1] != rt[v1] then obtain v: 0 <= v < n && rt[u] != rt[v]
  step if exists u1, v1: 0 <= u1 < n && 0 <= v1 < n && rt[u1] != rt[v1] then use Pigeon(store(store(kl, r, rt[u]), r + 1, rt[v]), r + 2, n)
  ensures forall u, v {rt[u], rt[v]}: 0 <= u < n && 0 <= v < n ==> rt[u] == rt[v]
# several components
lemma TwoComp(rt@AInt, ki@AInt, kl@AInt, n, r)
  requires chosen(rt, ki, kl, n, r) && 0 <= r < n - 1
  step assert forall u {ki[u]}: 0 <= u < n && u != rt[u] ==> 0 <= ki[u] < r && kl[ki[u]] == u
  step if forall u, v {rt[u], rt[v]}: 0 <= u < n && 0 <= v < n ==> rt[u] == rt[v] then use Pigeon(lam i: i < rt[0] ? ki[i] : ki[i + 1], n - 1, r)
  ensures exists u, v {rt[u], rt[v]}: 0 <= u < n && 0 <= v < n && rt[u] != rt[v]

fn kruskal
  requires wf: gwf(graph)
  requires some: graph->num_nodes >= 1
  requires sorted: graph->orderedEdges ==> sortedin(graph, 0, graph->num_edges - 1)
  requires forest: forest()
  local rt AInt = lam u: u
  local r1 Int
  local r2 Int
  local r3 Int
  local mi AInt
  local ki AInt = constarr(-1)
  local kl AInt = constarr(0)
  local fl AInt = constarr(0)
  local fi AInt = constarr(0)
  local te AInt = constarr(0)
  local m Int = 0
  local wl Real = 0.0
  local gs Int
  local gd Int
  local lose Int
  local win Int
  local ch Int
  local od Int
  assigns graph->edges, col(graph->edges_matrix, positionInGraph), graph->ord, graph->inv, graph->bw, graph->bp, graph->bs, graph->bd, graph->by, graph->orderedEdges, graph->fc, graph->fw
  assigns mst->isValid, mst->cost, mst->num_nodes, mst->num_edges, mst->prob, mst->nodes, mst->edges, mst->edges_matrix, mst->nbp, mst->rep, mst->ki, mst->kl
  assigns @Set.parentSet, @Set.rango, @Set.curr, @Set.num_in_forest, @Set.live, @Set.root
  at after call wrap_quick_sort 1: graph->fc := lam k: inF(graph->edges[k].src, graph->edges[k].dest) ? 1.0 : 0.0
  at after call wrap_quick_sort 1: graph->fw := lam k: inF(graph->edges[k].src, graph->edges[k].dest) ? graph->edges[k].weight : 0.0
  loop 1
    inv counts: 0 <= num_edges_inG <= graph->num_edges && 0 <= num_edges_inMST <= graph->num_nodes - 1 && num_edges_inMST == mst->num_edges && mst->num_nodes == graph->num_nodes && num_edges_inMST <= num_edges_inG
    inv tree: treewf(mst) && !mst->isValid
    inv sets: ufwf() && (forall s {@Set[s].live}: @Set[s].live <==> block(&forest, graph->num_nodes, s)) && (forall s {@Set[s].num_in_forest}: block(&forest, graph->num_nodes, s) ==> @Set[s].num_in_forest == s - ref(forest.sets)) && (forall s {@Set[s].rango}: @Set[s].live ==> @Set[s].rango <= num_edges_inMST)
    inv reps: chosen(rt, ki, kl, graph->num_nodes, num_edges_inMST)
    inv roots: forall s {@Set[s].root}: block(&forest, graph->num_nodes, s) ==> mi[@Set[s].root] == rt[s - ref(forest.sets)] && @Set[ref(forest.sets) + rt[s - ref(forest.sets)]].root == @Set[s].root
    inv depth: forall u {rt[u]}: 0 <= u < graph->num_nodes ==> fdep(rt[u]) <= fdep(u)
    inv processed: forall k {graph->edges[k].src} {graph->edges[k].dest}: 0 <= k < num_edges_inG ==> rt[graph->edges[k].src] == rt[graph->edges[k].dest]
    inv edges: forall e {mst->edges[e].src} {mst->edges[e].dest} {te[e]}: 0 <= e < num_edges_inMST ==> 0 <= te[e] < num_edges_inG && mst->edges[e].src == graph->edges[te[e]].src && mst->edges[e].dest == graph->edges[te[e]].dest && mst->edges[e].weight == graph->edges[te[e]].weight && mst->edges[e].prob == graph->edges[te[e]].prob
    inv closed: closed(mst) ==> forall u {rt[u]} {lab(u)}: 0 <= u < graph->num_nodes ==> lab(u) == lab(rt[u])
    inv children: forall x {fl[x]}: 0 <= x < m ==> 0 <= fl[x] < graph->num_nodes && fi[fl[x]] == x && 0 <= fpar(fl[x]) < graph->num_nodes && names(graph, fl[x], fpar(fl[x])) && graph->edges_matrix[fl[x]][fpar(fl[x])].positionInGraph < num_edges_inG
    inv count: real(m) == rsum(graph->fc, num_edges_inG) && 0 <= m <= num_edges_inMST
    inv last: num_edges_inG > 0 ==> wl == graph->edges[num_edges_inG - 1].weight
    inv cost: mst->cost <= rsum(graph->fw, num_edges_inG) + wl * real(num_edges_inMST - m)
    dec graph->num_edges - num_edges_inG
  at loop 1 body: gs := graph->edges[num_edges_inG].src
  at loop 1 body: gd := graph->edges[num_edges_inG].dest
  at loop 1 body: r1 := @Set[ref(forest.sets) + gs].root
  at loop 1 body: r2 := @Set[ref(forest.sets) + gd].root
  at loop 1 body: use RSumStep(graph->fc, num_edges_inG)
  at loop 1 body: use RSumStep(graph->fw, num_edges_inG)
  at loop 1 body: assert num_edges_inG > 0 ==> wl <= graph->edges[num_edges_inG].weight
  at loop 1 body: if num_edges_inG > 0 then use MulMono(wl, graph->edges[num_edges_inG].weight, real(num_edges_inMST - m))
  at loop 1 body: assert mst->cost <= rsum(graph->fw, num_edges_inG) + graph->edges[num_edges_inG].weight * real(num_edges_inMST - m)
  at before call merge 1: assert code(set1_root) == r1 && code(set2_root) == r2 && @Set[r1].root == r1 && @Set[r2].root == r2
  at loop 1 enter: mi := lam x: x - ref(forest.sets)
  at loop 1 end: wl := graph->edges[num_edges_inG - 1].weight
  at loop 1 end: assert rsum(graph->fw, num_edges_inG) == rsum(graph->fw, num_edges_inG - 1) + (inF(gs, gd) ? wl : 0.0)
  at loop 1 end: assert rsum(graph->fc, num_edges_inG) == rsum(graph->fc, num_edges_inG - 1) + (inF(gs, gd) ? 1.0 : 0.0)
  at loop 1 end: assert mst->cost == iter(mst->cost) + (num_edges_inMST > iter(num_edges_inMST) ? wl : 0.0)
  at loop 1 end: assert closed(mst) ==> iter(closed(mst)) && (num_edges_inMST > iter(num_edges_inMST) ==> lab(gs) == lab(gd))
  at loop 1 end: r3 := @Set[ref(forest.sets) + gs].root
  at loop 1 end: assert (r3 == r1 || r3 == r2) && (num_edges_inMST > iter(num_edges_inMST) ==> r1 != r2)
  at loop 1 end: assert forall s {@Set[s].root}: block(&forest, graph->num_nodes, s) ==> @Set[s].root == (num_edges_inMST > iter(num_edges_inMST) && (iter(@Set[s].root) == r1 || iter(@Set[s].root) == r2) ? r3 : iter(@Set[s].root))
  at loop 1 end: assert mi[r1] == rt[gs] && mi[r2] == rt[gd]
  at loop 1 end: lose := fdep(rt[gs]) <= fdep(rt[gd]) ? rt[gd] : rt[gs]
  at loop 1 end: win := fdep(rt[gs]) <= fdep(rt[gd]) ? rt[gs] : rt[gd]
  at loop 1 end: assert @Set[ref(forest.sets) + rt[gs]].root == r3 || num_edges_inMST == iter(num_edges_inMST)
  at loop 1 end: assert @Set[ref(forest.sets) + rt[gd]].root == r3 || num_edges_inMST == iter(num_edges_inMST)
  at loop 1 end: assert forall s {@Set[s].root}: block(&forest, graph->num_nodes, s) ==> @Set[ref(forest.sets) + rt[s - ref(forest.sets)]].root == @Set[s].root
  at loop 1 end: assert num_edges_inMST > iter(num_edges_inMST) ==> forall s {@Set[s].root}: block(&forest, graph->num_nodes, s) && @Set[s].root == r3 ==> rt[s - ref(forest.sets)] == rt[gs] || rt[s - ref(forest.sets)] == rt[gd]
  at loop 1 end: assert num_edges_inMST > iter(num_edges_inMST) ==> forall s {@Set[s].root}: block(&forest, graph->num_nodes, s) && (rt[s - ref(forest.sets)] == rt[gs] || rt[s - ref(forest.sets)] == rt[gd]) ==> @Set[s].root == r3
  at loop 1 end: assert num_edges_inMST > iter(num_edges_inMST) ==> forall s {@Set[s].root}: block(&forest, graph->num_nodes, s) && @Set[s].root != r3 ==> mi[@Set[s].root] == rt[s - ref(forest.sets)]
  at loop 1 end: if num_edges_inMST > iter(num_edges_inMST) then ki[lose] := iter(num_edges_inMST)
  at loop 1 end: if num_edges_inMST > iter(num_edges_inMST) then kl[iter(num_edges_inMST)] := lose
  at loop 1 end: if num_edges_inMST > iter(num_edges_inMST) then te[iter(num_edges_inMST)] := num_edges_inG - 1
  at loop 1 end: if num_edges_inMST > iter(num_edges_inMST) then rt := lam u: rt[u] == lose ? win : rt[u]
  at loop 1 end: od := iter(num_edges_inMST) - m
  at loop 1 end: mi := lam x: x == r3 ? rt[gs] : mi[x]
  at loop 1 end: ch := fpar(gs) == gd ? gs : gd
  at loop 1 end: if inF(gs, gd) then fl[m] := ch
  at loop 1 end: if inF(gs, gd) then fi[ch] := m
  at loop 1 end: if inF(gs, gd) then m := m + 1
  at loop 1 end: use MulDelta(wl, od, num_edges_inMST - m)
  at loop 1 end: assert forall x {fl[x]}: 0 <= x < m ==> rt[fl[x]] == rt[fpar(fl[x])] && ki[fl[x]] != -1
  at loop 1 end: use Pigeon(lam x: ki[fl[x]], m, num_edges_inMST)
  at loop 1 exit: use Tail(graph->fc, graph->fw, wl, num_edges_inG, graph->num_edges)
  at loop 1 exit: assert rsum(graph->fc, graph->num_edges) == real(num_edges_inMST) ==> wl * (rsum(graph->fc, graph->num_edges) - rsum(graph->fc, num_edges_inG)) == wl * real(num_edges_inMST - m)
  at loop 1 exit: if num_edges_inMST == graph->num_nodes - 1 then use OneComp(rt, ki, kl, graph->num_nodes, num_edges_inMST)
  at loop 1 exit: assert num_edges_inMST == graph->num_nodes - 1 ==> forall u {rt[u]} {lab(u)}: nodeof(graph, u) ==> rt[u] == rt[0]
  at loop 1 exit: if num_edges_inMST < graph->num_nodes - 1 then use TwoComp(rt, ki, kl, graph->num_nodes, num_edges_inMST)
  at return: mst->rep := rt
  at return: mst->ki := ki
  at return: mst->kl := kl
  ensures valid: mst->isValid <==> mst->num_edges == mst->num_nodes - 1
  ensures wf: treewf(mst) && mst->num_nodes == graph->num_nodes
  ensures graph: gwf(graph)
  ensures subset: fromgraph(mst, graph)
  ensures spanning: mst->isValid && closed(mst) ==> forall u {lab(u)}: nodeof(graph, u) ==> lab(u) == lab(mst->rep[0])
  ensures disconnected: !mst->isValid ==> (forall k {graph->edges[k].src} {graph->edges[k].dest}: 0 <= k < graph->num_edges ==> mst->rep[graph->edges[k].src] == mst->rep[graph->edges[k].dest]) && exists u, v {mst->rep[u], mst->rep[v]}: nodeof(graph, u) && nodeof(graph, v) && mst->rep[u] != mst->rep[v]
  ensures forest: chosen(mst->rep, mst->ki, mst->kl, mst->num_nodes, mst->num_edges) && (closed(mst) ==> forall u {mst->rep[u]}: nodeof(graph, u) ==> lab(u) == lab(mst->rep[u]))
  ensures minimum: fmarks(graph) && (rsum(graph->fc, graph->num_edges) == real(mst->num_edges) ==> mst->cost <= rsum(graph->fw, graph->num_edges))
