# Kruskal's algorithm under decisions (1-trees without the special node); the code uses it instead of Prim's when PRIM is 0
pred inT(g, u, v) = u != froot() && fpar(u) == v || v != froot() && fpar(v) == u
pred mrest(s, c, k) = s->mandatoryEdges[k].src != c && s->mandatoryEdges[k].dest != c
pred mds(s, k) = s->mandatoryEdges[k].src
pred mdd(s, k) = s->mandatoryEdges[k].dest
ghostfield Graph.mw AReal
ghostfield Graph.mc AReal
lemma RSumOnes(b@AReal, n)
  requires n >= 0 && forall i {b[i]}: 0 <= i < n ==> b[i] == 1.0
  measure n
  step if n > 0 then use RSumOnes(b, n - 1)
  step if n > 0 then use RSumStep(b, n - 1)
  ensures rsum(b, n) == real(n)
# ones but for two places
lemma RSumBut(b@AReal, x, y, n)
  requires 0 <= x < n && 0 <= y < n && x != y && b[x] == 0.0 && b[y] == 0.0 && forall i {b[i]}: 0 <= i < n && i != x && i != y ==> b[i] == 1.0
  step use RSumOnes(lam i: 1.0, n)
  step use RSumSet(lam i: 1.0, store(lam i: 1.0, x, 0.0), x, n)
  step use RSumSet(store(lam i: 1.0, x, 0.0), b, y, n)
  ensures rsum(b, n) == real(n - 2)

fn constrained_kruskal
  requires wf: gwf(graph) && graph->num_nodes >= 2 && 0 <= candidateId < graph->num_nodes
  requires sorted: graph->orderedEdges ==> sortedin(graph, 0, graph->num_edges - 1)
  requires decisions: decs(subProblem)
  requires edges: forall k {subProblem->mandatoryEdges[k].src}: 0 <= k < subProblem->num_mandatory_edges ==> nodeof(graph, mds(subProblem, k)) && nodeof(graph, mdd(subProblem, k)) && names(graph, mds(subProblem, k), mdd(subProblem, k))
  local rt AInt = lam u: u
  local rt0 AInt
  local r1 Int
  local r2 Int
  local r3 Int
  local mi AInt
  local ki AInt = constarr(-1)
  local kl AInt = constarr(0)
  local fl AInt = constarr(0)
  local fi AInt = constarr(0)
  local m Int = 0
  local k Int = 0
  local k0 Int
  local a Int = 0
  local wl Real = 0.0
  local mc Real = 0.0
  local gs Int
  local gd Int
  local lose Int
  local win Int
  local ch Int
  local od Int
  local cr Int
  local n Int
  local c Int
  local x0 Int
  assigns graph->edges, col(graph->edges_matrix, positionInGraph), graph->ord, graph->inv, graph->bw, graph->bp, graph->bs, graph->bd, graph->by, graph->orderedEdges, graph->fc, graph->fw, graph->fv, graph->mw, graph->mc
  assigns subProblem->oneTree
  assigns @Set.parentSet, @Set.rango, @Set.curr, @Set.num_in_forest, @Set.live, @Set.root
  at after call wrap_quick_sort 1: n := graph->num_nodes
  at after call wrap_quick_sort 1: c := candidateId
  at after call wrap_quick_sort 1: x0 := candidateId == 0 ? 1 : 0
  at after call wrap_quick_sort 1: cr := crooted(graph, subProblem, candidateId) ? 1 : 0
  at after call wrap_quick_sort 1: mi := lam x: x - ref(forest.sets)
  at after call wrap_quick_sort 1: graph->mc := lam k: mrest(subProblem, c, k) ? 1.0 : 0.0
  at after call wrap_quick_sort 1: graph->mw := lam k: mrest(subProblem, c, k) ? graph->edges_matrix[mds(subProblem, k)][mdd(subProblem, k)].weight : 0.0
  at after call wrap_quick_sort 1: graph->fc := lam k: rest(graph, c, graph->edges[k].src) && rest(graph, c, graph->edges[k].dest) && inT(graph, graph->edges[k].src, graph->edges[k].dest) && !mnd(subProblem, graph->edges[k].src, graph->edges[k].dest) ? 1.0 : 0.0
  at after call wrap_quick_sort 1: graph->fw := lam k: rest(graph, c, graph->edges[k].src) && rest(graph, c, graph->edges[k].dest) && inT(graph, graph->edges[k].src, graph->edges[k].dest) && !mnd(subProblem, graph->edges[k].src, graph->edges[k].dest) ? graph->edges[k].weight : 0.0
  at after call wrap_quick_sort 1: graph->fv := lam v: v == froot() || v == candidateId ? 0.0 : graph->edges_matrix[v][fpar(v)].weight
  loop 1
    inv range: 0 <= i <= subProblem->num_mandatory_edges && i >= 0
    inv counts: 0 <= num_edges_inMST <= n - 2 && num_edges_inMST == subProblem->oneTree.num_edges && subProblem->oneTree.num_nodes == n && n == graph->num_nodes && k == num_edges_inMST
    inv tree: treewf(&subProblem->oneTree) && fromgraph(&subProblem->oneTree, graph)
    inv allowed: forall e {subProblem->oneTree.edges[e].src} {subProblem->oneTree.edges[e].dest}: 0 <= e < subProblem->oneTree.num_edges ==> subProblem->oneTree.edges[e].src != candidateId && subProblem->oneTree.edges[e].dest != candidateId && !forb(subProblem, subProblem->oneTree.edges[e].src, subProblem->oneTree.edges[e].dest)
    inv sets: ufwf() && (forall s {@Set[s].live}: @Set[s].live <==> block(&forest, n, s) && s != ref(forest.sets) + c) && (forall s {@Set[s].num_in_forest}: block(&forest, n, s) && s != ref(forest.sets) + c ==> @Set[s].num_in_forest == s - ref(forest.sets)) && (forall s {@Set[s].rango}: @Set[s].live ==> @Set[s].rango <= num_edges_inMST)
    inv reps: chosen(rt, ki, kl, n, k) && rt[c] == c && forall u {rt[u]}: rest(graph, c, u) ==> rt[u] != c
    inv roots: (forall s {@Set[s].root}: block(&forest, n, s) && s != ref(forest.sets) + c ==> mi[@Set[s].root] == rt[s - ref(forest.sets)]) && forall u {rt[u]}: rest(graph, c, u) ==> @Set[ref(forest.sets) + rt[u]].root == @Set[ref(forest.sets) + u].root
    inv depth: forall u {rt[u]}: 0 <= u < n ==> fdep(rt[u]) <= fdep(u)
    inv joined: forall e {subProblem->oneTree.edges[e].src} {subProblem->oneTree.edges[e].dest}: 0 <= e < subProblem->oneTree.num_edges ==> rt[subProblem->oneTree.edges[e].src] == rt[subProblem->oneTree.edges[e].dest]
    inv closed: closed(&subProblem->oneTree) ==> forall u {rt[u]} {lab(u)}: 0 <= u < n ==> lab(u) == lab(rt[u])
    inv cr: cr == 1 <==> crooted(graph, subProblem, candidateId)
    inv processed: forall j {subProblem->mandatoryEdges[j].src}: 0 <= j < i && mrest(subProblem, c, j) ==> rt[mds(subProblem, j)] == rt[mdd(subProblem, j)]
    inv children: cr == 1 ==> forall x {fl[x]}: 0 <= x < m ==> rest(graph, c, fl[x]) && fl[x] != froot() && fi[fl[x]] == x && rest(graph, c, fpar(fl[x])) && mnd(subProblem, fl[x], fpar(fl[x])) && subProblem->mp[fl[x]][fpar(fl[x])] < i
    inv count: cr == 1 ==> m == k && real(m) == rsum(graph->mc, i)
    inv cost: cr == 1 ==> subProblem->oneTree.cost == rsum(graph->mw, i)
    inv taken: cr == 1 ==> forall j {subProblem->mandatoryEdges[j].src}: 0 <= j < i && mrest(subProblem, c, j) ==> subProblem->oneTree.edges_matrix[mds(subProblem, j)][mdd(subProblem, j)] != -1 && subProblem->oneTree.edges_matrix[mdd(subProblem, j)][mds(subProblem, j)] != -1
    dec subProblem->num_mandatory_edges - i
  at loop 1 body: gs := graph->edges_matrix[mds(subProblem, i)][mdd(subProblem, i)].src
  at loop 1 body: gd := graph->edges_matrix[mds(subProblem, i)][mdd(subProblem, i)].dest
  at loop 1 body: assert nodeof(graph, gs) && nodeof(graph, gd) && gs != gd && pairis(gs, gd, mds(subProblem, i), mdd(subProblem, i)) && names(graph, gs, gd) && (gs != c && gd != c <==> mrest(subProblem, c, i)) && !forb(subProblem, gs, gd) && graph->edges_matrix[mds(subProblem, i)][mdd(subProblem, i)].weight == graph->edges_matrix[gs][gd].weight && graph->edges_matrix[mds(subProblem, i)][mdd(subProblem, i)].prob == graph->edges_matrix[gs][gd].prob
  at loop 1 body: k0 := k
  at loop 1 body: r1 := @Set[ref(forest.sets) + gs].root
  at loop 1 body: r2 := @Set[ref(forest.sets) + gd].root
  at loop 1 body: if gs != c && gd != c && rt[gs] != rt[gd] then use Pigeon(store(store(store(kl, k, c), k + 1, rt[gs]), k + 2, rt[gd]), k + 3, n)
  at loop 1 body: use RSumStep(graph->mc, i)
  at loop 1 body: use RSumStep(graph->mw, i)
  at loop 1 end: r3 := @Set[ref(forest.sets) + gs].root
  at loop 1 end: assert closed(&subProblem->oneTree) ==> iter(closed(&subProblem->oneTree)) && (num_edges_inMST > k0 ==> lab(gs) == lab(gd))
  at loop 1 end: assert num_edges_inMST > k0 ==> gs != c && gd != c && r1 != r2 && (r3 == r1 || r3 == r2)
  at loop 1 end: assert forall s {@Set[s].root}: block(&forest, n, s) && s != ref(forest.sets) + c ==> @Set[s].root == (num_edges_inMST > k0 && (iter(@Set[s].root) == r1 || iter(@Set[s].root) == r2) ? r3 : iter(@Set[s].root))
  at loop 1 end: assert gs != c && gd != c ==> mi[r1] == rt[gs] && mi[r2] == rt[gd]
  at loop 1 end: lose := fdep(rt[gs]) <= fdep(rt[gd]) ? rt[gd] : rt[gs]
  at loop 1 end: win := fdep(rt[gs]) <= fdep(rt[gd]) ? rt[gs] : rt[gd]
  at loop 1 end: assert num_edges_inMST > k0 ==> @Set[ref(forest.sets) + rt[gs]].root == r3 && @Set[ref(forest.sets) + rt[gd]].root == r3
  at loop 1 end: assert forall u {rt[u]}: rest(graph, c, u) ==> @Set[ref(forest.sets) + rt[u]].root == @Set[ref(forest.sets) + u].root
  at loop 1 end: assert forall s {@Set[s].root}: block(&forest, n, s) && s != ref(forest.sets) + c ==> mi[iter(@Set[s].root)] == rt[s - ref(forest.sets)]
  at loop 1 end: assert num_edges_inMST > k0 ==> forall s {@Set[s].root}: block(&forest, n, s) && s != ref(forest.sets) + c && @Set[s].root == r3 ==> mi[iter(@Set[s].root)] == mi[r1] || mi[iter(@Set[s].root)] == mi[r2]
  at loop 1 end: assert num_edges_inMST > k0 ==> forall s {@Set[s].root}: block(&forest, n, s) && s != ref(forest.sets) + c && @Set[s].root == r3 ==> rt[s - ref(forest.sets)] == rt[gs] || rt[s - ref(forest.sets)] == rt[gd]
  at loop 1 end: assert num_edges_inMST > k0 ==> forall s {@Set[s].root}: block(&forest, n, s) && s != ref(forest.sets) + c && (rt[s - ref(forest.sets)] == rt[gs] || rt[s - ref(forest.sets)] == rt[gd]) ==> @Set[s].root == r3
  at loop 1 end: assert num_edges_inMST > k0 ==> forall s {@Set[s].root}: block(&forest, n, s) && s != ref(forest.sets) + c && @Set[s].root != r3 ==> mi[@Set[s].root] == rt[s - ref(forest.sets)]
  at loop 1 end: if num_edges_inMST > k0 then ki[lose] := k0
  at loop 1 end: if num_edges_inMST > k0 then kl[k0] := lose
  at loop 1 end: if num_edges_inMST > k0 then mi := lam x: x == r3 ? win : mi[x]
  at loop 1 end: rt0 := rt
  at loop 1 end: if num_edges_inMST > k0 then rt := lam u: rt[u] == lose ? win : rt[u]
  at loop 1 end: assert num_edges_inMST > k0 ==> @Set[ref(forest.sets) + win].root == r3
  at loop 1 end: assert num_edges_inMST > k0 ==> forall s {@Set[s].root}: block(&forest, n, s) && s != ref(forest.sets) + c && rt0[s - ref(forest.sets)] == lose ==> rt[s - ref(forest.sets)] == win && @Set[s].root == r3
  at loop 1 end: assert forall s {@Set[s].root}: block(&forest, n, s) && s != ref(forest.sets) + c && (num_edges_inMST > k0 ==> rt0[s - ref(forest.sets)] != lose) ==> rt[s - ref(forest.sets)] == rt0[s - ref(forest.sets)]
  at loop 1 end: assert forall u {rt[u]}: rest(graph, c, u) ==> rt[u] == rt0[u] || (num_edges_inMST > k0 && rt0[u] == lose && rt[u] == win)
  at loop 1 end: assert forall u {rt[u]} {rt0[u]}: rest(graph, c, u) && rt[u] == rt0[u] ==> @Set[ref(forest.sets) + rt0[u]].root == @Set[ref(forest.sets) + u].root
  at loop 1 end: assert num_edges_inMST > k0 ==> forall u {rt[u]} {rt0[u]}: rest(graph, c, u) && rt0[u] == lose ==> @Set[ref(forest.sets) + u].root == r3
  at loop 1 end: k := num_edges_inMST
  at loop 1 end: ch := fpar(gs) == gd && gs != froot() ? gs : gd
  at loop 1 end: assert gs != c && gd != c ==> rt[gs] == rt[gd]
  at loop 1 end: if cr == 1 && gs != c && gd != c then fl[m] := ch
  at loop 1 end: if cr == 1 && gs != c && gd != c then fi[ch] := m
  at loop 1 end: if cr == 1 && gs != c && gd != c then m := m + 1
  at loop 1 end: assert cr == 1 ==> forall x {fl[x]}: 0 <= x < m ==> rt[fl[x]] == rt[fpar(fl[x])] && ki[fl[x]] != -1
  at loop 1 end: if cr == 1 then use Pigeon(lam x: ki[fl[x]], m, k)
  at loop 1 exit: a := m
  at loop 1 exit: mc := subProblem->oneTree.cost
  loop 2
    inv range: 0 <= num_edges_inG <= graph->num_edges
    inv counts: 0 <= num_edges_inMST <= n - 2 && num_edges_inMST == subProblem->oneTree.num_edges && subProblem->oneTree.num_nodes == n && n == graph->num_nodes && k == num_edges_inMST
    inv tree: treewf(&subProblem->oneTree) && fromgraph(&subProblem->oneTree, graph)
    inv allowed: forall e {subProblem->oneTree.edges[e].src} {subProblem->oneTree.edges[e].dest}: 0 <= e < subProblem->oneTree.num_edges ==> subProblem->oneTree.edges[e].src != candidateId && subProblem->oneTree.edges[e].dest != candidateId && !forb(subProblem, subProblem->oneTree.edges[e].src, subProblem->oneTree.edges[e].dest)
    inv sets: ufwf() && (forall s {@Set[s].live}: @Set[s].live <==> block(&forest, n, s) && s != ref(forest.sets) + c) && (forall s {@Set[s].num_in_forest}: block(&forest, n, s) && s != ref(forest.sets) + c ==> @Set[s].num_in_forest == s - ref(forest.sets)) && (forall s {@Set[s].rango}: @Set[s].live ==> @Set[s].rango <= num_edges_inMST)
    inv reps: chosen(rt, ki, kl, n, k) && rt[c] == c && forall u {rt[u]}: rest(graph, c, u) ==> rt[u] != c
    inv roots: (forall s {@Set[s].root}: block(&forest, n, s) && s != ref(forest.sets) + c ==> mi[@Set[s].root] == rt[s - ref(forest.sets)]) && forall u {rt[u]}: rest(graph, c, u) ==> @Set[ref(forest.sets) + rt[u]].root == @Set[ref(forest.sets) + u].root
    inv depth: forall u {rt[u]}: 0 <= u < n ==> fdep(rt[u]) <= fdep(u)
    inv joined: forall e {subProblem->oneTree.edges[e].src} {subProblem->oneTree.edges[e].dest}: 0 <= e < subProblem->oneTree.num_edges ==> rt[subProblem->oneTree.edges[e].src] == rt[subProblem->oneTree.edges[e].dest]
    inv closed: closed(&subProblem->oneTree) ==> forall u {rt[u]} {lab(u)}: 0 <= u < n ==> lab(u) == lab(rt[u])
    inv cr: cr == 1 <==> crooted(graph, subProblem, candidateId)
    inv mandatory: cr == 1 ==> forall j {subProblem->mandatoryEdges[j].src}: 0 <= j < subProblem->num_mandatory_edges && mrest(subProblem, c, j) ==> subProblem->oneTree.edges_matrix[mds(subProblem, j)][mdd(subProblem, j)] != -1 && subProblem->oneTree.edges_matrix[mdd(subProblem, j)][mds(subProblem, j)] != -1
    inv mprocessed: forall j {subProblem->mandatoryEdges[j].src}: 0 <= j < subProblem->num_mandatory_edges && mrest(subProblem, c, j) ==> rt[mds(subProblem, j)] == rt[mdd(subProblem, j)]
    inv processed: forall j {graph->edges[j].src} {graph->edges[j].dest}: 0 <= j < num_edges_inG && graph->edges[j].src != c && graph->edges[j].dest != c && !forb(subProblem, graph->edges[j].src, graph->edges[j].dest) ==> rt[graph->edges[j].src] == rt[graph->edges[j].dest]
    inv children: cr == 1 ==> forall x {fl[x]}: 0 <= x < m ==> rest(graph, c, fl[x]) && fl[x] != froot() && fi[fl[x]] == x && rest(graph, c, fpar(fl[x])) && (mnd(subProblem, fl[x], fpar(fl[x])) || graph->edges_matrix[fl[x]][fpar(fl[x])].positionInGraph < num_edges_inG)
    inv count: cr == 1 ==> real(m - a) == rsum(graph->fc, num_edges_inG) && a <= m && m <= k
    inv zero: cr == 1 && num_edges_inG == 0 ==> subProblem->oneTree.cost == mc && m == k
    inv last: num_edges_inG > 0 ==> wl == graph->edges[num_edges_inG - 1].weight
    inv cost: cr == 1 ==> subProblem->oneTree.cost <= mc + rsum(graph->fw, num_edges_inG) + wl * real(k - m)
    dec graph->num_edges - num_edges_inG
  at loop 2 body: gs := graph->edges[num_edges_inG].src
  at loop 2 body: gd := graph->edges[num_edges_inG].dest
  at loop 2 body: k0 := k
  at loop 2 body: r1 := @Set[ref(forest.sets) + gs].root
  at loop 2 body: r2 := @Set[ref(forest.sets) + gd].root
  at loop 2 body: if gs != c && gd != c && rt[gs] != rt[gd] then use Pigeon(store(store(store(kl, k, c), k + 1, rt[gs]), k + 2, rt[gd]), k + 3, n)
  at loop 2 body: use RSumStep(graph->fc, num_edges_inG)
  at loop 2 body: use RSumStep(graph->fw, num_edges_inG)
  at loop 2 body: assert num_edges_inG > 0 ==> wl <= graph->edges[num_edges_inG].weight
  at loop 2 body: if cr == 1 && num_edges_inG > 0 then use MulMono(wl, graph->edges[num_edges_inG].weight, real(k - m))
  at loop 2 body: if cr == 1 && num_edges_inG == 0 then use MulDelta(graph->edges[num_edges_inG].weight, 0, k - m)
  at loop 2 body: assert cr == 1 ==> subProblem->oneTree.cost <= mc + rsum(graph->fw, num_edges_inG) + graph->edges[num_edges_inG].weight * real(k - m)
  at before call merge 2: assert code(set1_root) == r1 && code(set2_root) == r2 && @Set[r1].root == r1 && @Set[r2].root == r2
  at before call merge 1: assert code(set1_root) == r1 && code(set2_root) == r2 && @Set[r1].root == r1 && @Set[r2].root == r2
  at loop 2 end: wl := graph->edges[num_edges_inG - 1].weight
  at loop 2 end: od := k0 - m
  at loop 2 end: assert subProblem->oneTree.cost == iter(subProblem->oneTree.cost) + (num_edges_inMST > k0 ? wl : 0.0)
  at loop 2 end: r3 := @Set[ref(forest.sets) + gs].root
  at loop 2 end: assert forall e {iter(subProblem->oneTree.edges[e].src)} {iter(subProblem->oneTree.edges[e].dest)}: 0 <= e < k0 ==> subProblem->oneTree.edges[e].src == iter(subProblem->oneTree.edges[e].src) && subProblem->oneTree.edges[e].dest == iter(subProblem->oneTree.edges[e].dest)
  at loop 2 end: assert num_edges_inMST > k0 ==> subProblem->oneTree.edges[k0].src == gs && subProblem->oneTree.edges[k0].dest == gd
  at loop 2 end: assert closed(&subProblem->oneTree) ==> iter(closed(&subProblem->oneTree)) && (num_edges_inMST > k0 ==> lab(gs) == lab(gd))
  at loop 2 end: assert num_edges_inMST > k0 ==> gs != c && gd != c && r1 != r2 && (r3 == r1 || r3 == r2)
  at loop 2 end: assert forall s {@Set[s].root}: block(&forest, n, s) && s != ref(forest.sets) + c ==> @Set[s].root == (num_edges_inMST > k0 && (iter(@Set[s].root) == r1 || iter(@Set[s].root) == r2) ? r3 : iter(@Set[s].root))
  at loop 2 end: assert gs != c && gd != c ==> mi[r1] == rt[gs] && mi[r2] == rt[gd]
  at loop 2 end: lose := fdep(rt[gs]) <= fdep(rt[gd]) ? rt[gd] : rt[gs]
  at loop 2 end: win := fdep(rt[gs]) <= fdep(rt[gd]) ? rt[gs] : rt[gd]
  at loop 2 end: assert num_edges_inMST > k0 ==> @Set[ref(forest.sets) + rt[gs]].root == r3 && @Set[ref(forest.sets) + rt[gd]].root == r3
  at loop 2 end: assert forall u {rt[u]}: rest(graph, c, u) ==> @Set[ref(forest.sets) + rt[u]].root == @Set[ref(forest.sets) + u].root
  at loop 2 end: assert forall s {@Set[s].root}: block(&forest, n, s) && s != ref(forest.sets) + c ==> mi[iter(@Set[s].root)] == rt[s - ref(forest.sets)]
  at loop 2 end: assert num_edges_inMST > k0 ==> forall s {@Set[s].root}: block(&forest, n, s) && s != ref(forest.sets) + c && @Set[s].root == r3 ==> mi[iter(@Set[s].root)] == mi[r1] || mi[iter(@Set[s].root)] == mi[r2]
  at loop 2 end: assert num_edges_inMST > k0 ==> forall s {@Set[s].root}: block(&forest, n, s) && s != ref(forest.sets) + c && @Set[s].root == r3 ==> rt[s - ref(forest.sets)] == rt[gs] || rt[s - ref(forest.sets)] == rt[gd]
  at loop 2 end: assert num_edges_inMST > k0 ==> forall s {@Set[s].root}: block(&forest, n, s) && s != ref(forest.sets) + c && (rt[s - ref(forest.sets)] == rt[gs] || rt[s - ref(forest.sets)] == rt[gd]) ==> @Set[s].root == r3
  at loop 2 end: assert num_edges_inMST > k0 ==> forall s {@Set[s].root}: block(&forest, n, s) && s != ref(forest.sets) + c && @Set[s].root != r3 ==> mi[@Set[s].root] == rt[s - ref(forest.sets)]
  at loop 2 end: if num_edges_inMST > k0 then ki[lose] := k0
  at loop 2 end: if num_edges_inMST > k0 then kl[k0] := lose
  at loop 2 end: if num_edges_inMST > k0 then mi := lam x: x == r3 ? win : mi[x]
  at loop 2 end: rt0 := rt
  at loop 2 end: if num_edges_inMST > k0 then rt := lam u: rt[u] == lose ? win : rt[u]
  at loop 2 end: assert num_edges_inMST > k0 ==> @Set[ref(forest.sets) + win].root == r3
  at loop 2 end: assert num_edges_inMST > k0 ==> forall s {@Set[s].root}: block(&forest, n, s) && s != ref(forest.sets) + c && rt0[s - ref(forest.sets)] == lose ==> rt[s - ref(forest.sets)] == win && @Set[s].root == r3
  at loop 2 end: assert forall s {@Set[s].root}: block(&forest, n, s) && s != ref(forest.sets) + c && (num_edges_inMST > k0 ==> rt0[s - ref(forest.sets)] != lose) ==> rt[s - ref(forest.sets)] == rt0[s - ref(forest.sets)]
  at loop 2 end: assert forall u {rt[u]}: rest(graph, c, u) ==> rt[u] == rt0[u] || (num_edges_inMST > k0 && rt0[u] == lose && rt[u] == win)
  at loop 2 end: assert forall u {rt[u]} {rt0[u]}: rest(graph, c, u) && rt[u] == rt0[u] ==> @Set[ref(forest.sets) + rt0[u]].root == @Set[ref(forest.sets) + u].root
  at loop 2 end: assert num_edges_inMST > k0 ==> forall u {rt[u]} {rt0[u]}: rest(graph, c, u) && rt0[u] == lose ==> @Set[ref(forest.sets) + u].root == r3
  at loop 2 end: k := num_edges_inMST
  at loop 2 end: assert rsum(graph->fw, num_edges_inG) == rsum(graph->fw, num_edges_inG - 1) + (rest(graph, c, gs) && rest(graph, c, gd) && inT(graph, gs, gd) && !mnd(subProblem, gs, gd) ? wl : 0.0)
  at loop 2 end: assert rsum(graph->fc, num_edges_inG) == rsum(graph->fc, num_edges_inG - 1) + (rest(graph, c, gs) && rest(graph, c, gd) && inT(graph, gs, gd) && !mnd(subProblem, gs, gd) ? 1.0 : 0.0)
  at loop 2 end: ch := fpar(gs) == gd && gs != froot() ? gs : gd
  at loop 2 end: if cr == 1 && rest(graph, c, gs) && rest(graph, c, gd) && inT(graph, gs, gd) && !mnd(subProblem, gs, gd) then fl[m] := ch
  at loop 2 end: if cr == 1 && rest(graph, c, gs) && rest(graph, c, gd) && inT(graph, gs, gd) && !mnd(subProblem, gs, gd) then fi[ch] := m
  at loop 2 end: if cr == 1 && rest(graph, c, gs) && rest(graph, c, gd) && inT(graph, gs, gd) && !mnd(subProblem, gs, gd) then m := m + 1
  at loop 2 end: use MulDelta(wl, od, k - m)
  at loop 2 end: assert cr == 1 ==> forall x {fl[x]}: 0 <= x < m ==> rt[fl[x]] == rt[fpar(fl[x])] && ki[fl[x]] != -1
  at loop 2 end: if cr == 1 then use Pigeon(lam x: ki[fl[x]], m, k)
  at loop 2 exit: if num_edges_inG == 0 && graph->num_edges > 0 then wl := graph->edges[0].weight
  at loop 2 exit: if cr == 1 && num_edges_inG == 0 then use MulDelta(wl, 0, k - m)
  at loop 2 exit: assert cr == 1 ==> subProblem->oneTree.cost <= mc + rsum(graph->fw, num_edges_inG) + wl * real(k - m)
  at loop 2 exit: assert forall j {graph->fw[j]} {graph->edges[j].weight}: num_edges_inG <= j < graph->num_edges ==> graph->edges[j].weight >= wl
  at loop 2 exit: assert forall j {graph->fw[j]}: num_edges_inG <= j < graph->num_edges ==> graph->fw[j] >= wl * graph->fc[j]
  at loop 2 exit: if cr == 1 then use Tail(graph->fc, graph->fw, wl, num_edges_inG, graph->num_edges)
  at loop 2 exit: rt := store(rt, c, rt[x0])
  at loop 2 exit: ki := store(ki, c, k)
  at loop 2 exit: kl := store(kl, k, c)
  at loop 2 exit: assert chosen(rt, ki, kl, n, k + 1)
  at loop 2 exit: if k == n - 2 then use OneComp(rt, ki, kl, n, k + 1)
  at loop 2 exit: assert k == n - 2 ==> forall u {rt[u]} {lab(u)}: 0 <= u < n ==> rt[u] == rt[x0]
  at loop 2 exit: if k < n - 2 then use TwoComp(rt, ki, kl, n, k + 1)
  at loop 2 exit: subProblem->oneTree.side := rt
  at loop 2 exit: if cr == 1 && k == n - 2 then use BijSum(lam v: rest(graph, c, v) && v != froot() && mnd(subProblem, v, fpar(v)) ? 1.0 : 0.0, graph->mc, lam v: subProblem->mp[v][fpar(v)], lam j: mds(subProblem, j) != froot() && fpar(mds(subProblem, j)) == mdd(subProblem, j) ? mds(subProblem, j) : mdd(subProblem, j), n, subProblem->num_mandatory_edges)
  at loop 2 exit: if cr == 1 && k == n - 2 then use BijSum(lam v: rest(graph, c, v) && v != froot() && mnd(subProblem, v, fpar(v)) ? graph->fv[v] : 0.0, graph->mw, lam v: subProblem->mp[v][fpar(v)], lam j: mds(subProblem, j) != froot() && fpar(mds(subProblem, j)) == mdd(subProblem, j) ? mds(subProblem, j) : mdd(subProblem, j), n, subProblem->num_mandatory_edges)
  at loop 2 exit: if cr == 1 && k == n - 2 then use BijSum(lam v: rest(graph, c, v) && v != froot() && !mnd(subProblem, v, fpar(v)) ? 1.0 : 0.0, graph->fc, lam v: graph->edges_matrix[v][fpar(v)].positionInGraph, lam j: graph->edges[j].src != froot() && fpar(graph->edges[j].src) == graph->edges[j].dest ? graph->edges[j].src : graph->edges[j].dest, n, graph->num_edges)
  at loop 2 exit: if cr == 1 && k == n - 2 then use BijSum(lam v: rest(graph, c, v) && v != froot() && !mnd(subProblem, v, fpar(v)) ? graph->fv[v] : 0.0, graph->fw, lam v: graph->edges_matrix[v][fpar(v)].positionInGraph, lam j: graph->edges[j].src != froot() && fpar(graph->edges[j].src) == graph->edges[j].dest ? graph->edges[j].src : graph->edges[j].dest, n, graph->num_edges)
  at loop 2 exit: if cr == 1 && k == n - 2 then use RSumMix(lam v: rest(graph, c, v) && v != froot() && mnd(subProblem, v, fpar(v)) ? 1.0 : 0.0, lam v: rest(graph, c, v) && v != froot() && !mnd(subProblem, v, fpar(v)) ? 1.0 : 0.0, lam v: rest(graph, c, v) && v != froot() ? 1.0 : 0.0, 1.0, n)
  at loop 2 exit: if cr == 1 && k == n - 2 then use RSumMix(lam v: rest(graph, c, v) && v != froot() && mnd(subProblem, v, fpar(v)) ? graph->fv[v] : 0.0, lam v: rest(graph, c, v) && v != froot() && !mnd(subProblem, v, fpar(v)) ? graph->fv[v] : 0.0, graph->fv, 1.0, n)
  at loop 2 exit: if cr == 1 && k == n - 2 then use RSumBut(lam v: rest(graph, c, v) && v != froot() ? 1.0 : 0.0, froot(), c, n)
  at loop 2 exit: assert cr == 1 && k == n - 2 ==> rsum(graph->fc, graph->num_edges) - rsum(graph->fc, num_edges_inG) == real(k - m)
  at loop 2 exit: assert cr == 1 && k == n - 2 ==> wl * (rsum(graph->fc, graph->num_edges) - rsum(graph->fc, num_edges_inG)) == wl * real(k - m)
  ensures valid: subProblem->oneTree.isValid <==> subProblem->oneTree.num_edges == graph->num_nodes - 2
  ensures wf: treewf(&subProblem->oneTree) && subProblem->oneTree.num_nodes == graph->num_nodes && subProblem->oneTree.num_edges <= graph->num_nodes - 2
  ensures graph: gwf(graph)
  ensures subset: fromgraph(&subProblem->oneTree, graph)
  ensures nodes: forall u {subProblem->oneTree.nodes[u].positionInGraph}: nodeof(graph, u) ==> subProblem->oneTree.nodes[u].positionInGraph == u
  ensures allowed: forall e {subProblem->oneTree.edges[e].src} {subProblem->oneTree.edges[e].dest}: 0 <= e < subProblem->oneTree.num_edges ==> subProblem->oneTree.edges[e].src != candidateId && subProblem->oneTree.edges[e].dest != candidateId && !forb(subProblem, subProblem->oneTree.edges[e].src, subProblem->oneTree.edges[e].dest)
  ensures spanning: subProblem->oneTree.isValid && closed(&subProblem->oneTree) ==> forall u, v {lab(u), lab(v)}: rest(graph, candidateId, u) && rest(graph, candidateId, v) ==> lab(u) == lab(v)
  ensures disconnected: !subProblem->oneTree.isValid ==> (forall u, v {graph->edges_matrix[u][v].positionInGraph}: rest(graph, candidateId, u) && rest(graph, candidateId, v) && names(graph, u, v) && !forb(subProblem, u, v) ==> subProblem->oneTree.side[u] == subProblem->oneTree.side[v]) && exists u, v {subProblem->oneTree.side[u], subProblem->oneTree.side[v]}: rest(graph, candidateId, u) && rest(graph, candidateId, v) && subProblem->oneTree.side[u] != subProblem->oneTree.side[v]
  ensures mandatory: subProblem->oneTree.isValid && crooted(graph, subProblem, candidateId) ==> forall u, v {subProblem->constraints[u][v]}: rest(graph, candidateId, u) && rest(graph, candidateId, v) && mnd(subProblem, u, v) ==> subProblem->oneTree.edges_matrix[u][v] != -1
  ensures minimum: fcostc(graph, candidateId) && (subProblem->oneTree.isValid && crooted(graph, subProblem, candidateId) ==> subProblem->oneTree.cost <= rsum(graph->fv, graph->num_nodes))
