# Prim's algorithm under decisions (1-trees without the special node).
pred mnd(s, u, v) = s->num_mandatory_edges > 0 && s->constraints[u][v] == MANDATORY
pred forb(s, u, v) = s->num_forbidden_edges != 0 && s->constraints[u][v] == FORBIDDEN
pred decs(s) = swf(s) || s->num_mandatory_edges == 0 && s->num_forbidden_edges == 0
pred rest(g, c, u) = nodeof(g, u) && u != c
pred light(g) = forall k {g->edges[k].weight}: 0 <= k < g->num_edges ==> 0.0 - FLT_MAX < g->edges[k].weight < FLT_MAX
# stored positions outside the graph's edges stay inside the array (the matrix of a graph is zero where there is no edge)
pred posn(g) = forall u, v {g->edges_matrix[u][v].positionInGraph}: 0 <= u < N && 0 <= v < N ==> 0 <= g->edges_matrix[u][v].positionInGraph < E
# an arbitrary spanning tree on the other nodes that obeys the decisions
pred crooted(g, s, c) = rest(g, c, froot()) && fdep(froot()) >= 0
|  && (forall v {fpar(v)}: rest(g, c, v) && v != froot() ==> rest(g, c, fpar(v)) && names(g, v, fpar(v)) && !forb(s, v, fpar(v)) && 0 <= fdep(fpar(v)) < fdep(v))
|  && (forall u, v {s->constraints[u][v]}: rest(g, c, u) && rest(g, c, v) && mnd(s, u, v) ==> (u != froot() && fpar(u) == v) || (v != froot() && fpar(v) == u))
pred fcostc(g, c) = forall v {g->fv[v]}: nodeof(g, v) ==> g->fv[v] == (v == froot() || v == c ? 0.0 : g->edges_matrix[v][fpar(v)].weight)
# the tree is rooted.  Ghost state: ro = the root, fa[u] = the father of u, fo[u] = the place of u in the order of extraction
ghostfield MST.ro Int
ghostfield MST.fa AInt
ghostfield MST.fo AInt
pred ftree2(em, fa, fo, ro, n, c) = 0 <= ro < n && ro != c && fa[ro] == -1 && fa[c] == -1 && (forall u {fo[u]}: 0 <= u < n ==> fo[u] >= 0)
|  && (forall u {fa[u]}: 0 <= u < n && u != c && u != ro ==> 0 <= fa[u] < n && fa[u] != c && fo[fa[u]] < fo[u] && em[u][fa[u]] != -1)
|  && (forall u, v {em[u][v]}: 0 <= u < n && 0 <= v < n && u != c && v != c && em[u][v] != -1 ==> fa[u] == v || fa[v] == u)
pred ftree(t, c) = ftree2(t->edges_matrix, t->fa, t->fo, t->ro, t->num_nodes, c)
# the arbitrary tree is a path
pred fpath(n, c) = froot() == tq()[1] && (forall i {tq()[i]}: 1 <= i < n ==> 0 <= tq()[i] < n && tq()[i] != c && tr()[tq()[i]] == i) && (forall u {tr()[u]}: 0 <= u < n && u != c ==> 1 <= tr()[u] < n && tq()[tr()[u]] == u)
|  && forall i {tq()[i]}: 2 <= i < n ==> fpar(tq()[i]) == tq()[i - 1]
# an edge (a, b) of the tree and the step i of the path that it bridges
pred xstep(t, s, i, a, b, c) = 2 <= i < t->num_nodes && 0 <= a < t->num_nodes && 0 <= b < t->num_nodes && a != c && b != c && joined(t, a, b) && !mnd(s, a, b) && !mnd(s, tq()[i], tq()[i - 1]) && tr()[a] < i && i <= tr()[b]
# labels spread from node r
lemma SpreadFrom(fa@AInt, ps@AInt, r, n, m, k)
  requires k >= 0 && forall i {fa[i]} {ps[i]}: 0 <= i < n && 0 < ps[i] < m ==> 0 <= fa[i] < n && 0 <= ps[fa[i]] < ps[i] && lab(i) == lab(fa[i])
  requires forall i {ps[i]}: 0 <= i < n ==> 0 <= ps[i] && (ps[i] == 0 ==> i == r)
  measure k
  step if k > 0 then use SpreadFrom(fa, ps, r, n, m, k - 1)
  ensures forall i {lab(i)} {ps[i]}: 0 <= i < n && ps[i] < k && ps[i] < m ==> lab(i) == lab(r)

fn constrained_prim
  requires wf: gwf(graph) && graph->num_nodes >= 2 && 0 <= candidateId < graph->num_nodes && light(graph) && posn(graph)
  requires decisions: decs(subProblem)
  hide hseq hrings hord hmin
  local d AReal
  local pos AInt
  local ord AInt
  local t Int = 0
  local a Int
  local kx AInt
  local cw AReal
  local ei AInt
  local miss Int
  local r0 Int
  local m Int
  local tp AInt
  local tw AReal
  local tm ABool
  local fp AInt
  local fd AInt
  local fq AReal
  local fm ABool
  local qq AInt
  local rr AInt
  assigns graph->fv
  assigns @OrdTreeNode.left_sibling, @OrdTreeNode.right_sibling, @OrdTreeNode.marked, @OrdTreeNode.is_root, @OrdTreeNode.parent, @OrdTreeNode.head_child_list, @OrdTreeNode.tail_child_list, @OrdTreeNode.num_children, @OrdTreeNode.value, @OrdTreeNode.key
  assigns subProblem->oneTree
  loop 1
    inv arrays: forall u {in_heap[u]} {fathers[u]} {values[u]}: 0 <= u < i ==> !in_heap[u] && fathers[u] == -1 && values[u] == (u == 0 ? FLT_MAX / 2.0 : FLT_MAX)
    inv start: i <= graph->num_nodes && (start <==> i == 0)
    dec graph->num_nodes - i
  loop 2
    inv weights: forall u, v {graph_copy.edges_matrix[u][v].weight}: 0 <= u < N && 0 <= v < N ==> graph_copy.edges_matrix[u][v].weight == (mnd(subProblem, u, v) && subProblem->mp[u][v] < i && u != candidateId && v != candidateId ? 0.0 - FLT_MAX : graph->edges_matrix[u][v].weight)
    dec subProblem->num_mandatory_edges - i
  loop 3
    inv heap: hwf(&heap) && heap.num_nodes == i - (i > candidateId ? 1 : 0) && i <= graph->num_nodes
    inv in: forall p {heap.in[p]}: heap.in[p] <==> tblock(ref(tree_nodes), i, p) && p != ref(tree_nodes) + candidateId
    inv nodes: forall p {@OrdTreeNode[p].key} {@OrdTreeNode[p].value}: tblock(ref(tree_nodes), i, p) && p != ref(tree_nodes) + candidateId ==> @OrdTreeNode[p].key == p - ref(tree_nodes) && @OrdTreeNode[p].value == (p == ref(tree_nodes) ? FLT_MAX / 2.0 : FLT_MAX)
    inv arrays: forall u {in_heap[u]}: 0 <= u < graph->num_nodes ==> (in_heap[u] <==> u < i && u != candidateId)
    dec graph->num_nodes - i
  at loop 3 exit: d := lam u: u == 0 ? FLT_MAX / 2.0 : FLT_MAX
  at loop 3 exit: pos := lam u: u == candidateId ? graph->num_nodes - 1 : graph->num_nodes
  at loop 3 exit: ord[graph->num_nodes - 1] := candidateId
  loop 4
    inv heap: hwf(&heap) && heap.num_nodes == graph->num_nodes - 1 - t && 0 <= t <= graph->num_nodes - 1
    inv in: forall p {heap.in[p]}: heap.in[p] <==> tblock(ref(tree_nodes), graph->num_nodes, p) && in_heap[p - ref(tree_nodes)]
    inv keys: forall p {@OrdTreeNode[p].key}: tblock(ref(tree_nodes), graph->num_nodes, p) && p != ref(tree_nodes) + candidateId ==> @OrdTreeNode[p].key == p - ref(tree_nodes)
    inv values: forall p {@OrdTreeNode[p].value}: tblock(ref(tree_nodes), graph->num_nodes, p) && p != ref(tree_nodes) + candidateId ==> @OrdTreeNode[p].value == d[p - ref(tree_nodes)]
    inv cand: !in_heap[candidateId] && pos[candidateId] == graph->num_nodes - 1 && ord[graph->num_nodes - 1] == candidateId && fathers[candidateId] == -1
    inv pos: forall u {pos[u]} {in_heap[u]}: rest(graph, candidateId, u) ==> (in_heap[u] ? pos[u] == graph->num_nodes : 0 <= pos[u] < t && ord[pos[u]] == u)
    inv ord: forall j {ord[j]}: 0 <= j < t ==> rest(graph, candidateId, ord[j]) && pos[ord[j]] == j
    inv first: (t > 0 ==> fathers[ord[0]] == -1 && (candidateId != 0 ==> ord[0] == 0)) && (t == 0 ==> forall u {d[u]}: rest(graph, candidateId, u) ==> d[u] == (u == 0 ? FLT_MAX / 2.0 : FLT_MAX) && fathers[u] == -1)
    inv fathers: forall u {fathers[u]} {d[u]}: rest(graph, candidateId, u) && (t == 0 || u != ord[0]) ==> (fathers[u] == -1 ? d[u] == (u == 0 ? FLT_MAX / 2.0 : FLT_MAX) : rest(graph, candidateId, fathers[u]) && pos[fathers[u]] < pos[u] && pos[fathers[u]] < t && names(graph, u, fathers[u]) && !forb(subProblem, u, fathers[u]) && d[u] == graph_copy.edges_matrix[u][fathers[u]].weight)
    inv reach: forall u, v {graph_copy.edges_matrix[u][v].weight} {graph->edges_matrix[u][v].positionInGraph}: rest(graph, candidateId, u) && rest(graph, candidateId, v) && names(graph, u, v) && !forb(subProblem, u, v) && pos[u] < t && pos[v] >= t ==> d[v] <= graph_copy.edges_matrix[u][v].weight
    inv steps: forall u, v, j {graph_copy.edges_matrix[u][v].weight, ord[j]}: rest(graph, candidateId, u) && rest(graph, candidateId, v) && names(graph, u, v) && !forb(subProblem, u, v) && pos[u] < j <= pos[v] && j < t ==> d[ord[j]] <= graph_copy.edges_matrix[u][v].weight
    dec heap.num_nodes
  at loop 4 body: kx := heap.kx
  at loop 5 enter: assert kx[min_pos] == ref(tree_nodes) + min_pos && rest(graph, candidateId, min_pos) && d[min_pos] == @OrdTreeNode[ref(tree_nodes) + min_pos].value
  at loop 5 enter: a := min_pos
  at loop 5 enter: assert forall u {in_heap[u]}: rest(graph, candidateId, u) && in_heap[u] ==> d[u] == @OrdTreeNode[ref(tree_nodes) + u].value && heap.in[ref(tree_nodes) + u]
  at loop 5 enter: assert pos[a] == graph->num_nodes && forall u {in_heap[u]}: rest(graph, candidateId, u) && in_heap[u] ==> d[a] <= d[u]
  at loop 5 enter: ord[t] := a
  at loop 5 enter: pos[a] := t
  at loop 5 enter: t := t + 1
  loop 5
    inv heap: hwf(&heap) && heap.num_nodes == graph->num_nodes - 1 - t && 0 <= t <= graph->num_nodes - 1
    inv in: forall p {heap.in[p]}: heap.in[p] <==> tblock(ref(tree_nodes), graph->num_nodes, p) && in_heap[p - ref(tree_nodes)]
    inv keys: forall p {@OrdTreeNode[p].key}: tblock(ref(tree_nodes), graph->num_nodes, p) && p != ref(tree_nodes) + candidateId ==> @OrdTreeNode[p].key == p - ref(tree_nodes)
    inv values: forall p {@OrdTreeNode[p].value}: tblock(ref(tree_nodes), graph->num_nodes, p) && p != ref(tree_nodes) + candidateId ==> @OrdTreeNode[p].value == d[p - ref(tree_nodes)]
    inv cand: !in_heap[candidateId] && pos[candidateId] == graph->num_nodes - 1 && ord[graph->num_nodes - 1] == candidateId && fathers[candidateId] == -1
    inv pos: forall u {pos[u]} {in_heap[u]}: rest(graph, candidateId, u) ==> (in_heap[u] ? pos[u] == graph->num_nodes : 0 <= pos[u] < t && ord[pos[u]] == u)
    inv ord: forall j {ord[j]}: 0 <= j < t ==> rest(graph, candidateId, ord[j]) && pos[ord[j]] == j
    inv first: (t > 0 ==> fathers[ord[0]] == -1 && (candidateId != 0 ==> ord[0] == 0)) && (t == 0 ==> forall u {d[u]}: rest(graph, candidateId, u) ==> d[u] == (u == 0 ? FLT_MAX / 2.0 : FLT_MAX) && fathers[u] == -1)
    inv fathers: forall u {fathers[u]} {d[u]}: rest(graph, candidateId, u) && (t == 0 || u != ord[0]) ==> (fathers[u] == -1 ? d[u] == (u == 0 ? FLT_MAX / 2.0 : FLT_MAX) : rest(graph, candidateId, fathers[u]) && pos[fathers[u]] < pos[u] && pos[fathers[u]] < t && names(graph, u, fathers[u]) && !forb(subProblem, u, fathers[u]) && d[u] == graph_copy.edges_matrix[u][fathers[u]].weight)
    inv cur: rest(graph, candidateId, a) && a == min_pos && pos[a] == t - 1 && t > 0 && !in_heap[a]
    inv reach: forall u, v {graph_copy.edges_matrix[u][v].weight} {graph->edges_matrix[u][v].positionInGraph}: rest(graph, candidateId, u) && rest(graph, candidateId, v) && names(graph, u, v) && !forb(subProblem, u, v) && pos[u] < t && (u == a ==> graph->nbq[u][v] < i) && pos[v] >= t ==> d[v] <= graph_copy.edges_matrix[u][v].weight
    inv steps: forall u, v, j {graph_copy.edges_matrix[u][v].weight, ord[j]}: rest(graph, candidateId, u) && rest(graph, candidateId, v) && names(graph, u, v) && !forb(subProblem, u, v) && pos[u] < j <= pos[v] && j < t ==> d[ord[j]] <= graph_copy.edges_matrix[u][v].weight
    dec graph->nodes[min_pos].num_neighbours - i
  at after call decrease_value 1: d[neigh] := weight
  at loop 4 exit: assert forall u {in_heap[u]} {pos[u]}: rest(graph, candidateId, u) ==> !heap.in[ref(tree_nodes) + u]
  at loop 4 exit: assert forall u {pos[u]}: nodeof(graph, u) ==> 0 <= pos[u] < graph->num_nodes && ord[pos[u]] == u
  at loop 4 exit: r0 := ord[0]
  at loop 4 exit: cw := lam u: fathers[u] == -1 ? 0.0 : graph->edges_matrix[u][fathers[u]].weight
  loop 6
    inv tree: treewf(&subProblem->oneTree) && subProblem->oneTree.num_nodes == graph->num_nodes && fromgraph(&subProblem->oneTree, graph) && i <= graph->num_nodes
    inv allowed: forall e {subProblem->oneTree.edges[e].src} {subProblem->oneTree.edges[e].dest}: 0 <= e < subProblem->oneTree.num_edges ==> subProblem->oneTree.edges[e].src != candidateId && subProblem->oneTree.edges[e].dest != candidateId && !forb(subProblem, subProblem->oneTree.edges[e].src, subProblem->oneTree.edges[e].dest)
    inv count: 0 <= subProblem->oneTree.num_edges <= i - (i > r0 ? 1 : 0) - (i > candidateId ? 1 : 0) && (subProblem->oneTree.num_edges == i - (i > r0 ? 1 : 0) - (i > candidateId ? 1 : 0) ? (forall u {fathers[u]}: 0 <= u < i && u != r0 && u != candidateId ==> fathers[u] != -1) : 0 <= miss < i && miss != r0 && miss != candidateId && fathers[miss] == -1)
    inv cost: subProblem->oneTree.cost == rsum(cw, i)
    inv new: forall u, v {subProblem->oneTree.edges_matrix[u][v]}: nodeof(graph, u) && nodeof(graph, v) && subProblem->oneTree.edges_matrix[u][v] != -1 ==> u < i && fathers[u] == v || v < i && fathers[v] == u
    inv listed: forall u {fathers[u]} {ei[u]}: 0 <= u < i && fathers[u] != -1 ==> 0 <= ei[u] < subProblem->oneTree.num_edges && pairis(subProblem->oneTree.edges[ei[u]].src, subProblem->oneTree.edges[ei[u]].dest, u, fathers[u])
    dec graph->num_nodes - i
  at loop 6 body: use RSumStep(cw, i)
  at loop 6 body: if fathers[i] == -1 && i != r0 && i != candidateId then miss := i
  at loop 6 body: if fathers[i] != -1 then ei[i] := subProblem->oneTree.num_edges
  at loop 6 exit: m := graph->num_nodes - 1
  at loop 6 exit: graph->fv := lam v: v == froot() || v == candidateId ? 0.0 : graph->edges_matrix[v][fpar(v)].weight
  at loop 6 exit: subProblem->oneTree.side := lam u: pos[u] < pos[miss] ? 0 : 1
  at loop 6 exit: assert subProblem->oneTree.num_edges < graph->num_nodes - 2 ==> rest(graph, candidateId, miss) && subProblem->oneTree.side[r0] == 0 && subProblem->oneTree.side[miss] == 1
  at loop 6 exit: tp := lam j: fathers[ord[j]] == -1 ? -1 : pos[fathers[ord[j]]]
  at loop 6 exit: tw := lam j: cw[ord[j]]
  at loop 6 exit: tm := lam j: fathers[ord[j]] != -1 && mnd(subProblem, ord[j], fathers[ord[j]])
  at loop 6 exit: fp := lam j: ord[j] == froot() ? -1 : pos[fpar(ord[j])]
  at loop 6 exit: fd := lam j: fdep(ord[j])
  at loop 6 exit: fq := lam j: graph->fv[ord[j]]
  at loop 6 exit: fm := lam j: ord[j] != froot() && mnd(subProblem, ord[j], fpar(ord[j]))
  at loop 6 exit: assert crooted(graph, subProblem, candidateId) ==> forall j {fp[j]} {fq[j]} {fm[j]}: 0 <= j < m && fp[j] != -1 ==> rest(graph, candidateId, ord[j]) && rest(graph, candidateId, fpar(ord[j])) && pos[ord[j]] == j && pos[fpar(ord[j])] == fp[j] && names(graph, ord[j], fpar(ord[j])) && names(graph, fpar(ord[j]), ord[j]) && fq[j] == graph->edges_matrix[ord[j]][fpar(ord[j])].weight && fq[j] == graph->edges_matrix[fpar(ord[j])][ord[j]].weight && !forb(subProblem, ord[j], fpar(ord[j])) && !forb(subProblem, fpar(ord[j]), ord[j])
  at loop 6 exit: assert crooted(graph, subProblem, candidateId) ==> forall j {fd[j]}: 0 <= j < m ==> ord[j] == froot() || fdep(fpar(ord[j])) >= 0 && fdep(ord[j]) > fdep(fpar(ord[j]))
  at loop 6 exit: assert forall u, v {graph->edges_matrix[u][v].positionInGraph}: rest(graph, candidateId, u) && rest(graph, candidateId, v) && names(graph, u, v) && !forb(subProblem, u, v) ==> graph_copy.edges_matrix[u][v].weight < FLT_MAX
  at loop 6 exit: assert subProblem->oneTree.num_edges < graph->num_nodes - 2 ==> d[miss] == FLT_MAX && ord[pos[miss]] == miss && 0 <= pos[miss] < m
  at loop 6 exit: assert subProblem->oneTree.num_edges < graph->num_nodes - 2 ==> forall u, v {graph->edges_matrix[u][v].positionInGraph}: rest(graph, candidateId, u) && rest(graph, candidateId, v) && names(graph, u, v) && !forb(subProblem, u, v) ==> !(pos[u] < pos[miss] && pos[miss] <= pos[v])
  at loop 6 exit: assert subProblem->oneTree.num_edges == graph->num_nodes - 2 ==> forall k {tm[k]} {tw[k]} {tp[k]}: 1 <= k < m ==> rest(graph, candidateId, ord[k]) && ord[k] != r0 && pos[ord[k]] == k && rest(graph, candidateId, fathers[ord[k]]) && tp[k] == pos[fathers[ord[k]]] && 0 <= tp[k] < k && ord[tp[k]] == fathers[ord[k]] && d[ord[k]] == (tm[k] ? 0.0 - FLT_MAX : tw[k]) && tw[k] == graph->edges_matrix[ord[k]][fathers[ord[k]]].weight && tw[k] > 0.0 - FLT_MAX
  at loop 6 exit: assert crooted(graph, subProblem, candidateId) ==> forall j {fm[j]} {fq[j]} {fp[j]}: 0 <= j < m && fp[j] != -1 ==> graph_copy.edges_matrix[ord[j]][fpar(ord[j])].weight == (fm[j] ? 0.0 - FLT_MAX : fq[j]) && graph_copy.edges_matrix[fpar(ord[j])][ord[j]].weight == (fm[j] ? 0.0 - FLT_MAX : fq[j]) && fq[j] > 0.0 - FLT_MAX
  at loop 6 exit: assert crooted(graph, subProblem, candidateId) && subProblem->oneTree.num_edges == graph->num_nodes - 2 ==> forall j, k {fp[j], tw[k]} {fp[j], tm[k]}: 0 <= j < m && fp[j] != -1 && 0 <= k < m && (j < k <= fp[j] || fp[j] < k <= j) ==> d[ord[k]] <= (fm[j] ? 0.0 - FLT_MAX : fq[j])
  at loop 6 exit: use RSumPerm(cw, tw, ord, pos, graph->num_nodes)
  at loop 6 exit: use RSumPerm(graph->fv, fq, ord, pos, graph->num_nodes)
  at loop 6 exit: use RSumStep(tw, m)
  at loop 6 exit: use RSumStep(fq, m)
  at loop 6 exit: if subProblem->oneTree.num_edges == graph->num_nodes - 2 && crooted(graph, subProblem, candidateId) then use MandMin(tp, tw, tm, fp, fd, fq, fm, pos[froot()], m, FLT_MAX)
  at loop 6 exit: assert crooted(graph, subProblem, candidateId) && subProblem->oneTree.num_edges == graph->num_nodes - 2 ==> forall w {fpar(w)}: rest(graph, candidateId, w) && w != froot() && mnd(subProblem, w, fpar(w)) ==> fm[pos[w]] && fp[pos[w]] == pos[fpar(w)] && (fathers[w] == fpar(w) || fathers[fpar(w)] == w)
  at loop 6 exit: assert forall u {fathers[u]}: 0 <= u < graph->num_nodes && fathers[u] != -1 ==> subProblem->oneTree.edges_matrix[u][fathers[u]] != -1 && subProblem->oneTree.edges_matrix[fathers[u]][u] != -1
  at loop 6 exit: if subProblem->oneTree.num_edges == graph->num_nodes - 2 && closed(&subProblem->oneTree) then use SpreadFrom(fathers, pos, r0, graph->num_nodes, m, m)
  at loop 6 exit: subProblem->oneTree.ro := r0
  at loop 6 exit: subProblem->oneTree.fa := lam u: fathers[u]
  at loop 6 exit: subProblem->oneTree.fo := pos
  at loop 6 exit: qq := lam i: pos[tq()[i + 1]]
  at loop 6 exit: rr := lam j: tr()[ord[j]] - 1
  at loop 6 exit: assert fpath(graph->num_nodes, candidateId) && crooted(graph, subProblem, candidateId) ==> pathtree(qq, rr, fp, m)
  at loop 6 exit: assert subProblem->oneTree.num_edges == graph->num_nodes - 2 ==> forall y, k {tp[y], tw[k]}: 1 <= y < m && tp[y] < k <= y ==> d[ord[k]] <= graph_copy.edges_matrix[fathers[ord[y]]][ord[y]].weight && names(graph, fathers[ord[y]], ord[y]) && rest(graph, candidateId, fathers[ord[y]])
  at loop 6 exit: assert subProblem->oneTree.num_edges == graph->num_nodes - 2 ==> forall y, k {tp[y], tw[k]}: 1 <= y < m && tp[y] < k <= y ==> d[ord[k]] <= (tm[y] ? 0.0 - FLT_MAX : tw[y])
  at loop 6 exit: if subProblem->oneTree.num_edges == graph->num_nodes - 2 && fpath(graph->num_nodes, candidateId) && crooted(graph, subProblem, candidateId) then use ExchAll(tp, tw, tm, fp, fq, fm, qq, rr, m, FLT_MAX)
  at loop 6 exit: assert subProblem->oneTree.num_edges == graph->num_nodes - 2 && fpath(graph->num_nodes, candidateId) && crooted(graph, subProblem, candidateId) ==> forall i, u {tq()[i], fathers[u]}: 2 <= i < graph->num_nodes && rest(graph, candidateId, u) && u != r0 && !mnd(subProblem, u, fathers[u]) && !mnd(subProblem, tq()[i], tq()[i - 1]) && min(tr()[u], tr()[fathers[u]]) < i && i <= max(tr()[u], tr()[fathers[u]]) ==> xcase(tp, tm, fm, qq, rr, m, i - 1, pos[u]) && qq[i - 1] == pos[tq()[i]] && tp[pos[u]] == pos[fathers[u]]
  at loop 6 exit: assert subProblem->oneTree.num_edges == graph->num_nodes - 2 && fpath(graph->num_nodes, candidateId) && crooted(graph, subProblem, candidateId) ==> forall i, u {tq()[i], fathers[u]}: 2 <= i < graph->num_nodes && rest(graph, candidateId, u) && u != r0 && !mnd(subProblem, u, fathers[u]) && !mnd(subProblem, tq()[i], tq()[i - 1]) && min(tr()[u], tr()[fathers[u]]) < i && i <= max(tr()[u], tr()[fathers[u]]) ==> rsum(tw, m) <= rsum(fq, m) - fq[qq[i - 1]] + tw[pos[u]]
  at loop 6 exit: assert subProblem->oneTree.cost == rsum(tw, m)
  at loop 6 exit: assert crooted(graph, subProblem, candidateId) ==> rsum(graph->fv, graph->num_nodes) == rsum(fq, m)
  at loop 6 exit: assert fpath(graph->num_nodes, candidateId) && crooted(graph, subProblem, candidateId) ==> forall i {tq()[i]}: 2 <= i < graph->num_nodes ==> fq[pos[tq()[i]]] == graph->edges_matrix[tq()[i]][tq()[i - 1]].weight
  at loop 6 exit: assert subProblem->oneTree.num_edges == graph->num_nodes - 2 ==> forall u {fathers[u]}: rest(graph, candidateId, u) && u != r0 ==> tw[pos[u]] == graph->edges_matrix[u][fathers[u]].weight
  at loop 6 exit: assert subProblem->oneTree.num_edges == graph->num_nodes - 2 && fpath(graph->num_nodes, candidateId) && crooted(graph, subProblem, candidateId) ==> forall i, u {tq()[i], fathers[u]}: 2 <= i < graph->num_nodes && rest(graph, candidateId, u) && u != r0 && !mnd(subProblem, u, fathers[u]) && !mnd(subProblem, tq()[i], tq()[i - 1]) && min(tr()[u], tr()[fathers[u]]) < i && i <= max(tr()[u], tr()[fathers[u]]) ==> subProblem->oneTree.cost <= rsum(graph->fv, graph->num_nodes) - graph->edges_matrix[tq()[i]][tq()[i - 1]].weight + graph->edges_matrix[u][fathers[u]].weight
  at loop 6 exit: assert subProblem->oneTree.num_edges == graph->num_nodes - 2 ==> forall u, v {subProblem->oneTree.edges_matrix[u][v]}: rest(graph, candidateId, u) && rest(graph, candidateId, v) && joined(&subProblem->oneTree, u, v) ==> graph->edges_matrix[u][v].weight == graph->edges_matrix[v][u].weight && (mnd(subProblem, u, v) <==> mnd(subProblem, v, u)) && (u != r0 && fathers[u] == v || v != r0 && fathers[v] == u)
  at loop 6 exit: assert subProblem->oneTree.num_edges == graph->num_nodes - 2 && fpath(graph->num_nodes, candidateId) && crooted(graph, subProblem, candidateId) ==> forall i, a, b {tq()[i], subProblem->oneTree.edges_matrix[a][b]}: xstep(&subProblem->oneTree, subProblem, i, a, b, candidateId) && a != r0 && fathers[a] == b ==> subProblem->oneTree.cost <= rsum(graph->fv, graph->num_nodes) - graph->edges_matrix[tq()[i]][tq()[i - 1]].weight + graph->edges_matrix[a][b].weight
  at loop 6 exit: assert subProblem->oneTree.num_edges == graph->num_nodes - 2 && fpath(graph->num_nodes, candidateId) && crooted(graph, subProblem, candidateId) ==> forall i, a, b {tq()[i], subProblem->oneTree.edges_matrix[a][b]}: xstep(&subProblem->oneTree, subProblem, i, a, b, candidateId) && b != r0 && fathers[b] == a ==> subProblem->oneTree.cost <= rsum(graph->fv, graph->num_nodes) - graph->edges_matrix[tq()[i]][tq()[i - 1]].weight + graph->edges_matrix[a][b].weight
  ensures rooted: subProblem->oneTree.isValid ==> ftree(&subProblem->oneTree, candidateId)
  ensures exchange: subProblem->oneTree.isValid && fpath(graph->num_nodes, candidateId) && crooted(graph, subProblem, candidateId) ==> forall i, a, b {tq()[i], subProblem->oneTree.edges_matrix[a][b]}: xstep(&subProblem->oneTree, subProblem, i, a, b, candidateId) ==> subProblem->oneTree.cost <= rsum(graph->fv, graph->num_nodes) - graph->edges_matrix[tq()[i]][tq()[i - 1]].weight + graph->edges_matrix[a][b].weight
  ensures valid: subProblem->oneTree.isValid <==> subProblem->oneTree.num_edges == graph->num_nodes - 2
  ensures wf: treewf(&subProblem->oneTree) && subProblem->oneTree.num_nodes == graph->num_nodes && subProblem->oneTree.num_edges <= graph->num_nodes - 2
  ensures subset: fromgraph(&subProblem->oneTree, graph)
  ensures nodes: forall u {subProblem->oneTree.nodes[u].positionInGraph}: nodeof(graph, u) ==> subProblem->oneTree.nodes[u].positionInGraph == u
  ensures allowed: forall e {subProblem->oneTree.edges[e].src} {subProblem->oneTree.edges[e].dest}: 0 <= e < subProblem->oneTree.num_edges ==> subProblem->oneTree.edges[e].src != candidateId && subProblem->oneTree.edges[e].dest != candidateId && !forb(subProblem, subProblem->oneTree.edges[e].src, subProblem->oneTree.edges[e].dest)
  ensures spanning: subProblem->oneTree.isValid && closed(&subProblem->oneTree) ==> forall u, v {lab(u), lab(v)}: rest(graph, candidateId, u) && rest(graph, candidateId, v) ==> lab(u) == lab(v)
  ensures disconnected: !subProblem->oneTree.isValid ==> (forall u, v {graph->edges_matrix[u][v].positionInGraph}: rest(graph, candidateId, u) && rest(graph, candidateId, v) && names(graph, u, v) && !forb(subProblem, u, v) ==> subProblem->oneTree.side[u] == subProblem->oneTree.side[v]) && exists u, v {subProblem->oneTree.side[u], subProblem->oneTree.side[v]}: rest(graph, candidateId, u) && rest(graph, candidateId, v) && subProblem->oneTree.side[u] != subProblem->oneTree.side[v]
  ensures mandatory: subProblem->oneTree.isValid && crooted(graph, subProblem, candidateId) ==> forall u, v {subProblem->constraints[u][v]}: rest(graph, candidateId, u) && rest(graph, candidateId, v) && mnd(subProblem, u, v) ==> subProblem->oneTree.edges_matrix[u][v] != -1
  ensures minimum: fcostc(graph, candidateId) && (subProblem->oneTree.isValid && crooted(graph, subProblem, candidateId) ==> subProblem->oneTree.cost <= rsum(graph->fv, graph->num_nodes))
