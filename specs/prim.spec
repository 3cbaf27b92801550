# Prim's algorithm.  An arbitrary spanning tree to compare with: root froot(), fpar(v) = parent of v, fdep = depth.
logic froot(): Int
logic fpar(Int): Int
logic fdep(Int): Int
# an arbitrary labelling of the nodes
logic lab(Int): Int
pred closed(t) = forall e {t->edges[e].src} {t->edges[e].dest}: 0 <= e < t->num_edges ==> lab(t->edges[e].src) == lab(t->edges[e].dest)
pred fromgraph(t, g) = forall e {t->edges[e].src} {t->edges[e].dest} {t->edges[e].weight}: 0 <= e < t->num_edges ==>
|  names(g, t->edges[e].src, t->edges[e].dest) && t->edges[e].weight == g->edges_matrix[t->edges[e].src][t->edges[e].dest].weight && t->edges[e].prob == g->edges_matrix[t->edges[e].src][t->edges[e].dest].prob
pred rooted(g) = nodeof(g, froot()) && fdep(froot()) >= 0 && forall v {fpar(v)}: nodeof(g, v) && v != froot() ==> nodeof(g, fpar(v)) && names(g, v, fpar(v)) && 0 <= fdep(fpar(v)) < fdep(v)
ghostfield Graph.fv AReal
pred fcost(g) = forall v {g->fv[v]}: nodeof(g, v) ==> g->fv[v] == (v == froot() ? 0.0 : g->edges_matrix[v][fpar(v)].weight)
ghostfield MST.side AInt

# labels spread from the first node
lemma Spread(fa@AInt, ps@AInt, n, k)
  requires k >= 0 && forall i {fa[i]} {ps[i]}: 0 <= i < n && ps[i] > 0 ==> 0 <= fa[i] < n && 0 <= ps[fa[i]] < ps[i] && lab(i) == lab(fa[i])
  requires forall i {ps[i]}: 0 <= i < n ==> 0 <= ps[i] && (ps[i] == 0 ==> i == 0)
  measure k
  step if k > 0 then use Spread(fa, ps, n, k - 1)
  ensures forall i {lab(i)} {ps[i]}: 0 <= i < n && ps[i] < k ==> lab(i) == lab(0)
pred tblock(b, n, p) = b <= p < b + n

fn prim
  requires wf: gwf(graph) && graph->num_nodes >= 1
  requires finite: forall k {graph->edges[k].weight}: 0 <= k < graph->num_edges ==> graph->edges[k].weight < DBL_MAX
  hide hseq hrings hord hmin
  local d AReal
  local pos AInt
  local ord AInt
  local t Int = 0
  local a Int
  local kx AInt
  local cw AReal
  local ei AInt
  local miss Int
  local W AReal
  local fp AInt
  local fd AInt
  local fq AReal
  assigns graph->fv
  assigns @OrdTreeNode.left_sibling, @OrdTreeNode.right_sibling, @OrdTreeNode.marked, @OrdTreeNode.is_root, @OrdTreeNode.parent, @OrdTreeNode.head_child_list, @OrdTreeNode.tail_child_list, @OrdTreeNode.num_children, @OrdTreeNode.value, @OrdTreeNode.key
  assigns mst->isValid, mst->cost, mst->num_nodes, mst->num_edges, mst->prob, mst->nodes, mst->edges, mst->edges_matrix, mst->nbp, mst->side
  loop 1
    inv heap: hwf(&heap) && heap.num_nodes == i && i <= graph->num_nodes && (start <==> i == 0)
    inv in: forall p {heap.in[p]}: heap.in[p] <==> tblock(ref(tree_nodes), i, p)
    inv nodes: forall p {@OrdTreeNode[p].key} {@OrdTreeNode[p].value}: tblock(ref(tree_nodes), i, p) ==> @OrdTreeNode[p].key == p - ref(tree_nodes) && @OrdTreeNode[p].value == (p == ref(tree_nodes) ? 0.0 : DBL_MAX)
    inv arrays: forall u {in_heap[u]} {fathers[u]}: 0 <= u < i ==> in_heap[u] && fathers[u] == -1
    dec graph->num_nodes - i
  at loop 1 exit: d := lam u: u == 0 ? 0.0 : DBL_MAX
  at loop 1 exit: pos := lam u: graph->num_nodes
  loop 2
    inv heap: hwf(&heap) && heap.num_nodes == graph->num_nodes - t && 0 <= t <= graph->num_nodes
    inv in: forall p {heap.in[p]}: heap.in[p] <==> tblock(ref(tree_nodes), graph->num_nodes, p) && in_heap[p - ref(tree_nodes)]
    inv keys: forall p {@OrdTreeNode[p].key}: tblock(ref(tree_nodes), graph->num_nodes, p) ==> @OrdTreeNode[p].key == p - ref(tree_nodes)
    inv values: forall p {@OrdTreeNode[p].value}: tblock(ref(tree_nodes), graph->num_nodes, p) ==> @OrdTreeNode[p].value == d[p - ref(tree_nodes)]
    inv pos: forall u {pos[u]} {in_heap[u]}: nodeof(graph, u) ==> (in_heap[u] ? pos[u] == graph->num_nodes : 0 <= pos[u] < t && ord[pos[u]] == u)
    inv ord: forall j {ord[j]}: 0 <= j < t ==> nodeof(graph, ord[j]) && pos[ord[j]] == j
    inv first: d[0] == 0.0 && fathers[0] == -1 && (t > 0 ==> ord[0] == 0) && (t == 0 ==> forall u {d[u]}: 1 <= u < graph->num_nodes ==> d[u] == DBL_MAX)
    inv fathers: forall u {fathers[u]} {d[u]}: 1 <= u < graph->num_nodes ==> (fathers[u] == -1 ? d[u] == DBL_MAX : nodeof(graph, fathers[u]) && pos[fathers[u]] < pos[u] && pos[fathers[u]] < t && names(graph, u, fathers[u]) && d[u] == graph->edges_matrix[u][fathers[u]].weight)
    inv reach: forall u, v {graph->edges_matrix[u][v].weight} {graph->edges_matrix[u][v].positionInGraph}: nodeof(graph, u) && nodeof(graph, v) && names(graph, u, v) && pos[u] < t && pos[v] >= t ==> d[v] <= graph->edges_matrix[u][v].weight
    inv steps: forall u, v, j {graph->edges_matrix[u][v].weight, ord[j]}: nodeof(graph, u) && nodeof(graph, v) && names(graph, u, v) && pos[u] < j <= pos[v] && j < t ==> d[ord[j]] <= graph->edges_matrix[u][v].weight
    dec heap.num_nodes
  at loop 2 body: kx := heap.kx
  at loop 3 enter: assert kx[min_pos] == ref(tree_nodes) + min_pos && d[min_pos] == @OrdTreeNode[ref(tree_nodes) + min_pos].value
  at loop 3 enter: a := min_pos
  at loop 3 enter: assert forall u {in_heap[u]}: nodeof(graph, u) && in_heap[u] ==> d[u] == @OrdTreeNode[ref(tree_nodes) + u].value && heap.in[ref(tree_nodes) + u]
  at loop 3 enter: assert nodeof(graph, a) && pos[a] == graph->num_nodes && forall u {in_heap[u]}: nodeof(graph, u) && in_heap[u] ==> d[a] <= d[u]
  at loop 3 enter: ord[t] := a
  at loop 3 enter: pos[a] := t
  at loop 3 enter: t := t + 1
  loop 3
    inv heap: hwf(&heap) && heap.num_nodes == graph->num_nodes - t && 0 <= t <= graph->num_nodes
    inv in: forall p {heap.in[p]}: heap.in[p] <==> tblock(ref(tree_nodes), graph->num_nodes, p) && in_heap[p - ref(tree_nodes)]
    inv keys: forall p {@OrdTreeNode[p].key}: tblock(ref(tree_nodes), graph->num_nodes, p) ==> @OrdTreeNode[p].key == p - ref(tree_nodes)
    inv values: forall p {@OrdTreeNode[p].value}: tblock(ref(tree_nodes), graph->num_nodes, p) ==> @OrdTreeNode[p].value == d[p - ref(tree_nodes)]
    inv pos: forall u {pos[u]} {in_heap[u]}: nodeof(graph, u) ==> (in_heap[u] ? pos[u] == graph->num_nodes : 0 <= pos[u] < t && ord[pos[u]] == u)
    inv ord: forall j {ord[j]}: 0 <= j < t ==> nodeof(graph, ord[j]) && pos[ord[j]] == j
    inv first: d[0] == 0.0 && fathers[0] == -1 && (t > 0 ==> ord[0] == 0) && (t == 0 ==> forall u {d[u]}: 1 <= u < graph->num_nodes ==> d[u] == DBL_MAX)
    inv fathers: forall u {fathers[u]} {d[u]}: 1 <= u < graph->num_nodes ==> (fathers[u] == -1 ? d[u] == DBL_MAX : nodeof(graph, fathers[u]) && pos[fathers[u]] < pos[u] && pos[fathers[u]] < t && names(graph, u, fathers[u]) && d[u] == graph->edges_matrix[u][fathers[u]].weight)
    inv cur: nodeof(graph, a) && a == min_pos && pos[a] == t - 1 && t > 0 && !in_heap[a]
    inv reach: forall u, v {graph->edges_matrix[u][v].weight} {graph->edges_matrix[u][v].positionInGraph}: nodeof(graph, u) && nodeof(graph, v) && names(graph, u, v) && pos[u] < t && (u == a ==> graph->nbq[u][v] < i) && pos[v] >= t ==> d[v] <= graph->edges_matrix[u][v].weight
    inv steps: forall u, v, j {graph->edges_matrix[u][v].weight, ord[j]}: nodeof(graph, u) && nodeof(graph, v) && names(graph, u, v) && pos[u] < j <= pos[v] && j < t ==> d[ord[j]] <= graph->edges_matrix[u][v].weight
    dec graph->nodes[min_pos].num_neighbours - i
  at after call decrease_value 1: d[neigh] := weight
  at loop 2 exit: assert forall u {in_heap[u]} {pos[u]}: nodeof(graph, u) ==> !heap.in[ref(tree_nodes) + u]
  at loop 2 exit: assert forall u {pos[u]}: nodeof(graph, u) ==> 0 <= pos[u] < graph->num_nodes && ord[pos[u]] == u
  at loop 2 exit: cw := lam u: fathers[u] == -1 ? 0.0 : d[u]
  loop 4
    inv tree: treewf(mst) && mst->num_nodes == graph->num_nodes && fromgraph(mst, graph) && i <= graph->num_nodes
    inv count: 0 <= mst->num_edges <= (i > 0 ? i - 1 : 0) && (i == 0 || mst->num_edges == i - 1 ? (forall u {fathers[u]}: 1 <= u < i ==> fathers[u] != -1) : 1 <= miss < i && fathers[miss] == -1)
    inv cost: mst->cost == rsum(cw, i)
    inv new: forall u, v {mst->edges_matrix[u][v]}: nodeof(graph, u) && nodeof(graph, v) && mst->edges_matrix[u][v] != -1 ==> u < i && fathers[u] == v || v < i && fathers[v] == u
    inv listed: forall u {fathers[u]} {ei[u]}: 0 <= u < i && fathers[u] != -1 ==> 0 <= ei[u] < mst->num_edges && pairis(mst->edges[ei[u]].src, mst->edges[ei[u]].dest, u, fathers[u])
    dec graph->num_nodes - i
  at loop 4 body: use RSumStep(cw, i)
  at loop 4 body: if fathers[i] == -1 && i > 0 then miss := i
  at loop 4 body: if fathers[i] != -1 then ei[i] := mst->num_edges
  at loop 4 exit: graph->fv := lam v: v == froot() ? 0.0 : graph->edges_matrix[v][fpar(v)].weight
  at loop 4 exit: mst->side := lam u: pos[u] < pos[miss] ? 0 : 1
  at loop 4 exit: assert mst->num_edges < graph->num_nodes - 1 ==> nodeof(graph, miss) && mst->side[0] == 0 && mst->side[miss] == 1
  at loop 4 exit: W := lam j: cw[ord[j]]
  at loop 4 exit: fp := lam j: ord[j] == froot() ? -1 : pos[fpar(ord[j])]
  at loop 4 exit: fd := lam j: fdep(ord[j])
  at loop 4 exit: fq := lam j: graph->fv[ord[j]]
  at loop 4 exit: assert rooted(graph) ==> forall j {fp[j]} {fq[j]}: 0 <= j < graph->num_nodes && fp[j] != -1 ==> nodeof(graph, ord[j]) && nodeof(graph, fpar(ord[j])) && pos[ord[j]] == j && pos[fpar(ord[j])] == fp[j] && names(graph, ord[j], fpar(ord[j])) && names(graph, fpar(ord[j]), ord[j]) && fq[j] == graph->edges_matrix[ord[j]][fpar(ord[j])].weight && fq[j] == graph->edges_matrix[fpar(ord[j])][ord[j]].weight
  at loop 4 exit: assert rooted(graph) ==> forall j {fd[j]}: 0 <= j < graph->num_nodes ==> ord[j] == froot() || fdep(fpar(ord[j])) >= 0 && fdep(ord[j]) > fdep(fpar(ord[j]))
  at loop 4 exit: use RSumPerm(cw, W, ord, pos, graph->num_nodes)
  at loop 4 exit: use RSumPerm(graph->fv, fq, ord, pos, graph->num_nodes)
  at loop 4 exit: if mst->num_edges == graph->num_nodes - 1 && rooted(graph) then use PrimMin(W, fp, fd, fq, pos[froot()], graph->num_nodes)
  at loop 4 exit: if mst->num_edges == graph->num_nodes - 1 && closed(mst) then use Spread(fathers, pos, graph->num_nodes, graph->num_nodes)
  ensures valid: mst->isValid <==> mst->num_edges == graph->num_nodes - 1
  ensures wf: treewf(mst) && mst->num_nodes == graph->num_nodes
  ensures subset: fromgraph(mst, graph)
  ensures spanning: mst->isValid && closed(mst) ==> forall u {lab(u)}: nodeof(graph, u) ==> lab(u) == lab(0)
  ensures disconnected: !mst->isValid ==> (forall k {graph->edges[k].src} {graph->edges[k].dest}: 0 <= k < graph->num_edges ==> mst->side[graph->edges[k].src] == mst->side[graph->edges[k].dest]) && exists u, v {mst->side[u], mst->side[v]}: nodeof(graph, u) && nodeof(graph, v) && mst->side[u] != mst->side[v]
  ensures minimum: fcost(graph) && (mst->isValid && rooted(graph) ==> mst->cost <= rsum(graph->fv, graph->num_nodes))
