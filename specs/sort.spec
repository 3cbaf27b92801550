# sorting the edges.  Ghost state: bw, bp, bs, bd, by = contents of the edges by identity; ord[k] = identity of the edge at position k, inv = its inverse.
ghostfield Graph.bw AReal
ghostfield Graph.bp AReal
ghostfield Graph.bs AInt
ghostfield Graph.bd AInt
ghostfield Graph.by AInt
ghostfield Graph.ord AInt
ghostfield Graph.inv AInt

pred le(w, p, w2, p2) = w < w2 || w == w2 && (HYBRID ==> p >= p2)
pred ele(g, i, j) = le(g->edges[i].weight, g->edges[i].prob, g->edges[j].weight, g->edges[j].prob)
pred sortedin(g, a, b) = forall i, j {g->edges[i].weight, g->edges[j].weight}: a <= i < j <= b ==> ele(g, i, j)
pred gperm(g) = (forall k {g->ord[k]} {g->edges[k].weight} {g->edges[k].src}: 0 <= k < g->num_edges ==> 0 <= g->ord[k] < g->num_edges && g->inv[g->ord[k]] == k
|        && g->edges[k].weight == g->bw[g->ord[k]] && g->edges[k].prob == g->bp[g->ord[k]] && g->edges[k].src == g->bs[g->ord[k]] && g->edges[k].dest == g->bd[g->ord[k]] && g->edges[k].symbol == g->by[g->ord[k]])
|  && (forall x {g->inv[x]}: 0 <= x < g->num_edges ==> 0 <= g->inv[x] < g->num_edges && g->ord[g->inv[x]] == x)
# only positions first..last are permuted
pred rperm(g, a, b) = (forall k {g->ord[k]}: k < a || k > b ==> g->ord[k] == old(g->ord[k]))
|  && (forall k {g->ord[k]}: a <= k <= b ==> a <= old(g->inv)[g->ord[k]] <= b)
pred nonedges(g) = forall u, v {g->edges_matrix[u][v].positionInGraph}: !old(names(g, u, v)) ==> g->edges_matrix[u][v].positionInGraph == old(g->edges_matrix[u][v].positionInGraph)

fn swap
  requires idx: gidx(graph)
  requires perm: gperm(graph)
  requires range: swap_1 < graph->num_edges && swap_2 < graph->num_edges
  assigns graph->edges, col(graph->edges_matrix, positionInGraph), graph->ord, graph->inv
  at return: graph->ord := store(store(old(graph->ord), swap_1, old(graph->ord[swap_2])), swap_2, old(graph->ord[swap_1]))
  at return: graph->inv := store(store(old(graph->inv), old(graph->ord[swap_1]), swap_2), old(graph->ord[swap_2]), swap_1)
  ensures idx: gidx(graph)
  ensures perm: gperm(graph)
  ensures order: graph->ord == store(store(old(graph->ord), swap_1, old(graph->ord[swap_2])), swap_2, old(graph->ord[swap_1]))
  ensures inverse: graph->inv == store(store(old(graph->inv), old(graph->ord[swap_1]), swap_2), old(graph->ord[swap_2]), swap_1)
  ensures nonedges: nonedges(graph)

fn pivot_quicksort
  flag mergearrays
  requires idx: gidx(graph)
  requires perm: gperm(graph)
  requires range: first < last && last < graph->num_edges
  assigns graph->edges, col(graph->edges_matrix, positionInGraph), graph->ord, graph->inv
  loop 1
    inv idx: gidx(graph)
    inv perm: gperm(graph)
    inv rperm: rperm(graph, first, last)
    inv nonedges: nonedges(graph)
    inv bounds: first < i && i <= j + 1 && j <= last && (condition ? i <= j : i == j + 1)
    inv pivot: graph->edges[first].weight == pivot_weight && graph->edges[first].prob == pivot_prob
    inv low: forall k {graph->edges[k].weight}: first < k < i ==> le(graph->edges[k].weight, graph->edges[k].prob, pivot_weight, pivot_prob)
    inv high: forall k {graph->edges[k].weight}: j < k <= last ==> !le(graph->edges[k].weight, graph->edges[k].prob, pivot_weight, pivot_prob)
    dec 2 * (j - i + 1) + (condition && !le(graph->edges[i].weight, graph->edges[i].prob, pivot_weight, pivot_prob) ? 1 : 0)
  loop 2
    inv cur: i <= j ==> i_edge.weight == graph->edges[i].weight && i_edge.prob == graph->edges[i].prob
    inv bounds: first < i && i <= j + 1 && i >= entry(i)
    inv low: forall k {graph->edges[k].weight}: first < k < i ==> le(graph->edges[k].weight, graph->edges[k].prob, pivot_weight, pivot_prob)
    dec j - i + 1
  loop 3
    inv cur: j_edge.weight == graph->edges[j].weight && j_edge.prob == graph->edges[j].prob
    inv bounds: first <= j && i <= j + 1 && j <= entry(j)
    inv high: forall k {graph->edges[k].weight}: j < k <= last ==> !le(graph->edges[k].weight, graph->edges[k].prob, pivot_weight, pivot_prob)
    dec j - i + 1
  ensures idx: gidx(graph)
  ensures perm: gperm(graph)
  ensures rperm: rperm(graph, first, last)
  ensures nonedges: nonedges(graph)
  ensures range: first <= result <= last
  ensures low: forall k {graph->edges[k].weight}: first <= k < result ==> ele(graph, k, result)
  ensures high: forall k {graph->edges[k].weight}: result < k <= last ==> ele(graph, result, k)

fn quick_sort
  requires idx: gidx(graph)
  requires perm: gperm(graph)
  requires range: first <= last ==> last < graph->num_edges
  decreases last > first ? last - first : 0
  assigns graph->edges, col(graph->edges_matrix, positionInGraph), graph->ord, graph->inv
  ensures idx: gidx(graph)
  ensures perm: gperm(graph)
  ensures rperm: rperm(graph, first, last)
  ensures nonedges: nonedges(graph)
  ensures sorted: sortedin(graph, first, last)

fn wrap_quick_sort
  requires idx: gidx(graph)
  requires sorted: graph->orderedEdges ==> sortedin(graph, 0, graph->num_edges - 1)
  assigns graph->edges, col(graph->edges_matrix, positionInGraph), graph->ord, graph->inv, graph->bw, graph->bp, graph->bs, graph->bd, graph->by, graph->orderedEdges
  at entry: graph->ord := lam k: k
  at entry: graph->inv := lam k: k
  at entry: graph->bw := col(graph->edges, weight)
  at entry: graph->bp := col(graph->edges, prob)
  at entry: graph->bs := col(graph->edges, src)
  at entry: graph->bd := col(graph->edges, dest)
  at entry: graph->by := col(graph->edges, symbol)
  at return: assert forall u, v {old(graph->edges_matrix[u][v].positionInGraph)} {graph->edges_matrix[u][v].positionInGraph}: old(names(graph, u, v)) ==> graph->edges_matrix[u][v].positionInGraph == graph->inv[old(graph->edges_matrix[u][v].positionInGraph)] && names(graph, u, v)
  at return: assert forall u, v {old(graph->edges_matrix[u][v].positionInGraph)} {graph->edges_matrix[u][v].positionInGraph}: names(graph, u, v) ==> old(names(graph, u, v))
  at return: assert forall u, v {old(graph->edges_matrix[u][v].positionInGraph)} {graph->edges_matrix[u][v].positionInGraph}: names(graph, u, v) ==> graph->edges[graph->edges_matrix[u][v].positionInGraph].weight == old(graph->edges[graph->edges_matrix[u][v].positionInGraph].weight) && graph->edges[graph->edges_matrix[u][v].positionInGraph].prob == old(graph->edges[graph->edges_matrix[u][v].positionInGraph].prob) && graph->edges[graph->edges_matrix[u][v].positionInGraph].symbol == old(graph->edges[graph->edges_matrix[u][v].positionInGraph].symbol)
  ensures idx: gidx(graph)
  ensures flag: graph->orderedEdges
  ensures sorted: sortedin(graph, 0, graph->num_edges - 1)
  ensures bijection: forall k {graph->ord[k]}: 0 <= k < graph->num_edges ==> 0 <= graph->ord[k] < graph->num_edges && graph->inv[graph->ord[k]] == k
  ensures onto: forall x {graph->inv[x]}: 0 <= x < graph->num_edges ==> 0 <= graph->inv[x] < graph->num_edges && graph->ord[graph->inv[x]] == x
  ensures contents: forall k {graph->edges[k].weight} {graph->edges[k].src}: 0 <= k < graph->num_edges ==> graph->edges[k].weight == old(col(graph->edges, weight))[graph->ord[k]] && graph->edges[k].prob == old(col(graph->edges, prob))[graph->ord[k]] && graph->edges[k].src == old(col(graph->edges, src))[graph->ord[k]] && graph->edges[k].dest == old(col(graph->edges, dest))[graph->ord[k]] && graph->edges[k].symbol == old(col(graph->edges, symbol))[graph->ord[k]]
  ensures nonedges: nonedges(graph)
  ensures wf: old(gwf(graph)) ==> gwf(graph)
