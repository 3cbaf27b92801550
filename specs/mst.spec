# trees.  Ghost state: nbp[u][v] = where v stands in the neighbour list of u.
ghostfield MST.nbp AAInt

pred tstruct(t) = 0 <= t->num_nodes <= N && 0 <= t->num_edges <= N
|  && (forall u {t->nodes[u].num_neighbours}: 0 <= u < t->num_nodes ==> 0 <= t->nodes[u].num_neighbours < t->num_nodes)
|  && (forall u, k {t->nodes[u].neighbours[k]}: 0 <= u < t->num_nodes && 0 <= k < t->nodes[u].num_neighbours ==>
|        0 <= t->nodes[u].neighbours[k] < t->num_nodes && t->nodes[u].neighbours[k] != u && t->edges_matrix[u][t->nodes[u].neighbours[k]] != -1 && t->nbp[u][t->nodes[u].neighbours[k]] == k)
|  && (forall u, v {t->edges_matrix[u][v]}: 0 <= u < t->num_nodes && 0 <= v < t->num_nodes && t->edges_matrix[u][v] != -1 ==>
|        0 <= t->edges_matrix[u][v] < t->num_edges && 0 <= t->nbp[u][v] < t->nodes[u].num_neighbours && t->nodes[u].neighbours[t->nbp[u][v]] == v
|        && (t->edges[t->edges_matrix[u][v]].src == u && t->edges[t->edges_matrix[u][v]].dest == v || t->edges[t->edges_matrix[u][v]].src == v && t->edges[t->edges_matrix[u][v]].dest == u))
|  && (forall e {t->edges[e].src}: 0 <= e < t->num_edges ==> 0 <= t->edges[e].src < t->num_nodes && 0 <= t->edges[e].dest < t->num_nodes && t->edges[e].src != t->edges[e].dest
|        && t->edges[e].positionInGraph == e && t->edges_matrix[t->edges[e].src][t->edges[e].dest] == e && t->edges_matrix[t->edges[e].dest][t->edges[e].src] == e)
pred tsums(t) = t->cost == rsum(col(t->edges, weight), t->num_edges)
|  && (HYBRID ==> t->prob * real(t->num_edges) == rsum(col(t->edges, prob), t->num_edges))
|  && (!HYBRID || t->num_edges == 0 ==> t->prob == 0.0)
pred treewf(t) = tstruct(t) && tsums(t)
pred pairis(u, v, a, b) = u == a && v == b || u == b && v == a

fn create_mst
  requires size: num_nodes <= N
  param nodes[N]
  assigns mst->isValid, mst->cost, mst->num_nodes, mst->num_edges, mst->prob, col(mst->nodes, positionInGraph), col(mst->nodes, x), col(mst->nodes, y), col(mst->nodes, num_neighbours), mst->edges_matrix
  loop 1
    inv nodes: forall u {mst->nodes[u].positionInGraph} {mst->nodes[u].num_neighbours}: 0 <= u < i ==> mst->nodes[u].positionInGraph == nodes[u].positionInGraph && mst->nodes[u].x == nodes[u].x && mst->nodes[u].y == nodes[u].y && mst->nodes[u].num_neighbours == 0
    inv none: forall u, v {mst->edges_matrix[u][v]}: 0 <= u < num_nodes && 0 <= v < num_nodes && (u < i || v < i) ==> mst->edges_matrix[u][v] == -1
    dec num_nodes - i
  loop 2
    inv none: forall u, v {mst->edges_matrix[u][v]}: 0 <= u < num_nodes && 0 <= v < num_nodes && (u < i || v < i || u == i && v < j || v == i && u < j) ==> mst->edges_matrix[u][v] == -1
    dec num_nodes - j
  ensures head: !mst->isValid && mst->num_nodes == num_nodes && mst->num_edges == 0 && mst->cost == 0.0 && mst->prob == 0.0
  ensures nodes: forall u {mst->nodes[u].positionInGraph} {mst->nodes[u].num_neighbours}: 0 <= u < num_nodes ==> mst->nodes[u].positionInGraph == nodes[u].positionInGraph && mst->nodes[u].x == nodes[u].x && mst->nodes[u].y == nodes[u].y && mst->nodes[u].num_neighbours == 0
  ensures none: forall u, v {mst->edges_matrix[u][v]}: 0 <= u < num_nodes && 0 <= v < num_nodes ==> mst->edges_matrix[u][v] == -1
  ensures wf: treewf(mst)

fn add_edge
  requires wf: treewf(tree)
  requires room: tree->num_edges < N
  requires ends: 0 <= edge->src < tree->num_nodes && 0 <= edge->dest < tree->num_nodes && edge->src != edge->dest
  requires new: tree->edges_matrix[edge->src][edge->dest] == -1
  assigns tree->edges, col(tree->nodes, num_neighbours), col(tree->nodes, neighbours), tree->edges_matrix, tree->num_edges, tree->cost, tree->prob, tree->nbp
  at entry: use Pigeon(store(store(tree->nodes[edge->src].neighbours, tree->nodes[edge->src].num_neighbours, edge->dest), tree->nodes[edge->src].num_neighbours + 1, edge->src), tree->nodes[edge->src].num_neighbours + 2, tree->num_nodes)
  at entry: use Pigeon(store(store(tree->nodes[edge->dest].neighbours, tree->nodes[edge->dest].num_neighbours, edge->src), tree->nodes[edge->dest].num_neighbours + 1, edge->dest), tree->nodes[edge->dest].num_neighbours + 2, tree->num_nodes)
  at return: tree->nbp[edge->src][edge->dest] := old(tree->nodes[edge->src].num_neighbours)
  at return: tree->nbp[edge->dest][edge->src] := old(tree->nodes[edge->dest].num_neighbours)
  at return: use RSumPush(old(col(tree->edges, weight)), col(tree->edges, weight), old(tree->num_edges))
  at return: use RSumPush(old(col(tree->edges, prob)), col(tree->edges, prob), old(tree->num_edges))
  ensures count: tree->num_edges == old(tree->num_edges) + 1
  ensures cost: tree->cost == old(tree->cost) + edge->weight
  ensures edges: forall e {tree->edges[e].src} {tree->edges[e].weight}: 0 <= e < old(tree->num_edges) ==> same(tree->edges[e], old(tree->edges[e]))
  ensures last: tree->edges[old(tree->num_edges)].src == edge->src && tree->edges[old(tree->num_edges)].dest == edge->dest && tree->edges[old(tree->num_edges)].weight == edge->weight && tree->edges[old(tree->num_edges)].prob == edge->prob && tree->edges[old(tree->num_edges)].symbol == edge->symbol
  ensures index: forall u, v {tree->edges_matrix[u][v]}: tree->edges_matrix[u][v] == (pairis(u, v, edge->src, edge->dest) ? old(tree->num_edges) : old(tree->edges_matrix[u][v]))
  ensures degree: forall u {tree->nodes[u].num_neighbours}: tree->nodes[u].num_neighbours == old(tree->nodes[u].num_neighbours) + (u == edge->src || u == edge->dest ? 1 : 0)
  ensures lists: forall u, k {tree->nodes[u].neighbours[k]}: 0 <= k < old(tree->nodes[u].num_neighbours) ==> tree->nodes[u].neighbours[k] == old(tree->nodes[u].neighbours[k])
  ensures added: tree->nodes[edge->src].neighbours[old(tree->nodes[edge->src].num_neighbours)] == edge->dest && tree->nodes[edge->dest].neighbours[old(tree->nodes[edge->dest].num_neighbours)] == edge->src
  ensures prob: tree->prob == (HYBRID ? (old(tree->prob) * real(old(tree->num_edges)) + edge->prob) / real(tree->num_edges) : 0.0)
  ensures wf: treewf(tree)
