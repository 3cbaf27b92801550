# building a graph
pred nd(l, i) = ptr(Node, lval(l, i))
pred ed(l, i) = ptr(Edge, lval(l, i))
pred hasedge(l, n, u, v) = exists k {l->gs[k]}: 0 <= k < n && pairis(u, v, ed(l, k)->src, ed(l, k)->dest)
pred gbuilt(g, l, n) = g->num_edges == n
|  && (forall k {g->edges[k].weight} {g->edges[k].src} {l->gs[k]}: 0 <= k < n ==> g->edges[k].src == ed(l, k)->src && g->edges[k].dest == ed(l, k)->dest && g->edges[k].weight == ed(l, k)->weight && g->edges[k].prob == ed(l, k)->prob && g->edges[k].symbol == ed(l, k)->symbol)
|  && g->cost == rsum(col(g->edges, weight), n)

fn create_graph
  requires lists: lwf(nodes_list) && lwf(edges_list) && code(nodes_list) != code(edges_list)
  requires fits: nodes_list->size <= N && edges_list->size <= E
  requires nodes: forall i {nodes_list->gs[i]}: 0 <= i < nodes_list->size ==> valid(Node, lval(nodes_list, i))
  requires edges: forall i {edges_list->gs[i]}: 0 <= i < edges_list->size ==> valid(Edge, lval(edges_list, i)) && 0 <= ed(edges_list, i)->src < nodes_list->size && 0 <= ed(edges_list, i)->dest < nodes_list->size && ed(edges_list, i)->src != ed(edges_list, i)->dest
  requires simple: forall i, j {edges_list->gs[i], edges_list->gs[j]}: 0 <= i < j < edges_list->size ==> !pairis(ed(edges_list, i)->src, ed(edges_list, i)->dest, ed(edges_list, j)->src, ed(edges_list, j)->dest)
  assigns graph->kind, graph->cost, graph->num_nodes, graph->num_edges, graph->orderedEdges, graph->nodes, graph->edges, graph->edges_matrix, graph->nbq, alloc(DllElem), alloc(List), alloc(ListIterator), @ListIterator.list, @ListIterator.curr, @ListIterator.index
  loop 1
    inv it: code(nodes_iterator) > 0 && alive(ListIterator, code(nodes_iterator)) && itwf(nodes_iterator) && nodes_iterator->index == j && code(nodes_iterator->list) == code(nodes_list)
    inv iters: forall r {alive(ListIterator, r)}: alive(ListIterator, r) && r != code(nodes_iterator) <==> old(alive(ListIterator, r))
    inv count: numNodes == j && graph->num_nodes == j && 0 <= j <= nodes_list->size
    inv nodes: forall u {graph->nodes[u].positionInGraph} {graph->nodes[u].num_neighbours} {graph->nodes[u].x} {graph->nodes[u].y}: 0 <= u < j ==> graph->nodes[u].positionInGraph == u && graph->nodes[u].num_neighbours == 0 && graph->nodes[u].x == nd(nodes_list, u)->x && graph->nodes[u].y == nd(nodes_list, u)->y
    dec nodes_list->size - j
  loop 2
    inv it: code(edges_iterator) > 0 && alive(ListIterator, code(edges_iterator)) && itwf(edges_iterator) && edges_iterator->index == i && code(edges_iterator->list) == code(edges_list)
    inv iters: forall r {alive(ListIterator, r)}: alive(ListIterator, r) && r != code(edges_iterator) <==> old(alive(ListIterator, r))
    inv count: numEdges == i && 0 <= i <= edges_list->size && graph->num_nodes == nodes_list->size
    inv nodes: forall u {graph->nodes[u].x} {graph->nodes[u].y}: nodeof(graph, u) ==> graph->nodes[u].x == nd(nodes_list, u)->x && graph->nodes[u].y == nd(nodes_list, u)->y
    inv wf: gwf(graph)
    inv built: gbuilt(graph, edges_list, i)
    dec edges_list->size - i
  at loop 2 body: use Pigeon(store(store(graph->nodes[ed(edges_list, i)->src].neighbours, graph->nodes[ed(edges_list, i)->src].num_neighbours, ed(edges_list, i)->dest), graph->nodes[ed(edges_list, i)->src].num_neighbours + 1, ed(edges_list, i)->src), graph->nodes[ed(edges_list, i)->src].num_neighbours + 2, graph->num_nodes)
  at loop 2 body: use Pigeon(store(store(graph->nodes[ed(edges_list, i)->dest].neighbours, graph->nodes[ed(edges_list, i)->dest].num_neighbours, ed(edges_list, i)->src), graph->nodes[ed(edges_list, i)->dest].num_neighbours + 1, ed(edges_list, i)->dest), graph->nodes[ed(edges_list, i)->dest].num_neighbours + 2, graph->num_nodes)
  at loop 2 end: graph->nbq[ed(edges_list, i)->src][ed(edges_list, i)->dest] := graph->nodes[ed(edges_list, i)->src].num_neighbours - 1
  at loop 2 end: graph->nbq[ed(edges_list, i)->dest][ed(edges_list, i)->src] := graph->nodes[ed(edges_list, i)->dest].num_neighbours - 1
  at loop 2 end: use RSumPush(iter(col(graph->edges, weight)), col(graph->edges, weight), i)
  ensures elems: forall e {alive(DllElem, e)}: alive(DllElem, e) <==> old(alive(DllElem, e)) && @DllElem[e].own != code(nodes_list) && @DllElem[e].own != code(edges_list)
  ensures heads: forall r {alive(List, r)}: alive(List, r) <==> old(alive(List, r)) && r != code(nodes_list) && r != code(edges_list)
  ensures iters: forall r {alive(ListIterator, r)}: alive(ListIterator, r) <==> old(alive(ListIterator, r))
  ensures kind: graph->kind == kind && !graph->orderedEdges
  ensures wf: gwf(graph)
  ensures nodes: graph->num_nodes == old(nodes_list->size) && (forall u {graph->nodes[u].x} {graph->nodes[u].y}: nodeof(graph, u) ==> graph->nodes[u].x == old(nd(nodes_list, u)->x) && graph->nodes[u].y == old(nd(nodes_list, u)->y))
  ensures edges: old(edges_list->size) == graph->num_edges && forall k {graph->edges[k].weight} {graph->edges[k].src}: 0 <= k < graph->num_edges ==> graph->edges[k].src == old(ed(edges_list, k)->src) && graph->edges[k].dest == old(ed(edges_list, k)->dest) && graph->edges[k].weight == old(ed(edges_list, k)->weight) && graph->edges[k].prob == old(ed(edges_list, k)->prob) && graph->edges[k].symbol == old(ed(edges_list, k)->symbol)
  ensures cost: graph->cost == rsum(col(graph->edges, weight), graph->num_edges)

# place of the pair (i, j), i < j < n, in the order of creation
lemma PairPlace(i, j, n, z)
  requires 0 <= i < j < n && n <= N && 2 * z == i * (2 * n - i - 1) + 2 * (j - i - 1)
  step assert (n - i - 1) * (n - i) >= 2 * (j - i)
  step assert n * (n - 1) <= N * (N - 1)
  ensures 0 <= z < E
pred dist(l, u, v) = sqrt(pow(abs(nd(l, u)->x - nd(l, v)->x), 2) + pow(abs(nd(l, u)->y - nd(l, v)->y), 2))

fn create_euclidean_graph
  requires lists: lwf(nodes) && nodes->size <= N
  requires nodes: forall i {nodes->gs[i]}: 0 <= i < nodes->size ==> valid(Node, lval(nodes, i)) && nd(nodes, i)->positionInGraph == i
  local ix AAInt
  local gw AReal
  assigns graph->kind, graph->cost, graph->num_nodes, graph->num_edges, graph->orderedEdges, graph->nodes, graph->edges, graph->edges_matrix, graph->nbq
  assigns @DllElem.next, @DllElem.prev, @DllElem.value, @DllElem.own, @DllElem.pos, @List.head, @List.tail, @List.size, @List.gs, alloc(DllElem), alloc(List), alloc(ListIterator), @ListIterator.list, @ListIterator.curr, @ListIterator.index
  loop 1
    inv it: code(i_nodes_iterator) > 0 && alive(ListIterator, code(i_nodes_iterator)) && itwf(i_nodes_iterator) && i_nodes_iterator->index == i && code(i_nodes_iterator->list) == code(nodes)
    inv nodes: lwf(nodes) && nodes->size == old(nodes->size) && forall k {nodes->gs[k]}: 0 <= k < nodes->size ==> lval(nodes, k) == old(lval(nodes, k))
    inv iters: forall r {alive(ListIterator, r)}: alive(ListIterator, r) && r != code(i_nodes_iterator) <==> old(alive(ListIterator, r))
    inv mem: forall e {alive(DllElem, e)}: alive(DllElem, e) && @DllElem[e].own != code(edges_list) <==> old(alive(DllElem, e))
    inv heads: forall r {alive(List, r)}: alive(List, r) && r != code(edges_list) <==> old(alive(List, r))
    inv own: forall e {@DllElem[e].own}: old(alive(DllElem, e)) ==> (@DllElem[e].own == code(nodes) <==> old(@DllElem[e].own) == code(nodes))
    inv lists: lwf(edges_list) && edges_list->size == z && code(edges_list) != code(nodes)
    inv place: z <= E && 0 <= i <= nodes->size && 2 * z == i * (2 * nodes->size - i - 1)
    inv values: forall k {edges_list->gs[k]}: 0 <= k < z ==> lval(edges_list, k) == code(&edges[k])
    inv made: forall k {edges[k].src} {edges[k].weight}: 0 <= k < z ==> 0 <= edges[k].src < i && edges[k].src < edges[k].dest < nodes->size && edges[k].weight == dist(nodes, edges[k].src, edges[k].dest) && edges[k].prob == 0.0 && edges[k].symbol == k + 1 && ix[edges[k].src][edges[k].dest] == k
    inv all: forall u, v {ix[u][v]}: 0 <= u < v < nodes->size && u < i ==> 0 <= ix[u][v] < z && edges[ix[u][v]].src == u && edges[ix[u][v]].dest == v
    dec nodes->size - i
  loop 2
    inv it: code(i_nodes_iterator) > 0 && alive(ListIterator, code(i_nodes_iterator)) && itwf(i_nodes_iterator) && i_nodes_iterator->index == i + 1 && code(i_nodes_iterator->list) == code(nodes)
    inv nodes: lwf(nodes) && nodes->size == old(nodes->size) && forall k {nodes->gs[k]}: 0 <= k < nodes->size ==> lval(nodes, k) == old(lval(nodes, k))
    inv iters: forall r {alive(ListIterator, r)}: alive(ListIterator, r) && r != code(i_nodes_iterator) <==> old(alive(ListIterator, r))
    inv mem: forall e {alive(DllElem, e)}: alive(DllElem, e) && @DllElem[e].own != code(edges_list) <==> old(alive(DllElem, e))
    inv heads: forall r {alive(List, r)}: alive(List, r) && r != code(edges_list) <==> old(alive(List, r))
    inv own: forall e {@DllElem[e].own}: old(alive(DllElem, e)) ==> (@DllElem[e].own == code(nodes) <==> old(@DllElem[e].own) == code(nodes))
    inv lists: lwf(edges_list) && edges_list->size == z && code(edges_list) != code(nodes)
    inv cur: code(node_src) == lval(nodes, i)
    inv place: z <= E && i < j <= nodes->size && 2 * z == i * (2 * nodes->size - i - 1) + 2 * (j - i - 1)
    inv values: forall k {edges_list->gs[k]}: 0 <= k < z ==> lval(edges_list, k) == code(&edges[k])
    inv made: forall k {edges[k].src} {edges[k].weight}: 0 <= k < z ==> 0 <= edges[k].src <= i && (edges[k].src < i || edges[k].dest < j) && edges[k].src < edges[k].dest < nodes->size && edges[k].weight == dist(nodes, edges[k].src, edges[k].dest) && edges[k].prob == 0.0 && edges[k].symbol == k + 1 && ix[edges[k].src][edges[k].dest] == k
    inv all: forall u, v {ix[u][v]}: 0 <= u < v < nodes->size && (u < i || u == i && v < j) ==> 0 <= ix[u][v] < z && edges[ix[u][v]].src == u && edges[ix[u][v]].dest == v
    dec nodes->size - j
  at loop 2 body: use PairPlace(i, j, nodes->size, z)
  at before call add_elem_list_bottom 1: assert code(node_dest) == lval(nodes, j) && code(node_src) == lval(nodes, i)
  at before call add_elem_list_bottom 1: assert nd(nodes, i)->x == node_src->x && nd(nodes, i)->y == node_src->y && nd(nodes, j)->x == node_dest->x && nd(nodes, j)->y == node_dest->y
  at before call add_elem_list_bottom 1: assert edges[z].weight == dist(nodes, i, j)
  at after call add_elem_list_bottom 1: assert lval(nodes, i) == code(node_src) && lval(nodes, j) == code(node_dest)
  at after call add_elem_list_bottom 1: assert edges[z].weight == dist(nodes, i, j)
  at loop 2 end: assert edges[z - 1].src == i && edges[z - 1].dest == j
  at loop 2 end: assert edges[z - 1].weight == dist(nodes, i, j)
  at loop 2 end: ix[i][j] := z - 1
  at before call create_graph 1: assert forall k {edges_list->gs[k]}: 0 <= k < z ==> ed(edges_list, k)->src == edges[k].src && ed(edges_list, k)->dest == edges[k].dest && ed(edges_list, k)->weight == edges[k].weight
  at return: assert forall u, v {ix[u][v]} {graph->edges_matrix[u][v].positionInGraph} {graph->edges_matrix[u][v].weight}: 0 <= u < v < graph->num_nodes ==> 0 <= ix[u][v] < graph->num_edges && graph->edges[ix[u][v]].src == u && graph->edges[ix[u][v]].dest == v && graph->edges_matrix[u][v].positionInGraph == ix[u][v] && graph->edges_matrix[v][u].positionInGraph == ix[u][v]
  at before call create_graph 1: gw := col(edges, weight)
  at before call create_graph 1: assert forall u, v {ix[u][v]}: 0 <= u < v < nodes->size ==> gw[ix[u][v]] == old(dist(nodes, u, v))
  at before call create_graph 1: assert forall k {edges_list->gs[k]}: 0 <= k < z ==> ed(edges_list, k)->weight == gw[k] && ed(edges_list, k)->prob == 0.0
  at return: assert forall k {graph->edges[k].weight}: 0 <= k < graph->num_edges ==> graph->edges[k].weight == gw[k] && graph->edges[k].prob == 0.0
  at return: assert forall u, v {graph->edges_matrix[u][v].weight}: 0 <= u < v < graph->num_nodes ==> names(graph, u, v) && graph->edges_matrix[u][v].weight == graph->edges[ix[u][v]].weight && graph->edges_matrix[u][v].prob == 0.0
  at return: assert forall u, v {graph->edges_matrix[v][u].weight}: 0 <= u < v < graph->num_nodes ==> names(graph, v, u) && graph->edges_matrix[v][u].weight == graph->edges[ix[u][v]].weight && graph->edges_matrix[v][u].prob == 0.0
  at return: assert forall u, v {graph->edges_matrix[u][v].weight}: 0 <= u < v < graph->num_nodes ==> graph->edges_matrix[u][v].weight == old(dist(nodes, u, v))
  at return: assert forall u, v {graph->edges_matrix[v][u].weight}: 0 <= u < v < graph->num_nodes ==> graph->edges_matrix[v][u].weight == old(dist(nodes, u, v))
  at return: assert forall u, v {graph->edges_matrix[v][u].weight}: 0 <= u < v < graph->num_nodes ==> old(dist(nodes, u, v)) == old(dist(nodes, v, u))
  ensures elems: forall e {alive(DllElem, e)}: alive(DllElem, e) <==> old(alive(DllElem, e)) && old(@DllElem[e].own) != code(nodes)
  ensures heads: forall r {alive(List, r)}: alive(List, r) <==> old(alive(List, r)) && r != code(nodes)
  ensures iters: forall r {alive(ListIterator, r)}: alive(ListIterator, r) <==> old(alive(ListIterator, r))
  ensures kind: graph->kind == WEIGHTED_GRAPH && !graph->orderedEdges
  ensures wf: gwf(graph)
  ensures nodes: graph->num_nodes == old(nodes->size) && (forall u {graph->nodes[u].x} {graph->nodes[u].y}: nodeof(graph, u) ==> graph->nodes[u].x == old(nd(nodes, u)->x) && graph->nodes[u].y == old(nd(nodes, u)->y))
  ensures complete: forall u, v {graph->edges_matrix[u][v].weight} {graph->edges_matrix[u][v].positionInGraph}: nodeof(graph, u) && nodeof(graph, v) && u != v ==> names(graph, u, v) && graph->edges_matrix[u][v].weight == old(dist(nodes, u, v)) && graph->edges_matrix[u][v].prob == 0.0
  ensures cost: graph->cost == rsum(col(graph->edges, weight), graph->num_edges)
