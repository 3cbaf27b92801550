# graphs.  Ghost state: nbq[u][v] = where v stands in the neighbour list of u.
ghostfield Graph.nbq AAInt

# stored positions designate the right entries
pred gidx(g) = 0 <= g->num_edges <= E && 0 <= g->num_nodes <= N
|  && (forall k {g->edges[k].src} {g->edges[k].dest}: 0 <= k < g->num_edges ==> 0 <= g->edges[k].src < g->num_nodes && 0 <= g->edges[k].dest < g->num_nodes && g->edges[k].src != g->edges[k].dest && g->edges[k].positionInGraph == k
|        && g->edges_matrix[g->edges[k].src][g->edges[k].dest].positionInGraph == k && g->edges_matrix[g->edges[k].dest][g->edges[k].src].positionInGraph == k)
# u and v are adjacent: the matrix points to an edge between them
pred names(g, u, v) = 0 <= g->edges_matrix[u][v].positionInGraph < g->num_edges && (g->edges[g->edges_matrix[u][v].positionInGraph].src == u && g->edges[g->edges_matrix[u][v].positionInGraph].dest == v || g->edges[g->edges_matrix[u][v].positionInGraph].src == v && g->edges[g->edges_matrix[u][v].positionInGraph].dest == u)
pred nodeof(g, u) = 0 <= u < g->num_nodes
pred gwf(g) = gidx(g)
|  && (forall u {g->nodes[u].num_neighbours} {g->nodes[u].positionInGraph}: nodeof(g, u) ==> 0 <= g->nodes[u].num_neighbours < g->num_nodes && g->nodes[u].positionInGraph == u)
|  && (forall u, k {g->nodes[u].neighbours[k]}: nodeof(g, u) && 0 <= k < g->nodes[u].num_neighbours ==>
|        nodeof(g, g->nodes[u].neighbours[k]) && g->nodes[u].neighbours[k] != u && names(g, u, g->nodes[u].neighbours[k]) && g->nbq[u][g->nodes[u].neighbours[k]] == k)
|  && (forall u, v {g->edges_matrix[u][v].positionInGraph} {g->edges_matrix[u][v].weight}: nodeof(g, u) && nodeof(g, v) && names(g, u, v) ==>
|        0 <= g->nbq[u][v] < g->nodes[u].num_neighbours && g->nodes[u].neighbours[g->nbq[u][v]] == v
|        && g->edges_matrix[u][v].weight == g->edges[g->edges_matrix[u][v].positionInGraph].weight && g->edges_matrix[u][v].prob == g->edges[g->edges_matrix[u][v].positionInGraph].prob
|        && g->edges_matrix[u][v].symbol == g->edges[g->edges_matrix[u][v].positionInGraph].symbol
|        && (g->edges_matrix[u][v].src == u && g->edges_matrix[u][v].dest == v || g->edges_matrix[u][v].src == v && g->edges_matrix[u][v].dest == u))
