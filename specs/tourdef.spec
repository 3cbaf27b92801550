# the cycle stored in a subproblem.  Ghost state: hc = its nodes in order, hw = the weights of its edges.
ghostfield SubProblem.hc AInt
ghostfield SubProblem.hw AReal
# the stored cycle is a Hamiltonian tour of the graph
pred tourof(s, g) = s->num_edges_in_cycle == g->num_nodes && s->hc[0] == s->hc[g->num_nodes]
|  && (forall k {s->hc[k]}: 0 <= k < g->num_nodes ==> nodeof(g, s->hc[k]) && names(g, s->hc[k], s->hc[k + 1]) && pairis(s->hc[k], s->hc[k + 1], s->cycleEdges[k].src, s->cycleEdges[k].dest))
|  && (forall j, k {s->hc[j], s->hc[k]}: 0 <= j < k < g->num_nodes ==> s->hc[j] != s->hc[k])
# its value is the sum of the weights of the steps
pred tourcost(s, g) = s->value == rsum(s->hw, g->num_nodes) && forall k {s->hw[k]}: 0 <= k < g->num_nodes ==> s->hw[k] == g->edges_matrix[s->hc[k]][s->hc[k + 1]].weight
# nothing found yet, or a tour and its value
pred incumbent(p) = p->bestSolution.value == p->bestValue && (p->bestValue == INFINITE ? p->bestSolution.num_edges_in_cycle == 0 : p->bestValue < INFINITE && tourof(&p->bestSolution, &p->graph) && tourcost(&p->bestSolution, &p->graph))
