# an arbitrary tour, given by the successor and the predecessor of each node
logic tnx(): AInt
logic tpv(): AInt
# an arbitrary Hamiltonian cycle: tq()[i] is its i-th node, tr()[u] the place of u on it
logic tq(): AInt
logic tr(): AInt
pred joined(t, u, v) = t->edges_matrix[u][v] != -1
pred tin(u, v) = tnx()[u] == v || tpv()[u] == v
pred istour(n) = (forall u {tnx()[u]}: 0 <= u < n ==> 0 <= tnx()[u] < n && tnx()[u] != u && tpv()[tnx()[u]] == u)
|  && (forall u {tpv()[u]}: 0 <= u < n ==> 0 <= tpv()[u] < n && tpv()[u] != u && tnx()[tpv()[u]] == u)
|  && (forall u {tnx()[u], tpv()[u]}: 0 <= u < n ==> tnx()[u] != tpv()[u])
# the tour obeys the decisions of a subproblem
pred admits(s, n) = forall u, v {s->constraints[u][v]}: 0 <= u < n && 0 <= v < n ==> (s->constraints[u][v] == MANDATORY ==> tin(u, v)) && (s->constraints[u][v] == FORBIDDEN ==> !tin(u, v))
