# choosing the special node.  Ghost state of the problem: for each node i, ok[i] = it has a 1-tree, ct[i] = its cost, es/ed/ew[i] = its edges;
# fvs[i] = the weights of the arbitrary tree fpar() without i
ghostfield Problem.ok ABool
ghostfield Problem.ct AReal
ghostfield Problem.es AAInt
ghostfield Problem.ed AAInt
ghostfield Problem.ew AAReal
ghostfield Problem.fvs AAReal
# an arbitrary tree on the nodes other than c
pred tree1(g, c) = rest(g, c, froot()) && fdep(froot()) >= 0 && forall v {fpar(v)}: rest(g, c, v) && v != froot() ==> rest(g, c, fpar(v)) && names(g, v, fpar(v)) && 0 <= fdep(fpar(v)) < fdep(v)
# an arbitrary pair of edges at c
pred pair1(g, c) = spa() != spb() && nodeof(g, spa()) && nodeof(g, spb()) && names(g, c, spa()) && names(g, c, spb())
# the recorded edges of node k form a 1-tree: the last two meet k, the others span the remaining nodes
pred onetree(p, k) = (forall e {p->es[k][e]} {p->ed[k][e]} {p->ew[k][e]}: 0 <= e < p->graph.num_nodes ==> names(&p->graph, p->es[k][e], p->ed[k][e]) && p->ew[k][e] == p->graph.edges_matrix[p->es[k][e]][p->ed[k][e]].weight && (e >= p->graph.num_nodes - 2 <==> p->es[k][e] == k || p->ed[k][e] == k))
|  && !pairis(p->es[k][p->graph.num_nodes - 2], p->ed[k][p->graph.num_nodes - 2], p->es[k][p->graph.num_nodes - 1], p->ed[k][p->graph.num_nodes - 1])
|  && ((forall e {p->es[k][e]} {p->ed[k][e]}: 0 <= e < p->graph.num_nodes - 2 ==> lab(p->es[k][e]) == lab(p->ed[k][e])) ==> forall u, v {lab(u), lab(v)}: rest(&p->graph, k, u) && rest(&p->graph, k, v) ==> lab(u) == lab(v))
pred closed1(t, m) = forall e {t->edges[e].src} {t->edges[e].dest}: 0 <= e < m ==> lab(t->edges[e].src) == lab(t->edges[e].dest)

fn find_candidate_node
  local tr Int
  local s0 AInt
  local d0 AInt
  requires wf: gwf(&problem->graph) && problem->graph.num_nodes >= 3 && light(&problem->graph) && posn(&problem->graph)
  requires weights: forall k {problem->graph.edges[k].weight} {problem->graph.edges[k].prob}: 0 <= k < problem->graph.num_edges ==> problem->graph.edges[k].weight >= 0.0 && (HYBRID ==> problem->graph.edges[k].prob >= 0.0)
  assigns problem->candidateNodeId, problem->bestValue, problem->bestSolution, problem->graph.fv
  assigns problem->nq, problem->np, problem->nl, problem->nv, problem->nw, problem->pq, problem->pp, problem->pl, problem->pv, problem->pw
  assigns problem->ok, problem->ct, problem->es, problem->ed, problem->ew, problem->fvs
  assigns @OrdTreeNode.left_sibling, @OrdTreeNode.right_sibling, @OrdTreeNode.marked, @OrdTreeNode.is_root, @OrdTreeNode.parent, @OrdTreeNode.head_child_list, @OrdTreeNode.tail_child_list, @OrdTreeNode.num_children, @OrdTreeNode.value, @OrdTreeNode.key
  loop 1
    inv best: best_candidate < problem->graph.num_nodes && best_subProblem.value >= 0.0 && (best_subProblem.value == 0.0 || best_candidate < i && best_subProblem.value == problem->ct[best_candidate]) && (best_candidate == 0 || best_candidate < i)
    inv strongest: forall k {problem->ct[k]}: 0 <= k < i ==> problem->ct[k] <= best_subProblem.value + EPS() && problem->ct[k] >= 0.0
    inv none: best_subProblem.value == 0.0 ==> best_candidate == 0 || problem->ct[best_candidate] == 0.0
    inv tree: forall k {problem->ct[k]} {problem->ok[k]}: 0 <= k < i && problem->ok[k] ==> problem->ct[k] == rsum(problem->ew[k], problem->graph.num_nodes)
    inv shape: forall k {problem->ok[k]}: 0 <= k < i && problem->ok[k] ==> onetree(problem, k)
    inv least: forall k {problem->ct[k]} {problem->ok[k]}: 0 <= k < i && tree1(&problem->graph, k) && pair1(&problem->graph, k) ==> problem->ok[k] && problem->ct[k] <= rsum(problem->fvs[k], problem->graph.num_nodes) + wt(&problem->graph, k, spa()) + wt(&problem->graph, k, spb())
    inv fvs: forall k, v {problem->fvs[k][v]}: 0 <= k < i && nodeof(&problem->graph, v) ==> problem->fvs[k][v] == (v == froot() || v == k ? 0.0 : problem->graph.edges_matrix[v][fpar(v)].weight)
    inv incumbent: old(incumbent(problem)) ==> incumbent(problem)
    dec problem->graph.num_nodes - i
  at after call constrained_prim 1: problem->fvs[i] := problem->graph.fv
  at after call constrained_prim 1: tr := tree1(&problem->graph, i) ? 1 : 0
  at after call constrained_prim 1: assert tr == 1 && !currentCandidate.oneTree.isValid ==> forall v {fpar(v)} {currentCandidate.oneTree.side[v]}: rest(&problem->graph, i, v) && v != froot() ==> rest(&problem->graph, i, fpar(v)) && names(&problem->graph, v, fpar(v)) && currentCandidate.oneTree.side[v] == currentCandidate.oneTree.side[fpar(v)] && 0 <= fdep(fpar(v)) < fdep(v)
  at after call constrained_prim 1: if tr == 1 && !currentCandidate.oneTree.isValid then use AllOneSide(currentCandidate.oneTree.side, lam v: fpar(v), lam v: fdep(v), froot(), i, problem->graph.num_nodes)
  at after call constrained_prim 1: assert tr == 1 ==> currentCandidate.oneTree.isValid && crooted(&problem->graph, &currentCandidate, i)
  at after call constrained_prim 1: s0 := col(currentCandidate.oneTree.edges, src)
  at after call constrained_prim 1: d0 := col(currentCandidate.oneTree.edges, dest)
  at after call mst_to_one_tree 1: use RSumPos(col(currentCandidate.oneTree.edges, weight), currentCandidate.oneTree.num_edges)
  at after call mst_to_one_tree 1: assert forall e {s0[e]} {d0[e]}: 0 <= e < problem->graph.num_nodes - 2 && currentCandidate.oneTree.num_edges == problem->graph.num_nodes ==> currentCandidate.oneTree.edges[e].src == s0[e] && currentCandidate.oneTree.edges[e].dest == d0[e]
  at after call mst_to_one_tree 1: assert closed1(&currentCandidate.oneTree, problem->graph.num_nodes - 2) && currentCandidate.oneTree.num_edges == problem->graph.num_nodes ==> forall u, v {lab(u), lab(v)}: rest(&problem->graph, i, u) && rest(&problem->graph, i, v) ==> lab(u) == lab(v)
  at after call mst_to_one_tree 1: problem->ct[i] := currentCandidate.oneTree.cost
  at after call mst_to_one_tree 1: problem->ok[i] := currentCandidate.oneTree.num_edges == problem->graph.num_nodes
  at after call mst_to_one_tree 1: problem->ew[i] := col(currentCandidate.oneTree.edges, weight)
  at after call mst_to_one_tree 1: problem->es[i] := col(currentCandidate.oneTree.edges, src)
  at after call mst_to_one_tree 1: problem->ed[i] := col(currentCandidate.oneTree.edges, dest)
  ensures range: 0 <= result < problem->graph.num_nodes
  ensures strongest: forall k {problem->ct[k]}: 0 <= k < problem->graph.num_nodes ==> problem->ct[k] <= problem->ct[result] + EPS()
  ensures shape: forall k {problem->ok[k]}: 0 <= k < problem->graph.num_nodes && problem->ok[k] ==> onetree(problem, k) && problem->ct[k] == rsum(problem->ew[k], problem->graph.num_nodes)
  ensures least: forall k {problem->ct[k]} {problem->ok[k]}: 0 <= k < problem->graph.num_nodes && tree1(&problem->graph, k) && pair1(&problem->graph, k) ==> problem->ok[k] && problem->ct[k] <= rsum(problem->fvs[k], problem->graph.num_nodes) + wt(&problem->graph, k, spa()) + wt(&problem->graph, k, spb())
  ensures fvs: forall k, v {problem->fvs[k][v]}: 0 <= k < problem->graph.num_nodes && nodeof(&problem->graph, v) ==> problem->fvs[k][v] == (v == froot() || v == k ? 0.0 : problem->graph.edges_matrix[v][fpar(v)].weight)
  ensures incumbent: old(incumbent(problem)) ==> incumbent(problem)
