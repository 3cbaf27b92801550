# bounding.  Ghost state of a generated subproblem: wu, wv = a pair of nodes that the arbitrary tour joins and the 1-tree does not, or the other way round
ghostfield SubProblem.wu Int
ghostfield SubProblem.wv Int
pred tadj(n, u, v) = tnext(tr()[u], n) == tr()[v] || tnext(tr()[v], n) == tr()[u]
pred tdiff(t, u, v) = 0 <= u < t->num_nodes && 0 <= v < t->num_nodes && !(joined(t, u, v) <==> tadj(t->num_nodes, u, v))
# what is recorded of a generated subproblem: decisions of s, a 1-tree of the graph that is not a tour
pred gtree(c) = c->oneTree.num_nodes == problem->graph.num_nodes && c->oneTree.num_edges == problem->graph.num_nodes && tstruct(&c->oneTree)
|  && forall e {c->oneTree.edges[e].src} {c->oneTree.edges[e].dest}: 0 <= e < problem->graph.num_nodes ==> names(&problem->graph, c->oneTree.edges[e].src, c->oneTree.edges[e].dest) && !forb(c, c->oneTree.edges[e].src, c->oneTree.edges[e].dest)
pred gen(c, s) = samedec(c, s) && c->edge_to_branch == -1 && c->treeLevel == s->treeLevel && (c->type == OPEN || c->type == CLOSED_BOUND && problem->bestValue - c->value <= EPS())
pred gel(l, i) = @SubProblemElem[l->gs[i]].subProblem
pred samegraph(a, b) = same(*a, *b)
pred samedec(a, b) = same(a->constraints, b->constraints) && a->num_mandatory_edges == b->num_mandatory_edges && a->num_forbidden_edges == b->num_forbidden_edges && same(a->mandatoryEdges, b->mandatoryEdges) && same(a->mp, b->mp) && same(a->fp, b->fp) && same(a->fs, b->fs) && same(a->fd, b->fd) && a->fb == b->fb && same(a->bs, b->bs) && same(a->bd, b->bd) && a->treeLevel == b->treeLevel
pred olddec(a) = same(a->constraints, old(a->constraints)) && a->num_mandatory_edges == old(a->num_mandatory_edges) && a->num_forbidden_edges == old(a->num_forbidden_edges) && same(a->mandatoryEdges, old(a->mandatoryEdges)) && same(a->mp, old(a->mp)) && same(a->fp, old(a->fp)) && same(a->fs, old(a->fs)) && same(a->fd, old(a->fd)) && a->fb == old(a->fb) && same(a->bs, old(a->bs)) && same(a->bd, old(a->bd)) && a->treeLevel == old(a->treeLevel)
pred gw(g, u, v) = g->edges_matrix[u][v].weight
# the other lists of subproblems and their elements stay as they are
pred lframe() = (forall e {alive(SubProblemElem, e)}: old(alive(SubProblemElem, e)) ==> alive(SubProblemElem, e) && @SubProblemElem[e].own == old(@SubProblemElem[e].own) && @SubProblemElem[e].pos == old(@SubProblemElem[e].pos)
|      && same(@SubProblemElem[e].subProblem, old(@SubProblemElem[e].subProblem)) && code(@SubProblemElem[e].next) == code(old(@SubProblemElem[e].next)) && code(@SubProblemElem[e].prev) == code(old(@SubProblemElem[e].prev)))
|  && (forall l {@SubProblemsList[l].size} {@SubProblemsList[l].gs} {@SubProblemsList[l].head} {@SubProblemsList[l].tail}: l < old(nxt(SubProblemsList)) ==> @SubProblemsList[l].size == old(@SubProblemsList[l].size) && @SubProblemsList[l].gs == old(@SubProblemsList[l].gs) && code(@SubProblemsList[l].head) == code(old(@SubProblemsList[l].head)) && code(@SubProblemsList[l].tail) == code(old(@SubProblemsList[l].tail)))
# the 1-tree of a subproblem, recorded for the fixing of variables: em, fa, fo, ro, x0 and x1 = the nodes joined to the special node
pred otree(s, c, n) = gtree(s) && ftree(&s->oneTree, c) && s->oneTree.nodes[c].num_neighbours == 2 && (forall u {s->oneTree.nodes[u].positionInGraph}: 0 <= u < n ==> s->oneTree.nodes[u].positionInGraph == u)
|  && (forall u, v {s->oneTree.edges_matrix[u][v]}: 0 <= u < n && 0 <= v < n && u != c && v != c ==> s->oneTree.edges_matrix[u][v] < n - 2)
# what is known of a tour of value tc that obeys the decisions con: exchanging one of its edges for one of the 1-tree does not make it cheaper than the 1-tree
# mark: only makes the quantifiers below easier to instantiate at will
logic mark(Int, Int, Int): Int
lemma MarkDef(i, a, b) trusted: definition of mark
  ensures mark(i, a, b) == 1
pred cmand(em, con, n) = forall u, v {mark(u, v, 1)}: mark(u, v, 1) == 1 && 0 <= u < n && 0 <= v < n && con[u][v] == MANDATORY ==> em[u][v] != -1
pred cexch(em, con, cost, tc, g, n, c) = forall i, a, b {mark(i, a, b)}: mark(i, a, b) == 1 && 2 <= i < n && 0 <= a < n && 0 <= b < n && a != c && b != c && em[a][b] != -1 && con[a][b] != MANDATORY && con[tq()[i]][tq()[i - 1]] != MANDATORY && tr()[a] < i && i <= tr()[b] ==> cost + gw(g, tq()[i], tq()[i - 1]) - gw(g, a, b) <= tc
pred cnew(em, cost, tc, g, n, c, x0, x1) = forall u {mark(u, 0, 2)}: mark(u, 0, 2) == 1 && (u == tq()[1] || u == tq()[n - 1]) && em[c][u] == -1 ==> cost + gw(g, c, u) - max(gw(g, c, x0), gw(g, c, x1)) <= tc
pred cold(em, con, cost, tc, g, n, c) = forall x {mark(x, 0, 3)}: mark(x, 0, 3) == 1 && 0 <= x < n && em[c][x] != -1 && con[c][x] != MANDATORY && x != tq()[1] && x != tq()[n - 1] ==> (em[c][tq()[1]] == -1 && cost + gw(g, c, tq()[1]) - gw(g, c, x) <= tc) || (em[c][tq()[n - 1]] == -1 && cost + gw(g, c, tq()[n - 1]) - gw(g, c, x) <= tc)
pred cert(em, con, cost, tc, g, n, c, x0, x1) = cmand(em, con, n) && cexch(em, con, cost, tc, g, n, c) && cnew(em, cost, tc, g, n, c, x0, x1) && cold(em, con, cost, tc, g, n, c)
fn bound
  norange exploredBBNodes
  requires wf: gwf(&problem->graph) && problem->graph.num_nodes >= 3 && light(&problem->graph) && posn(&problem->graph) && 0 <= problem->candidateNodeId < problem->graph.num_nodes
  requires decisions: swf(currentSubProb) && currentSubProb->edge_to_branch == -1
  requires incumbent: incumbent(problem)
  requires owners: forall e {alive(SubProblemElem, e)}: alive(SubProblemElem, e) ==> @SubProblemElem[e].own < nxt(SubProblemsList)
  requires value: currentSubProb->treeLevel != 1 && thetour(problem) && admits(currentSubProb, problem->graph.num_nodes) ==> currentSubProb->value <= tcost(problem)
  local n Int
  local c Int
  local to Int
  local ow AReal
  local tw2 AReal
  local hw2 AReal
  local tch ABool
  local wu Int
  local wv Int
  local b0 Real
  local pi0 AReal
  local tc Real
  local fe AInt
  local hit Int
  local ei Int
  local oty AInt
  local ou AInt
  local ov AInt
  local onn AInt
  local oem AInt
  local ej Int
  local em1 AAInt
  local ct1 Real
  local em0 AAInt
  local cs0 Real
  local fa0 AInt
  local fo0 AInt
  local ro0 Int
  local x0 Int
  local x1 Int
  assigns *currentSubProb, problem->exploredBBNodes, problem->bestValue, problem->bestSolution, problem->reformulationGraph, problem->graph.fv
  assigns @SubProblemsList.head, @SubProblemsList.tail, @SubProblemsList.size, @SubProblemsList.gs, @SubProblemElem.next, @SubProblemElem.prev, @SubProblemElem.subProblem, @SubProblemElem.own, @SubProblemElem.pos, alloc(SubProblemElem)
  assigns @SubProblemsListIterator.list, @SubProblemsListIterator.curr, @SubProblemsListIterator.index, alloc(SubProblemsListIterator)
  assigns @DllElem.next, @DllElem.prev, @DllElem.value, @DllElem.own, @DllElem.pos, @List.head, @List.tail, @List.size, @List.gs, alloc(DllElem), alloc(List)
  assigns @OrdTreeNode.left_sibling, @OrdTreeNode.right_sibling, @OrdTreeNode.marked, @OrdTreeNode.is_root, @OrdTreeNode.parent, @OrdTreeNode.head_child_list, @OrdTreeNode.tail_child_list, @OrdTreeNode.num_children, @OrdTreeNode.value, @OrdTreeNode.key
  at entry: n := problem->graph.num_nodes
  at entry: c := problem->candidateNodeId
  at entry: to := thetour(problem) && admits(currentSubProb, problem->graph.num_nodes) ? 1 : 0
  at entry: tc := tcost(problem)
  at entry: assert to == 1 ==> thetour(problem) && admits(currentSubProb, n)
  at entry: assert to == 1 ==> forall k {tnx()[tq()[k]]} {tpv()[tq()[k]]}: 0 <= k < n ==> tnx()[tq()[k]] == tq()[k + 1 == n ? 0 : k + 1] && (k > 0 ==> tpv()[tq()[k]] == tq()[k - 1])
  at loop 1 enter: use RSumZero(pi, n)
  loop 1
    inv list: slwf(&generatedSubProblems) && generatedSubProblems.size == iter - 1 && 1 <= iter <= max_iter + 1 && (first_iter <==> iter == 1)
    inv owned: forall e {@SubProblemElem[e].own}: alive(SubProblemElem, e) && !old(alive(SubProblemElem, e)) ==> @SubProblemElem[e].own == code(&generatedSubProblems)
    inv frame: lframe()
    inv freed: lfreed()
    inv graph: (first_iter ? code(used_graph) == code(&problem->graph) : code(used_graph) == code(&problem->reformulationGraph)) && (!first_iter ==> samegraph(&problem->reformulationGraph, &problem->graph))
    inv pi: total_pi == rsum(pi, n) && (first_iter ==> total_pi == 0.0) && (first_iter ==> forall u {pi[u]}: 0 <= u < N ==> pi[u] == 0.0)
    inv incumbent: incumbent(problem) && problem->bestValue == old(problem->bestValue)
    inv elems: forall i {generatedSubProblems.gs[i]}: 0 <= i < generatedSubProblems.size ==> gen(&gel(&generatedSubProblems, i), currentSubProb)
    inv trees: forall i {generatedSubProblems.gs[i]}: 0 <= i < generatedSubProblems.size ==> gtree(&gel(&generatedSubProblems, i))
    inv nottour: to == 1 ==> forall i {generatedSubProblems.gs[i]}: 0 <= i < generatedSubProblems.size && gel(&generatedSubProblems, i).type == OPEN ==> tdiff(&gel(&generatedSubProblems, i).oneTree, gel(&generatedSubProblems, i).wu, gel(&generatedSubProblems, i).wv)
    inv first: to == 1 && iter > 1 ==> gel(&generatedSubProblems, 0).value <= tc && best_lower_bound <= tc
    inv score: forall i {prob_branch[i]}: 0 <= i < E ==> 0.0 <= prob_branch[i] && prob_branch[i] * 10.0 <= (iter > max_iter - k ? real(iter - 1 - (max_iter - k)) : 0.0)
    inv base: iter > 1 ==> same(gel(&generatedSubProblems, 0).oneTree.edges_matrix, em0) && same(gel(&generatedSubProblems, 0).oneTree.fa, fa0) && same(gel(&generatedSubProblems, 0).oneTree.fo, fo0) && gel(&generatedSubProblems, 0).oneTree.ro == ro0 && gel(&generatedSubProblems, 0).oneTree.num_nodes == n
    inv base2: iter > 1 ==> gel(&generatedSubProblems, 0).value == cs0 && gel(&generatedSubProblems, 0).oneTree.nodes[c].num_neighbours == 2 && gel(&generatedSubProblems, 0).oneTree.nodes[c].neighbours[0] == x0 && gel(&generatedSubProblems, 0).oneTree.nodes[c].neighbours[1] == x1
    inv basewf: iter > 1 ==> ftree2(em0, fa0, fo0, ro0, n, c) && (forall u, v {em0[u][v]}: 0 <= u < n && 0 <= v < n && u != c && v != c ==> em0[u][v] < n - 2)
    inv basecert: iter > 1 && to == 1 ==> cert(em0, currentSubProb->constraints, cs0, tc, &problem->graph, n, c, x0, x1)
    inv base3: iter > 1 ==> forall u {gel(&generatedSubProblems, 0).oneTree.nodes[u].positionInGraph}: 0 <= u < n ==> gel(&generatedSubProblems, 0).oneTree.nodes[u].positionInGraph == u
    dec max_iter + 1 - iter
  at loop 1 body: points used_graph: first_iter ? &problem->graph : &problem->reformulationGraph
  loop 2
    inv range: 0 <= j <= problem->graph.num_edges
    inv weights: forall u {used_graph->edges[u].weight}: 0 <= u < problem->graph.num_edges ==> used_graph->edges[u].weight == problem->graph.edges[u].weight + (u < j ? pi[problem->graph.edges[u].src] + pi[problem->graph.edges[u].dest] : 0.0)
    inv matrix: forall u, v {used_graph->edges_matrix[u][v].weight}: nodeof(&problem->graph, u) && nodeof(&problem->graph, v) && names(&problem->graph, u, v) ==> used_graph->edges_matrix[u][v].weight == used_graph->edges[problem->graph.edges_matrix[u][v].positionInGraph].weight
    dec problem->graph.num_edges - j
  at before call constrained_prim 1: trust [weights of the reformulated graph stay within the range of float] light(used_graph)
  at before call constrained_prim 1: assert forall u, v {gw(used_graph, u, v)} {problem->graph.edges_matrix[u][v].positionInGraph}: nodeof(&problem->graph, u) && nodeof(&problem->graph, v) ==> (names(used_graph, u, v) <==> names(&problem->graph, u, v)) && (names(&problem->graph, u, v) ==> gw(used_graph, u, v) == gw(&problem->graph, u, v) + pi[u] + pi[v])
  at before call constrained_prim 1: assert to == 1 ==> crooted(used_graph, &analyzedSubProblem, c)
  at after call constrained_prim 1: assert to == 1 && !analyzedSubProblem.oneTree.isValid ==> forall v {fpar(v)} {analyzedSubProblem.oneTree.side[v]}: rest(used_graph, c, v) && v != froot() ==> rest(used_graph, c, fpar(v)) && analyzedSubProblem.oneTree.side[v] == analyzedSubProblem.oneTree.side[fpar(v)] && 0 <= fdep(fpar(v)) < fdep(v)
  at after call constrained_prim 1: if to == 1 && !analyzedSubProblem.oneTree.isValid then use AllOneSide(analyzedSubProblem.oneTree.side, lam v: fpar(v), lam v: fdep(v), froot(), c, n)
  at after call constrained_prim 1: assert to == 1 ==> analyzedSubProblem.oneTree.isValid
  at after call constrained_prim 1: assert to == 1 ==> sppair(used_graph, &analyzedSubProblem, c)
  at after call constrained_prim 1: em1 := analyzedSubProblem.oneTree.edges_matrix
  at after call constrained_prim 1: ct1 := analyzedSubProblem.oneTree.cost
  at after call constrained_prim 1: assert to == 1 ==> fpath(n, c) && tq()[0] == c && tr()[c] == 0
  at after call constrained_prim 1: assert to == 1 ==> forall u, v {currentSubProb->constraints[u][v]}: rest(used_graph, c, u) && rest(used_graph, c, v) && currentSubProb->constraints[u][v] == MANDATORY ==> em1[u][v] != -1
  at after call constrained_prim 1: assert to == 1 ==> forall u, v {currentSubProb->constraints[u][v]}: 0 <= u < n && 0 <= v < n && currentSubProb->constraints[u][v] == MANDATORY ==> mnd(&analyzedSubProblem, u, v) && (tnx()[u] == v || tpv()[u] == v) && names(used_graph, u, v)
  at after call constrained_prim 1: assert to == 1 ==> ct1 <= rsum(used_graph->fv, n) && forall i, a, b {mark(i, a, b)}: mark(i, a, b) == 1 && 2 <= i < n && rest(used_graph, c, a) && rest(used_graph, c, b) && em1[a][b] != -1 && currentSubProb->constraints[a][b] != MANDATORY && currentSubProb->constraints[tq()[i]][tq()[i - 1]] != MANDATORY && tr()[a] < i && i <= tr()[b] ==> ct1 <= rsum(used_graph->fv, n) - gw(used_graph, tq()[i], tq()[i - 1]) + gw(used_graph, a, b)
  at after call mst_to_one_tree 1: tw2 := lam k: gw(used_graph, tq()[k], tnx()[tq()[k]])
  at after call mst_to_one_tree 1: assert to == 1 ==> forall k {tq()[k]}: 2 <= k < n ==> tnx()[tq()[k - 1]] == tq()[k] && fpar(tq()[k]) == tq()[k - 1] && names(used_graph, tq()[k - 1], tq()[k]) && gw(used_graph, tq()[k - 1], tq()[k]) == gw(used_graph, tq()[k], tq()[k - 1])
  at after call mst_to_one_tree 1: if to == 1 then use TreeTourR(used_graph->fv, tw2, tq(), tr(), n)
  at after call mst_to_one_tree 1: if to == 1 then use TourPiR(problem->tw, tw2, pi, tq(), tr(), n)
  at after call mst_to_one_tree 1: assert to == 1 ==> analyzedSubProblem.oneTree.cost <= tc + 2.0 * total_pi
  at after call mst_to_one_tree 1: if iter == 1 then em0 := analyzedSubProblem.oneTree.edges_matrix
  at after call mst_to_one_tree 1: if iter == 1 then fa0 := analyzedSubProblem.oneTree.fa
  at after call mst_to_one_tree 1: if iter == 1 then fo0 := analyzedSubProblem.oneTree.fo
  at after call mst_to_one_tree 1: if iter == 1 then ro0 := analyzedSubProblem.oneTree.ro
  at after call mst_to_one_tree 1: if iter == 1 then cs0 := analyzedSubProblem.oneTree.cost
  at after call mst_to_one_tree 1: if iter == 1 then x0 := analyzedSubProblem.oneTree.nodes[c].neighbours[0]
  at after call mst_to_one_tree 1: if iter == 1 then x1 := analyzedSubProblem.oneTree.nodes[c].neighbours[1]
  at after call mst_to_one_tree 1: assert iter == 1 ==> ftree2(em0, fa0, fo0, ro0, n, c) && (forall u, v {em0[u][v]}: 0 <= u < n && 0 <= v < n && u != c && v != c ==> em0[u][v] < n - 2)
  at after call mst_to_one_tree 1: assert iter == 1 && to == 1 ==> rsum(problem->graph.fv, n) + gw(&problem->graph, c, tq()[1]) + gw(&problem->graph, c, tq()[n - 1]) == tc
  at after call mst_to_one_tree 1: assert iter == 1 && to == 1 ==> cs0 <= ct1 + gw(&problem->graph, c, tq()[1]) + gw(&problem->graph, c, tq()[n - 1]) && cs0 == ct1 + gw(&problem->graph, c, x0) + gw(&problem->graph, c, x1) && ct1 <= rsum(problem->graph.fv, n)
  at after call mst_to_one_tree 1: assert iter == 1 && to == 1 ==> forall u {em0[c][u]}: 0 <= u < n && em0[c][u] != -1 ==> u == x0 || u == x1
  at after call mst_to_one_tree 1: assert iter == 1 && to == 1 ==> x0 != x1 && 0 <= x0 < n && 0 <= x1 < n && em0[c][x0] != -1 && em0[c][x1] != -1 && tq()[1] != tq()[n - 1] && forall u {currentSubProb->constraints[c][u]}: 0 <= u < n && currentSubProb->constraints[c][u] == MANDATORY ==> (u == tq()[1] || u == tq()[n - 1]) && em0[c][u] != -1
  at after call mst_to_one_tree 1: assert iter == 1 && to == 1 ==> forall x, u {em0[c][x], em0[c][u]}: 0 <= x < n && em0[c][x] != -1 && currentSubProb->constraints[c][x] != MANDATORY && (u == tq()[1] || u == tq()[n - 1]) && em0[c][u] == -1 ==> gw(&problem->graph, c, x) <= gw(&problem->graph, c, u)
  at after call mst_to_one_tree 1: assert iter == 1 && to == 1 ==> forall u {currentSubProb->constraints[u][c]}: 0 <= u < n && currentSubProb->constraints[u][c] == MANDATORY ==> em0[u][c] != -1
  at after call mst_to_one_tree 1: assert iter == 1 && to == 1 ==> forall i {tq()[i]}: 2 <= i < n ==> names(&problem->graph, tq()[i], tq()[i - 1])
  at after call mst_to_one_tree 1: assert iter == 1 && to == 1 ==> cmand(em0, currentSubProb->constraints, n)
  at after call mst_to_one_tree 1: assert iter == 1 && to == 1 ==> cexch(em0, currentSubProb->constraints, cs0, tc, &problem->graph, n, c)
  at after call mst_to_one_tree 1: assert iter == 1 && to == 1 && em0[c][tq()[1]] == -1 ==> gw(&problem->graph, c, tq()[n - 1]) >= min(gw(&problem->graph, c, x0), gw(&problem->graph, c, x1))
  at after call mst_to_one_tree 1: assert iter == 1 && to == 1 && em0[c][tq()[n - 1]] == -1 ==> gw(&problem->graph, c, tq()[1]) >= min(gw(&problem->graph, c, x0), gw(&problem->graph, c, x1))
  at after call mst_to_one_tree 1: assert iter == 1 && to == 1 ==> cnew(em0, cs0, tc, &problem->graph, n, c, x0, x1)
  at after call mst_to_one_tree 1: assert iter == 1 && to == 1 && currentSubProb->constraints[c][x0] != MANDATORY && x0 != tq()[1] && x0 != tq()[n - 1] && em0[c][tq()[1]] != -1 ==> x1 == tq()[1] && em0[c][tq()[n - 1]] == -1 && cs0 + gw(&problem->graph, c, tq()[n - 1]) - gw(&problem->graph, c, x0) <= tc
  at after call mst_to_one_tree 1: assert iter == 1 && to == 1 && currentSubProb->constraints[c][x0] != MANDATORY && x0 != tq()[1] && x0 != tq()[n - 1] && em0[c][tq()[n - 1]] != -1 ==> x1 == tq()[n - 1] && em0[c][tq()[1]] == -1 && cs0 + gw(&problem->graph, c, tq()[1]) - gw(&problem->graph, c, x0) <= tc
  at after call mst_to_one_tree 1: assert iter == 1 && to == 1 && currentSubProb->constraints[c][x0] != MANDATORY && x0 != tq()[1] && x0 != tq()[n - 1] && em0[c][tq()[1]] == -1 && em0[c][tq()[n - 1]] == -1 ==> gw(&problem->graph, c, x1) <= gw(&problem->graph, c, tq()[n - 1]) && cs0 + gw(&problem->graph, c, tq()[1]) - gw(&problem->graph, c, x0) <= tc
  at after call mst_to_one_tree 1: assert iter == 1 && to == 1 && currentSubProb->constraints[c][x1] != MANDATORY && x1 != tq()[1] && x1 != tq()[n - 1] && em0[c][tq()[1]] != -1 ==> x0 == tq()[1] && em0[c][tq()[n - 1]] == -1 && cs0 + gw(&problem->graph, c, tq()[n - 1]) - gw(&problem->graph, c, x1) <= tc
  at after call mst_to_one_tree 1: assert iter == 1 && to == 1 && currentSubProb->constraints[c][x1] != MANDATORY && x1 != tq()[1] && x1 != tq()[n - 1] && em0[c][tq()[n - 1]] != -1 ==> x0 == tq()[n - 1] && em0[c][tq()[1]] == -1 && cs0 + gw(&problem->graph, c, tq()[1]) - gw(&problem->graph, c, x1) <= tc
  at after call mst_to_one_tree 1: assert iter == 1 && to == 1 && currentSubProb->constraints[c][x1] != MANDATORY && x1 != tq()[1] && x1 != tq()[n - 1] && em0[c][tq()[1]] == -1 && em0[c][tq()[n - 1]] == -1 ==> gw(&problem->graph, c, x0) <= gw(&problem->graph, c, tq()[n - 1]) && cs0 + gw(&problem->graph, c, tq()[1]) - gw(&problem->graph, c, x1) <= tc
  at after call mst_to_one_tree 1: assert iter == 1 && to == 1 ==> cold(em0, currentSubProb->constraints, cs0, tc, &problem->graph, n, c)
  at loop 3 enter: ow := lam e: gw(&problem->graph, analyzedSubProblem.oneTree.edges[e].src, analyzedSubProblem.oneTree.edges[e].dest)
  at loop 3 enter: tch := lam i: false
  loop 3
    inv value: 0 <= e <= problem->graph.num_nodes && analyzedSubProblem.value == rsum(ow, e)
    inv score: forall i {prob_branch[i]}: 0 <= i < E ==> 0.0 <= prob_branch[i] && prob_branch[i] * 10.0 <= (iter > max_iter - k ? real(iter - 1 - (max_iter - k)) : 0.0) + (tch[i] ? 1.0 : 0.0)
    inv touched: forall i {tch[i]}: 0 <= i < E && tch[i] ==> iter > max_iter - k && 0 <= i < problem->graph.num_edges && 0 <= analyzedSubProblem.oneTree.edges_matrix[problem->graph.edges[i].src][problem->graph.edges[i].dest] < e
    dec problem->graph.num_nodes - e
  at loop 3 body: use RSumStep(ow, e)
  at loop 3 end: if iter > max_iter - k then tch[problem->graph.edges_matrix[analyzedSubProblem.oneTree.edges[e].src][analyzedSubProblem.oneTree.edges[e].dest].positionInGraph] := true
  at loop 3 exit: if first_iter then use RSumExt(ow, col(analyzedSubProblem.oneTree.edges, weight), n)
  at loop 3 exit: assert first_iter ==> analyzedSubProblem.value == analyzedSubProblem.oneTree.cost
  at loop 3 exit: assert to == 1 && first_iter ==> analyzedSubProblem.value <= tc
  at loop 3 exit: pick wu, wv {joined(&analyzedSubProblem.oneTree, wu, wv)}: tdiff(&analyzedSubProblem.oneTree, wu, wv)
  at loop 3 exit: analyzedSubProblem.wu := wu
  at loop 3 exit: analyzedSubProblem.wv := wv
  at loop 3 exit: assert to == 1 && !tdiff(&analyzedSubProblem.oneTree, wu, wv) ==> hcyc(&analyzedSubProblem.oneTree, tq(), tr(), c)
  at after call check_hamiltonian 1: analyzedSubProblem.hw := lam k: gw(&problem->graph, analyzedSubProblem.hc[k], analyzedSubProblem.hc[k + 1])
  at after call check_hamiltonian 1: hw2 := lam k: gw(used_graph, analyzedSubProblem.hc[k], analyzedSubProblem.hc[k + 1])
  at after call check_hamiltonian 1: if analyzedSubProblem.num_edges_in_cycle == n then use CycleSum(analyzedSubProblem.hc, col(analyzedSubProblem.oneTree.edges, src), col(analyzedSubProblem.oneTree.edges, dest), ow, analyzedSubProblem.hw, lam k: analyzedSubProblem.oneTree.edges_matrix[analyzedSubProblem.hc[k]][analyzedSubProblem.hc[k + 1]], n)
  at after call check_hamiltonian 1: if analyzedSubProblem.num_edges_in_cycle == n then use CycleSum(analyzedSubProblem.hc, col(analyzedSubProblem.oneTree.edges, src), col(analyzedSubProblem.oneTree.edges, dest), col(analyzedSubProblem.oneTree.edges, weight), hw2, lam k: analyzedSubProblem.oneTree.edges_matrix[analyzedSubProblem.hc[k]][analyzedSubProblem.hc[k + 1]], n)
  at after call check_hamiltonian 1: if analyzedSubProblem.num_edges_in_cycle == n then use TourPi(analyzedSubProblem.hw, hw2, pi, analyzedSubProblem.hc, n)
  at before call delete_SubProblemList 1: assert to == 1 && first_iter ==> analyzedSubProblem.value <= tc
  at before call delete_SubProblemList 1: assert to == 1 && !first_iter ==> analyzedSubProblem.type == CLOSED_SUBGRADIENT && problem->bestValue <= tc
  at before call delete_SubProblemList 1: assert to == 1 ==> problem->bestValue - tc <= EPS()
  at before call add_elem_SubProblemList_bottom 1: assert to == 1 ==> best_lower_bound <= tc
  at before call add_elem_SubProblemList_bottom 1: assert to == 1 && iter == 1 ==> analyzedSubProblem.value <= tc
  at before call add_elem_SubProblemList_bottom 1: assert to == 1 && analyzedSubProblem.type == OPEN ==> tdiff(&analyzedSubProblem.oneTree, analyzedSubProblem.wu, analyzedSubProblem.wv)
  at before call add_elem_SubProblemList_bottom 1: oty := lam i: gel(&generatedSubProblems, i).type
  at before call add_elem_SubProblemList_bottom 1: ou := lam i: gel(&generatedSubProblems, i).wu
  at before call add_elem_SubProblemList_bottom 1: ov := lam i: gel(&generatedSubProblems, i).wv
  at before call add_elem_SubProblemList_bottom 1: onn := lam i: gel(&generatedSubProblems, i).oneTree.num_nodes
  at before call add_elem_SubProblemList_bottom 1: oem := lam i: gel(&generatedSubProblems, i).oneTree.edges_matrix[gel(&generatedSubProblems, i).wu][gel(&generatedSubProblems, i).wv]
  at before call add_elem_SubProblemList_bottom 1: assert to == 1 ==> forall i {oty[i]}: 0 <= i < generatedSubProblems.size && oty[i] == OPEN ==> 0 <= ou[i] < onn[i] && 0 <= ov[i] < onn[i] && !(oem[i] != -1 <==> tadj(onn[i], ou[i], ov[i]))
  at after call add_elem_SubProblemList_bottom 1: assert forall i {generatedSubProblems.gs[i]}: 0 <= i < generatedSubProblems.size - 1 ==> gel(&generatedSubProblems, i).type == oty[i] && gel(&generatedSubProblems, i).wu == ou[i] && gel(&generatedSubProblems, i).wv == ov[i] && gel(&generatedSubProblems, i).oneTree.num_nodes == onn[i] && gel(&generatedSubProblems, i).oneTree.edges_matrix[ou[i]][ov[i]] == oem[i]
  at after call add_elem_SubProblemList_bottom 1: assert to == 1 ==> forall i {generatedSubProblems.gs[i]}: 0 <= i < generatedSubProblems.size - 1 && gel(&generatedSubProblems, i).type == OPEN ==> tdiff(&gel(&generatedSubProblems, i).oneTree, gel(&generatedSubProblems, i).wu, gel(&generatedSubProblems, i).wv)
  at after call add_elem_SubProblemList_bottom 1: assert to == 1 && gel(&generatedSubProblems, generatedSubProblems.size - 1).type == OPEN ==> tdiff(&gel(&generatedSubProblems, generatedSubProblems.size - 1).oneTree, gel(&generatedSubProblems, generatedSubProblems.size - 1).wu, gel(&generatedSubProblems, generatedSubProblems.size - 1).wv)
  at before call delete_SubProblemList 2: assert to != 1
  at before call delete_SubProblemList 3: assert to != 1
  loop 4
    dec problem->graph.num_nodes - i
  loop 5
    inv sum: total_pi == rsum(pi, j) && j <= problem->graph.num_nodes
    dec problem->graph.num_nodes - j
  at loop 5 enter: use RSumZero(pi, 0)
  at loop 5 body: pi0 := lam u: pi[u]
  at loop 5 end: use RSumExt(pi0, pi, j)
  at loop 5 end: use RSumStep(pi, j)
  loop 6
    inv iter: code(subProblem_iterators) > 0 && alive(SubProblemsListIterator, code(subProblem_iterators)) && sitwf(subProblem_iterators) && code(subProblem_iterators->list) == code(&generatedSubProblems) && subProblem_iterators->index == j && j <= generatedSubProblems.size
    inv iters: forall r {alive(SubProblemsListIterator, r)}: alive(SubProblemsListIterator, r) && r != code(subProblem_iterators) <==> old(alive(SubProblemsListIterator, r))
    inv best: gen(&best_subproblem, currentSubProb) && gtree(&best_subproblem) && (to == 1 ==> best_subproblem.value <= tc)
    inv nottour: to == 1 && best_subproblem.type == OPEN ==> tdiff(&best_subproblem.oneTree, best_subproblem.wu, best_subproblem.wv)
    dec generatedSubProblems.size - j
  loop 7
    inv range: 0 <= i <= problem->graph.num_edges
    inv edge: currentSubProb->edge_to_branch == -1 || 0 <= currentSubProb->edge_to_branch < problem->graph.num_edges && currentSubProb->constraints[problem->graph.edges[currentSubProb->edge_to_branch].src][problem->graph.edges[currentSubProb->edge_to_branch].dest] == NOTHING
    inv none: currentSubProb->edge_to_branch == -1 ==> best_prob_branch == -1.0 && forall e {problem->graph.edges[e].src}: 0 <= e < i && joined(&best_subproblem.oneTree, problem->graph.edges[e].src, problem->graph.edges[e].dest) ==> currentSubProb->constraints[problem->graph.edges[e].src][problem->graph.edges[e].dest] != NOTHING
    dec problem->graph.num_edges - i
  at loop 7 exit: assert currentSubProb->edge_to_branch == -1 ==> forall e {best_subproblem.oneTree.edges[e].src}: 0 <= e < n ==> currentSubProb->constraints[best_subproblem.oneTree.edges[e].src][best_subproblem.oneTree.edges[e].dest] == MANDATORY
  at loop 7 exit: assert to == 1 && currentSubProb->edge_to_branch == -1 ==> forall e {best_subproblem.oneTree.edges[e].src}: 0 <= e < n ==> tin(best_subproblem.oneTree.edges[e].src, best_subproblem.oneTree.edges[e].dest)
  at loop 7 exit: fe := lam e: tnx()[best_subproblem.oneTree.edges[e].src] == best_subproblem.oneTree.edges[e].dest ? tr()[best_subproblem.oneTree.edges[e].src] : tr()[best_subproblem.oneTree.edges[e].dest]
  at loop 7 exit: hit := tnext(tr()[best_subproblem.wu], n) == tr()[best_subproblem.wv] ? tr()[best_subproblem.wu] : tr()[best_subproblem.wv]
  at loop 7 exit: assert to == 1 && currentSubProb->edge_to_branch == -1 ==> forall e {fe[e]}: 0 <= e < n ==> 0 <= fe[e] < n && pairis(tq()[fe[e]], tq()[tnext(fe[e], n)], best_subproblem.oneTree.edges[e].src, best_subproblem.oneTree.edges[e].dest)
  at loop 7 exit: assert to == 1 && currentSubProb->edge_to_branch == -1 ==> forall e {fe[e]}: 0 <= e < n ==> best_subproblem.oneTree.edges_matrix[tq()[fe[e]]][tq()[tnext(fe[e], n)]] == e
  at loop 7 exit: assert to == 1 && currentSubProb->edge_to_branch == -1 ==> forall i, j {fe[i], fe[j]}: 0 <= i < j < n ==> fe[i] != fe[j]
  at loop 7 exit: if to == 1 && currentSubProb->edge_to_branch == -1 then use Surj(fe, n, hit)
  at loop 7 exit: ei := best_subproblem.oneTree.edges_matrix[best_subproblem.wu][best_subproblem.wv]
  at loop 7 exit: assert to == 1 && currentSubProb->edge_to_branch == -1 && 0 <= best_subproblem.wu < n && 0 <= best_subproblem.wv < n && joined(&best_subproblem.oneTree, best_subproblem.wu, best_subproblem.wv) ==> 0 <= ei < n && pairis(best_subproblem.wu, best_subproblem.wv, best_subproblem.oneTree.edges[ei].src, best_subproblem.oneTree.edges[ei].dest) && pairis(best_subproblem.wu, best_subproblem.wv, tq()[fe[ei]], tq()[tnext(fe[ei], n)])
  at loop 7 exit: assert to == 1 && currentSubProb->edge_to_branch == -1 && 0 <= best_subproblem.wu < n && 0 <= best_subproblem.wv < n && joined(&best_subproblem.oneTree, best_subproblem.wu, best_subproblem.wv) ==> tadj(n, best_subproblem.wu, best_subproblem.wv)
  at loop 7 exit: assert to == 1 && 0 <= best_subproblem.wu < n && 0 <= best_subproblem.wv < n && tadj(n, best_subproblem.wu, best_subproblem.wv) ==> pairis(best_subproblem.wu, best_subproblem.wv, tq()[hit], tq()[tnext(hit, n)])
  at loop 7 exit: pick ei, ej {fe[ei], fe[ej]}: 0 <= ei < n && fe[ei] == hit && ej == ei
  at loop 7 exit: assert to == 1 && currentSubProb->edge_to_branch == -1 && 0 <= best_subproblem.wu < n && 0 <= best_subproblem.wv < n ==> 0 <= ei < n && fe[ei] == hit
  at loop 7 exit: assert to == 1 && currentSubProb->edge_to_branch == -1 && 0 <= best_subproblem.wu < n && 0 <= best_subproblem.wv < n && tadj(n, best_subproblem.wu, best_subproblem.wv) ==> pairis(best_subproblem.wu, best_subproblem.wv, best_subproblem.oneTree.edges[ei].src, best_subproblem.oneTree.edges[ei].dest) && joined(&best_subproblem.oneTree, best_subproblem.wu, best_subproblem.wv)
  at loop 7 exit: assert to == 1 ==> currentSubProb->edge_to_branch != -1
  ensures incumbent: incumbent(problem) && problem->bestValue <= old(problem->bestValue)
  ensures decisions: swf(currentSubProb) && olddec(currentSubProb)
  ensures frame: lframe()
  ensures freed: forall e {alive(SubProblemElem, e)}: alive(SubProblemElem, e) ==> old(alive(SubProblemElem, e))
  ensures lists: lfreed()
  ensures iters: forall r {alive(SubProblemsListIterator, r)}: alive(SubProblemsListIterator, r) <==> old(alive(SubProblemsListIterator, r))
  ensures edge: currentSubProb->edge_to_branch == -1 || 0 <= currentSubProb->edge_to_branch < problem->graph.num_edges && currentSubProb->constraints[problem->graph.edges[currentSubProb->edge_to_branch].src][problem->graph.edges[currentSubProb->edge_to_branch].dest] == NOTHING
  ensures open: thetour(problem) && old(admits(currentSubProb, problem->graph.num_nodes)) && currentSubProb->type == OPEN ==> currentSubProb->value <= tcost(problem)
  ensures closed: thetour(problem) && old(admits(currentSubProb, problem->graph.num_nodes)) && currentSubProb->type != OPEN ==> problem->bestValue - tcost(problem) <= EPS()
  ensures left: thetour(problem) && old(admits(currentSubProb, problem->graph.num_nodes)) && currentSubProb->type == OPEN ==> currentSubProb->edge_to_branch != -1
  ensures ends: currentSubProb->edge_to_branch != -1 ==> 0 <= problem->graph.edges[currentSubProb->edge_to_branch].src < problem->graph.num_nodes && 0 <= problem->graph.edges[currentSubProb->edge_to_branch].dest < problem->graph.num_nodes && problem->graph.edges[currentSubProb->edge_to_branch].src != problem->graph.edges[currentSubProb->edge_to_branch].dest
  ensures tree: currentSubProb->type == OPEN ==> otree(currentSubProb, problem->candidateNodeId, problem->graph.num_nodes)
  ensures cert: thetour(problem) && old(admits(currentSubProb, problem->graph.num_nodes)) && currentSubProb->type == OPEN ==> cert(currentSubProb->oneTree.edges_matrix, currentSubProb->constraints, currentSubProb->oneTree.cost, tcost(problem), &problem->graph, problem->graph.num_nodes, problem->candidateNodeId, currentSubProb->oneTree.nodes[problem->candidateNodeId].neighbours[0], currentSubProb->oneTree.nodes[problem->candidateNodeId].neighbours[1])
