# the whole search
fn check_feasibility
  requires wf: gwf(graph)
  assigns nothing
  loop 1
    inv range: 0 <= i <= graph->num_nodes && (feasible ==> graph->num_nodes >= 1 && forall u {graph->nodes[u].num_neighbours}: 0 <= u < i ==> graph->nodes[u].num_neighbours >= 2)
    inv bad: !feasible ==> graph->num_nodes == 0 || exists u {graph->nodes[u].num_neighbours}: 0 <= u < i && graph->nodes[u].num_neighbours < 2
    dec graph->num_nodes - i
  ensures yes: result ==> graph->num_nodes >= 1 && forall u {graph->nodes[u].num_neighbours}: nodeof(graph, u) ==> graph->nodes[u].num_neighbours >= 2
  ensures no: !result ==> graph->num_nodes == 0 || exists u {graph->nodes[u].num_neighbours}: nodeof(graph, u) && graph->nodes[u].num_neighbours < 2

ghostfield Problem.left Int
ghostfield Problem.ran Bool
pred qsub(e) = @SubProblemElem[e].subProblem
pred qok(e) = swf(&qsub(e)) && lev(&qsub(e)) && qsub(e).edge_to_branch == -1
pred qlb(p, e, tt) = qsub(e).treeLevel != 1 && tt == 1 && admits(&qsub(e), p->graph.num_nodes) ==> qsub(e).value <= tcost(p)
lemma RSumUB(b@AReal, K@Real, n)
  requires n >= 0 && forall i {b[i]}: 0 <= i < n ==> b[i] <= K
  measure n
  step if n > 0 then use RSumUB(b, K, n - 1)
  step if n > 0 then use RSumStep(b, n - 1)
  ensures rsum(b, n) <= real(n) * K
# the open subproblems, weighted by their depth, are used up
logic isum(AInt, Int): Int
axiom isum_zero: forall a@AInt {isum(a, 0)}: isum(a, 0) == 0
lemma ISumStep(a@AInt, n) trusted: definition of the sum of a prefix
  requires n >= 0
  ensures isum(a, n + 1) == isum(a, n) + a[n]
logic p3(Int): Int
axiom p3_zero: p3(0) == 1
lemma P3Step(k) trusted: definition of the powers of three
  requires k >= 0
  ensures p3(k + 1) == 3 * p3(k)
lemma P3Pos(k)
  requires k >= 0
  trigger p3(k)
  measure k
  step if k > 0 then use P3Pos(k - 1)
  step if k > 0 then use P3Step(k - 1)
  ensures p3(k) >= 1
lemma ISumExt(a@AInt, b@AInt, n)
  requires n >= 0 && forall i {a[i]} {b[i]}: 0 <= i < n ==> a[i] == b[i]
  measure n
  step if n > 0 then use ISumExt(a, b, n - 1)
  step if n > 0 then use ISumStep(a, n - 1)
  step if n > 0 then use ISumStep(b, n - 1)
  ensures isum(a, n) == isum(b, n)
lemma ISumSet(a@AInt, b@AInt, i, n)
  requires 0 <= i < n && forall j {a[j]} {b[j]}: 0 <= j < n && j != i ==> a[j] == b[j]
  measure n
  step use ISumStep(a, n - 1)
  step use ISumStep(b, n - 1)
  step if i < n - 1 then use ISumSet(a, b, i, n - 1)
  step if i == n - 1 then use ISumExt(a, b, n - 1)
  ensures isum(a, n) - a[i] == isum(b, n) - b[i]
lemma ISumNone(a@AInt, m, n)
  requires 0 <= m <= n && forall i {a[i]}: m <= i < n ==> a[i] == 0
  measure n - m
  step if m < n then use ISumStep(a, n - 1)
  step if m < n then use ISumNone(a, m, n - 1)
  ensures isum(a, n) == isum(a, m)
lemma ISumOne(a@AInt, m, n, c)
  requires 0 <= m <= n && c >= 0 && (forall i {a[i]}: m <= i < n ==> 0 <= a[i] <= c) && (forall i, j {a[i], a[j]}: m <= i < j < n ==> a[i] == 0 || a[j] == 0)
  measure n - m
  step if m < n then use ISumStep(a, n - 1)
  step if m < n && a[n - 1] == 0 then use ISumOne(a, m, n - 1, c)
  step if m < n && a[n - 1] != 0 then use ISumNone(a, m, n - 1)
  ensures isum(a, n) <= isum(a, m) + c
lemma ISumAdd(a@AInt, b@AInt, d@AInt, n)
  requires n >= 0 && forall i {a[i]}: 0 <= i < n ==> a[i] == b[i] + d[i]
  measure n
  step if n > 0 then use ISumAdd(a, b, d, n - 1)
  step if n > 0 then use ISumStep(a, n - 1)
  step if n > 0 then use ISumStep(b, n - 1)
  step if n > 0 then use ISumStep(d, n - 1)
  ensures isum(a, n) == isum(b, n) + isum(d, n)
lemma ISumTwo(a@AInt, b@AInt, d@AInt, m, n, c)
  requires 0 <= m <= n && c >= 0 && (forall i {a[i]} {b[i]} {d[i]}: 0 <= i < n ==> a[i] == b[i] + d[i]) && (forall i {b[i]} {d[i]}: m <= i < n ==> 0 <= b[i] <= c && 0 <= d[i] <= c)
  requires (forall i, j {b[i], b[j]}: m <= i < j < n ==> b[i] == 0 || b[j] == 0) && (forall i, j {d[i], d[j]}: m <= i < j < n ==> d[i] == 0 || d[j] == 0)
  step use ISumAdd(a, b, d, n)
  step use ISumAdd(a, b, d, m)
  step use ISumOne(b, m, n, c)
  step use ISumOne(d, m, n, c)
  ensures isum(a, n) <= isum(a, m) + 2 * c
# one weight is replaced by at most two that are a third of it each (t tells them apart)
lemma Spent(a@AInt, b@AInt, t@AInt, cur, x, y, z, c)
  requires 0 <= cur < x && x <= y && y <= z && c >= 0 && a[cur] > 2 * c && b[cur] == 0
  requires (forall i {a[i]} {b[i]}: 0 <= i < x && i != cur ==> b[i] == a[i]) && (forall i {b[i]}: x <= i < y ==> b[i] == 0) && (forall i {b[i]}: y <= i < z ==> 0 <= b[i] <= c)
  requires forall i, j {b[i], b[j]}: y <= i < j < z && b[i] != 0 && b[j] != 0 ==> t[i] != t[j]
  requires forall i {b[i]} {t[i]}: y <= i < z && b[i] != 0 ==> t[i] == 1 || t[i] == 2
  step use ISumSet(a, b, cur, x)
  step use ISumNone(b, x, y)
  step use ISumTwo(b, lam i: t[i] == 1 ? b[i] : 0, lam i: t[i] == 1 ? 0 : b[i], y, z, c)
  ensures isum(b, z) < isum(a, x)
lemma ISumPos(a@AInt, n)
  requires n >= 0 && forall i {a[i]}: 0 <= i < n ==> a[i] >= 0
  measure n
  step if n > 0 then use ISumStep(a, n - 1)
  step if n > 0 then use ISumPos(a, n - 1)
  ensures isum(a, n) >= 0
fn branch_and_bound
  norange generatedBBNodes, totTreeLevels, num_fixed_edges, exploredBBNodes
  requires wf: gwf(&current_problem->graph) && light(&current_problem->graph) && posn(&current_problem->graph)
  requires weights: forall k {current_problem->graph.edges[k].weight} {current_problem->graph.edges[k].prob}: 0 <= k < current_problem->graph.num_edges ==> current_problem->graph.edges[k].weight >= 0.0 && (HYBRID ==> current_problem->graph.edges[k].prob >= 0.0)
  requires owners: forall e {alive(SubProblemElem, e)}: alive(SubProblemElem, e) ==> @SubProblemElem[e].own < nxt(SubProblemsList)
  local wit Int
  local wa Int
  local cur Int
  local tt Int
  local am AInt
  local lv0 AInt
  local va0 AReal
  local al0 AInt
  local mw AInt
  local m0 AInt
  local tg AInt
  local nx0 Int
  local n1 Int
  local cl Int
  local isw Int
  local ad0 Int
  local n0 Int
  local b0 Real
  assigns problem, clock(), current_problem->graph.fv
  assigns current_problem->start, current_problem->end, current_problem->bestValue, current_problem->bestSolution, current_problem->candidateNodeId, current_problem->exploredBBNodes, current_problem->generatedBBNodes, current_problem->totTreeLevels, current_problem->interrupted, current_problem->reformulationGraph, current_problem->num_fixed_edges, current_problem->left, current_problem->ran, current_problem->tw
  assigns current_problem->nq, current_problem->np, current_problem->nl, current_problem->nv, current_problem->nw, current_problem->pq, current_problem->pp, current_problem->pl, current_problem->pv, current_problem->pw
  assigns current_problem->ok, current_problem->ct, current_problem->es, current_problem->ed, current_problem->ew, current_problem->fvs
  assigns @SubProblemElem.next, @SubProblemElem.prev, @SubProblemElem.subProblem, @SubProblemElem.own, @SubProblemElem.pos, alloc(SubProblemElem)
  assigns @SubProblemsListIterator.list, @SubProblemsListIterator.curr, @SubProblemsListIterator.index, alloc(SubProblemsListIterator)
  assigns @DllElem.next, @DllElem.prev, @DllElem.value, @DllElem.own, @DllElem.pos, @List.head, @List.tail, @List.size, @List.gs, alloc(DllElem), alloc(List)
  assigns @OrdTreeNode.left_sibling, @OrdTreeNode.right_sibling, @OrdTreeNode.marked, @OrdTreeNode.is_root, @OrdTreeNode.parent, @OrdTreeNode.head_child_list, @OrdTreeNode.tail_child_list, @OrdTreeNode.num_children, @OrdTreeNode.value, @OrdTreeNode.key
  assigns @SubProblemsList.head, @SubProblemsList.tail, @SubProblemsList.size, @SubProblemsList.gs
  at entry: current_problem->ran := false
  at after call check_feasibility 1: assert forall u {current_problem->graph.nodes[u].num_neighbours}: nodeof(&current_problem->graph, u) && istour(current_problem->graph.num_nodes) && tgraph(&current_problem->graph) ==> names(&current_problem->graph, u, tnx()[u]) && names(&current_problem->graph, u, tpv()[u]) && tnx()[u] != tpv()[u] && nodeof(&current_problem->graph, tnx()[u]) && nodeof(&current_problem->graph, tpv()[u])
  at after call check_feasibility 1: assert forall u {current_problem->graph.nodes[u].num_neighbours}: nodeof(&current_problem->graph, u) && istour(current_problem->graph.num_nodes) && tgraph(&current_problem->graph) ==> 0 <= current_problem->graph.nbq[u][tnx()[u]] < current_problem->graph.nodes[u].num_neighbours && 0 <= current_problem->graph.nbq[u][tpv()[u]] < current_problem->graph.nodes[u].num_neighbours && current_problem->graph.nbq[u][tnx()[u]] != current_problem->graph.nbq[u][tpv()[u]]
  at after call check_feasibility 1: assert forall u {current_problem->graph.nodes[u].num_neighbours}: nodeof(&current_problem->graph, u) && istour(current_problem->graph.num_nodes) && tgraph(&current_problem->graph) ==> current_problem->graph.nodes[u].num_neighbours >= 2
  at before call find_candidate_node 1: assert current_problem->graph.nodes[0].num_neighbours >= 2
  at after call add_elem_SubProblemList_bottom 1: problem->ran := true
  at after call add_elem_SubProblemList_bottom 1: problem->left := 1
  at after call add_elem_SubProblemList_bottom 1: problem->tw := lam k: problem->graph.edges_matrix[tq()[k]][tnx()[tq()[k]]].weight
  at after call add_elem_SubProblemList_bottom 1: wit := subProblems.gs[0]
  at loop 1 enter: use P3Pos(E)
  at loop 1 enter: mw := lam e: qin(&subProblems, e) ? p3(E + 1 - qsub(e).treeLevel) : 0
  at loop 1 enter: tt := thetour(problem) ? 1 : 0
  loop 1
    inv list: slwf(&subProblems)
    inv order: qord(&subProblems)
    inv frame: lframe()
    inv owners: forall e {alive(SubProblemElem, e)}: alive(SubProblemElem, e) ==> @SubProblemElem[e].own < nxt(SubProblemsList)
    inv held: forall e {alive(SubProblemElem, e)}: alive(SubProblemElem, e) ==> old(alive(SubProblemElem, e)) || @SubProblemElem[e].own == code(&subProblems)
    inv lists: lfreed()
    inv iters: forall r {alive(SubProblemsListIterator, r)}: alive(SubProblemsListIterator, r) <==> old(alive(SubProblemsListIterator, r))
    inv incumbent: incumbent(problem)
    inv elems: forall e {@SubProblemElem[e].own}: qin(&subProblems, e) ==> qok(e)
    inv bounds: forall e {@SubProblemElem[e].own}: qin(&subProblems, e) ==> qlb(problem, e, tt)
    inv tour: tt == 1 && problem->bestValue - tcost(problem) > EPS() ==> qin(&subProblems, wit) && admits(&qsub(wit), problem->graph.num_nodes)
    inv tt: tt == 1 <==> thetour(problem)
    inv flags: problem->ran && !problem->interrupted
    inv depth: forall e {@SubProblemElem[e].own}: qin(&subProblems, e) ==> 1 <= qsub(e).treeLevel <= E + 1
    inv weights: forall e {mw[e]}: mw[e] == (qin(&subProblems, e) ? p3(E + 1 - qsub(e).treeLevel) : 0)
    inv clock: problem->start <= clocknow()
    dec isum(mw, nxt(SubProblemElem))
  at loop 1 body: cur := subProblems.gs[0]
  at loop 1 body: m0 := mw
  at loop 1 body: nx0 := nxt(SubProblemElem)
  at loop 1 body: cl := qsub(cur).treeLevel
  at loop 1 body: use P3Pos(E + 1 - cl)
  at loop 1 body: if cl <= E then use P3Step(E - cl)
  at loop 1 body: if cl <= E then use P3Pos(E - cl)
  at loop 1 body: isw := wit == cur ? 1 : 0
  at before call bound 1: assert same(current_sub_problem, qsub(cur)) && (forall e {@SubProblemElem[e].own}: qin(&subProblems, e) ==> e != cur)
  at before call bound 1: assert qlb(problem, cur, tt) && qok(cur)
  at before call bound 1: assert qord(&subProblems)
  at before call bound 1: ad0 := admits(&current_sub_problem, problem->graph.num_nodes) ? 1 : 0
  at before call bound 1: assert isw == 1 && tt == 1 && problem->bestValue - tcost(problem) > EPS() ==> ad0 == 1
  at before call bound 1: b0 := problem->bestValue
  at before call bound 1: n0 := nxt(SubProblemElem)
  at after call bound 1: assert swf(&current_sub_problem) && lev(&current_sub_problem)
  at after call bound 1: assert ad0 == 1 <==> admits(&current_sub_problem, problem->graph.num_nodes)
  at after call bound 1: assert forall e {@SubProblemElem[e].own}: qin(&subProblems, e) ==> e < n0 && e != cur
  at after call bound 1: assert slwf(&subProblems)
  at after call bound 1: assert qord(&subProblems)
  at after call bound 1: assert lframe()
  at after call bound 1: assert forall e {@SubProblemElem[e].own}: qin(&subProblems, e) ==> qok(e)
  at after call bound 1: assert forall e {@SubProblemElem[e].own}: qin(&subProblems, e) ==> qlb(problem, e, tt)
  at after call bound 1: assert tt == 1 && problem->bestValue - tcost(problem) > EPS() && isw == 0 ==> qin(&subProblems, wit) && admits(&qsub(wit), problem->graph.num_nodes)
  at after call bound 1: assert tt == 1 && problem->bestValue - tcost(problem) > EPS() && isw == 1 ==> thetour(problem) && ad0 == 1 && current_sub_problem.type == OPEN && current_sub_problem.edge_to_branch != -1
  at after call bound 1: n1 := nxt(SubProblemElem)
  at after call bound 1: tg := lam e: 0
  at after call branch 1: tg := lam e: qsub(e).constraints[problem->graph.edges[current_sub_problem.edge_to_branch].src][problem->graph.edges[current_sub_problem.edge_to_branch].dest]
  at loop 1 end: mw := lam e: qin(&subProblems, e) ? p3(E + 1 - qsub(e).treeLevel) : 0
  at loop 1 end: assert forall e {mw[e]} {m0[e]}: 0 <= e < nx0 && e != cur ==> mw[e] == m0[e]
  at loop 1 end: assert forall e {mw[e]}: nx0 <= e < n1 ==> mw[e] == 0
  at loop 1 end: assert forall e {mw[e]}: n1 <= e < nxt(SubProblemElem) && mw[e] != 0 ==> cl <= E && mw[e] == p3(E - cl)
  at loop 1 end: useall P3Pos
  at loop 1 end: use ISumPos(m0, nx0)
  at loop 1 end: use Spent(m0, mw, tg, cur, nx0, n1, nxt(SubProblemElem), cl <= E ? p3(E - cl) : 0)
  at before call branch 1: assert lev(&current_sub_problem)
  at before call branch 1: assert admits(&current_sub_problem, problem->graph.num_nodes) ==> ad0 == 1
  at before call branch 1: assert tt == 1 && problem->bestValue - tcost(problem) > EPS() && ad0 == 1 ==> admits(&current_sub_problem, problem->graph.num_nodes)
  at before call branch 1: am := lam e: admits(&qsub(e), problem->graph.num_nodes) ? 1 : 0
  at before call branch 1: lv0 := lam e: qsub(e).treeLevel
  at before call branch 1: va0 := lam e: qsub(e).value
  at before call branch 1: al0 := lam e: qin(&subProblems, e) ? 1 : 0
  at before call branch 1: n0 := nxt(SubProblemElem)
  at after call branch 1: assert forall e {@SubProblemElem[e].own}: qin(&subProblems, e) && e < n0 ==> qok(e)
  at after call branch 1: assert forall e {al0[e]} {@SubProblemElem[e].own}: qin(&subProblems, e) && e < n0 ==> al0[e] == 1
  at after call branch 1: assert forall e {al0[e]} {@SubProblemElem[e].own}: al0[e] == 1 ==> qin(&subProblems, e) && e < n0
  at after call branch 1: assert forall e {lv0[e]} {@SubProblemElem[e].own}: al0[e] == 1 ==> lv0[e] == qsub(e).treeLevel
  at after call branch 1: assert forall e {va0[e]} {@SubProblemElem[e].own}: al0[e] == 1 ==> va0[e] == qsub(e).value
  at after call branch 1: assert forall e {am[e]} {@SubProblemElem[e].own}: qin(&subProblems, e) && e < n0 ==> (am[e] == 1 <==> admits(&qsub(e), problem->graph.num_nodes))
  at after call branch 1: assert forall e {@SubProblemElem[e].own}: qin(&subProblems, e) && e >= n0 ==> qok(e)
  at after call branch 1: assert forall e {@SubProblemElem[e].own}: qin(&subProblems, e) && e < n0 ==> qlb(problem, e, tt)
  at after call branch 1: assert forall e {@SubProblemElem[e].own}: qin(&subProblems, e) && e >= n0 ==> qlb(problem, e, tt)
  at after call branch 1: assert tt == 1 && problem->bestValue - tcost(problem) > EPS() && isw == 0 ==> qin(&subProblems, wit) && admits(&qsub(wit), problem->graph.num_nodes)
  at after call branch 1: assert tt == 1 && problem->bestValue - tcost(problem) > EPS() && isw == 1 ==> istour(problem->graph.num_nodes) && admits(&current_sub_problem, problem->graph.num_nodes)
  at after call branch 1: assert tt == 1 && problem->bestValue - tcost(problem) > EPS() && isw == 1 ==> exists e {@SubProblemElem[e].own}: qin(&subProblems, e) && admits(&qsub(e), problem->graph.num_nodes)
  at after call branch 1: if isw == 1 then pick wa {@SubProblemElem[wa].own}: qin(&subProblems, wa) && admits(&qsub(wa), problem->graph.num_nodes)
  at after call branch 1: if isw == 1 then wit := wa
  at after call branch 1: assert tt == 1 && problem->bestValue - tcost(problem) > EPS() ==> qin(&subProblems, wit) && admits(&qsub(wit), problem->graph.num_nodes)
  at loop 1 exit: assert subProblems.size == 0 ==> !(tt == 1 && problem->bestValue - tcost(problem) > EPS())
  at loop 1 exit: if tt == 1 then use RSumUB(problem->tw, FLT_MAX, problem->graph.num_nodes)
  at loop 1 exit: assert real(N) >= 1.0 && sqrt(N) <= real(N)
  at loop 1 exit: assert EPS() <= real(N)
  at loop 1 exit: problem->left := subProblems.size
  ensures target: code(problem) == code(current_problem)
  ensures size: current_problem->ran ==> current_problem->graph.num_nodes >= 3
  ensures infeasible: !current_problem->ran ==> !(current_problem->graph.num_nodes >= 1 && istour(current_problem->graph.num_nodes) && tgraph(&current_problem->graph))
  ensures incumbent: incumbent(current_problem) && (!current_problem->ran ==> current_problem->bestValue == INFINITE)
  ensures optimal: current_problem->graph.num_nodes >= 1 && !current_problem->interrupted && thetour(current_problem) ==> current_problem->bestValue - tcost(current_problem) <= EPS()
  ensures none: current_problem->graph.num_nodes >= 1 && !current_problem->interrupted && thetour(current_problem) ==> current_problem->bestValue != INFINITE
  ensures honest: current_problem->ran && current_problem->left > 0 ==> current_problem->interrupted
  ensures frame: lframe()
  ensures freed: forall e {alive(SubProblemElem, e)}: alive(SubProblemElem, e) ==> old(alive(SubProblemElem, e))
  ensures lists: lfreed()
  ensures iters: forall r {alive(SubProblemsListIterator, r)}: alive(SubProblemsListIterator, r) <==> old(alive(SubProblemsListIterator, r))
