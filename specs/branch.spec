# branching and the order of the queue
pred qv(e) = @SubProblemElem[e].subProblem.value
pred qin(l, e) = alive(SubProblemElem, e) && @SubProblemElem[e].own == code(l)
pred qord(l) = forall i, j {l->gs[i], l->gs[j]}: 0 <= i < j < l->size ==> qv(l->gs[i]) <= qv(l->gs[j]) + EPS()
pred bsrc() = problem->graph.edges[currentSubProblem->edge_to_branch].src
pred bdst() = problem->graph.edges[currentSubProblem->edge_to_branch].dest
pred qnew(l, e) = qin(l, e) && e >= old(nxt(SubProblemElem))
pred qonly(l) = forall e {@SubProblemElem[e].own}: qin(l, e) && e < old(nxt(SubProblemElem)) ==> old(alive(SubProblemElem, e)) && old(@SubProblemElem[e].own) == code(l)
pred qdec(e) = @SubProblemElem[e].subProblem.constraints[bsrc()][bdst()]
pred first() = HYBRID && problem->graph.edges[currentSubProblem->edge_to_branch].prob < 0.5 ? FORBIDDEN : MANDATORY
# the tour is one of the parent's and takes this side of the branch
pred agrees(g) = istour(problem->graph.num_nodes) && admits(currentSubProblem, problem->graph.num_nodes) && (g == MANDATORY <==> tin(bsrc(), bdst()))
# a child: one decision more than its parent, and what follows from it
pred childof(c, p, s, d) = swf(c) && lev(c) && c->edge_to_branch == -1 && c->value == p->value && c->type == OPEN && c->num_edges_in_cycle == 0 && c->treeLevel == p->treeLevel + 1 && c->treeLevel <= E + 1
|  && (c->constraints[s][d] == MANDATORY || c->constraints[s][d] == FORBIDDEN)
|  && (forall u, v {c->constraints[u][v]} {p->constraints[u][v]}: 0 <= u < N && 0 <= v < N && p->constraints[u][v] != NOTHING ==> c->constraints[u][v] == p->constraints[u][v])

fn branch
  flag mergearrays
  norange generatedBBNodes, totTreeLevels, num_fixed_edges
  requires list: slwf(openSubProblems)
  requires level: lev(currentSubProblem)
  requires order: qord(openSubProblems)
  requires parent: swf(currentSubProblem)
  requires size: problem->graph.num_nodes <= N
  requires edge: 0 <= currentSubProblem->edge_to_branch < problem->graph.num_edges && problem->graph.num_edges <= E
  requires ends: 0 <= bsrc() < problem->graph.num_nodes && 0 <= bdst() < problem->graph.num_nodes && bsrc() != bdst()
  requires open: currentSubProblem->constraints[bsrc()][bdst()] == NOTHING
  local w0 Int = 0
  local w1 Int = 0
  local w2 Int = 0
  local g Int = 0
  assigns problem->totTreeLevels, problem->generatedBBNodes, problem->num_fixed_edges
  assigns openSubProblems->head, openSubProblems->tail, openSubProblems->size, openSubProblems->gs, @SubProblemElem.next, @SubProblemElem.prev, @SubProblemElem.subProblem, @SubProblemElem.own, @SubProblemElem.pos, alloc(SubProblemElem)
  assigns @SubProblemsListIterator.list, @SubProblemsListIterator.curr, @SubProblemsListIterator.index, alloc(SubProblemsListIterator)
  at entry: useall PcInj
  at entry: useall PcRange
  at entry: use Pigeon(lam k: pc(currentSubProblem->bs[k], currentSubProblem->bd[k]), currentSubProblem->treeLevel - 1, E)
  loop 1
    inv list: slwf(openSubProblems)
    inv order: qord(openSubProblems)
    inv kept: skept(openSubProblems)
    inv only: qonly(openSubProblems)
    inv others: slothers(openSubProblems)
    inv alive: forall e {alive(SubProblemElem, e)}: alive(SubProblemElem, e) ==> old(alive(SubProblemElem, e)) || @SubProblemElem[e].own == code(openSubProblems)
    inv iters: forall r {alive(SubProblemsListIterator, r)}: alive(SubProblemsListIterator, r) <==> old(alive(SubProblemsListIterator, r))
    inv lists: forall l {@SubProblemsList[l].size} {@SubProblemsList[l].gs} {@SubProblemsList[l].head} {@SubProblemsList[l].tail}: l != code(openSubProblems) ==> @SubProblemsList[l].size == old(@SubProblemsList[l].size) && @SubProblemsList[l].gs == old(@SubProblemsList[l].gs) && code(@SubProblemsList[l].head) == code(old(@SubProblemsList[l].head)) && code(@SubProblemsList[l].tail) == code(old(@SubProblemsList[l].tail))
    inv children: forall e {@SubProblemElem[e].own}: qnew(openSubProblems, e) ==> childof(&@SubProblemElem[e].subProblem, currentSubProblem, bsrc(), bdst())
    inv which: forall e {@SubProblemElem[e].own}: qnew(openSubProblems, e) ==> (i >= 1 && qdec(e) == first()) || (i >= 2 && qdec(e) == MANDATORY + FORBIDDEN - first())
    inv distinct: forall e, f {@SubProblemElem[e].own, @SubProblemElem[f].own}: qnew(openSubProblems, e) && qnew(openSubProblems, f) && e != f ==> qdec(e) != qdec(f)
    inv cover1: i >= 1 && agrees(first()) ==> qnew(openSubProblems, w1) && admits(&@SubProblemElem[w1].subProblem, problem->graph.num_nodes)
    inv cover2: i >= 2 && agrees(MANDATORY + FORBIDDEN - first()) ==> qnew(openSubProblems, w2) && admits(&@SubProblemElem[w2].subProblem, problem->graph.num_nodes)
    dec 2 - i
  at loop 1 body: w0 := nxt(SubProblemElem)
  at loop 1 end: w1 := i == 0 ? w0 : w1
  at loop 1 end: w2 := i == 0 ? w2 : w0
  at after call copy_constraints 1: use Pigeon(lam k: k == child.num_mandatory_edges ? pc(to_branch.src, to_branch.dest) : pc(child.mandatoryEdges[k].src, child.mandatoryEdges[k].dest), child.num_mandatory_edges + 1, E)
  at before call infer_constraints 1: g := child.constraints[to_branch.src][to_branch.dest]
  at before call infer_constraints 1: if g == MANDATORY then child.mp[to_branch.src][to_branch.dest] := child.num_mandatory_edges - 1
  at before call infer_constraints 1: if g == MANDATORY then child.mp[to_branch.dest][to_branch.src] := child.num_mandatory_edges - 1
  at before call infer_constraints 1: if g == FORBIDDEN then child.fs[child.num_forbidden_edges - 1 - child.fb] := to_branch.src
  at before call infer_constraints 1: if g == FORBIDDEN then child.fd[child.num_forbidden_edges - 1 - child.fb] := to_branch.dest
  at before call infer_constraints 1: if g == FORBIDDEN then child.fp[to_branch.src][to_branch.dest] := child.num_forbidden_edges - 1 - child.fb
  at before call infer_constraints 1: if g == FORBIDDEN then child.fp[to_branch.dest][to_branch.src] := child.num_forbidden_edges - 1 - child.fb
  at before call infer_constraints 1: if g == FORBIDDEN then use Pigeon(lam k: pc(child.fs[k], child.fd[k]), child.num_forbidden_edges - child.fb, E)
  at before call infer_constraints 1: child.bs := store(currentSubProblem->bs, currentSubProblem->treeLevel - 1, to_branch.src)
  at before call infer_constraints 1: child.bd := store(currentSubProblem->bd, currentSubProblem->treeLevel - 1, to_branch.dest)
  at before call infer_constraints 1: assert lev(&child)
  at before call infer_constraints 1: use Pigeon(lam k: pc(child.bs[k], child.bd[k]), child.treeLevel - 1, E)
  at before call infer_constraints 1: assert g == (i == 0 ? first() : MANDATORY + FORBIDDEN - first())
  at before call infer_constraints 1: assert agrees(g) ==> admits(&child, problem->graph.num_nodes)
  at after call infer_constraints 1: nomerge
  at after call infer_constraints 1: assert agrees(g) ==> admits(&child, problem->graph.num_nodes)
  at after call infer_constraints 1: assert childof(&child, currentSubProblem, bsrc(), bdst()) && child.constraints[bsrc()][bdst()] == (i == 0 ? first() : MANDATORY + FORBIDDEN - first())
  at after call add_elem_SubProblemList_bottom 1: assert qnew(openSubProblems, w0) && (agrees(g) ==> admits(&@SubProblemElem[w0].subProblem, problem->graph.num_nodes))
  at after call add_elem_SubProblemList_bottom 1: assert forall e {@SubProblemElem[e].own}: qnew(openSubProblems, e) && e != w0 ==> childof(&@SubProblemElem[e].subProblem, currentSubProblem, bsrc(), bdst())
  at after call add_elem_SubProblemList_bottom 1: assert childof(&@SubProblemElem[w0].subProblem, currentSubProblem, bsrc(), bdst()) && qdec(w0) == (i == 0 ? first() : MANDATORY + FORBIDDEN - first())
  at after call add_elem_SubProblemList_bottom 1: assert forall e {@SubProblemElem[e].own}: qnew(openSubProblems, e) ==> childof(&@SubProblemElem[e].subProblem, currentSubProblem, bsrc(), bdst())
  at after call add_elem_SubProblemList_index 1: assert qnew(openSubProblems, w0) && (agrees(g) ==> admits(&@SubProblemElem[w0].subProblem, problem->graph.num_nodes))
  at after call add_elem_SubProblemList_index 1: assert forall e {@SubProblemElem[e].own}: qnew(openSubProblems, e) && e != w0 ==> childof(&@SubProblemElem[e].subProblem, currentSubProblem, bsrc(), bdst())
  at after call add_elem_SubProblemList_index 1: assert childof(&@SubProblemElem[w0].subProblem, currentSubProblem, bsrc(), bdst()) && qdec(w0) == (i == 0 ? first() : MANDATORY + FORBIDDEN - first())
  at after call add_elem_SubProblemList_index 1: assert forall e {@SubProblemElem[e].own}: qnew(openSubProblems, e) ==> childof(&@SubProblemElem[e].subProblem, currentSubProblem, bsrc(), bdst())
  loop 2
    inv it: alive(SubProblemsListIterator, code(subProblem_iterators)) && code(subProblem_iterators) > 0 && sitwf(subProblem_iterators) && subProblem_iterators->index == j && code(subProblem_iterators->list) == code(openSubProblems)
    inv iters: forall r {alive(SubProblemsListIterator, r)}: alive(SubProblemsListIterator, r) && r != code(subProblem_iterators) <==> old(alive(SubProblemsListIterator, r))
    inv none: position == -1 ==> forall k {openSubProblems->gs[k]}: 0 <= k < j ==> qv(openSubProblems->gs[k]) <= child.value + EPS()
    inv some: position != -1 ==> position == j - 1 && child.value <= qv(openSubProblems->gs[position]) && forall k {openSubProblems->gs[k]}: 0 <= k < position ==> qv(openSubProblems->gs[k]) <= child.value + EPS()
    dec openSubProblems->size - j
  ensures list: slwf(openSubProblems)
  ensures order: qord(openSubProblems)
  ensures kept: skept(openSubProblems)
  ensures only: qonly(openSubProblems)
  ensures others: slothers(openSubProblems)
  ensures alive: forall e {alive(SubProblemElem, e)}: alive(SubProblemElem, e) ==> old(alive(SubProblemElem, e)) || @SubProblemElem[e].own == code(openSubProblems)
  ensures iters: forall r {alive(SubProblemsListIterator, r)}: alive(SubProblemsListIterator, r) <==> old(alive(SubProblemsListIterator, r))
  ensures children: forall e {@SubProblemElem[e].own}: qnew(openSubProblems, e) ==> childof(&@SubProblemElem[e].subProblem, currentSubProblem, bsrc(), bdst())
  ensures sound: forall e {@SubProblemElem[e].own}: qnew(openSubProblems, e) && admits(&@SubProblemElem[e].subProblem, problem->graph.num_nodes) ==> admits(currentSubProblem, problem->graph.num_nodes)
  ensures distinct: forall e, f {@SubProblemElem[e].own, @SubProblemElem[f].own}: qnew(openSubProblems, e) && qnew(openSubProblems, f) && e != f ==> qdec(e) != qdec(f)
  ensures cover: istour(problem->graph.num_nodes) && admits(currentSubProblem, problem->graph.num_nodes) ==> exists e {@SubProblemElem[e].own}: qnew(openSubProblems, e) && admits(&@SubProblemElem[e].subProblem, problem->graph.num_nodes)
