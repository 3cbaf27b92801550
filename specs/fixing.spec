# variable fixing.  under(fa, x, u) = 1 if u lies in the subtree of x of the tree given by the fathers fa
logic under(AInt, Int, Int): Int
lemma UnderDef(fa@AInt, x, u) trusted: definition of under
  ensures under(fa, x, u) == (u == x ? 1 : fa[u] < 0 ? 0 : under(fa, x, fa[u]))
pred fathers(fa, fo, ro, n, c) = 0 <= ro < n && ro != c && fa[ro] == -1 && (forall u {fo[u]}: 0 <= u < n ==> fo[u] >= 0)
|  && (forall u {fa[u]}: 0 <= u < n && u != c && u != ro ==> 0 <= fa[u] < n && fa[u] != c && fo[fa[u]] < fo[u])
# what does not lie below x is not in its subtree
lemma UnderLow(fa@AInt, fo@AInt, ro, n, c, x, u)
  requires fathers(fa, fo, ro, n, c) && 0 <= u < n && u != c && 0 <= x < n && fo[u] < fo[x]
  measure fo[u]
  step use UnderDef(fa, x, u)
  step if u != ro then use UnderLow(fa, fo, ro, n, c, x, fa[u])
  ensures under(fa, x, u) == 0
# only the edge above x leaves the subtree of x
lemma CrossUnder(fa@AInt, fo@AInt, ro, n, c, a, b)
  requires fathers(fa, fo, ro, n, c) && 0 <= a < n && 0 <= b < n && a != c && b != c && (fa[a] == b || fa[b] == a)
  step if exists x0: 0 <= x0 < n && under(fa, x0, a) != under(fa, x0, b) && !(x0 == a && fa[a] == b || x0 == b && fa[b] == a) then obtain x: 0 <= x < n && under(fa, x, a) != under(fa, x, b) && !(x == a && fa[a] == b || x == b && fa[b] == a)
  step use UnderDef(fa, x, a)
  step use UnderDef(fa, x, b)
  ensures forall x {under(fa, x, a)} {under(fa, x, b)} {fa[x]}: 0 <= x < n && under(fa, x, a) != under(fa, x, b) ==> x == a && fa[a] == b || x == b && fa[b] == a
# a sequence that changes takes a step that changes
lemma StepCross(f@AInt, lo, hi)
  requires lo <= hi && f[lo] != f[hi]
  measure hi - lo
  step if f[hi - 1] == f[hi] then use StepCross(f, lo, hi - 1)
  step assert f[hi - 1] != f[hi] || lo < hi - 1
  ensures exists i {f[i]}: lo < i <= hi && f[i - 1] != f[i]
# an edge of the tree that the path between two nodes contains
ghostfield SubProblem.ga Int
ghostfield SubProblem.gb Int
pred posw() = forall k {problem->graph.edges[k].weight}: 0 <= k < problem->graph.num_edges ==> problem->graph.edges[k].weight >= 0.0

fn max_edge_path_1Tree
  param replacement_costs[N - 2]
  local b Int
  local c Int
  local n Int
  local k Int
  local cur Int
  local nx Int
  local w Int
  local pv Int
  local thr Int
  local we Real
  local vs AInt
  local vp AInt
  local sp AInt
  local em AAInt
  local fa AInt
  local con AAInt
  requires wf: gwf(&problem->graph) && problem->graph.num_nodes >= 3 && 0 <= problem->candidateNodeId < problem->graph.num_nodes && posw()
  requires tree: otree(currentSubProb, problem->candidateNodeId, problem->graph.num_nodes)
  requires decisions: swf(currentSubProb)
  requires ends: nodeof(&problem->graph, start_node) && nodeof(&problem->graph, end_node) && start_node != end_node && start_node != problem->candidateNodeId && end_node != problem->candidateNodeId
  assigns replacement_costs, currentSubProb->ga, currentSubProb->gb
  assigns @DllElem.next, @DllElem.prev, @DllElem.value, @DllElem.own, @DllElem.pos, @List.head, @List.tail, @List.size, @List.gs, alloc(DllElem), alloc(List)
  at entry: b := code(&currentSubProb->oneTree.nodes[0])
  at entry: c := problem->candidateNodeId
  at entry: n := problem->graph.num_nodes
  at entry: k := 0
  at entry: em := currentSubProb->oneTree.edges_matrix
  at entry: fa := currentSubProb->oneTree.fa
  at entry: con := currentSubProb->constraints
  at entry: we := gw(&problem->graph, start_node, end_node)
  at entry: thr := max(tr()[start_node], tr()[end_node])
  loop 1
    inv start: i > start_node ==> start.positionInGraph == start_node && start.num_neighbours == currentSubProb->oneTree.nodes[start_node].num_neighbours && start.neighbours == currentSubProb->oneTree.nodes[start_node].neighbours
    inv init: forall u {parentId[u]} {visited[u]}: 0 <= u < i ==> parentId[u] == -1 && !visited[u]
    dec num_nodes - i
  loop 2
    inv list: code(stack) > 0 && lwf(stack)
    inv elems: forall i {stack->gs[i]}: 0 <= i < stack->size ==> (lval(stack, i) == code(&start) || 0 <= b - lval(stack, i) < num_nodes)
    inv mem: forall e {alive(DllElem, e)}: alive(DllElem, e) && @DllElem[e].own != code(stack) <==> old(alive(DllElem, e))
    inv count: 0 <= k <= num_nodes && (forall u {visited[u]}: 0 <= u < num_nodes && visited[u] ==> u != c && 0 <= vp[u] < k && vs[vp[u]] == u) && (forall j {vs[j]}: 0 <= j < k ==> 0 <= vs[j] < num_nodes && visited[vs[j]] && vp[vs[j]] == j)
    inv started: k == 0 ? stack->size == 1 && lval(stack, 0) == code(&start) && (forall u {parentId[u]}: 0 <= u < num_nodes ==> parentId[u] == -1) : visited[start_node]
    inv pushed: k > 0 ==> forall i {stack->gs[i]}: 0 <= i < stack->size && lval(stack, i) != code(&start) ==> b - lval(stack, i) != c && parentId[b - lval(stack, i)] != -1
    inv root: parentId[start_node] == -1 && parentId[c] == -1
    inv tree: forall v {parentId[v]} {visited[v]}: 0 <= v < num_nodes && v != start_node ==> (parentId[v] == -1 ? !visited[v] : v != c && 0 <= parentId[v] < num_nodes && visited[parentId[v]] && joined(&currentSubProb->oneTree, parentId[v], v) && vp[parentId[v]] < (visited[v] ? vp[v] : k))
    inv wait: forall v {parentId[v]}: 0 <= v < num_nodes && parentId[v] != -1 && !visited[v] ==> 0 <= sp[v] < stack->size && lval(stack, stack->size - 1 - sp[v]) == b - v
    inv closed: forall u, v {currentSubProb->oneTree.edges_matrix[u][v]}: 0 <= u < num_nodes && 0 <= v < num_nodes && visited[u] && joined(&currentSubProb->oneTree, u, v) && v != c && v != start_node ==> parentId[v] != -1
    dec num_nodes - k ;; stack->size
  at before call delete_list_elem_index 1: cur := currentNode->positionInGraph
  at before call delete_list_elem_index 1: assert 0 <= cur < num_nodes && cur != c && (cur == start_node || parentId[cur] != -1)
  at before call delete_list_elem_index 1: assert currentNode->num_neighbours == currentSubProb->oneTree.nodes[cur].num_neighbours && forall i {currentSubProb->oneTree.nodes[cur].neighbours[i]}: currentNode->neighbours[i] == currentSubProb->oneTree.nodes[cur].neighbours[i]
  at loop 3 enter: vs[k] := cur
  at loop 3 enter: vp[cur] := k
  at loop 3 enter: k := k + 1
  at loop 3 enter: use Pigeon(vs, k, num_nodes)
  loop 3
    inv list: code(stack) > 0 && lwf(stack)
    inv range: i <= currentNode->num_neighbours
    inv cur: currentNode->positionInGraph == cur && 0 <= cur < num_nodes && visited[cur] && vp[cur] == k - 1 && cur != c
    inv elems: forall i {stack->gs[i]}: 0 <= i < stack->size ==> (lval(stack, i) == code(&start) || 0 <= b - lval(stack, i) < num_nodes)
    inv mem: forall e {alive(DllElem, e)}: alive(DllElem, e) && @DllElem[e].own != code(stack) <==> old(alive(DllElem, e))
    inv started: visited[start_node]
    inv pushed: forall i {stack->gs[i]}: 0 <= i < stack->size && lval(stack, i) != code(&start) ==> b - lval(stack, i) != c && parentId[b - lval(stack, i)] != -1
    inv root: parentId[start_node] == -1 && parentId[c] == -1
    inv tree: forall v {parentId[v]} {visited[v]}: 0 <= v < num_nodes && v != start_node ==> (parentId[v] == -1 ? !visited[v] : v != c && 0 <= parentId[v] < num_nodes && visited[parentId[v]] && joined(&currentSubProb->oneTree, parentId[v], v) && vp[parentId[v]] < (visited[v] ? vp[v] : k))
    inv wait: forall v {parentId[v]}: 0 <= v < num_nodes && parentId[v] != -1 && !visited[v] ==> 0 <= sp[v] < stack->size && lval(stack, stack->size - 1 - sp[v]) == b - v
    inv closed: forall u, v {currentSubProb->oneTree.edges_matrix[u][v]}: 0 <= u < num_nodes && 0 <= v < num_nodes && visited[u] && joined(&currentSubProb->oneTree, u, v) && v != c && v != start_node && (u == cur ==> currentSubProb->oneTree.nbp[u][v] < i) ==> parentId[v] != -1
    dec currentNode->num_neighbours - i
  at loop 3 body: nx := currentSubProb->oneTree.nodes[cur].neighbours[i]
  at loop 3 body: assert currentNode->neighbours[i] == nx && 0 <= nx < num_nodes && joined(&currentSubProb->oneTree, cur, nx) && currentSubProb->oneTree.nbp[cur][nx] == i
  at loop 3 body: w := visited[nx] || nx == c ? 0 : 1
  at loop 3 end: if w == 1 then sp[nx] := stack->size - 1
  at loop 2 exit: assert parentId[end_node] == -1 ==> stack->size == 0 && k > 0 && visited[start_node] && !visited[end_node]
  at loop 2 exit: assert parentId[end_node] == -1 ==> forall x {fa[x]} {visited[x]}: 0 <= x < num_nodes && x != c && x != currentSubProb->oneTree.ro ==> 0 <= fa[x] < num_nodes && fa[x] != c && (visited[x] <==> visited[fa[x]])
  at loop 2 exit: if parentId[end_node] == -1 then use AllOneSide(lam u: visited[u] ? 1 : 0, fa, currentSubProb->oneTree.fo, currentSubProb->oneTree.ro, c, n)
  at loop 2 exit: assert parentId[end_node] != -1
  loop 4
    inv at: 0 <= toNode < num_nodes && toNode != c && (toNode == start_node || parentId[toNode] != -1) && (fromNode == start_node <==> toNode == start_node)
    inv cross: (tr()[toNode] < thr <==> tr()[end_node] < thr) || (0 <= currentSubProb->ga < n && 0 <= currentSubProb->gb < n && currentSubProb->ga != c && currentSubProb->gb != c && em[currentSubProb->ga][currentSubProb->gb] != -1 && tr()[currentSubProb->ga] < thr && thr <= tr()[currentSubProb->gb] && (con[currentSubProb->ga][currentSubProb->gb] == NOTHING ==> gw(&problem->graph, currentSubProb->ga, currentSubProb->gb) <= max_edge_weight))
    inv rc: forall x {fa[x]}: 0 <= x < n && x != c && x != currentSubProb->oneTree.ro && con[x][fa[x]] == NOTHING && under(fa, x, toNode) != under(fa, x, end_node) ==> replacement_costs[em[x][fa[x]]] <= we - gw(&problem->graph, x, fa[x])
    inv less: forall i {replacement_costs[i]}: 0 <= i < N - 2 ==> replacement_costs[i] <= old(replacement_costs[i])
    inv max: max_edge_weight == -1.0 || max_edge_weight >= 0.0
    dec visited[toNode] ? vp[toNode] : k
  at loop 4 body: pv := toNode
  at loop 4 end: assert 0 <= pv < n && pv != c && 0 <= fromNode < n && fromNode != c && em[fromNode][pv] != -1 && em[pv][fromNode] == em[fromNode][pv] && (fa[pv] == fromNode || fa[fromNode] == pv) && con[pv][fromNode] == con[fromNode][pv]
  at loop 4 end: assert gw(&problem->graph, pv, fromNode) == gw(&problem->graph, fromNode, pv) && gw(&problem->graph, pv, fromNode) >= 0.0
  at loop 4 end: assert con[fromNode][pv] == NOTHING ==> gw(&problem->graph, pv, fromNode) <= max_edge_weight && replacement_costs[em[fromNode][pv]] <= we - gw(&problem->graph, pv, fromNode)
  at loop 4 end: use CrossUnder(fa, currentSubProb->oneTree.fo, currentSubProb->oneTree.ro, n, c, pv, fromNode)
  at loop 4 end: if tr()[pv] < thr && thr <= tr()[fromNode] then currentSubProb->ga := pv
  at loop 4 end: if tr()[pv] < thr && thr <= tr()[fromNode] then currentSubProb->gb := fromNode
  at loop 4 end: if tr()[fromNode] < thr && thr <= tr()[pv] then currentSubProb->ga := fromNode
  at loop 4 end: if tr()[fromNode] < thr && thr <= tr()[pv] then currentSubProb->gb := pv
  ensures cross: tr()[start_node] != tr()[end_node] ==> 0 <= currentSubProb->ga < problem->graph.num_nodes && 0 <= currentSubProb->gb < problem->graph.num_nodes && currentSubProb->ga != problem->candidateNodeId && currentSubProb->gb != problem->candidateNodeId && joined(&currentSubProb->oneTree, currentSubProb->ga, currentSubProb->gb) && tr()[currentSubProb->ga] < max(tr()[start_node], tr()[end_node]) && max(tr()[start_node], tr()[end_node]) <= tr()[currentSubProb->gb] && (currentSubProb->constraints[currentSubProb->ga][currentSubProb->gb] == NOTHING ==> gw(&problem->graph, currentSubProb->ga, currentSubProb->gb) <= result)
  ensures rc: forall x {currentSubProb->oneTree.fa[x]}: 0 <= x < problem->graph.num_nodes && x != problem->candidateNodeId && x != currentSubProb->oneTree.ro && currentSubProb->constraints[x][currentSubProb->oneTree.fa[x]] == NOTHING && under(currentSubProb->oneTree.fa, x, start_node) != under(currentSubProb->oneTree.fa, x, end_node) ==> replacement_costs[currentSubProb->oneTree.edges_matrix[x][currentSubProb->oneTree.fa[x]]] <= gw(&problem->graph, start_node, end_node) - gw(&problem->graph, x, currentSubProb->oneTree.fa[x])
  ensures less: forall i {replacement_costs[i]}: 0 <= i < N - 2 ==> replacement_costs[i] <= old(replacement_costs[i])
  ensures elems: forall e {alive(DllElem, e)}: alive(DllElem, e) <==> old(alive(DllElem, e))
  ensures lists: forall r {alive(List, r)}: alive(List, r) <==> old(alive(List, r))

# an undecided edge outside the tree caps the replacement cost of the edges on its path: k = its number, x = the lower end of the edge on the path
pred capped(rc, i, con, em, fa, ro, n, c) = forall k, x {mark(k, x, 5)}: mark(k, x, 5) == 1 && 0 <= k < i && 0 <= x < n && x != c && x != ro && problem->graph.edges[k].src != c && problem->graph.edges[k].dest != c
|  && con[problem->graph.edges[k].src][problem->graph.edges[k].dest] == NOTHING && em[problem->graph.edges[k].src][problem->graph.edges[k].dest] == -1 && con[x][fa[x]] == NOTHING
|  && under(fa, x, problem->graph.edges[k].src) != under(fa, x, problem->graph.edges[k].dest) ==> rc[em[x][fa[x]]] <= gw(&problem->graph, problem->graph.edges[k].src, problem->graph.edges[k].dest) - gw(&problem->graph, x, fa[x])
fn variable_fixing
  local n Int
  local c Int
  local to Int
  local tc Real
  local con AAInt
  local em AAInt
  local fa AInt
  local fo AInt
  local ro Int
  local x0 Int
  local x1 Int
  local nf Int
  local nm Int
  local es Int
  local ed Int
  local ti Int
  local x Int
  local fx Int
  local st Int
  local su Int
  local sv Int
  local sk Int
  local fu AInt
  requires wf: gwf(&problem->graph) && problem->graph.num_nodes >= 3 && 0 <= problem->candidateNodeId < problem->graph.num_nodes && posw()
  requires decisions: swf(currentSubProb)
  requires tree: otree(currentSubProb, problem->candidateNodeId, problem->graph.num_nodes)
  requires cert: thetour(problem) && admits(currentSubProb, problem->graph.num_nodes) ==> cert(currentSubProb->oneTree.edges_matrix, currentSubProb->constraints, currentSubProb->oneTree.cost, tcost(problem), &problem->graph, problem->graph.num_nodes, problem->candidateNodeId, currentSubProb->oneTree.nodes[problem->candidateNodeId].neighbours[0], currentSubProb->oneTree.nodes[problem->candidateNodeId].neighbours[1])
  assigns currentSubProb->constraints, currentSubProb->num_forbidden_edges, currentSubProb->num_mandatory_edges, col(currentSubProb->mandatoryEdges, src), col(currentSubProb->mandatoryEdges, dest), currentSubProb->mp, currentSubProb->fp, currentSubProb->fs, currentSubProb->fd, currentSubProb->ga, currentSubProb->gb
  assigns @DllElem.next, @DllElem.prev, @DllElem.value, @DllElem.own, @DllElem.pos, @List.head, @List.tail, @List.size, @List.gs, alloc(DllElem), alloc(List)
  at entry: useall PcInj
  at entry: useall PcRange
  at entry: n := problem->graph.num_nodes
  at entry: c := problem->candidateNodeId
  at entry: to := thetour(problem) && admits(currentSubProb, problem->graph.num_nodes) && tcost(problem) < problem->bestValue ? 1 : 0
  at entry: tc := tcost(problem)
  at entry: con := currentSubProb->constraints
  at entry: em := currentSubProb->oneTree.edges_matrix
  at entry: fa := currentSubProb->oneTree.fa
  at entry: fo := currentSubProb->oneTree.fo
  at entry: ro := currentSubProb->oneTree.ro
  at entry: x0 := currentSubProb->oneTree.nodes[c].neighbours[0]
  at entry: x1 := currentSubProb->oneTree.nodes[c].neighbours[1]
  at entry: assert to == 1 ==> thetour(problem) && tc < problem->bestValue && cert(em, con, currentSubProb->oneTree.cost, tc, &problem->graph, n, c, x0, x1)
  at entry: assert to == 1 ==> tr()[c] == 0 && tq()[0] == c
  at entry: assert to == 1 ==> forall u, v {con[u][v]}: 0 <= u < n && 0 <= v < n ==> (con[u][v] == MANDATORY ==> tin(u, v)) && (con[u][v] == FORBIDDEN ==> !tin(u, v))
  at entry: assert to == 1 ==> tin(c, tq()[1]) && tin(c, tq()[n - 1]) && forall k {tq()[k]}: 1 <= k < n ==> 0 <= tq()[k] < n && tq()[k] != c && 0 <= tq()[k - 1] < n && tin(tq()[k], tq()[k - 1])
  at entry: assert forall u, v {con[u][v]}: 0 <= u < N && 0 <= v < N ==> con[u][v] == con[v][u]
  at entry: assert forall u, v {em[u][v]}: 0 <= u < n && 0 <= v < n && em[u][v] != -1 ==> con[u][v] != FORBIDDEN && em[v][u] == em[u][v] && names(&problem->graph, u, v)
  at entry: assert fathers(fa, fo, ro, n, c)
  loop 1
    inv range: 0 <= i
    dec N - 2 - i
  loop 2
    inv range: 0 <= i <= problem->graph.num_edges && 0 <= num_fixed <= i
    inv wf: swf(currentSubProb)
    inv kept: forall u, v {currentSubProb->constraints[u][v]} {con[u][v]}: 0 <= u < N && 0 <= v < N && con[u][v] != NOTHING ==> currentSubProb->constraints[u][v] == con[u][v]
    inv tree: forall u, v {currentSubProb->constraints[u][v]} {con[u][v]}: 0 <= u < n && 0 <= v < n && em[u][v] != -1 ==> currentSubProb->constraints[u][v] == con[u][v]
    inv todo: forall k {problem->graph.edges[k].src}: 0 <= k < problem->graph.num_edges && (k >= i || k == currentSubProb->edge_to_branch) ==> currentSubProb->constraints[problem->graph.edges[k].src][problem->graph.edges[k].dest] == con[problem->graph.edges[k].src][problem->graph.edges[k].dest]
    inv freed: lfreed()
    inv sound: to == 1 ==> admits(currentSubProb, n)
    inv capped: capped(replacement_costs, i, con, em, fa, ro, n, c)
    inv cand: forall k {problem->graph.edges[k].weight}: 0 <= k < i && (problem->graph.edges[k].src == c || problem->graph.edges[k].dest == c) && con[problem->graph.edges[k].src][problem->graph.edges[k].dest] == NOTHING ==> best_candidate_replacement <= problem->graph.edges[k].weight
    dec problem->graph.num_edges - i
  at loop 2 body: es := problem->graph.edges[i].src
  at loop 2 body: ed := problem->graph.edges[i].dest
  at loop 2 body: nf := currentSubProb->num_forbidden_edges
  at loop 2 body: assert 0 <= es < n && 0 <= ed < n && es != ed && names(&problem->graph, es, ed) && gw(&problem->graph, es, ed) == problem->graph.edges[i].weight && gw(&problem->graph, ed, es) == problem->graph.edges[i].weight
  at loop 2 body: ti := max(tr()[es], tr()[ed])
  at loop 2 body: use MarkDef(es == c ? ed : es, 0, 2)
  at loop 2 body: assert to == 1 && tin(es, ed) && em[es][ed] == -1 && (es == c || ed == c) ==> currentSubProb->oneTree.cost + problem->graph.edges[i].weight - max(gw(&problem->graph, c, x0), gw(&problem->graph, c, x1)) <= tc
  at after call max_edge_path_1Tree 1: use MarkDef(ti, currentSubProb->ga, currentSubProb->gb)
  at after call max_edge_path_1Tree 1: assert to == 1 && tin(es, ed) ==> 2 <= ti < n && pairis(tq()[ti], tq()[ti - 1], es, ed)
  at after call max_edge_path_1Tree 1: assert to == 1 && tin(es, ed) ==> con[currentSubProb->ga][currentSubProb->gb] == NOTHING
  at after call max_edge_path_1Tree 1: assert to == 1 && tin(es, ed) ==> currentSubProb->oneTree.cost + problem->graph.edges[i].weight - gw(&problem->graph, currentSubProb->ga, currentSubProb->gb) <= tc
  at loop 2 end: if currentSubProb->num_forbidden_edges > nf then currentSubProb->fs[currentSubProb->num_forbidden_edges - 1 - currentSubProb->fb] := es
  at loop 2 end: if currentSubProb->num_forbidden_edges > nf then currentSubProb->fd[currentSubProb->num_forbidden_edges - 1 - currentSubProb->fb] := ed
  at loop 2 end: if currentSubProb->num_forbidden_edges > nf then currentSubProb->fp[es][ed] := currentSubProb->num_forbidden_edges - 1 - currentSubProb->fb
  at loop 2 end: if currentSubProb->num_forbidden_edges > nf then currentSubProb->fp[ed][es] := currentSubProb->num_forbidden_edges - 1 - currentSubProb->fb
  at loop 2 end: use Pigeon(lam k: pc(currentSubProb->fs[k], currentSubProb->fd[k]), currentSubProb->num_forbidden_edges - currentSubProb->fb, E)
  loop 3
    inv range: 0 <= i <= currentSubProb->oneTree.num_edges && 0 <= num_fixed <= problem->graph.num_edges + i
    inv wf: swf(currentSubProb)
    inv kept: forall u, v {currentSubProb->constraints[u][v]} {con[u][v]}: 0 <= u < N && 0 <= v < N && con[u][v] != NOTHING ==> currentSubProb->constraints[u][v] == con[u][v]
    inv todo: forall k {currentSubProb->oneTree.edges[k].src}: i <= k < currentSubProb->oneTree.num_edges ==> currentSubProb->constraints[currentSubProb->oneTree.edges[k].src][currentSubProb->oneTree.edges[k].dest] == con[currentSubProb->oneTree.edges[k].src][currentSubProb->oneTree.edges[k].dest]
    inv edge: forall k {problem->graph.edges[k].src}: 0 <= k < problem->graph.num_edges && k == currentSubProb->edge_to_branch ==> currentSubProb->constraints[problem->graph.edges[k].src][problem->graph.edges[k].dest] == con[problem->graph.edges[k].src][problem->graph.edges[k].dest]
    inv sound: to == 1 ==> admits(currentSubProb, n)
    dec currentSubProb->oneTree.num_edges - i
  at loop 3 body: es := currentSubProb->oneTree.edges[i].src
  at loop 3 body: ed := currentSubProb->oneTree.edges[i].dest
  at loop 3 body: nm := currentSubProb->num_mandatory_edges
  at loop 3 body: assert 0 <= es < n && 0 <= ed < n && es != ed && names(&problem->graph, es, ed) && em[es][ed] == i && em[ed][es] == i && gw(&problem->graph, es, ed) == gw(&problem->graph, ed, es) && gw(&problem->graph, es, ed) >= 0.0
  at loop 3 body: x := es == c ? ed : ed == c ? es : fa[es] == ed ? es : ed
  at loop 3 body: fx := es + ed - x
  at loop 3 body: assert pairis(x, fx, es, ed) && (es != c && ed != c ==> x != c && x != ro && fa[x] == fx && fo[fx] < fo[x] && i < n - 2)
  at loop 3 body: if es != c && ed != c then use UnderDef(fa, x, x)
  at loop 3 body: if es != c && ed != c then use UnderLow(fa, fo, ro, n, c, x, fx)
  at loop 3 body: fu := lam k: under(fa, x, tq()[k])
  at loop 3 body: if to == 1 && es != c && ed != c then use StepCross(fu, min(tr()[x], tr()[fx]), max(tr()[x], tr()[fx]))
  at loop 3 body: pick st, su {fu[st], fu[su]}: su == st && min(tr()[x], tr()[fx]) < st <= max(tr()[x], tr()[fx]) && fu[st - 1] != fu[st]
  at loop 3 body: su := tq()[st]
  at loop 3 body: sv := tq()[st - 1]
  at loop 3 body: sk := problem->graph.edges_matrix[su][sv].positionInGraph
  at loop 3 body: assert to == 1 && es != c && ed != c ==> 2 <= st < n && su != c && sv != c && 0 <= su < n && 0 <= sv < n && tin(su, sv) && tr()[su] == st && tr()[sv] == st - 1 && under(fa, x, su) != under(fa, x, sv)
  at loop 3 body: if to == 1 && es != c && ed != c && em[su][sv] != -1 then use CrossUnder(fa, fo, ro, n, c, su, sv)
  at loop 3 body: assert to == 1 && es != c && ed != c && !tin(es, ed) ==> em[su][sv] == -1
  at loop 3 body: use MarkDef(su, sv, 1)
  at loop 3 body: assert to == 1 && es != c && ed != c && !tin(es, ed) ==> con[su][sv] == NOTHING && em[sv][su] == -1
  at loop 3 body: assert to == 1 && es != c && ed != c ==> names(&problem->graph, su, sv) && 0 <= sk < problem->graph.num_edges && pairis(su, sv, problem->graph.edges[sk].src, problem->graph.edges[sk].dest) && gw(&problem->graph, su, sv) == problem->graph.edges[sk].weight && gw(&problem->graph, sv, su) == problem->graph.edges[sk].weight
  at loop 3 body: use MarkDef(sk, x, 5)
  at loop 3 body: assert to == 1 && es != c && ed != c && !tin(es, ed) && con[es][ed] == NOTHING ==> replacement_costs[i] <= gw(&problem->graph, su, sv) - gw(&problem->graph, x, fx)
  at loop 3 body: use MarkDef(st, tr()[x] < tr()[fx] ? x : fx, tr()[x] < tr()[fx] ? fx : x)
  at loop 3 body: assert to == 1 && es != c && ed != c && !tin(es, ed) && con[es][ed] == NOTHING ==> currentSubProb->oneTree.cost + gw(&problem->graph, su, sv) - gw(&problem->graph, es, ed) <= tc
  at loop 3 body: use MarkDef(x, 0, 3)
  at loop 3 body: use MarkDef(c, tq()[1], 1)
  at loop 3 body: use MarkDef(c, tq()[n - 1], 1)
  at loop 3 body: assert to == 1 && (es == c || ed == c) && !tin(es, ed) && con[es][ed] == NOTHING ==> (em[c][tq()[1]] == -1 && currentSubProb->oneTree.cost + gw(&problem->graph, c, tq()[1]) - gw(&problem->graph, es, ed) <= tc) || (em[c][tq()[n - 1]] == -1 && currentSubProb->oneTree.cost + gw(&problem->graph, c, tq()[n - 1]) - gw(&problem->graph, es, ed) <= tc)
  at loop 3 body: assert to == 1 && em[c][tq()[1]] == -1 ==> con[c][tq()[1]] == NOTHING && names(&problem->graph, c, tq()[1]) && best_candidate_replacement <= gw(&problem->graph, c, tq()[1])
  at loop 3 body: assert to == 1 && em[c][tq()[n - 1]] == -1 ==> con[c][tq()[n - 1]] == NOTHING && names(&problem->graph, c, tq()[n - 1]) && best_candidate_replacement <= gw(&problem->graph, c, tq()[n - 1])
  at loop 3 body: if con[es][ed] == NOTHING then use Pigeon(lam k: k == currentSubProb->num_mandatory_edges ? pc(es, ed) : pc(currentSubProb->mandatoryEdges[k].src, currentSubProb->mandatoryEdges[k].dest), currentSubProb->num_mandatory_edges + 1, E)
  at loop 3 end: if currentSubProb->num_mandatory_edges > nm then currentSubProb->mp[es][ed] := currentSubProb->num_mandatory_edges - 1
  at loop 3 end: if currentSubProb->num_mandatory_edges > nm then currentSubProb->mp[ed][es] := currentSubProb->num_mandatory_edges - 1
  ensures wf: swf(currentSubProb)
  ensures kept: forall u, v {currentSubProb->constraints[u][v]} {old(currentSubProb->constraints[u][v])}: 0 <= u < N && 0 <= v < N && old(currentSubProb->constraints[u][v]) != NOTHING ==> currentSubProb->constraints[u][v] == old(currentSubProb->constraints[u][v])
  ensures edge: 0 <= currentSubProb->edge_to_branch < problem->graph.num_edges ==> currentSubProb->constraints[problem->graph.edges[currentSubProb->edge_to_branch].src][problem->graph.edges[currentSubProb->edge_to_branch].dest] == old(currentSubProb->constraints[problem->graph.edges[currentSubProb->edge_to_branch].src][problem->graph.edges[currentSubProb->edge_to_branch].dest])
  ensures freed: lfreed()
  ensures count: result >= 0
  ensures sound: thetour(problem) && old(admits(currentSubProb, problem->graph.num_nodes)) && tcost(problem) < problem->bestValue ==> admits(currentSubProb, problem->graph.num_nodes)
