# the cycle through the special node, and the test for a tour.
pred hnode(t, u) = 0 <= u < t->num_nodes
pred nxt1(n, i, j) = j == (i + 1 == n ? 0 : i + 1)
# the tree consists of exactly the edges of the cycle q (r = places)
pred hcyc(t, q, r, c) = q[0] == c
|  && (forall i {q[i]}: 0 <= i < t->num_nodes ==> hnode(t, q[i]) && r[q[i]] == i)
|  && (forall u {r[u]}: hnode(t, u) ==> 0 <= r[u] < t->num_nodes && q[r[u]] == u)
|  && (forall u, v {t->edges_matrix[u][v]}: hnode(t, u) && hnode(t, v) ==> (joined(t, u, v) <==> nxt1(t->num_nodes, r[u], r[v]) || nxt1(t->num_nodes, r[v], r[u])))
# hc describes the cycle stored in the subproblem
pred cycle(s, c) = s->num_edges_in_cycle == 0 || (3 <= s->num_edges_in_cycle <= s->oneTree.num_nodes && s->hc[0] == c && s->hc[s->num_edges_in_cycle] == c
|  && (forall k {s->hc[k]}: 0 <= k < s->num_edges_in_cycle ==> hnode(&s->oneTree, s->hc[k]) && joined(&s->oneTree, s->hc[k], s->hc[k + 1]) && pairis(s->hc[k], s->hc[k + 1], s->cycleEdges[k].src, s->cycleEdges[k].dest))
|  && (forall j, k {s->hc[j], s->hc[k]}: 0 <= j < k < s->num_edges_in_cycle ==> s->hc[j] != s->hc[k]))

fn dfs
  local b Int
  local c Int
  local k Int
  local cur Int
  local nx Int
  local vs AInt
  local vp AInt
  local hq AInt
  local hr AInt
  requires wf: treewf(&subProblem->oneTree) && gwf(&problem->graph) && subProblem->oneTree.num_nodes == problem->graph.num_nodes && problem->graph.num_nodes >= 3
  requires cand: 0 <= problem->candidateNodeId < problem->graph.num_nodes
  requires nodes: forall u {subProblem->oneTree.nodes[u].positionInGraph}: nodeof(&problem->graph, u) ==> subProblem->oneTree.nodes[u].positionInGraph == u
  requires edges: forall u, v {subProblem->oneTree.edges_matrix[u][v]}: nodeof(&problem->graph, u) && nodeof(&problem->graph, v) && joined(&subProblem->oneTree, u, v) ==> names(&problem->graph, u, v)
  requires none: subProblem->num_edges_in_cycle == 0
  assigns subProblem->num_edges_in_cycle, subProblem->cycleEdges, subProblem->hc
  assigns @DllElem.next, @DllElem.prev, @DllElem.value, @DllElem.own, @DllElem.pos, @List.head, @List.tail, @List.size, @List.gs, alloc(DllElem), alloc(List)
  at entry: b := code(&subProblem->oneTree.nodes[0])
  at entry: c := problem->candidateNodeId
  at entry: k := 0
  loop 1
    inv start: i > c ==> start.positionInGraph == c && start.num_neighbours == subProblem->oneTree.nodes[c].num_neighbours && start.neighbours == subProblem->oneTree.nodes[c].neighbours
    inv init: forall u {parentId[u]} {pathLength[u]} {visited[u]}: 0 <= u < i ==> parentId[u] == -1 && pathLength[u] == 0 && !visited[u]
    dec num_nodes - i
  loop 2
    inv list: code(stack) > 0 && lwf(stack)
    inv elems: forall i {stack->gs[i]}: 0 <= i < stack->size ==> (lval(stack, i) == code(&start) || 0 <= b - lval(stack, i) < num_nodes)
    inv mem: forall e {alive(DllElem, e)}: alive(DllElem, e) && @DllElem[e].own != code(stack) <==> old(alive(DllElem, e))
    inv count: 0 <= k <= num_nodes && (forall u {visited[u]}: 0 <= u < num_nodes && visited[u] ==> 0 <= vp[u] < k && vs[vp[u]] == u) && (forall j {vs[j]}: 0 <= j < k ==> 0 <= vs[j] < num_nodes && visited[vs[j]] && vp[vs[j]] == j)
    inv started: k == 0 ? stack->size == 1 && lval(stack, 0) == code(&start) && (forall u {parentId[u]}: 0 <= u < num_nodes ==> parentId[u] == -1) : visited[c]
    inv pushed: k > 0 ==> forall i {stack->gs[i]}: 0 <= i < stack->size && lval(stack, i) != code(&start) ==> b - lval(stack, i) != c && parentId[b - lval(stack, i)] != -1 
    inv tree: forall v {parentId[v]} {pathLength[v]} {visited[v]}: 0 <= v < num_nodes && v != c ==> (parentId[v] == -1 ? !visited[v] : 0 <= parentId[v] < num_nodes && visited[parentId[v]] && joined(&subProblem->oneTree, parentId[v], v) && pathLength[v] == (parentId[v] == c ? 0 : pathLength[parentId[v]]) + 1 && 1 <= pathLength[v] <= (visited[v] ? vp[v] : k))
    inv close: parentId[c] == -1 ? pathLength[c] == 0 : 0 <= parentId[c] < num_nodes && parentId[c] != c && visited[parentId[c]] && joined(&subProblem->oneTree, parentId[c], c) && pathLength[c] == pathLength[parentId[c]] + 1 && 2 < pathLength[c] <= k
    inv ham: hcyc(&subProblem->oneTree, tq(), tr(), c) && k > 0 ==> hcyc(&subProblem->oneTree, hq, hr, c) && (forall u {visited[u]}: 0 <= u < num_nodes ==> (visited[u] <==> hr[u] < k)) && (k < num_nodes ? parentId[c] == -1 && stack->size > 0 && lval(stack, 0) == b - hq[k] && pathLength[hq[k]] == k : parentId[c] != -1 && pathLength[c] == num_nodes)
    dec num_nodes - k ;; stack->size
  at before call delete_list_elem_index 1: cur := currentNode->positionInGraph
  at before call delete_list_elem_index 1: assert 0 <= cur < num_nodes && (cur == c || parentId[cur] != -1)
  at before call delete_list_elem_index 1: assert currentNode->num_neighbours == subProblem->oneTree.nodes[cur].num_neighbours && forall i {subProblem->oneTree.nodes[cur].neighbours[i]}: currentNode->neighbours[i] == subProblem->oneTree.nodes[cur].neighbours[i]
  at loop 3 enter: vs[k] := cur
  at loop 3 enter: vp[cur] := k
  at loop 3 enter: k := k + 1
  at loop 3 enter: use Pigeon(vs, k, num_nodes)
  at loop 3 enter: assert hcyc(&subProblem->oneTree, tq(), tr(), c) && 1 < k && k < num_nodes ==> cur == hq[k - 1] && hr[hq[k]] == k && joined(&subProblem->oneTree, cur, hq[k])
  at loop 3 enter: assert hcyc(&subProblem->oneTree, tq(), tr(), c) && 1 < k && k == num_nodes ==> cur == hq[k - 1] && hr[c] == 0 && hr[hq[k - 2]] == k - 2 && hq[k - 2] != c && parentId[hq[k - 2]] != -1 && joined(&subProblem->oneTree, cur, c)
  loop 3
    inv list: code(stack) > 0 && lwf(stack)
    inv range: i <= currentNode->num_neighbours
    inv cur: currentNode->positionInGraph == cur && 0 <= cur < num_nodes && visited[cur] && vp[cur] == k - 1 && (k == 1 <==> cur == c)
    inv elems: forall i {stack->gs[i]}: 0 <= i < stack->size ==> (lval(stack, i) == code(&start) || 0 <= b - lval(stack, i) < num_nodes)
    inv mem: forall e {alive(DllElem, e)}: alive(DllElem, e) && @DllElem[e].own != code(stack) <==> old(alive(DllElem, e))
    inv started: visited[c]
    inv pushed: forall i {stack->gs[i]}: 0 <= i < stack->size && lval(stack, i) != code(&start) ==> b - lval(stack, i) != c && parentId[b - lval(stack, i)] != -1 
    inv tree: forall v {parentId[v]} {pathLength[v]} {visited[v]}: 0 <= v < num_nodes && v != c ==> (parentId[v] == -1 ? !visited[v] : 0 <= parentId[v] < num_nodes && visited[parentId[v]] && joined(&subProblem->oneTree, parentId[v], v) && pathLength[v] == (parentId[v] == c ? 0 : pathLength[parentId[v]]) + 1 && 1 <= pathLength[v] <= (visited[v] ? vp[v] : k))
    inv close: parentId[c] == -1 ? pathLength[c] == 0 : 0 <= parentId[c] < num_nodes && parentId[c] != c && visited[parentId[c]] && joined(&subProblem->oneTree, parentId[c], c) && pathLength[c] == pathLength[parentId[c]] + 1 && 2 < pathLength[c] <= k
    inv one: k == 1 ==> parentId[c] == -1 && (i > 0 ==> stack->size > 0 && lval(stack, 0) == b - subProblem->oneTree.nodes[c].neighbours[i - 1] && pathLength[subProblem->oneTree.nodes[c].neighbours[i - 1]] == 1)
    inv ham: hcyc(&subProblem->oneTree, tq(), tr(), c) && k > 1 ==> hcyc(&subProblem->oneTree, hq, hr, c) && hr[cur] == k - 1 && pathLength[cur] == k - 1 && (forall u {visited[u]}: 0 <= u < num_nodes ==> (visited[u] <==> hr[u] < k))
    inv next: hcyc(&subProblem->oneTree, tq(), tr(), c) && 1 < k && k < num_nodes ==> parentId[c] == -1 && (subProblem->oneTree.nbp[cur][hq[k]] < i ==> stack->size > 0 && lval(stack, 0) == b - hq[k] && pathLength[hq[k]] == k)
    inv last: hcyc(&subProblem->oneTree, tq(), tr(), c) && k == num_nodes ==> hq[0] == c && hr[c] == 0 && (subProblem->oneTree.nbp[cur][c] < i ? parentId[c] != -1 && pathLength[c] == num_nodes : parentId[c] == -1)
    dec currentNode->num_neighbours - i
  at loop 3 body: nx := subProblem->oneTree.nodes[cur].neighbours[i]
  at loop 3 body: assert currentNode->neighbours[i] == nx && 0 <= nx < num_nodes && joined(&subProblem->oneTree, cur, nx) && subProblem->oneTree.nbp[cur][nx] == i
  at loop 3 body: assert hcyc(&subProblem->oneTree, tq(), tr(), c) && 1 < k ==> hr[nx] == k - 2 || (k < num_nodes ? hr[nx] == k : hr[nx] == 0)
  at loop 3 body: assert hcyc(&subProblem->oneTree, tq(), tr(), c) && 1 < k && k < num_nodes ==> hr[nx] == k - 2 && visited[nx] || nx == hq[k] && !visited[nx]
  at loop 3 body: assert nx == c || visited[nx] ==> nx == c || parentId[nx] != -1
  at loop 3 body: assert hcyc(&subProblem->oneTree, tq(), tr(), c) && 1 < k && k == num_nodes ==> visited[nx] && (nx == hq[k - 2] || nx == c)
  at loop 3 exit: nx := subProblem->oneTree.nodes[c].neighbours[subProblem->oneTree.nodes[c].num_neighbours - 1]
  at loop 3 exit: assert k == 1 && hcyc(&subProblem->oneTree, tq(), tr(), c) ==> tr()[c] == 0 && tr()[tq()[1]] == 1 && joined(&subProblem->oneTree, c, tq()[1])
  at loop 3 exit: assert k == 1 ==> cur == c && currentNode->num_neighbours == subProblem->oneTree.nodes[c].num_neighbours
  at loop 3 exit: assert k == 1 && hcyc(&subProblem->oneTree, tq(), tr(), c) ==> 0 <= nx < num_nodes && joined(&subProblem->oneTree, c, nx)
  at loop 3 exit: assert k == 1 && hcyc(&subProblem->oneTree, tq(), tr(), c) ==> 0 <= subProblem->oneTree.nbp[c][tq()[1]] < subProblem->oneTree.nodes[c].num_neighbours && 0 <= nx < num_nodes && joined(&subProblem->oneTree, c, nx) && lval(stack, 0) == b - nx && pathLength[nx] == 1 && parentId[c] == -1
  at loop 3 exit: assert k == 1 && hcyc(&subProblem->oneTree, tq(), tr(), c) ==> (tr()[nx] == 1 || tr()[nx] == num_nodes - 1) && (nx == tq()[1] || nx == tq()[num_nodes - 1])
  at loop 3 exit: if k == 1 && lval(stack, 0) == b - tq()[1] then hq := tq()
  at loop 3 exit: if k == 1 && lval(stack, 0) == b - tq()[1] then hr := tr()
  at loop 3 exit: if k == 1 && lval(stack, 0) != b - tq()[1] then hq := lam i: i == 0 ? tq()[0] : tq()[num_nodes - i]
  at loop 3 exit: if k == 1 && lval(stack, 0) != b - tq()[1] then hr := lam u: tr()[u] == 0 ? 0 : num_nodes - tr()[u]
  loop 4
    inv at: subProblem->num_edges_in_cycle == 0 ? fromNode == -1 && toNode == c : fromNode == toNode && 0 <= toNode < num_nodes && visited[toNode]
    inv len: 0 <= subProblem->num_edges_in_cycle <= pathLength[c] && 2 < pathLength[c] <= num_nodes
    inv left: subProblem->num_edges_in_cycle > 0 ==> (toNode == c ? 0 : pathLength[toNode]) == pathLength[c] - subProblem->num_edges_in_cycle
    inv path: subProblem->hc[0] == c && subProblem->hc[subProblem->num_edges_in_cycle] == toNode && forall j {subProblem->hc[j]}: 0 < j < subProblem->num_edges_in_cycle ==> pathLength[subProblem->hc[j]] == pathLength[c] - j && subProblem->hc[j] != c
    inv edges: forall k {subProblem->hc[k]}: 0 <= k < subProblem->num_edges_in_cycle ==> hnode(&subProblem->oneTree, subProblem->hc[k]) && joined(&subProblem->oneTree, subProblem->hc[k], subProblem->hc[k + 1]) && pairis(subProblem->hc[k], subProblem->hc[k + 1], subProblem->cycleEdges[k].src, subProblem->cycleEdges[k].dest)
    dec pathLength[c] - subProblem->num_edges_in_cycle
  at loop 4 enter: subProblem->hc[0] := c
  at loop 4 end: subProblem->hc[subProblem->num_edges_in_cycle] := toNode
  ensures cycle: cycle(subProblem, problem->candidateNodeId)
  ensures found: hcyc(&subProblem->oneTree, tq(), tr(), problem->candidateNodeId) ==> subProblem->num_edges_in_cycle == subProblem->oneTree.num_nodes
  ensures elems: forall e {alive(DllElem, e)}: alive(DllElem, e) <==> old(alive(DllElem, e))
  ensures lists: forall r {alive(List, r)}: alive(List, r) <==> old(alive(List, r))

# u and v are joined exactly if they follow each other on the cycle hc
fn check_hamiltonian
  requires wf: treewf(&subProblem->oneTree) && gwf(&problem->graph) && subProblem->oneTree.num_nodes == problem->graph.num_nodes && problem->graph.num_nodes >= 3
  requires cand: 0 <= problem->candidateNodeId < problem->graph.num_nodes
  requires nodes: forall u {subProblem->oneTree.nodes[u].positionInGraph}: nodeof(&problem->graph, u) ==> subProblem->oneTree.nodes[u].positionInGraph == u
  requires edges: forall u, v {subProblem->oneTree.edges_matrix[u][v]}: nodeof(&problem->graph, u) && nodeof(&problem->graph, v) && joined(&subProblem->oneTree, u, v) ==> names(&problem->graph, u, v)
  requires count: subProblem->oneTree.num_edges == subProblem->oneTree.num_nodes
  requires none: subProblem->num_edges_in_cycle == 0
  assigns subProblem->num_edges_in_cycle, subProblem->cycleEdges, subProblem->hc
  assigns @DllElem.next, @DllElem.prev, @DllElem.value, @DllElem.own, @DllElem.pos, @List.head, @List.tail, @List.size, @List.gs, alloc(DllElem), alloc(List)
  ensures cycle: cycle(subProblem, problem->candidateNodeId)
  ensures yes: result ==> subProblem->num_edges_in_cycle == problem->graph.num_nodes
  ensures no: hcyc(&subProblem->oneTree, tq(), tr(), problem->candidateNodeId) ==> result
  ensures elems: forall e {alive(DllElem, e)}: alive(DllElem, e) <==> old(alive(DllElem, e))
  ensures lists: forall r {alive(List, r)}: alive(List, r) <==> old(alive(List, r))
