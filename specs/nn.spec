# the two greedy tours.  Ghost state: nq = the nodes of the walk by weight, np = their places, nl = the last place reached, nv = the value of the walk; pq, pp, pl, pv: the walk by probability.
ghostfield Problem.nq AInt
ghostfield Problem.np AInt
ghostfield Problem.nl Int
ghostfield Problem.nv Real
ghostfield Problem.nw AReal
ghostfield Problem.pq AInt
ghostfield Problem.pp AInt
ghostfield Problem.pl Int
ghostfield Problem.pv Real
ghostfield Problem.pw AReal
# q[0..l] is a walk without repetition along edges of g (p = places)
pred nnwalk(g, q, p, l, s) = 0 <= l < g->num_nodes && q[0] == s && (forall j {q[j]}: 0 <= j <= l ==> nodeof(g, q[j]) && p[q[j]] == j && (j < l ==> names(g, q[j], q[j + 1])))
|  && (forall u {p[u]}: nodeof(g, u) ==> p[u] == -1 || 0 <= p[u] <= l && q[p[u]] == u)
# it ends where nothing unvisited is adjacent, or at the last node
pred nnends(g, q, p, l) = l < g->num_nodes - 1 ==> forall v {g->edges_matrix[q[l]][v].positionInGraph}: nodeof(g, v) && names(g, q[l], v) ==> p[v] != -1
pred nnclosed(g, q, l, s) = l == g->num_nodes - 1 && names(g, q[l], s)
pred nnvalue(g, q, l, s, v, ws) = nnclosed(g, q, l, s) ? v == rsum(ws, g->num_nodes) && (forall k {ws[k]}: 0 <= k < g->num_nodes ==> ws[k] == g->edges_matrix[q[k]][k + 1 == g->num_nodes ? s : q[k + 1]].weight) : v == INFINITE

fn are_adjacent
  requires wf: gwf(&problem->graph) && nodeof(&problem->graph, node_a) && nodeof(&problem->graph, node_b)
  assigns nothing
  loop 1
    inv none: forall k {problem->graph.nodes[node_a].neighbours[k]}: 0 <= k < i ==> problem->graph.nodes[node_a].neighbours[k] != node_b
    inv range: i <= problem->graph.nodes[node_a].num_neighbours
    dec problem->graph.nodes[node_a].num_neighbours - i
  ensures adj: result <==> names(&problem->graph, node_a, node_b)

fn nearest_prob_neighbour
  local m Int
  local m2 Int
  local pw AReal
  local nq AInt
  local np AInt
  local pq AInt
  local pp AInt
  requires wf: gwf(&problem->graph) && problem->graph.num_nodes >= 3 && nodeof(&problem->graph, start_node)
  requires weights: forall u, v {problem->graph.edges_matrix[u][v].weight}: nodeof(&problem->graph, u) && nodeof(&problem->graph, v) && names(&problem->graph, u, v) ==> problem->graph.edges_matrix[u][v].weight < INFINITE && (HYBRID ==> problem->graph.edges_matrix[u][v].prob > -1.0)
  assigns problem->bestValue, problem->bestSolution
  assigns problem->nq, problem->np, problem->nl, problem->nv, problem->nw, problem->pq, problem->pp, problem->pl, problem->pv, problem->pw
  at loop 1 enter: nq := lam i: start_node
  at loop 1 enter: np := lam u: u == start_node ? 0 : -1
  at loop 1 enter: m := 0
  loop 1
    inv size: visited_count <= problem->graph.num_nodes && nn_subProblem.oneTree.num_nodes == problem->graph.num_nodes && nn_subProblem.oneTree.num_edges == visited_count && treewf(&nn_subProblem.oneTree)
    inv place: nodeof(&problem->graph, current_node) && m == min(visited_count, problem->graph.num_nodes - 1) && current_node == nq[m]
    inv walk: nq[0] == start_node && forall j {nq[j]}: 0 <= j <= m ==> nodeof(&problem->graph, nq[j]) && np[nq[j]] == j && (j < m ==> names(&problem->graph, nq[j], nq[j + 1]))
    inv visited: forall u {visited[u]} {np[u]}: nodeof(&problem->graph, u) ==> (visited[u] <==> 0 <= np[u] < m) && (np[u] == -1 || 0 <= np[u] <= m && nq[np[u]] == u)
    inv joined: visited_count < problem->graph.num_nodes ==> forall u, v {nn_subProblem.oneTree.edges_matrix[u][v]}: nodeof(&problem->graph, u) && nodeof(&problem->graph, v) && nn_subProblem.oneTree.edges_matrix[u][v] != -1 ==> np[u] != -1 && np[v] != -1 && (np[u] == np[v] + 1 || np[v] == np[u] + 1)
    inv weights: forall k {nn_subProblem.oneTree.edges[k].weight}: 0 <= k < visited_count ==> nn_subProblem.oneTree.edges[k].weight == problem->graph.edges_matrix[nq[k]][k + 1 == problem->graph.num_nodes ? start_node : nq[k + 1]].weight
    inv cycle: nn_subProblem.num_edges_in_cycle == visited_count && forall k {nn_subProblem.cycleEdges[k].src} {nn_subProblem.cycleEdges[k].dest} {nq[k]}: 0 <= k < visited_count ==> nn_subProblem.cycleEdges[k].src == nq[k] && nn_subProblem.cycleEdges[k].dest == (k + 1 == problem->graph.num_nodes ? start_node : nq[k + 1])
    inv closed: visited_count == problem->graph.num_nodes ==> names(&problem->graph, nq[m], start_node)
    inv flag: tour_found
    inv greedy: forall k, v {nq[k], problem->graph.edges_matrix[nq[k]][v].weight} {nq[k], np[v]}: 0 <= k < m && nodeof(&problem->graph, v) && names(&problem->graph, nq[k], v) && (np[v] == -1 || np[v] > k) ==> problem->graph.edges_matrix[nq[k]][nq[k + 1]].weight <= problem->graph.edges_matrix[nq[k]][v].weight
    dec problem->graph.num_nodes - visited_count
  loop 2
    inv best: best_neighbour == current_node ? best_edge_value == INFINITE : nodeof(&problem->graph, best_neighbour) && names(&problem->graph, current_node, best_neighbour) && !visited[best_neighbour] && best_edge_value == problem->graph.edges_matrix[current_node][best_neighbour].weight
    inv least: forall k {problem->graph.nodes[current_node].neighbours[k]}: 0 <= k < i && !visited[problem->graph.nodes[current_node].neighbours[k]] ==> best_neighbour != current_node && best_edge_value <= problem->graph.edges_matrix[current_node][problem->graph.nodes[current_node].neighbours[k]].weight
    inv range: i <= problem->graph.nodes[current_node].num_neighbours
    dec problem->graph.nodes[current_node].num_neighbours - i
  at loop 2 body: assert nodeof(&problem->graph, problem->graph.nodes[current_node].neighbours[i]) && names(&problem->graph, current_node, problem->graph.nodes[current_node].neighbours[i])
  at loop 2 exit: assert forall v {problem->graph.edges_matrix[current_node][v].positionInGraph}: nodeof(&problem->graph, v) && names(&problem->graph, current_node, v) && !visited[v] ==> best_neighbour != current_node && best_edge_value <= problem->graph.edges_matrix[current_node][v].weight
  at loop 1 end: if visited_count < problem->graph.num_nodes - 1 then nq[m + 1] := current_node
  at loop 1 end: if visited_count < problem->graph.num_nodes - 1 then np[current_node] := m + 1
  at loop 1 end: if visited_count < problem->graph.num_nodes - 1 then m := m + 1
  at loop 3 enter: pq := lam i: start_node
  at loop 3 enter: pp := lam u: u == start_node ? 0 : -1
  at loop 3 enter: m2 := 0
  loop 3
    inv size: visited_count <= problem->graph.num_nodes && prob_nn_subProblem.oneTree.num_nodes == problem->graph.num_nodes && prob_nn_subProblem.oneTree.num_edges == visited_count && treewf(&prob_nn_subProblem.oneTree)
    inv place: nodeof(&problem->graph, current_node) && m2 == min(visited_count, problem->graph.num_nodes - 1) && current_node == pq[m2]
    inv walk: pq[0] == start_node && forall j {pq[j]}: 0 <= j <= m2 ==> nodeof(&problem->graph, pq[j]) && pp[pq[j]] == j && (j < m2 ==> names(&problem->graph, pq[j], pq[j + 1]))
    inv visited: forall u {prob_visited[u]} {pp[u]}: nodeof(&problem->graph, u) ==> (prob_visited[u] <==> 0 <= pp[u] < m2) && (pp[u] == -1 || 0 <= pp[u] <= m2 && pq[pp[u]] == u)
    inv joined: visited_count < problem->graph.num_nodes ==> forall u, v {prob_nn_subProblem.oneTree.edges_matrix[u][v]}: nodeof(&problem->graph, u) && nodeof(&problem->graph, v) && prob_nn_subProblem.oneTree.edges_matrix[u][v] != -1 ==> pp[u] != -1 && pp[v] != -1 && (pp[u] == pp[v] + 1 || pp[v] == pp[u] + 1)
    inv weights: forall k {prob_nn_subProblem.oneTree.edges[k].weight}: 0 <= k < visited_count ==> prob_nn_subProblem.oneTree.edges[k].weight == problem->graph.edges_matrix[pq[k]][k + 1 == problem->graph.num_nodes ? start_node : pq[k + 1]].weight
    inv cycle: prob_nn_subProblem.num_edges_in_cycle == visited_count && forall k {prob_nn_subProblem.cycleEdges[k].src} {prob_nn_subProblem.cycleEdges[k].dest} {pq[k]}: 0 <= k < visited_count ==> prob_nn_subProblem.cycleEdges[k].src == pq[k] && prob_nn_subProblem.cycleEdges[k].dest == (k + 1 == problem->graph.num_nodes ? start_node : pq[k + 1])
    inv pw: pw == col(prob_nn_subProblem.oneTree.edges, weight)
    inv closed: visited_count == problem->graph.num_nodes ==> names(&problem->graph, pq[m2], start_node)
    inv flag: prob_tour_found
    inv greedy: forall k, v {pq[k], problem->graph.edges_matrix[pq[k]][v].prob} {pq[k], pp[v]}: 0 <= k < m2 && nodeof(&problem->graph, v) && names(&problem->graph, pq[k], v) && (pp[v] == -1 || pp[v] > k) ==> problem->graph.edges_matrix[pq[k]][pq[k + 1]].prob >= problem->graph.edges_matrix[pq[k]][v].prob
    dec problem->graph.num_nodes - visited_count
  loop 4
    inv best: best_neighbour == current_node ? best_edge_prob == -1.0 : nodeof(&problem->graph, best_neighbour) && names(&problem->graph, current_node, best_neighbour) && !prob_visited[best_neighbour] && best_edge_prob == problem->graph.edges_matrix[current_node][best_neighbour].prob
    inv least: forall k {problem->graph.nodes[current_node].neighbours[k]}: 0 <= k < i && !prob_visited[problem->graph.nodes[current_node].neighbours[k]] ==> best_neighbour != current_node && best_edge_prob >= problem->graph.edges_matrix[current_node][problem->graph.nodes[current_node].neighbours[k]].prob
    inv range: i <= problem->graph.nodes[current_node].num_neighbours
    dec problem->graph.nodes[current_node].num_neighbours - i
  at loop 4 body: assert nodeof(&problem->graph, problem->graph.nodes[current_node].neighbours[i]) && names(&problem->graph, current_node, problem->graph.nodes[current_node].neighbours[i])
  at loop 4 exit: assert forall v {problem->graph.edges_matrix[current_node][v].positionInGraph}: nodeof(&problem->graph, v) && names(&problem->graph, current_node, v) && !prob_visited[v] ==> best_neighbour != current_node && best_edge_prob >= problem->graph.edges_matrix[current_node][v].prob
  at loop 3 end: if visited_count < problem->graph.num_nodes - 1 then pq[m2 + 1] := current_node
  at loop 3 end: if visited_count < problem->graph.num_nodes - 1 then pp[current_node] := m2 + 1
  at loop 3 end: if visited_count < problem->graph.num_nodes - 1 then m2 := m2 + 1
  at loop 3 enter: pw := col(prob_nn_subProblem.oneTree.edges, weight)
  at loop 3 end: pw := col(prob_nn_subProblem.oneTree.edges, weight)
  at return: problem->nq := nq
  at return: problem->np := np
  at return: problem->nl := m
  at return: problem->nw := col(nn_subProblem.oneTree.edges, weight)
  at return: problem->nv := nn_subProblem.value
  at return: if HYBRID then problem->pq := pq
  at return: if HYBRID then problem->pp := pp
  at return: if HYBRID then problem->pl := m2
  at return: if HYBRID then problem->pw := pw
  at return: if HYBRID then problem->pv := nnclosed(&problem->graph, pq, m2, start_node) ? rsum(pw, problem->graph.num_nodes) : INFINITE
  at return: if problem->bestValue < old(problem->bestValue) then problem->bestSolution.hc := lam k: k == problem->graph.num_nodes ? start_node : HYBRID && problem->pv < problem->nv ? pq[k] : nq[k]
  at return: if problem->bestValue < old(problem->bestValue) then problem->bestSolution.hw := HYBRID && problem->pv < problem->nv ? pw : problem->nw
  ensures walk: nnwalk(&problem->graph, problem->nq, problem->np, problem->nl, start_node) && nnends(&problem->graph, problem->nq, problem->np, problem->nl) && nnvalue(&problem->graph, problem->nq, problem->nl, start_node, problem->nv, problem->nw)
  ensures nearest: forall k, v {problem->nq[k], problem->graph.edges_matrix[problem->nq[k]][v].weight} {problem->nq[k], problem->np[v]}: 0 <= k < problem->nl && nodeof(&problem->graph, v) && names(&problem->graph, problem->nq[k], v) && (problem->np[v] == -1 || problem->np[v] > k) ==> problem->graph.edges_matrix[problem->nq[k]][problem->nq[k + 1]].weight <= problem->graph.edges_matrix[problem->nq[k]][v].weight
  ensures pwalk: HYBRID ==> nnwalk(&problem->graph, problem->pq, problem->pp, problem->pl, start_node) && nnends(&problem->graph, problem->pq, problem->pp, problem->pl) && nnvalue(&problem->graph, problem->pq, problem->pl, start_node, problem->pv, problem->pw)
  ensures likeliest: HYBRID ==> forall k, v {problem->pq[k], problem->graph.edges_matrix[problem->pq[k]][v].prob} {problem->pq[k], problem->pp[v]}: 0 <= k < problem->pl && nodeof(&problem->graph, v) && names(&problem->graph, problem->pq[k], v) && (problem->pp[v] == -1 || problem->pp[v] > k) ==> problem->graph.edges_matrix[problem->pq[k]][problem->pq[k + 1]].prob >= problem->graph.edges_matrix[problem->pq[k]][v].prob
  ensures value: problem->bestValue == min(old(problem->bestValue), HYBRID ? min(problem->nv, problem->pv) : problem->nv)
  ensures improved: problem->bestValue < old(problem->bestValue) && old(problem->bestValue) <= INFINITE ==> tourof(&problem->bestSolution, &problem->graph) && tourcost(&problem->bestSolution, &problem->graph) && problem->bestSolution.value == problem->bestValue && forall k {problem->bestSolution.hc[k]}: 0 <= k < problem->graph.num_nodes ==> problem->bestSolution.hc[k] == (HYBRID && problem->pv < problem->nv ? problem->pq[k] : problem->nq[k])
  ensures kept: !(problem->bestValue < old(problem->bestValue)) ==> problem->bestSolution.value == old(problem->bestSolution.value) && problem->bestSolution.num_edges_in_cycle == old(problem->bestSolution.num_edges_in_cycle) && problem->bestSolution.hc == old(problem->bestSolution.hc) && problem->bestSolution.hw == old(problem->bestSolution.hw) && col(problem->bestSolution.cycleEdges, src) == old(col(problem->bestSolution.cycleEdges, src)) && col(problem->bestSolution.cycleEdges, dest) == old(col(problem->bestSolution.cycleEdges, dest))
  ensures incumbent: old(incumbent(problem)) ==> incumbent(problem)
