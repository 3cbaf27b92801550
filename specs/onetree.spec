# the two edges at the special node.  An arbitrary pair of edges there: to spa() and spb()
logic spa(): Int
logic spb(): Int
pred av(g, s, c, u) = nodeof(g, u) && names(g, c, u) && !forb(s, c, u)
pred sppair(g, s, c) = spa() != spb() && av(g, s, c, spa()) && av(g, s, c, spb()) && forall u {s->constraints[c][u]}: nodeof(g, u) && mnd(s, c, u) ==> u == spa() || u == spb()
pred wt(g, c, u) = g->edges_matrix[c][u].weight
pred po(g, c, u) = g->edges_matrix[c][u].positionInGraph
pred nbr(g, c, k) = g->nodes[c].neighbours[k]
# the tree is a spanning tree without the special node
pred without(t, g, c) = treewf(t) && t->num_nodes == g->num_nodes && t->num_edges <= g->num_nodes - 2 && fromgraph(t, g) && forall u {t->edges_matrix[c][u]}: nodeof(g, u) ==> t->edges_matrix[c][u] == -1
pred joins(t, k, c, u) = pairis(t->edges[k].src, t->edges[k].dest, c, u)

fn mst_to_one_tree
  requires wf: gwf(graph) && graph->num_nodes >= 2 && 0 <= problem->candidateNodeId < graph->num_nodes && light(graph)
  requires decisions: decs(currentSubproblem)
  requires tree: without(&currentSubproblem->oneTree, graph, problem->candidateNodeId)
  local c Int
  local mi AInt
  local oi AInt
  local kd AInt
  local b0 Int
  local b1 Int
  local o0 Int
  local o1 Int
  assigns currentSubproblem->oneTree
  at entry: c := problem->candidateNodeId
  at entry: assert currentSubproblem->oneTree.nodes[c].num_neighbours > 0 ==> currentSubproblem->oneTree.edges_matrix[c][currentSubproblem->oneTree.nodes[c].neighbours[0]] != -1
  at entry: assert currentSubproblem->oneTree.nodes[c].num_neighbours == 0
  loop 1
    inv bounds: i <= graph->nodes[c].num_neighbours && toAdd <= 3 && toAdd + num_others <= i && src == c
    inv mandatory: forall k {mi[k]} {bestEdgesPos[k]}: 0 <= k < toAdd ==> 0 <= mi[k] < i && kd[mi[k]] == k && mnd(currentSubproblem, c, nbr(graph, c, mi[k])) && bestEdgesPos[k] == po(graph, c, nbr(graph, c, mi[k]))
    inv others: forall k {oi[k]} {others[k]}: 0 <= k < num_others ==> 0 <= oi[k] < i && kd[oi[k]] == k && others[k] == nbr(graph, c, oi[k]) && av(graph, currentSubproblem, c, others[k]) && !mnd(currentSubproblem, c, others[k])
    inv all: forall x {kd[x]} {graph->nodes[c].neighbours[x]}: 0 <= x < i && !forb(currentSubproblem, c, nbr(graph, c, x)) ==> (mnd(currentSubproblem, c, nbr(graph, c, x)) ? 0 <= kd[x] < toAdd && mi[kd[x]] == x : 0 <= kd[x] < num_others && oi[kd[x]] == x)
    dec graph->nodes[c].num_neighbours - i
  at loop 1 body: o0 := toAdd
  at loop 1 body: o1 := num_others
  at loop 1 end: if toAdd > o0 then mi[o0] := i
  at loop 1 end: if toAdd > o0 then kd[i] := o0
  at loop 1 end: if num_others > o1 then oi[o1] := i
  at loop 1 end: if num_others > o1 then kd[i] := o1
  at loop 1 exit: assert toAdd > 2 ==> mnd(currentSubproblem, c, nbr(graph, c, mi[0])) && mnd(currentSubproblem, c, nbr(graph, c, mi[1])) && mnd(currentSubproblem, c, nbr(graph, c, mi[2])) && nbr(graph, c, mi[0]) != nbr(graph, c, mi[1]) && nbr(graph, c, mi[0]) != nbr(graph, c, mi[2]) && nbr(graph, c, mi[1]) != nbr(graph, c, mi[2])
  at loop 1 exit: assert sppair(graph, currentSubproblem, c) ==> toAdd <= 2 && nbr(graph, c, graph->nbq[c][spa()]) == spa() && nbr(graph, c, graph->nbq[c][spb()]) == spb() && kd[graph->nbq[c][spa()]] >= 0 && kd[graph->nbq[c][spb()]] >= 0 && (mnd(currentSubproblem, c, spa()) <==> mnd(currentSubproblem, c, spb())) ==> kd[graph->nbq[c][spa()]] != kd[graph->nbq[c][spb()]]
  loop 2
    inv best: j <= num_others && (j == 0 ? bestFoundPos == -1 && bestFoundWeight == INFINITE : 0 <= b0 < j && bestFoundPos == po(graph, c, others[b0]) && bestFoundWeight == wt(graph, c, others[b0]))
    inv least: forall k {others[k]}: 0 <= k < j ==> bestFoundWeight <= wt(graph, c, others[k])
    dec num_others - j
  at loop 2 end: b0 := bestFoundPos == po(graph, c, others[j]) ? j : b0
  loop 3
    inv best0: j <= num_others && (j == 0 ? bestEdgesPos[0] == -1 && bestEdgesWeight[0] == INFINITE : 0 <= b0 < j && bestEdgesPos[0] == po(graph, c, others[b0]) && bestEdgesWeight[0] == wt(graph, c, others[b0]))
    inv best1: j <= 1 ? bestEdgesPos[1] == -1 && bestEdgesWeight[1] == INFINITE : 0 <= b1 < j && b1 != b0 && bestEdgesPos[1] == po(graph, c, others[b1]) && bestEdgesWeight[1] == wt(graph, c, others[b1])
    inv least0: forall k {others[k]}: 0 <= k < j ==> bestEdgesWeight[0] <= wt(graph, c, others[k])
    inv least1: forall k {others[k]}: 0 <= k < j && k != b0 ==> bestEdgesWeight[1] <= wt(graph, c, others[k])
    dec num_others - j
  at loop 3 end: b1 := bestEdgesPos[1] == po(graph, c, others[j]) ? j : j > 0 && bestEdgesPos[1] == po(graph, c, others[b0]) ? b0 : b1
  at loop 3 end: b0 := bestEdgesPos[0] == po(graph, c, others[j]) ? j : b0
  ensures type: result == OPEN || result == CLOSED_UNFEASIBLE
  ensures unfeasible: result != OPEN ==> !sppair(graph, currentSubproblem, problem->candidateNodeId) && currentSubproblem->oneTree.num_edges == old(currentSubproblem->oneTree.num_edges)
  ensures wf: treewf(&currentSubproblem->oneTree) && currentSubproblem->oneTree.num_nodes == graph->num_nodes
  ensures subset: fromgraph(&currentSubproblem->oneTree, graph)
  ensures nodes: forall u {currentSubproblem->oneTree.nodes[u].positionInGraph}: currentSubproblem->oneTree.nodes[u].positionInGraph == old(currentSubproblem->oneTree.nodes[u].positionInGraph)
  ensures kept: forall e {currentSubproblem->oneTree.edges[e].src} {currentSubproblem->oneTree.edges[e].weight}: 0 <= e < old(currentSubproblem->oneTree.num_edges) ==> same(currentSubproblem->oneTree.edges[e], old(currentSubproblem->oneTree.edges[e]))
  ensures index: forall u, v {currentSubproblem->oneTree.edges_matrix[u][v]}: nodeof(graph, u) && nodeof(graph, v) && u != problem->candidateNodeId && v != problem->candidateNodeId ==> currentSubproblem->oneTree.edges_matrix[u][v] == old(currentSubproblem->oneTree.edges_matrix[u][v])
  ensures valid: currentSubproblem->oneTree.isValid <==> old(currentSubproblem->oneTree.isValid)
  ensures two: result == OPEN ==> currentSubproblem->oneTree.num_edges == old(currentSubproblem->oneTree.num_edges) + 2 && currentSubproblem->oneTree.nodes[problem->candidateNodeId].num_neighbours == old(currentSubproblem->oneTree.nodes[problem->candidateNodeId].num_neighbours) + 2
  ensures special: result == OPEN ==> forall e {currentSubproblem->oneTree.edges[e].src} {currentSubproblem->oneTree.edges[e].dest}: old(currentSubproblem->oneTree.num_edges) <= e < currentSubproblem->oneTree.num_edges ==> (currentSubproblem->oneTree.edges[e].src == problem->candidateNodeId || currentSubproblem->oneTree.edges[e].dest == problem->candidateNodeId) && !forb(currentSubproblem, currentSubproblem->oneTree.edges[e].src, currentSubproblem->oneTree.edges[e].dest)
  ensures mandatory: result == OPEN ==> forall u {currentSubproblem->oneTree.edges_matrix[problem->candidateNodeId][u]}: nodeof(graph, u) && names(graph, problem->candidateNodeId, u) && mnd(currentSubproblem, problem->candidateNodeId, u) ==> currentSubproblem->oneTree.edges_matrix[problem->candidateNodeId][u] != -1
  ensures rooted: currentSubproblem->oneTree.ro == old(currentSubproblem->oneTree.ro) && same(currentSubproblem->oneTree.fa, old(currentSubproblem->oneTree.fa)) && same(currentSubproblem->oneTree.fo, old(currentSubproblem->oneTree.fo))
  ensures degree: result == OPEN ==> currentSubproblem->oneTree.nodes[problem->candidateNodeId].num_neighbours == 2
  ensures ends: result == OPEN ==> forall u {currentSubproblem->oneTree.edges_matrix[problem->candidateNodeId][u]}: nodeof(graph, u) && joined(&currentSubproblem->oneTree, problem->candidateNodeId, u) ==> u == currentSubproblem->oneTree.nodes[problem->candidateNodeId].neighbours[0] || u == currentSubproblem->oneTree.nodes[problem->candidateNodeId].neighbours[1]
  ensures pair: result == OPEN ==> currentSubproblem->oneTree.cost == old(currentSubproblem->oneTree.cost) + wt(graph, problem->candidateNodeId, currentSubproblem->oneTree.nodes[problem->candidateNodeId].neighbours[0]) + wt(graph, problem->candidateNodeId, currentSubproblem->oneTree.nodes[problem->candidateNodeId].neighbours[1])
  ensures least: result == OPEN ==> forall x, u {currentSubproblem->oneTree.edges_matrix[problem->candidateNodeId][x], currentSubproblem->oneTree.edges_matrix[problem->candidateNodeId][u]}: nodeof(graph, x) && joined(&currentSubproblem->oneTree, problem->candidateNodeId, x) && !mnd(currentSubproblem, problem->candidateNodeId, x) && av(graph, currentSubproblem, problem->candidateNodeId, u) && !joined(&currentSubproblem->oneTree, problem->candidateNodeId, u) ==> wt(graph, problem->candidateNodeId, x) <= wt(graph, problem->candidateNodeId, u)
  ensures minimum: result == OPEN && sppair(graph, currentSubproblem, problem->candidateNodeId) ==> currentSubproblem->oneTree.cost <= old(currentSubproblem->oneTree.cost) + wt(graph, problem->candidateNodeId, spa()) + wt(graph, problem->candidateNodeId, spb())
