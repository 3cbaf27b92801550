# output.  What is printed is recorded: io(out)[k] is the k-th integer of io(on), io(rout)[k] the k-th real of io(rn), io(sout)[k] the k-th string of io(sn).
# the cycle of a subproblem is empty or its edges are the steps of a closed walk through different nodes
pred cyc3(s) = s->num_edges_in_cycle == 0 || (s->num_edges_in_cycle >= 3 && s->num_edges_in_cycle <= N && s->hc[0] == s->hc[s->num_edges_in_cycle]
|  && (forall k {s->hc[k]}: 0 <= k < s->num_edges_in_cycle ==> pairis(s->hc[k], s->hc[k + 1], s->cycleEdges[k].src, s->cycleEdges[k].dest))
|  && (forall j, k {s->hc[j], s->hc[k]}: 0 <= j < k < s->num_edges_in_cycle ==> s->hc[j] != s->hc[k]))
# the k-th printed step of the cycle, when the cycle starts at the integer number b
pred walk(s, b, n) = forall k {s->hc[k]}: 0 <= k < n ==> io(out)[b + 2 * k] == s->hc[k] && io(out)[b + 2 * k + 1] == s->hc[k + 1]

fn print_subProblem
  flag prints
  requires cycle: cyc3(subProblem)
  assigns io(on, out, rn, rout, sn, sout)
  loop 1
    inv range: 0 <= i <= subProblem->num_edges_in_cycle && io(on) == old(io(on)) + 4 + 2 * i
    inv head: io(out)[old(io(on)) + 3] == subProblem->num_edges_in_cycle
    inv last: i > 0 ==> last_dest == subProblem->hc[i]
    inv walk: walk(subProblem, old(io(on)) + 4, i)
    dec subProblem->num_edges_in_cycle - i
  at loop 1 body: assert pairis(subProblem->hc[i], subProblem->hc[i + 1], subProblem->cycleEdges[i].src, subProblem->cycleEdges[i].dest)
  at loop 1 body: assert pairis(subProblem->hc[subProblem->num_edges_in_cycle - 1], subProblem->hc[0], subProblem->cycleEdges[subProblem->num_edges_in_cycle - 1].src, subProblem->cycleEdges[subProblem->num_edges_in_cycle - 1].dest)
  at loop 1 body: assert subProblem->hc[i] != subProblem->hc[i + 1] && (i == 0 ==> subProblem->hc[1] != subProblem->hc[subProblem->num_edges_in_cycle - 1])
  ensures kept: forall k {io(sout)[k]}: k < old(io(sn)) ==> io(sout)[k] == old(io(sout))[k]
  ensures value: io(rout)[old(io(rn))] == subProblem->value
  ensures head: io(out)[old(io(on)) + 3] == subProblem->num_edges_in_cycle
  ensures walk: walk(subProblem, old(io(on)) + 4, subProblem->num_edges_in_cycle)

fn print_problem
  flag prints
  requires cycle: cyc3(&problem->bestSolution)
  assigns io(on, out, rn, rout, sn, sout)
  ensures interrupted: io(sout)[old(io(sn))] == (problem->interrupted ? "TRUE" : "FALSE")
  ensures value: io(rout)[old(io(rn)) + 3] == problem->bestSolution.value
  ensures head: io(out)[old(io(on)) + 8] == problem->bestSolution.num_edges_in_cycle
  ensures walk: walk(&problem->bestSolution, old(io(on)) + 9, problem->bestSolution.num_edges_in_cycle)

# length of a printed number
logic digits(Int): Int
axiom digits_def: forall x {digits(x)}: x >= 0 && x < 100000 ==> digits(x) == (x < 10 ? 1 : x < 100 ? 2 : x < 1000 ? 3 : x < 10000 ? 4 : 5)
axiom log_mono: forall x@Real, y@Real {log(x), log(y)}: 0.0 < x && x < y ==> log(x) < log(y)
axiom log_powers: log(1.0) == 0.0 && log(10.0) > 0.0 && log(100.0) == 2.0 * log(10.0) && log(1000.0) == 3.0 * log(10.0) && log(10000.0) == 4.0 * log(10.0) && log(100000.0) == 5.0 * log(10.0)
lemma DivGe(a@Real, b@Real, k@Real)
  requires b > 0.0 && a >= k * b
  ensures a / b >= k
lemma Digits(x, n, d@Real)
  requires 0 <= x < n && n <= 65535 && d == (log(real(n)) / log(10.0) + 1.0) * 2.0 + 7.0
  step assert n == 1 || log(real(n)) > log(1.0)
  step assert log(real(n)) >= 0.0 * log(10.0)
  step assert x >= 10 ==> log(real(n)) >= log(10.0)
  step assert x >= 100 ==> log(real(n)) >= 2.0 * log(10.0)
  step assert x >= 1000 ==> log(real(n)) >= 3.0 * log(10.0)
  step assert x >= 10000 ==> log(real(n)) >= 4.0 * log(10.0)
  step use DivGe(log(real(n)), log(10.0), 0.0)
  step if x >= 10 then use DivGe(log(real(n)), log(10.0), 1.0)
  step if x >= 100 then use DivGe(log(real(n)), log(10.0), 2.0)
  step if x >= 1000 then use DivGe(log(real(n)), log(10.0), 3.0)
  step if x >= 10000 then use DivGe(log(real(n)), log(10.0), 4.0)
  ensures d >= real(2 * digits(x) + 7)

# every edge joins two nodes
fn print_graph
  at entry: assert log(10.0) > 0.0
  requires nodes: forall u {G->nodes[u].num_neighbours}: 0 <= u < G->num_nodes ==> G->nodes[u].num_neighbours < N
  requires nb: forall u, k {G->nodes[u].neighbours[k]}: 0 <= u < G->num_nodes && 0 <= k < G->nodes[u].num_neighbours ==> 0 <= G->nodes[u].neighbours[k] < N
  requires size: 0 <= G->num_nodes <= N && 0 <= G->num_edges <= E
  requires edges: forall k {G->edges[k].src} {G->edges[k].dest}: 0 <= k < G->num_edges ==> 0 <= G->edges[k].src < G->num_nodes && 0 <= G->edges[k].dest < G->num_nodes
  assigns nothing
  loop 1
    inv range: 0 <= i <= G->num_nodes
    dec G->num_nodes - i
  loop 2
    inv range: 0 <= z <= curr.num_neighbours
    dec curr.num_neighbours - z
  loop 3
    inv range: 0 <= j <= G->num_edges
    dec G->num_edges - j
  at loop 3 body: use Digits(G->edges[j].src, G->num_nodes, dim)
  at loop 3 body: use Digits(G->edges[j].dest, G->num_nodes, dim)

fn print_mst
  requires size: 0 <= tree->num_nodes <= N && 0 <= tree->num_edges <= N
  requires edges: forall k {tree->edges[k].src} {tree->edges[k].dest}: 0 <= k < tree->num_edges ==> 0 <= tree->edges[k].src < tree->num_nodes && 0 <= tree->edges[k].dest < tree->num_nodes
  assigns nothing
  loop 1
    inv range: 0 <= i <= tree->num_edges
    dec tree->num_edges - i
  at loop 1 body: use Digits(tree->edges[i].src, tree->num_nodes, dim)
  at loop 1 body: use Digits(tree->edges[i].dest, tree->num_nodes, dim)

fn print_mst_original_weight
  requires size: 0 <= tree->num_nodes <= N && 0 <= tree->num_edges <= N
  requires edges: forall k {tree->edges[k].src} {tree->edges[k].dest}: 0 <= k < tree->num_edges ==> 0 <= tree->edges[k].src < tree->num_nodes && 0 <= tree->edges[k].dest < tree->num_nodes
  assigns nothing
  loop 1
    inv range: 0 <= i <= tree->num_edges
    dec tree->num_edges - i
  at loop 1 body: use Digits(tree->edges[i].src, tree->num_nodes, dim)
  at loop 1 body: use Digits(tree->edges[i].dest, tree->num_nodes, dim)
