# decisions of subproblems.  Ghost state: mp[u][v] = where a mandatory pair stands in mandatoryEdges; fs, fd = the forbidden pairs, fp their positions.
ghostfield SubProblem.mp AAInt
ghostfield SubProblem.fp AAInt
ghostfield SubProblem.fs AInt
ghostfield SubProblem.fd AInt
ghostfield SubProblem.fb Int

# number of a pair of nodes
logic tri(Int): Int
lemma TriDef(v) trusted: definition of the triangular numbers
  requires v >= 0
  trigger tri(v)
  ensures 2 * tri(v) == v * (v - 1)
lemma TriInj(u, v, x, y)
  requires 0 <= u < v && 0 <= x < y && tri(v) + u == tri(y) + x
  step use TriDef(v)
  step use TriDef(y)
  step use TriDef(v + 1)
  step use TriDef(y + 1)
  step if v < y then assert (v + 1) * v <= y * (y - 1)
  step if y < v then assert (y + 1) * y <= v * (v - 1)
  ensures u == x && v == y
lemma TriBound(u, v)
  requires 0 <= u < v && v < N
  step use TriDef(v)
  step use TriDef(v + 1)
  step assert (v + 1) * v <= N * (N - 1)
  ensures 0 <= tri(v) + u < E
logic pc(Int, Int): Int
lemma PcDef(u, v) trusted: definition of the number of a pair
  trigger pc(u, v)
  ensures pc(u, v) == (u == v ? E + u : u < v ? tri(v) + u : tri(u) + v)
lemma PcInj(u, v, x, y)
  requires 0 <= u < N && 0 <= v < N && 0 <= x < N && 0 <= y < N && pc(u, v) == pc(x, y)
  trigger pc(u, v), pc(x, y)
  step use PcDef(u, v)
  step use PcDef(x, y)
  step if u < v then use TriBound(u, v)
  step if v < u then use TriBound(v, u)
  step if x < y then use TriBound(x, y)
  step if y < x then use TriBound(y, x)
  step if u != v && x != y then use TriInj(min(u, v), max(u, v), min(x, y), max(x, y))
  ensures u == x && v == y || u == y && v == x
lemma PcRange(u, v)
  requires 0 <= u < N && 0 <= v < N
  trigger pc(u, v)
  step use PcDef(u, v)
  step if u < v then use TriBound(u, v)
  step if v < u then use TriBound(v, u)
  ensures 0 <= pc(u, v) < E + N && (u != v ==> pc(u, v) < E)

pred swf(s) = 0 <= s->num_mandatory_edges <= E && 0 <= s->fb <= N && s->fb <= s->num_forbidden_edges <= E + s->fb
|  && (forall u, v {s->constraints[u][v]}: 0 <= u < N && 0 <= v < N ==> s->constraints[u][v] == s->constraints[v][u] && (u == v ==> s->constraints[u][v] == FORBIDDEN)
|       && (s->constraints[u][v] == NOTHING || s->constraints[u][v] == MANDATORY || s->constraints[u][v] == FORBIDDEN))
|  && (forall u, v {s->constraints[u][v]}: 0 <= u < N && 0 <= v < N && s->constraints[u][v] == MANDATORY ==>
|       0 <= s->mp[u][v] < s->num_mandatory_edges && pairis(u, v, s->mandatoryEdges[s->mp[u][v]].src, s->mandatoryEdges[s->mp[u][v]].dest))
|  && (forall k {s->mandatoryEdges[k].src}: 0 <= k < s->num_mandatory_edges ==> 0 <= s->mandatoryEdges[k].src < N && 0 <= s->mandatoryEdges[k].dest < N && s->mandatoryEdges[k].src != s->mandatoryEdges[k].dest
|       && s->constraints[s->mandatoryEdges[k].src][s->mandatoryEdges[k].dest] == MANDATORY && s->mp[s->mandatoryEdges[k].src][s->mandatoryEdges[k].dest] == k && s->mp[s->mandatoryEdges[k].dest][s->mandatoryEdges[k].src] == k)
|  && (forall u, v {s->constraints[u][v]}: 0 <= u < N && 0 <= v < N && u != v && s->constraints[u][v] == FORBIDDEN ==>
|       0 <= s->fp[u][v] < s->num_forbidden_edges - s->fb && pairis(u, v, s->fs[s->fp[u][v]], s->fd[s->fp[u][v]]))
|  && (forall k {s->fs[k]}: 0 <= k < s->num_forbidden_edges - s->fb ==> 0 <= s->fs[k] < N && 0 <= s->fd[k] < N && s->fs[k] != s->fd[k]
|       && s->constraints[s->fs[k]][s->fd[k]] == FORBIDDEN && s->fp[s->fs[k]][s->fd[k]] == k && s->fp[s->fd[k]][s->fs[k]] == k)
# level of a subproblem.  Ghost state: bs[k], bd[k] = the pair decided by the branching at level k + 1
ghostfield SubProblem.bs AInt
ghostfield SubProblem.bd AInt
pred lev(s) = 1 <= s->treeLevel && (forall k {s->bs[k]} {s->bd[k]}: 0 <= k < s->treeLevel - 1 ==> 0 <= s->bs[k] < N && 0 <= s->bd[k] < N && s->bs[k] != s->bd[k] && s->constraints[s->bs[k]][s->bd[k]] != NOTHING)
|  && (forall j, k {s->bs[j], s->bs[k]}: 0 <= j < k < s->treeLevel - 1 ==> !pairis(s->bs[j], s->bd[j], s->bs[k], s->bd[k]))
pred EPS() = sqrt(N) * f32(1.27) / 1000.0

fn compare_subproblems
  assigns nothing
  returns HYBRID ? b->value - a->value > EPS() || b->value > a->value && a->prob - b->prob >= f32(0.05) : b->value - a->value > EPS()

fn compare_candidate_node
  assigns nothing
  returns HYBRID ? a->value - b->value > EPS() || a->value > b->value && a->prob - b->prob >= f32(0.05) : a->value - b->value >= EPS()

fn initialize_matrix
  assigns subProblem->num_mandatory_edges, subProblem->num_forbidden_edges, subProblem->constraints, subProblem->fb
  at return: subProblem->fb := 0
  loop 1
    inv done: forall u, v {subProblem->constraints[u][v]}: 0 <= u < N && 0 <= v < N && (u < i || v < i) ==> subProblem->constraints[u][v] == (u == v ? FORBIDDEN : NOTHING)
    dec N - i
  loop 2
    inv done: forall u, v {subProblem->constraints[u][v]}: 0 <= u < N && 0 <= v < N && (u < i || v < i || u == i && v < j || v == i && u < j) ==> subProblem->constraints[u][v] == (u == v ? FORBIDDEN : NOTHING)
    dec N - j
  ensures wf: swf(subProblem)
  ensures open: forall u, v {subProblem->constraints[u][v]}: 0 <= u < N && 0 <= v < N ==> subProblem->constraints[u][v] == (u == v ? FORBIDDEN : NOTHING)

pred decided(s, u, v) = s->constraints[u][v] != NOTHING
fn infer_constraints
  norange num_fixed_edges
  requires wf: swf(subProblem)
  requires size: problem->graph.num_nodes <= N
  assigns subProblem->constraints, subProblem->num_forbidden_edges, subProblem->num_mandatory_edges, col(subProblem->mandatoryEdges, src), col(subProblem->mandatoryEdges, dest), subProblem->mp, subProblem->fp, subProblem->fs, subProblem->fd, problem->num_fixed_edges
  at entry: useall PcInj
  at entry: useall PcRange
  loop 1
    inv wf: swf(subProblem)
    inv sound: istour(problem->graph.num_nodes) && old(admits(subProblem, problem->graph.num_nodes)) ==> valid && admits(subProblem, problem->graph.num_nodes)
    inv kept: forall u, v {subProblem->constraints[u][v]} {old(subProblem->constraints[u][v])}: 0 <= u < N && 0 <= v < N && (old(subProblem->constraints[u][v]) != NOTHING || u >= num_nodes || v >= num_nodes) ==> subProblem->constraints[u][v] == old(subProblem->constraints[u][v])
    dec num_nodes - i
  loop 2
    inv total: num_nothing_node >= 0 && num_mandatory_node >= 0 && num_forbidden_node >= 0 && num_nothing_node + num_mandatory_node + num_forbidden_node == j
    inv mand: istour(problem->graph.num_nodes) && admits(subProblem, problem->graph.num_nodes) ==> num_mandatory_node == (tnx()[i] < j && subProblem->constraints[i][tnx()[i]] == MANDATORY ? 1 : 0) + (tpv()[i] < j && subProblem->constraints[i][tpv()[i]] == MANDATORY ? 1 : 0)
    inv left: istour(problem->graph.num_nodes) && admits(subProblem, problem->graph.num_nodes) ==> num_nothing_node + num_mandatory_node >= (tnx()[i] < j ? 1 : 0) + (tpv()[i] < j ? 1 : 0)
    inv only: istour(problem->graph.num_nodes) && admits(subProblem, problem->graph.num_nodes) && num_nothing_node + num_mandatory_node == (tnx()[i] < j ? 1 : 0) + (tpv()[i] < j ? 1 : 0) ==> forall k {subProblem->constraints[i][k]}: 0 <= k < j && subProblem->constraints[i][k] != FORBIDDEN ==> tin(i, k)
    inv open: forall k {nothing_nodes[k]}: 0 <= k < num_nothing_node ==> 0 <= nothing_nodes[k] < j && nothing_nodes[k] != i && subProblem->constraints[i][nothing_nodes[k]] == NOTHING
    inv order: forall k, l {nothing_nodes[k], nothing_nodes[l]}: 0 <= k < l < num_nothing_node ==> nothing_nodes[k] < nothing_nodes[l]
    dec num_nodes - j
  loop 3
    inv wf: swf(subProblem)
    inv todo: forall k {nothing_nodes[k]}: j <= k < num_nothing_node ==> subProblem->constraints[i][nothing_nodes[k]] == NOTHING
    inv sound: istour(problem->graph.num_nodes) && entry(admits(subProblem, problem->graph.num_nodes)) ==> admits(subProblem, problem->graph.num_nodes)
    inv kept: forall u, v {subProblem->constraints[u][v]} {old(subProblem->constraints[u][v])}: 0 <= u < N && 0 <= v < N && (old(subProblem->constraints[u][v]) != NOTHING || u >= num_nodes || v >= num_nodes) ==> subProblem->constraints[u][v] == old(subProblem->constraints[u][v])
    dec num_nothing_node - j
  at loop 3 end: subProblem->fs[subProblem->num_forbidden_edges - 1 - subProblem->fb] := i
  at loop 3 end: subProblem->fd[subProblem->num_forbidden_edges - 1 - subProblem->fb] := nothing_nodes[j]
  at loop 3 end: subProblem->fp[i][nothing_nodes[j]] := subProblem->num_forbidden_edges - 1 - subProblem->fb
  at loop 3 end: subProblem->fp[nothing_nodes[j]][i] := subProblem->num_forbidden_edges - 1 - subProblem->fb
  at loop 3 end: use Pigeon(lam k: pc(subProblem->fs[k], subProblem->fd[k]), subProblem->num_forbidden_edges - subProblem->fb, E)
  loop 4
    inv wf: swf(subProblem)
    inv todo: forall k {nothing_nodes[k]}: j <= k < num_nothing_node ==> subProblem->constraints[i][nothing_nodes[k]] == NOTHING
    inv sound: istour(problem->graph.num_nodes) && entry(admits(subProblem, problem->graph.num_nodes)) ==> admits(subProblem, problem->graph.num_nodes)
    inv kept: forall u, v {subProblem->constraints[u][v]} {old(subProblem->constraints[u][v])}: 0 <= u < N && 0 <= v < N && (old(subProblem->constraints[u][v]) != NOTHING || u >= num_nodes || v >= num_nodes) ==> subProblem->constraints[u][v] == old(subProblem->constraints[u][v])
    dec num_nothing_node - j
  at loop 4 body: use Pigeon(lam k: k == subProblem->num_mandatory_edges ? pc(i, nothing_nodes[j]) : pc(subProblem->mandatoryEdges[k].src, subProblem->mandatoryEdges[k].dest), subProblem->num_mandatory_edges + 1, E)
  at loop 4 end: subProblem->mp[i][nothing_nodes[j]] := subProblem->num_mandatory_edges - 1
  at loop 4 end: subProblem->mp[nothing_nodes[j]][i] := subProblem->num_mandatory_edges - 1
  ensures wf: swf(subProblem)
  ensures sound: istour(problem->graph.num_nodes) && old(admits(subProblem, problem->graph.num_nodes)) ==> result && admits(subProblem, problem->graph.num_nodes)
  ensures kept: forall u, v {subProblem->constraints[u][v]} {old(subProblem->constraints[u][v])}: 0 <= u < N && 0 <= v < N && (old(subProblem->constraints[u][v]) != NOTHING || u >= problem->graph.num_nodes || v >= problem->graph.num_nodes) ==> subProblem->constraints[u][v] == old(subProblem->constraints[u][v])
  ensures exact: admits(subProblem, problem->graph.num_nodes) ==> old(admits(subProblem, problem->graph.num_nodes))

# pairs visited before (i, j) in the upper triangle, row by row
pred seen(u, v, i, j) = min(u, v) < i || min(u, v) == i && max(u, v) < j
pred cpwf(s, o, i, j) = 0 <= s->num_mandatory_edges <= E && s->fb == (j > i ? i + 1 : i) && s->fb <= s->num_forbidden_edges <= E + s->fb
|  && (forall u, v {s->constraints[u][v]} {o->constraints[u][v]}: 0 <= u < N && 0 <= v < N && seen(u, v, i, j) ==> s->constraints[u][v] == o->constraints[u][v])
|  && (forall u, v {s->constraints[u][v]}: 0 <= u < N && 0 <= v < N && seen(u, v, i, j) && s->constraints[u][v] == MANDATORY ==>
|       0 <= s->mp[u][v] < s->num_mandatory_edges && pairis(u, v, s->mandatoryEdges[s->mp[u][v]].src, s->mandatoryEdges[s->mp[u][v]].dest))
|  && (forall k {s->mandatoryEdges[k].src}: 0 <= k < s->num_mandatory_edges ==> 0 <= s->mandatoryEdges[k].src < N && 0 <= s->mandatoryEdges[k].dest < N && s->mandatoryEdges[k].src != s->mandatoryEdges[k].dest
|       && seen(s->mandatoryEdges[k].src, s->mandatoryEdges[k].dest, i, j)
|       && s->constraints[s->mandatoryEdges[k].src][s->mandatoryEdges[k].dest] == MANDATORY && s->mp[s->mandatoryEdges[k].src][s->mandatoryEdges[k].dest] == k && s->mp[s->mandatoryEdges[k].dest][s->mandatoryEdges[k].src] == k)
|  && (forall u, v {s->constraints[u][v]}: 0 <= u < N && 0 <= v < N && u != v && seen(u, v, i, j) && s->constraints[u][v] == FORBIDDEN ==>
|       0 <= s->fp[u][v] < s->num_forbidden_edges - s->fb && pairis(u, v, s->fs[s->fp[u][v]], s->fd[s->fp[u][v]]))
|  && (forall k {s->fs[k]}: 0 <= k < s->num_forbidden_edges - s->fb ==> 0 <= s->fs[k] < N && 0 <= s->fd[k] < N && s->fs[k] != s->fd[k]
|       && seen(s->fs[k], s->fd[k], i, j)
|       && s->constraints[s->fs[k]][s->fd[k]] == FORBIDDEN && s->fp[s->fs[k]][s->fd[k]] == k && s->fp[s->fd[k]][s->fs[k]] == k)

fn copy_constraints
  requires wf: swf(otherSubProblem)
  assigns subProblem->constraints, subProblem->num_forbidden_edges, subProblem->num_mandatory_edges, col(subProblem->mandatoryEdges, src), col(subProblem->mandatoryEdges, dest), subProblem->mp, subProblem->fp, subProblem->fs, subProblem->fd, subProblem->fb
  at entry: useall PcInj
  at entry: useall PcRange
  at entry: subProblem->fb := 0
  loop 1
    inv part: cpwf(subProblem, otherSubProblem, i, i)
    dec N - i
  loop 2
    inv part: cpwf(subProblem, otherSubProblem, i, j)
    dec N - j
  at loop 2 body: if otherSubProblem->constraints[i][j] == MANDATORY then use Pigeon(lam k: k == subProblem->num_mandatory_edges ? pc(i, j) : pc(subProblem->mandatoryEdges[k].src, subProblem->mandatoryEdges[k].dest), subProblem->num_mandatory_edges + 1, E)
  at loop 2 end: subProblem->fb := i == j ? subProblem->fb + 1 : subProblem->fb
  at loop 2 end: if i != j && otherSubProblem->constraints[i][j] == MANDATORY then subProblem->mp[i][j] := subProblem->num_mandatory_edges - 1
  at loop 2 end: if i != j && otherSubProblem->constraints[i][j] == MANDATORY then subProblem->mp[j][i] := subProblem->num_mandatory_edges - 1
  at loop 2 end: if i != j && otherSubProblem->constraints[i][j] == FORBIDDEN then subProblem->fs[subProblem->num_forbidden_edges - 1 - subProblem->fb] := i
  at loop 2 end: if i != j && otherSubProblem->constraints[i][j] == FORBIDDEN then subProblem->fd[subProblem->num_forbidden_edges - 1 - subProblem->fb] := j
  at loop 2 end: if i != j && otherSubProblem->constraints[i][j] == FORBIDDEN then subProblem->fp[i][j] := subProblem->num_forbidden_edges - 1 - subProblem->fb
  at loop 2 end: if i != j && otherSubProblem->constraints[i][j] == FORBIDDEN then subProblem->fp[j][i] := subProblem->num_forbidden_edges - 1 - subProblem->fb
  at loop 2 end: if i != j && otherSubProblem->constraints[i][j] == FORBIDDEN then use Pigeon(lam k: pc(subProblem->fs[k], subProblem->fd[k]), subProblem->num_forbidden_edges - subProblem->fb, E)
  ensures wf: swf(subProblem)
  ensures same: forall u, v {subProblem->constraints[u][v]} {otherSubProblem->constraints[u][v]}: 0 <= u < N && 0 <= v < N ==> subProblem->constraints[u][v] == otherSubProblem->constraints[u][v]
