# the .csv format.  Line 0 lists the points, every later line that is not empty lists the entries of one row of the matrix;
# entries are separated by ";" and end with the line or at an entry that is just the end of the line.
pred FMT() = "(%lf, %lf)"
pred SEP() = ";"
pred EOL() = "\n"
# number of entries of a line
logic ncol(Int): Int
axiom ncol_def: forall s {ncol(s)}: 0 <= ncol(s) <= ntok(s, SEP()) && (ncol(s) < ntok(s, SEP()) ==> tok(s, SEP(), ncol(s)) == EOL())
axiom ncol_least: forall s, k {ncol(s), tok(s, SEP(), k)}: 0 <= k < ncol(s) ==> tok(s, SEP(), k) != EOL()
pred ent(s, k) = tok(s, SEP(), k)
# rows among the lines before line L, and the line of a row
pred isrow(f, L) = L >= 1 && fline(f, L) != EOL()
logic rb(Int, Int): Int
axiom rb_one: forall f {rb(f, 1)}: rb(f, 1) == 0
axiom rb_zero: forall f {rb(f, 0)}: rb(f, 0) == 0
lemma RbStep(f, L) trusted: definition of the number of rows before a line
  requires L >= 1
  ensures rb(f, L + 1) == rb(f, L) + (isrow(f, L) ? 1 : 0)
logic rowline(Int, Int): Int
lemma RowLine(f, L) trusted: definition of the line of a row (the rows before two row lines differ in number)
  requires isrow(f, L)
  ensures rowline(f, rb(f, L)) == L
pred row(f, u) = fline(f, rowline(f, u))
pred cw(f, u, v) = scv(ent(row(f, u), v), FMT(), 0)
pred cp(f, u, v) = scv(ent(row(f, u), v), FMT(), 1)
# row u names v as adjacent
pred listed(f, u, v) = v < ncol(row(f, u)) && cw(f, u, v) > 0.0
pred fullrow(f, u) = ncol(row(f, u))
# a square table with as many rows as points, adjacency the same in both directions
pred goodfile(f) = ncol(fline(f, 0)) == rb(f, fnum(f)) && (forall u {row(f, u)}: 0 <= u < rb(f, fnum(f)) ==> ncol(row(f, u)) <= rb(f, fnum(f)))
|  && (forall u, v {cw(f, u, v)}: 0 <= u < rb(f, fnum(f)) && 0 <= v < rb(f, fnum(f)) && u != v ==> (listed(f, u, v) <==> listed(f, v, u)))
pred unreadable(f) = exists L, k {ent(fline(f, L), k)}: 0 <= L < fnum(f) && (L == 0 || isrow(f, L) && k != rb(f, L)) && 0 <= k < ncol(fline(f, L)) && scn(ent(fline(f, L), k), FMT()) != 2
pred toobig(f) = exists L {fline(f, L)}: 0 <= L < fnum(f) && (L == 0 && ncol(fline(f, L)) > N || isrow(f, L) && (rb(f, L) >= N || ncol(fline(f, L)) > N))

# what has been built from the rows before row i and the first j entries of row i
pred done(i, j, u, v) = u < i || u == i && v < j
pred hdr(g, f, n) = forall u {g->nodes[u].x} {g->nodes[u].y} {g->nodes[u].positionInGraph}: 0 <= u < n ==> g->nodes[u].positionInGraph == u && g->nodes[u].x == scv(ent(fline(f, 0), u), FMT(), 0) && g->nodes[u].y == scv(ent(fline(f, 0), u), FMT(), 1)
pred rowsread(f, i) = forall u {rowline(f, u)}: 0 <= u < i ==> 1 <= rowline(f, u) < fnum(f) && isrow(f, rowline(f, u)) && rb(f, rowline(f, u)) == u && ncol(row(f, u)) <= N
pred scanned(f, i) = forall u, k {ent(row(f, u), k)}: 0 <= u < i && 0 <= k < ncol(row(f, u)) && k != u ==> scn(ent(row(f, u), k), FMT()) == 2
pred cedges(g, f, i, j, z) = forall k {g->edges[k].src} {g->edges[k].dest} {g->edges[k].weight}: 0 <= k < z ==> 0 <= g->edges[k].src < g->edges[k].dest < N && done(i, j, g->edges[k].src, g->edges[k].dest) && listed(f, g->edges[k].src, g->edges[k].dest)
|  && g->edges[k].positionInGraph == k && g->edges[k].symbol == k + 1 && g->edges[k].weight == cw(f, g->edges[k].src, g->edges[k].dest) && g->edges[k].prob == (HYBRID ? cp(f, g->edges[k].src, g->edges[k].dest) : 0.0)
pred cent(g, u, v, k) = g->edges_matrix[u][v].positionInGraph == k && g->edges_matrix[u][v].weight == g->edges[k].weight && g->edges_matrix[u][v].prob == g->edges[k].prob && g->edges_matrix[u][v].symbol == g->edges[k].symbol && g->edges_matrix[u][v].src == g->edges[k].src && g->edges_matrix[u][v].dest == g->edges[k].dest
pred cmat(g, z) = forall k {g->edges[k].src} {g->edges[k].dest}: 0 <= k < z ==> cent(g, g->edges[k].src, g->edges[k].dest, k) && cent(g, g->edges[k].dest, g->edges[k].src, k)
pred cevery(g, f, i, j, z) = forall u, v {cw(f, u, v)} {g->edges_matrix[u][v].positionInGraph}: 0 <= u < v < N && done(i, j, u, v) && listed(f, u, v) ==> 0 <= g->edges_matrix[u][v].positionInGraph < z && g->edges[g->edges_matrix[u][v].positionInGraph].src == u && g->edges[g->edges_matrix[u][v].positionInGraph].dest == v
pred cnb(g, f, i, j) = (forall u, k {g->nodes[u].neighbours[k]}: 0 <= u < N && u <= i && 0 <= k < g->nodes[u].num_neighbours ==> 0 <= g->nodes[u].neighbours[k] < N && done(i, j, u, g->nodes[u].neighbours[k]) && g->nodes[u].neighbours[k] != u && listed(f, u, g->nodes[u].neighbours[k]) && g->nbq[u][g->nodes[u].neighbours[k]] == k)
|  && (forall u, v {cw(f, u, v)} {g->nbq[u][v]}: 0 <= u < N && 0 <= v < N && u != v && done(i, j, u, v) && listed(f, u, v) ==> 0 <= g->nbq[u][v] < g->nodes[u].num_neighbours && g->nodes[u].neighbours[g->nbq[u][v]] == v)
pred cnum(g, f, i) = forall u {g->nodes[u].num_neighbours}: 0 <= u < N ==> 0 <= g->nodes[u].num_neighbours && (u < i ==> g->nodes[u].num_neighbours <= ncol(row(f, u)) - (ncol(row(f, u)) > u ? 1 : 0)) && (u > i ==> g->nodes[u].num_neighbours == 0)
lemma CsvPlace(i, j, n, z)
  requires 0 <= i < j < n && n <= N && 2 * z <= i * (2 * n - i - 1) + 2 * (j - i - 1)
  step assert (n - i - 1) * (n - i) >= 2 * (j - i)
  step assert n * (n - 1) <= N * (N - 1)
  ensures z < E
lemma CsvRow(i, j, n, z)
  requires 0 <= i < n && 0 <= j <= n && 2 * z <= i * (2 * n - i - 1) + (j > i ? 2 * (j - i - 1) : 0)
  ensures 2 * z <= (i + 1) * (2 * n - (i + 1) - 1)

fn read_tsp_csv_file
  requires io: io(open) == 0 && io(buf) == 0 && lasting(filename) && !io(bad)
  requires zero: forall u {graph->nodes[u].num_neighbours}: 0 <= u < N ==> graph->nodes[u].num_neighbours == 0
  requires zeropos: posn(graph)
  assigns io(), graph->kind, graph->cost, graph->num_nodes, graph->num_edges, graph->orderedEdges, graph->nodes, graph->edges, graph->edges_matrix, graph->nbq
  local f Int
  local c Int
  at entry: f := fileof(str(filename))
  loop 1
    inv io: io(file) == f && io(open) == code(fp) && code(fp) > 0 && !io(bad) && io(buf) == code(line) && code(line) >= 0 && 0 <= io(pos) <= fnum(f) && (first <==> io(pos) == 0)
    inv count: i == rb(f, io(pos)) && graph->num_nodes == i && i <= N && z == graph->num_edges && (first ==> z == 0 && i == 0)
    inv flags: graph->kind == WEIGHTED_GRAPH && !graph->orderedEdges
    inv place: 0 <= z && 2 * z <= i * (2 * N - i - 1)
    inv header: !first ==> ncol(fline(f, 0)) <= N && hdr(graph, f, ncol(fline(f, 0))) && forall k {ent(fline(f, 0), k)}: 0 <= k < ncol(fline(f, 0)) ==> scn(ent(fline(f, 0), k), FMT()) == 2
    inv scanned: scanned(f, i)
    inv rows: rowsread(f, i) && (forall u {rowline(f, u)}: 0 <= u < i ==> rowline(f, u) < io(pos))
    inv lines: forall L {rb(f, L)} {fline(f, L)}: 1 <= L < io(pos) && isrow(f, L) ==> 0 <= rb(f, L) < i && rowline(f, rb(f, L)) == L
    inv edges: cedges(graph, f, i, 0, z)
    inv matrix: cmat(graph, z)
    inv all: cevery(graph, f, i, 0, z)
    inv nb: cnb(graph, f, i, 0)
    inv num: cnum(graph, f, i) && (i < N ==> graph->nodes[i].num_neighbours == 0)
    inv posn: posn(graph)
    inv cost: graph->cost == rsum(col(graph->edges, weight), z)
    dec fnum(f) - io(pos)
  loop 2
    inv io: io(file) == f && io(open) == code(fp) && code(fp) > 0 && !io(bad) && io(buf) == code(line) && io(pos) == 1 && fnum(f) >= 1
    inv cut: io(tk) == fline(f, 0) && io(td) == SEP() && io(tb) == code(line) && code(line) > 0 && io(live)[code(line)]
    inv at: code(token) >= 0 && (code(token) != 0 ? io(tp) == node_num + 1 && node_num < ntok(io(tk), SEP()) && readable(token) && str(token) == ent(io(tk), node_num) : node_num == ntok(io(tk), SEP()))
    inv bound: node_num <= ncol(io(tk)) && node_num <= N
    inv header: hdr(graph, f, node_num) && forall k {ent(fline(f, 0), k)}: 0 <= k < node_num ==> scn(ent(fline(f, 0), k), FMT()) == 2
    inv num: cnum(graph, f, 0) && graph->nodes[0].num_neighbours == 0
    dec ntok(io(tk), SEP()) - node_num
  loop 3
    inv io: io(file) == f && io(open) == code(fp) && code(fp) > 0 && !io(bad) && io(buf) == code(line) && 2 <= io(pos) <= fnum(f) && isrow(f, io(pos) - 1) && rb(f, io(pos) - 1) == i && rowline(f, i) == io(pos) - 1
    inv cut: io(tk) == row(f, i) && io(td) == SEP() && io(tb) == code(line) && code(line) > 0 && io(live)[code(line)]
    inv at: code(token) >= 0 && (code(token) != 0 ? io(tp) == j + 1 && j < ntok(io(tk), SEP()) && readable(token) && str(token) == ent(io(tk), j) : j == ntok(io(tk), SEP()))
    inv bound: j <= ncol(io(tk)) && j <= N && i < N && graph->num_nodes == i && z == graph->num_edges
    inv flags: graph->kind == WEIGHTED_GRAPH && !graph->orderedEdges
    inv place: 0 <= z && 2 * z <= i * (2 * N - i - 1) + (j > i ? 2 * (j - i - 1) : 0)
    inv header: hdr(graph, f, ncol(fline(f, 0)))
    inv read: forall k {ent(row(f, i), k)}: 0 <= k < j && k != i ==> scn(ent(row(f, i), k), FMT()) == 2
    inv edges: cedges(graph, f, i, j, z)
    inv matrix: cmat(graph, z)
    inv all: cevery(graph, f, i, j, z)
    inv nb: cnb(graph, f, i, j)
    inv num: cnum(graph, f, i) && graph->nodes[i].num_neighbours <= j - (j > i ? 1 : 0)
    inv posn: posn(graph)
    inv cost: graph->cost == rsum(col(graph->edges, weight), z)
    dec ntok(io(tk), SEP()) - j
  at loop 2 body: assert node_num < ncol(fline(f, 0)) && ent(fline(f, 0), node_num) == str(token)
  at loop 2 exit: assert node_num == ncol(fline(f, 0))
  at loop 3 body: assert j < ncol(row(f, i)) && ent(row(f, i), j) == str(token)
  at loop 3 body: assert row(f, i) == fline(f, io(pos) - 1) && ent(fline(f, io(pos) - 1), j) == str(token)
  at loop 3 exit: assert j == ncol(row(f, i))
  at loop 3 body: if i < j && j < N then use CsvPlace(i, j, N, z)
  at loop 3 exit: use CsvRow(i, j, N, z)
  at loop 3 end: if listed(f, i, j - 1) && j - 1 != i then graph->nbq[i][j - 1] := graph->nodes[i].num_neighbours - 1
  at loop 3 end: if listed(f, i, j - 1) && j - 1 > i then use RSumPush(iter(col(graph->edges, weight)), col(graph->edges, weight), z - 1)
  at loop 1 body: if io(pos) >= 2 then use RbStep(f, io(pos) - 1)
  at loop 1 body: if isrow(f, io(pos) - 1) then use RowLine(f, io(pos) - 1)
  exits err: io(bad) || unreadable(f) || toobig(f)
  ensures closed: io(open) == 0 && io(buf) == 0
  ensures accepted: let f = old(fileof(str(filename))): fnum(f) > 0 ==> !unreadable(f) && !toobig(f)
  ensures kind: graph->kind == WEIGHTED_GRAPH && !graph->orderedEdges
  ensures rows: let f = old(fileof(str(filename))): graph->num_nodes == rb(f, fnum(f))
  ensures points: let f = old(fileof(str(filename))): fnum(f) > 0 ==> hdr(graph, f, ncol(fline(f, 0)))
  ensures edges: let f = old(fileof(str(filename))): cedges(graph, f, graph->num_nodes, 0, graph->num_edges) && cmat(graph, graph->num_edges)
  ensures all: let f = old(fileof(str(filename))): cevery(graph, f, graph->num_nodes, 0, graph->num_edges)
  ensures cost: graph->cost == rsum(col(graph->edges, weight), graph->num_edges)
  ensures posn: posn(graph)
  ensures weights: let f = old(fileof(str(filename))): forall k {graph->edges[k].weight} {graph->edges[k].prob}: 0 <= k < graph->num_edges ==> graph->edges[k].weight > 0.0 && graph->edges[k].weight == cw(f, graph->edges[k].src, graph->edges[k].dest) && graph->edges[k].prob == (HYBRID ? cp(f, graph->edges[k].src, graph->edges[k].dest) : 0.0)
  ensures wf: let f = old(fileof(str(filename))): fnum(f) > 0 && goodfile(f) ==> gwf(graph)
  ensures entries: let f = old(fileof(str(filename))): fnum(f) > 0 && goodfile(f) ==> forall u, v {graph->edges_matrix[u][v].positionInGraph} {graph->edges_matrix[u][v].weight}: 0 <= u < v < graph->num_nodes ==> (names(graph, u, v) <==> listed(f, u, v)) && (names(graph, v, u) <==> listed(f, u, v)) && (listed(f, u, v) ==> graph->edges_matrix[u][v].weight == cw(f, u, v) && graph->edges_matrix[v][u].weight == cw(f, u, v) && graph->edges_matrix[u][v].prob == (HYBRID ? cp(f, u, v) : 0.0) && graph->edges_matrix[v][u].prob == (HYBRID ? cp(f, u, v) : 0.0))
