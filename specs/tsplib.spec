# the TSPLIB format: header lines up to the one with NODE_COORD_SECTION, then one point per line up to the one with EOF
pred PFMT() = "%hu %f %f"
# line of the section mark, and of the end mark (the number of lines if there is none)
logic sec(Int): Int
axiom sec_def: forall f {sec(f)}: 0 <= sec(f) <= fnum(f) && (sec(f) < fnum(f) ==> has(fline(f, sec(f)), "NODE_COORD_SECTION"))
axiom sec_first: forall f, L {sec(f), fline(f, L)}: 0 <= L < sec(f) ==> !has(fline(f, L), "NODE_COORD_SECTION")
pred p0(f) = min(sec(f) + 1, fnum(f))
logic last(Int): Int
axiom last_def: forall f {last(f)}: p0(f) <= last(f) <= fnum(f) && (last(f) < fnum(f) ==> has(fline(f, last(f)), "EOF"))
axiom last_first: forall f, L {last(f), fline(f, L)}: p0(f) <= L < last(f) ==> !has(fline(f, L), "EOF")
pred isplane(f) = exists L {fline(f, L)}: 0 <= L < sec(f) && has(fline(f, L), "EDGE_WEIGHT_TYPE : EUC_2D")
pred px(f, u) = scv(fline(f, p0(f) + u), PFMT(), 1)
pred py(f, u) = scv(fline(f, p0(f) + u), PFMT(), 2)
pred badpoint(f) = exists L {fline(f, L)}: p0(f) <= L < last(f) && scn(fline(f, L), PFMT()) != 3

fn read_tsp_lib_file
  requires io: io(open) == 0 && io(buf) == 0 && lasting(filename) && !io(bad)
  assigns io(), graph->kind, graph->cost, graph->num_nodes, graph->num_edges, graph->orderedEdges, graph->nodes, graph->edges, graph->edges_matrix, graph->nbq
  assigns @DllElem.next, @DllElem.prev, @DllElem.value, @DllElem.own, @DllElem.pos, @List.head, @List.tail, @List.size, @List.gs, alloc(DllElem), alloc(List), alloc(ListIterator), @ListIterator.list, @ListIterator.curr, @ListIterator.index
  local f Int
  at entry: f := fileof(str(filename))
  loop 1
    inv io: io(file) == f && io(open) == code(fp) && code(fp) > 0 && !io(bad) && io(buf) == code(line) && code(line) >= 0 && 0 <= io(pos) <= fnum(f)
    inv before: io(pos) <= sec(f)
    inv plane: check_euc_2d <==> exists L {fline(f, L)}: 0 <= L < io(pos) && has(fline(f, L), "EDGE_WEIGHT_TYPE : EUC_2D")
    dec fnum(f) - io(pos)
  at loop 1 exit: assert io(pos) == p0(f)
  loop 2
    inv io: io(file) == f && io(open) == code(fp) && code(fp) > 0 && !io(bad) && io(buf) == code(line) && code(line) >= 0 && 0 <= io(pos) <= fnum(f)
    inv at: io(pos) == p0(f) + i + (end_of_file ? 1 : 0) && p0(f) + i <= last(f) && (end_of_file ==> last(f) == p0(f) + i)
    inv list: lwf(nodes_list) && nodes_list->size == i && i <= N
    inv mem: forall e {alive(DllElem, e)}: alive(DllElem, e) && @DllElem[e].own != code(nodes_list) <==> old(alive(DllElem, e))
    inv heads: forall r {alive(List, r)}: alive(List, r) && r != code(nodes_list) <==> old(alive(List, r))
    inv values: forall k {nodes_list->gs[k]}: 0 <= k < i ==> lval(nodes_list, k) == code(&nodes[k])
    inv made: forall k {nodes[k].positionInGraph} {nodes[k].x} {nodes[k].y}: 0 <= k < i ==> nodes[k].positionInGraph == k && nodes[k].x == px(f, k) && nodes[k].y == py(f, k)
    inv read: forall L {fline(f, L)}: p0(f) <= L < p0(f) + i ==> scn(fline(f, L), PFMT()) == 3
    dec fnum(f) - io(pos)
  exits err: io(bad) || !isplane(f) || badpoint(f) || last(f) - p0(f) > N
  at before call create_euclidean_graph 1: assert i == last(f) - p0(f)
  ensures closed: io(open) == 0 && io(buf) == 0
  ensures elems: forall e {alive(DllElem, e)}: alive(DllElem, e) <==> old(alive(DllElem, e))
  ensures heads: forall r {alive(List, r)}: alive(List, r) <==> old(alive(List, r))
  ensures iters: forall r {alive(ListIterator, r)}: alive(ListIterator, r) <==> old(alive(ListIterator, r))
  ensures accepted: let f = old(fileof(str(filename))): isplane(f) && !badpoint(f)
  ensures kind: graph->kind == WEIGHTED_GRAPH && !graph->orderedEdges
  ensures wf: gwf(graph)
  ensures points: let f = old(fileof(str(filename))): graph->num_nodes == last(f) - p0(f) && forall u {graph->nodes[u].x} {graph->nodes[u].y}: nodeof(graph, u) ==> graph->nodes[u].x == px(f, u) && graph->nodes[u].y == py(f, u)
  ensures complete: let f = old(fileof(str(filename))): forall u, v {graph->edges_matrix[u][v].weight} {graph->edges_matrix[u][v].positionInGraph}: nodeof(graph, u) && nodeof(graph, v) && u != v ==> names(graph, u, v) && graph->edges_matrix[u][v].weight == sqrt(pow(abs(px(f, u) - px(f, v)), 2) + pow(abs(py(f, u) - py(f, v)), 2)) && graph->edges_matrix[u][v].prob == 0.0
  ensures cost: graph->cost == rsum(col(graph->edges, weight), graph->num_edges)
