seed('s12_merge', 'C12', [(DS + 'mfset.c', 'set1_root->parentSet = set2_root;', 'set1->parentSet = set2_root;')], 8, 0, r'''
int main(void) { static Forest f; static Node nd[8]; for (int i = 0; i < 8; i++) nd[i].positionInGraph = i; create_forest(&f, nd, 8);
 merge(&f.sets[0], &f.sets[1]);                                   /* {0,1}, rank 1 */
 merge(&f.sets[2], &f.sets[3]); merge(&f.sets[4], &f.sets[5]); merge(&f.sets[2], &f.sets[4]); /* rank 2 */
 merge(&f.sets[1], &f.sets[2]);                                   /* 1 is not a root */
 FAILIF(find(&f.sets[0]) != find(&f.sets[5])); return 0; }''',
 'a union named by a non-root element of a set whose rank is lower than that of the other set', 'the remaining elements of the first set are not connected to the second: connectivity is answered wrongly')
seed('s13_cut_tail', 'C13', [(DS + 'fibonacci_heap.c', '''            parent->tail_child_list = node->left_sibling;
        }
        node->left_sibling->right_sibling = node->right_sibling;''', '''            parent->tail_child_list = parent->head_child_list;
        }
        node->left_sibling->right_sibling = node->right_sibling;''')], 8, 0, r'''
int main(void) { static OrdTreeNode nd[64]; 
 for (int round = 0; round < 400; round++) { FibonacciHeap h; create_fibonacci_heap(&h); int n = 3 + rn(40), live[64]; double val[64];
  for (int i = 0; i < n; i++) { val[i] = rn(1000); live[i] = 1; create_insert_node(&h, &nd[i], i, val[i]); }
  for (int left = n; left; ) { 
   if (rn(2)) { int k = rn(n); if (live[k]) { val[k] -= rn(300); decrease_value(&h, &nd[k], val[k]); } }
   else { int m = extract_min(&h); FAILIF(m < 0 || m >= n || !live[m]); for (int i = 0; i < n; i++) FAILIF(live[i] && val[i] < val[m]); live[m] = 0; left--; } }
  FAILIF(extract_min(&h) != -1); } return 0; }''',
 'a decrease that cuts the last child of a node with at least two other children, followed by an insertion into or extraction of that node', 'the child list of the node no longer reaches all children: elements are lost or delivered out of order')
seed('s13_min', 'C13', [(DS + 'fibonacci_heap.c', '''            cascading_cut(heap, parent);
        }
        if(node->value < heap->min_root->value){''', '''            cascading_cut(heap, parent);
            if(parent != heap->min_root){
                return;
            }
        }
        if(node->value < heap->min_root->value){''')], 8, 0, r'''
int main(void) { static OrdTreeNode nd[64]; 
 for (int round = 0; round < 400; round++) { FibonacciHeap h; create_fibonacci_heap(&h); int n = 3 + rn(40), live[64]; double val[64];
  for (int i = 0; i < n; i++) { val[i] = rn(1000); live[i] = 1; create_insert_node(&h, &nd[i], i, val[i]); }
  for (int left = n; left; ) { 
   if (rn(2)) { int k = rn(n); if (live[k]) { val[k] -= rn(300); decrease_value(&h, &nd[k], val[k]); } }
   else { int m = extract_min(&h); FAILIF(m < 0 || m >= n || !live[m]); for (int i = 0; i < n; i++) FAILIF(live[i] && val[i] < val[m]); live[m] = 0; left--; } }
  FAILIF(extract_min(&h) != -1); } return 0; }''',
 'an element below an inner node (not below the minimum itself) is decreased below the minimum', 'the minimum is not updated: the next extraction delivers a larger element')
seed('s16_prob', 'C16', [(BB, '''                ( (b->value > a->value) && (a->prob - b->prob) >= BETTER_PROB);''', '''                ( (b->value + EPSILON >= a->value) && (a->prob - b->prob) >= 2 * BETTER_PROB);''')], 6, 1, r'''
static double w(int i, int j) { return 1 + (i + j) % 3; }
int main(void) { mk(&P.graph, 6, w, NULL); SubProblem s; start(&s, 0); SubProblemsList l; new_SubProblemList(&l);
 for (int k = 0; k < 40; k++) { s.value = 10 + k * 0.9 * EPSILON; s.prob = 0.02 + 0.11 * k; s.edge_to_branch = 5; s.id = k; branch(&l, &s); }
 for (size_t i = 0; i < l.size; i++) for (size_t j = i + 1; j < l.size; j++) FAILIF(get_SubProblemList_elem_index(&l, i)->value > get_SubProblemList_elem_index(&l, j)->value + EPSILON);
 return 0; }''', 'hybrid mode; a chain of subproblems whose bounds grow by less than the tolerance each while their probabilities grow', 'each is put before the previous ones, so that the first element of the queue is worse than a later one by much more than the tolerance')
seed('s06_cand', 'C06', [(BB, '''if (first_candidate_edge_weight > second_candidate_edge_weight){''', '''if (first_candidate_edge_weight < second_candidate_edge_weight){''')], 7, 0, r'''
int main(void) { for (int r = 0; r < 3000; r++) { int n = 5 + rn(3); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) WM[i][j] = WM[j][i] = 1 + rn(50); mk(&P.graph, n, wm, NULL);
 SubProblem s; start(&s, rn(n)); double o = opt(n, NULL); constrained_prim(&P.graph, &s, P.candidateNodeId); mst_to_one_tree(&s, &P.graph);
 P.bestValue = P.bestSolution.value = o + 0.5 + rn(4); if (s.oneTree.cost >= P.bestValue) continue; variable_fixing(&s); FAILIF(opt(n, &s) > o); } return 0; }''',
 'the two edges of the special node in the 1-tree have different weights, an incumbent lies between the two reduced costs and the improving tour uses another edge of the special node', 'the test subtracts the cheaper of the two edges, and forbids edges of improving tours')
seed('s05_sym', 'C05', [(BB, '''                    subProblem->constraints[nothing_nodes[j]][i] = MANDATORY;
''', '''                    subProblem->constraints[nothing_nodes[j]][i] = nothing_nodes[j] > i ? MANDATORY : subProblem->constraints[nothing_nodes[j]][i];
''')], 6, 0, r'''
static double w(int i, int j) { return 1 + i + j; }
int main(void) { mk(&P.graph, 6, w, NULL); SubProblem s; start(&s, 0); decide(&s, 5, 1, FORBIDDEN); decide(&s, 5, 2, FORBIDDEN); decide(&s, 5, 4, FORBIDDEN);
 FAILIF(!infer_constraints(&s)); for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) FAILIF(s.constraints[i][j] != s.constraints[j][i]); return 0; }''',
 'a node that is forced to use its two last edges, one of them to a node with a lower number', 'the decision is recorded in one direction only')
seed('s21_lb', 'C21', [(BB, '''            if (generatedSubProblem->value > best_subproblem.value &&
                generatedSubProblem->value <= best_lower_bound) {''', '''            if (generatedSubProblem->value > best_subproblem.value &&
                generatedSubProblem->value <= problem->bestValue) {''')], 7, 0, r'''
int main(void) { for (int r = 0; r < 3000; r++) { int n = 5 + rn(3); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) WM[i][j] = WM[j][i] = (1 + rn(50)) / 10.0; mk(&P.graph, n, wm, NULL);
 SubProblem s; start(&s, rn(n)); double o = opt(n, NULL); P.bestValue = P.bestSolution.value = o * 1.2 + 3 * EPSILON; double inc = P.bestValue; bound(&s);
 if (s.type == OPEN) FAILIF(s.value > o + 1e-9); else FAILIF(o < P.bestValue - EPSILON * 1.001); } return 0; }''',
 'a subgradient iteration yields a 1-tree whose original cost lies above the cheapest tour but below the incumbent', 'the subproblem gets a value that is no lower bound, and is later discarded with its improving tours')
seed('s11_pos', 'C11', [(M + 'algorithms/kruskal.c', '''    graph->edges_matrix[edges[swap_1].dest][edges[swap_1].src].positionInGraph = swap_2;
''', '''    if (edges[swap_1].src < edges[swap_1].dest || edges[swap_1].weight != edges[swap_2].weight) graph->edges_matrix[edges[swap_1].dest][edges[swap_1].src].positionInGraph = swap_2;
''')], 6, 0, r'''
int main(void) { for (int r = 0; r < 500; r++) { int n = 3 + rn(4); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) WM[i][j] = WM[j][i] = 1 + rn(20); mk(&P.graph, n, wm, NULL); Graph *g = &P.graph;
 for (int k = 0; k < g->num_edges; k++) if (rn(2)) { int a = g->edges[k].src, b = g->edges[k].dest; g->edges[k].src = b; g->edges[k].dest = a; g->edges_matrix[a][b].src = g->edges_matrix[b][a].src = b; g->edges_matrix[a][b].dest = g->edges_matrix[b][a].dest = a; }
 wrap_quick_sort(g);
 for (int k = 0; k < g->num_edges; k++) { Edge e = g->edges[k]; FAILIF(k && g->edges[k - 1].weight > e.weight); FAILIF(e.positionInGraph != k || g->edges_matrix[e.src][e.dest].positionInGraph != k); if (r >= 0) FAILIF(g->edges_matrix[e.dest][e.src].positionInGraph != k); } } return 0; }''',
 'an edge stored as (high, low) is exchanged with another edge of the same weight', 'the position in the mirrored entry of the adjacency matrix goes stale')
seed('s23_prob0', 'C23', [(BB, 'double best_edge_prob = -1;', 'double best_edge_prob = 0;')], 6, 1, r'''
static double w(int i, int j) { return (i == 0 && j == 1) ? 1 : 10 + i * 3 + j; } static double p(int i, int j) { return j == i + 1 || (i == 0 && j == 5) ? (i == 3 ? 0.0 : 0.9) : 0.0; }
int main(void) { for (int r = 0; r < 300; r++) { int n = 6; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) WM[i][j] = WM[j][i] = 1 + rn(50); mk(&P.graph, n, wm, p); SubProblem s; start(&s, 0);
 nearest_prob_neighbour(0);
 /* reference walks */ double best = INFINITE; for (int mode = 0; mode < 2; mode++) { int vis[6] = {1}, c = 0; double t = 0; for (int k = 1; k < n; k++) { int b = -1; for (int q = 0; q < P.graph.nodes[c].num_neighbours; q++) { int v = P.graph.nodes[c].neighbours[q]; if (!vis[v] && (b < 0 || (mode ? P.graph.edges_matrix[c][v].prob > P.graph.edges_matrix[c][b].prob : WM[c][v] < WM[c][b]))) b = v; } t += WM[c][b]; vis[b] = 1; c = b; } t += WM[c][0]; if (t < best) best = t; }
 FAILIF(fabs(P.bestValue - best) > 1e-9); } return 0; }''', 'hybrid mode; the walk by probabilities reaches a node whose unvisited neighbours all have probability 0, and its tour would be the cheaper one', 'the walk is abandoned although it could be completed, and a worse start is reported')
seed('s26_triangle', 'C26', [(BB, 'if (path > 2) {', 'if (path > 3) {')], 8, 0, r'''
static double w(int i, int j) { return 1 + i + j; }
int main(void) { for (int n = 3; n <= 6; n++) { mk(&P.graph, n, w, NULL); SubProblem s; start(&s, 0); create_mst(&s.oneTree, P.graph.nodes, n);
 for (int i = 1; i < n; i++) add_edge(&s.oneTree, &P.graph.edges_matrix[i - 1][i]); add_edge(&s.oneTree, &P.graph.edges_matrix[0][2]);
 bool h = check_hamiltonian(&s); FAILIF(h != (n == 3)); FAILIF(s.num_edges_in_cycle != 3); } return 0; }''', 'the cycle of the 1-tree has exactly three edges', 'the cycle is not found: a tour on three nodes is not recognised')
seed('s24_best', 'C24', [(BB, '''            best_subProblem.value = currentCandidate.value;
            best_subProblem.prob = currentCandidate.prob;''', '''            best_subProblem.value = i == 0 ? currentCandidate.value : best_subProblem.value;
            best_subProblem.prob = currentCandidate.prob;''')], 8, 0, r'''
int main(void) { for (int r = 0; r < 200; r++) { int n = 5 + rn(4); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) WM[i][j] = WM[j][i] = 1 + rn(50); mk(&P.graph, n, wm, NULL); SubProblem s; start(&s, 0);
 int c = find_candidate_node(); double v[8], m = 0; for (int i = 0; i < n; i++) { start(&s, i); constrained_prim(&P.graph, &s, i); mst_to_one_tree(&s, &P.graph); v[i] = s.oneTree.cost; if (v[i] > m) m = v[i]; }
 FAILIF(v[c] < m - EPSILON * 1.001); } return 0; }''', 'at least two nodes after the first have stronger relaxations than the first', 'the last of these is chosen instead of the strongest')
seed('s08_second', 'C08', [(BB, '''                bestEdgesPos[1] = bestEdgesPos[0];
                bestEdgesWeight[1] = bestEdgesWeight[0];
''', '''                if (bestEdgesPos[1] == -1) {
                    bestEdgesPos[1] = bestEdgesPos[0];
                    bestEdgesWeight[1] = bestEdgesWeight[0];
                }
''')], 8, 0, r'''
int main(void) { for (int r = 0; r < 300; r++) { int n = 4 + rn(5); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) WM[i][j] = WM[j][i] = 1 + rn(50); mk(&P.graph, n, wm, NULL); SubProblem s; start(&s, 0);
 constrained_prim(&P.graph, &s, 0); double t = s.oneTree.cost; mst_to_one_tree(&s, &P.graph); double a = 1e9, b = 1e9; for (int i = 1; i < n; i++) { if (WM[0][i] < a) { b = a; a = WM[0][i]; } else if (WM[0][i] < b) b = WM[0][i]; }
 FAILIF(fabs(s.oneTree.cost - t - a - b) > 1e-9); } return 0; }''', 'the special node has at least three edges, met in an order where the second cheapest is displaced from the first place after a second one was already known', 'the 1-tree is not minimal, so its cost is no lower bound')
seed('s04_dir', 'C04', [(BB, '''                if (i == 0) {
                    child.constraints[to_branch.src][to_branch.dest] = FORBIDDEN;
                    child.constraints[to_branch.dest][to_branch.src] = FORBIDDEN;
                    child.num_forbidden_edges++;
                } else {''', '''                if (i == 0) {
                    child.constraints[to_branch.src][to_branch.dest] = FORBIDDEN;
                    child.constraints[to_branch.dest][to_branch.src] = FORBIDDEN;
                    child.num_forbidden_edges++;
                } else if (child.num_mandatory_edges < problem->graph.num_nodes / 2) {''')], 8, 1, r'''
static double w(int i, int j) { return 1 + i + j; }
int main(void) { mk(&P.graph, 8, w, NULL); SubProblem s; start(&s, 0); decide(&s, 0, 1, MANDATORY); decide(&s, 1, 2, MANDATORY); decide(&s, 3, 4, MANDATORY); decide(&s, 5, 6, MANDATORY);
 s.edge_to_branch = P.graph.edges_matrix[2][3].positionInGraph; SubProblemsList l; new_SubProblemList(&l); branch(&l, &s);
 int m = 0, f = 0; for (size_t i = 0; i < l.size; i++) { SubProblem *c = get_SubProblemList_elem_index(&l, i); m += c->constraints[2][3] == MANDATORY; f += c->constraints[2][3] == FORBIDDEN; }
 FAILIF(l.size != 2 || m != 1 || f != 1); return 0; }''', 'hybrid mode; a branching edge of probability below one half, in a subproblem in which half as many edges as there are nodes are already mandatory', 'the second child does not force the edge: it repeats the parent')
seed('s27_leak', 'C27', [(BB, '''            delete_SubProblemList_iterator(subProblem_iterators);
            if (position == -1) {
                add_elem''', '''            if (position == -1) {
                delete_SubProblemList_iterator(subProblem_iterators);
                add_elem''')], 6, 0, r'''
#include <malloc.h>
extern size_t __sanitizer_get_current_allocated_bytes(void);
static double w(int i, int j) { return 1 + i + j; }
int main(void) { mk(&P.graph, 6, w, NULL); SubProblem s; start(&s, 0); SubProblemsList l; size_t before = __sanitizer_get_current_allocated_bytes(); new_SubProblemList(&l); s.edge_to_branch = 3; s.value = 5; branch(&l, &s); s.value = 1; branch(&l, &s); delete_SubProblemList(&l);
 FAILIF(__sanitizer_get_current_allocated_bytes() != before); return 0; }''', 'a child is inserted before an open subproblem', 'the iterator is never released')
seed('s17_cost', 'C17', [(DS + 'graph.c', '''        graph->cost += current_edge->weight;

        graph->edges_matrix[dest][src] = graph->edges_matrix[src][dest];
''', '''        graph->cost += current_edge->weight;

        graph->edges_matrix[dest][src] = graph->edges_matrix[src][dest];
        if (current_edge->weight == 0) {
            numEdges++;
            graph->num_edges++;
            continue;
        }
''')], 5, 0, r'''
int main(void) { static Node nd[4]; double xs[4] = {0, 1, 1, 5}, ys[4] = {0, 2, 2, 1}; List *l = new_list(); for (int i = 0; i < 4; i++) { nd[i].positionInGraph = i; nd[i].x = xs[i]; nd[i].y = ys[i]; add_elem_list_bottom(l, &nd[i]); }
 create_euclidean_graph(&P.graph, l); for (int i = 0; i < 4; i++) FAILIF(P.graph.nodes[i].num_neighbours != 3); FAILIF(P.graph.num_edges != 6); return 0; }''', 'two nodes at the same place', 'the edge of length 0 between them is missing from their neighbour lists')
seed('s01_print', 'C01', [(BB, '''                if (i == subProblem->num_edges_in_cycle - 1) {
                    printf("  %i <-> %i", dest, src);''', '''                if (i == subProblem->num_edges_in_cycle - 1) {
                    printf("  %i <-> %i", src, dest);''')], 8, 0, r'''
#include <stdlib.h>
static double w(int i, int j) { return 1 + i + j; }
int main(void) { mk(&P.graph, 6, w, NULL); for (int o = 0; o < 64; o++) { SubProblem s; start(&s, 0); s.num_edges_in_cycle = 6;
 for (int i = 0; i < 6; i++) { int a = i, b = (i + 1) % 6, f = o >> i & 1; s.cycleEdges[i].src = f ? b : a; s.cycleEdges[i].dest = f ? a : b; }
 char *b; size_t z; FILE *old = stdout; stdout = open_memstream(&b, &z); print_subProblem(&s); fclose(stdout); stdout = old;
 int last = -1; for (char *p = strstr(b, "<->"); p; p = strstr(p + 3, "<->")) { char *q = p - 1; while (*q == ' ') q--; while (q[-1] >= '0' && q[-1] <= '9') q--; int x = atoi(q), y = atoi(p + 3); FAILIF(last >= 0 && x != last); last = y; } free(b); } return 0; }''', 'the closing edge of the found cycle is stored against the direction in which the tour is printed', 'the printed sequence of steps is not a closed walk')
seed('s02_reform', 'C02', [(BB, '''analyzedSubProblem.value += problem->graph.edges_matrix[edge->src][edge->dest].weight;''', '''analyzedSubProblem.value += edge->weight;''')], 8, 0, r'''
int main(void) { for (int r = 0; r < 150; r++) { int n = 5 + rn(4); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) WM[i][j] = WM[j][i] = 1 + rn(50); mk(&P.graph, n, wm, NULL); branch_and_bound(&P);
 double c = 0; SubProblem *s = &P.bestSolution; FAILIF(s->num_edges_in_cycle != n); for (int i = 0; i < n; i++) c += WM[s->cycleEdges[i].src][s->cycleEdges[i].dest]; FAILIF(fabs(c - P.bestValue) > 1e-6); } return 0; }''', 'a subgradient iteration after the first, on reformulated weights, yields a tour', 'the value of the tour is the sum of the reformulated weights')
seed('s03_limit', 'C03', [(BB, '''if (problem->bestValue - analyzedSubProblem.value <= EPSILON) {''', '''if (problem->bestValue - analyzedSubProblem.value <= EPSILON * 3) {''')], 8, 0, r'''
int main(void) { for (int r = 0; r < 20000; r++) { int n = 5 + rn(2); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) WM[i][j] = WM[j][i] = 1 + EPSILON * rn(5) * 0.5; mk(&P.graph, n, wm, NULL); branch_and_bound(&P);
 FAILIF(P.bestValue > opt(n, NULL) + EPSILON + 1e-9); } return 0; }''', 'weights that differ by about the tolerance, so that a better tour lies between one and three tolerances below the incumbent', 'a subproblem with a tour better by more than the tolerance is closed')
seed('s07_neg', 'C07', [(BB, '''        if(src != candidateId && dest != candidateId) {

            graph_copy''', '''        if(src != candidateId && dest != candidateId && graph_copy.edges_matrix[src][dest].weight > -graph_copy.cost) {

            graph_copy''')], 8, 0, r'''
static double w(int i, int j) { return 10 + i + 2 * j; }
int main(void) { mk(&P.graph, 6, w, NULL); SubProblem s; start(&s, 0); Graph *g = &P.reformulationGraph;
 for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) if (i != j) g->edges_matrix[i][j].weight -= 30; for (int k = 0; k < g->num_edges; k++) g->edges[k].weight -= 30; g->cost = 0; for (int k = 0; k < g->num_edges; k++) g->cost += g->edges[k].weight;
 decide(&s, 4, 5, MANDATORY); constrained_prim(g, &s, 0); FAILIF(!s.oneTree.isValid); FAILIF(mst_to_one_tree(&s, g) != OPEN); FAILIF(s.oneTree.edges_matrix[4][5] == -1); return 0; }''', 'a reformulated graph whose weights are mostly negative, with a mandatory edge that is not among the cheapest', 'the 1-tree leaves the mandatory edge out')
seed('s09_zero', 'C09', [(M + 'algorithms/prim.c', 'if (weight < tree_nodes[neigh].value) {', 'if (weight < tree_nodes[neigh].value && weight != 0) {')], 8, 0, r'''
#include "main/algorithms/prim.h"
int main(void) { for (int r = 0; r < 200; r++) { int n = 4 + rn(5); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) WM[i][j] = WM[j][i] = 1 + rn(4); mk(&P.graph, n, wm, NULL); Graph *g = &P.graph;
 for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) g->edges_matrix[i][j].weight -= 1; for (int k = 0; k < g->num_edges; k++) g->edges[k].weight -= 1;
 static MST m; prim(g, &m); double c = 0; int in[8] = {1}; for (int k = 1; k < n; k++) { double b = 1e9; int v = -1; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (in[i] && !in[j] && WM[i][j] - 1 < b) { b = WM[i][j] - 1; v = j; } in[v] = 1; c += b; }
 FAILIF(!m.isValid); FAILIF(fabs(m.cost - c) > 1e-9); } return 0; }''', 'an edge of weight exactly 0 (two nodes at the same place) that belongs to every minimum spanning tree', 'the edge is never used: the tree is not minimal, or is reported as not existing')
seed('s14_tail', 'C14', [(DS + 'doubly_linked_list/list_functions.c', '''            list->tail = oldElem->prev;''', '''            list->tail = list->head->next;''')], 8, 0, r'''
int main(void) { for (int n = 2; n < 6; n++) { List *l = new_list(); int v[8]; for (int i = 0; i < n; i++) add_elem_list_bottom(l, &v[i]); delete_list_elem_index(l, n - 1); add_elem_list_bottom(l, &v[7]);
 FAILIF(l->size != n); DllElem *e = l->head; for (int i = 0; i < n; i++) { FAILIF(e == NULL || e->value != (i < n - 1 ? &v[i] : &v[7])); e = e->next; } FAILIF(e != NULL); del_list(l); } return 0; }''', 'the last element of a list that has not exactly three is removed by its index, and another one is appended', 'elements in the middle are lost')
seed('s18_small', 'C18', [(M + 'tsp_instance_reader.c', '                if (weight > 0) {', '                if (weight * 1000000 >= 1) {')], 8, 0, r'''
int main(void) { FILE *f = fopen("vf_small.csv", "w"); fprintf(f, "(0.1, 0.2);(0.3, 0.4);(0.5, 0.6)\n(0, 0);(0.00000002, 0.5);(3.5, 0.5)\n(0.00000002, 0.5);(0, 0);(1.5, 0.5)\n(3.5, 0.5);(1.5, 0.5);(0, 0)\n"); fclose(f);
 read_tsp_csv_file(&P.graph, "vf_small.csv"); remove("vf_small.csv"); FAILIF(P.graph.num_nodes != 3); FAILIF(P.graph.num_edges != 3); return 0; }''', 'a CSV instance with a positive weight below 1e-6', 'the edge is dropped')
seed('s20_last', 'C20', [(BB, '''        if (time_limit_reached()) {
            problem->interrupted = true;''', '''        if (time_limit_reached() && subProblems.size > 1) {
            problem->interrupted = true;''')], 8, 0, r'''
static long calls, at; clock_t clock(void) { return 1000 + ++calls + (calls > at ? 700L * CLOCKS_PER_SEC : 0); }
int main(void) { for (int n = 6; n <= 8; n++) for (int r = 0; r < 20; r++) { for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) WM[i][j] = WM[j][i] = 1 + rn(50); mk(&P.graph, n, wm, NULL);
 at = 1L << 40; calls = 0; branch_and_bound(&P); long full = calls; unsigned ex = P.exploredBBNodes;
 for (long k = 1; k <= full; k++) { at = k; calls = 0; branch_and_bound(&P); FAILIF(P.exploredBBNodes < ex && !P.interrupted); } } return 0; }''', 'the time limit expires when exactly one open subproblem is left', 'the result of the interrupted search is presented as complete')
seed('s22_mean', 'C22', [(DS + 'mst.c', '''        if(tree->num_edges == 1){''', '''        if(tree->num_edges == 1 || tree->prob == 0){''')], 8, 1, r'''
static double w(int i, int j) { return 1 + i + j; } static double p(int i, int j) { return i == 0 && j <= 2 ? 0 : 0.8; }
int main(void) { mk(&P.graph, 6, w, p); static MST m; create_mst(&m, P.graph.nodes, 6); int e[5][2] = {{0, 1}, {0, 2}, {2, 3}, {3, 4}, {4, 5}}; double s = 0;
 for (int k = 0; k < 5; k++) { add_edge(&m, &P.graph.edges_matrix[e[k][0]][e[k][1]]); s += p(e[k][0], e[k][1]); FAILIF(fabs(m.prob - s / (k + 1)) > 1e-6); } return 0; }''', 'hybrid mode; the first edges of the tree all have probability 0', 'the stored probability is no longer the mean')
seed('s10_stop', 'C10', [(M + 'algorithms/kruskal.c', '''    while (num_edges_inG < graph->num_edges && num_edges_inMST < graph->num_nodes - 1) {''', '''    while (num_edges_inG + 1 < graph->num_edges && num_edges_inMST < graph->num_nodes - 1) {''')], 8, 0, r'''
#include "main/algorithms/kruskal.h"
static double w(int i, int j) { return j == i + 1 ? j : i == 0 && j == 2 ? 1.5 : 0; }
int main(void) { mk(&P.graph, 6, w, NULL); static MST m; kruskal(&P.graph, &m); FAILIF(!m.isValid); FAILIF(m.num_edges != 5); return 0; }''', 'a sparse graph in which the heaviest edge is a bridge', 'a connected graph is reported as having no spanning tree')
seed('s15_index', 'C15', [(DS + 'b_and_b_data.c', '''            e->next->prev = e;
            e->prev->next = e;''', '''            e->prev->next = e;
            e->next->prev = index > 1 ? e->prev : e;''')], 5, 0, r'''
int main(void) { SubProblemsList l; new_SubProblemList(&l); static SubProblem s; for (int i = 0; i < 4; i++) { s.id = i; add_elem_SubProblemList_bottom(&l, &s); } s.id = 9; add_elem_SubProblemList_index(&l, &s, 2);
 delete_SubProblemList_elem_index(&l, 3); unsigned want[4] = {0, 1, 9, 3}; FAILIF(l.size != 4); for (size_t i = 0; i < 4; i++) FAILIF(get_SubProblemList_elem_index(&l, i)->id != want[i]); int c = 0; for (SubProblemElem *e = l.tail; e; e = e->prev) c++; FAILIF(c != 4); delete_SubProblemList(&l); return 0; }''', 'a subproblem is inserted in the middle and the one behind it is removed later', 'the removal unlinks the inserted subproblem as well, which is lost')
