"""writes properties.jsonl (kept so that the text has one source)"""
import json, os
M = 'src/HybridSolver/main/'
A = M + 'algorithms/'; D = M + 'data_structures/'; L = D + 'doubly_linked_list/'
BB = A + 'branch_and_bound.c'
P = []
def p(id, title, st, over, q, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': q}, 'why_tests_cant': why, 'anchors': a})

T = 'The tests run a handful of fixed instances '
p('C01', 'The reported solution is a Hamiltonian tour of the input graph',
  'When the solver returns with a finite best value, the reported cycle visits every node of the instance exactly once and each of its steps is an edge of the input graph. When it found no tour it says so: the best value stays at "infinite" and the reported cycle is empty.',
  ['inputs', 'configurations'], 'all graphs with 3..N nodes (complete or not), both solver modes, finished or interrupted runs',
  T + 'and look at the value, not at the shape of the tour; sparse graphs on which the greedy start gets stuck are never tried.',
  [BB], [('initial tours', BB + ': nearest_prob_neighbour'), ('tour recognition', BB + ': check_hamiltonian, dfs'), ('incumbent update', BB + ': bound')],
  [('bestSolution, bestValue', 'incumbent tour and its cost', D + 'b_and_b_data.h')], ['branch_and_bound() result'])
p('C02', 'The reported cost is the cost of the reported tour',
  'The best value the solver reports equals the sum of the input weights of the edges of the reported tour, up to floating-point rounding of that sum. Weights used internally for the dual reformulation never leak into it.',
  ['inputs', 'configurations'], 'all graphs, both modes, every incumbent update during the search',
  T + 'whose optimal value is known; a wrong cost on another update path or other weights is not seen.',
  [BB, D + 'mst.c'], [('incumbent cost recomputed on the original weights', BB + ': bound'), ('greedy tour cost', BB + ': nearest_prob_neighbour'), ('edge accumulation', D + 'mst.c: add_edge')])
p('C03', 'An uninterrupted run returns an optimal tour up to the tolerance',
  'If the solver ends without reporting an interruption, no Hamiltonian tour of the input graph is cheaper than the reported value by more than the documented tolerance (EPSILON, one thousandth of the Ghosh estimate). In particular, it reports "no tour" only if the graph has none.',
  ['inputs', 'configurations'], 'all connected graphs with positive weights, both modes, all node counts up to the compiled maximum',
  T + 'and cannot enumerate all weight functions; an unsound pruning rule shows only on particular weights.',
  [BB], [('search loop', BB + ': branch_and_bound'), ('bounding', BB + ': bound'), ('branching', BB + ': branch'), ('fixing and inference', BB + ': variable_fixing, infer_constraints')])
p('C04', 'Branching loses no tour and invents none',
  'Splitting an open subproblem produces children whose sets of admissible tours together are exactly the admissible tours of the parent: one child forces the branching edge, the other forbids it, and all other decisions are inherited. A child is dropped only if it admits no tour.',
  ['inputs', 'histories'], 'every subproblem (any symmetric assignment of mandatory/forbidden/free to edges) and every undecided branching edge',
  'The tests never call the branching step; through whole runs only a few constraint sets are reached.',
  [BB], [('children', BB + ': branch'), ('inheritance', BB + ': copy_constraints'), ('inference in the children', BB + ': infer_constraints')])
p('C05', 'Constraint inference is sound',
  'Deriving forced and forbidden edges from the degree conditions keeps the set of tours that satisfy a subproblem unchanged, and a subproblem is declared contradictory only when no tour satisfies it. Decisions stay symmetric in the two end nodes and previously decided edges keep their decision.',
  ['inputs'], 'all symmetric assignments of mandatory/forbidden/free to the edges of a graph with 3..N nodes',
  'There is no test of the inference; the number of constraint matrices is exponential in the number of edges.',
  [BB], [('degree rules', BB + ': infer_constraints')])
p('C06', 'Variable fixing removes only tours that cannot improve the incumbent',
  'When undecided edges of a subproblem are fixed by the reduced-cost tests, every admissible tour whose cost is below the incumbent value remains admissible. Only undecided edges are changed.',
  ['inputs', 'histories'], 'all graphs, all subproblems with a minimum 1-tree, all incumbent values',
  'Not tested directly; an over-eager test deletes the optimum only for weights near the threshold.',
  [BB], [('exchange costs', BB + ': max_edge_path_1Tree'), ('fixing tests', BB + ': variable_fixing')])
p('C07', 'A relaxation is a 1-tree that obeys the decisions',
  'A relaxation reported as feasible consists of a spanning tree on all nodes but the special one plus two different edges at the special node, all taken from the input graph. It contains no forbidden edge, contains every mandatory edge whenever those can all be in a tour, and infeasibility is reported exactly when no such structure exists.',
  ['inputs', 'configurations'], 'all graphs, special nodes and constraint sets; both spanning-tree algorithms',
  T + 'without constraints; constrained relaxations are reached only indirectly.',
  [BB], [('constrained spanning trees', BB + ': constrained_prim, constrained_kruskal'), ('the two edges of the special node', BB + ': mst_to_one_tree')])
p('C08', 'Each relaxation has minimum cost among the admissible 1-trees',
  'A relaxation is the cheapest 1-tree (for the weights in use) among those that contain all mandatory and no forbidden edges, so it never costs more than any admissible tour. Its stored cost is the sum of the weights of its edges.',
  ['inputs', 'configurations'], 'all graphs with finite weights of any magnitude, all special nodes and constraint sets',
  'A minimality claim quantifies over all spanning trees of all weighted graphs; tests compare a few values.',
  [BB], [('constrained minimum spanning tree', BB + ': constrained_prim, constrained_kruskal'), ('two cheapest edges of the special node', BB + ': mst_to_one_tree')])
p('C09', "Prim's algorithm returns a minimum spanning tree",
  "For a connected graph the result of Prim's algorithm is a spanning tree whose total weight is minimum, and it is marked valid. For a disconnected graph it is marked invalid.",
  ['inputs'], 'all graphs with up to N nodes and any finite weights',
  T + '(ten graphs); minimality quantifies over all spanning trees of all weighted graphs.',
  [A + 'prim.c', D + 'fibonacci_heap.c'], [('greedy growth', A + 'prim.c: prim')])
p('C10', "Kruskal's algorithm returns a minimum spanning tree",
  "For a connected graph the result of Kruskal's algorithm is a spanning tree whose total weight is minimum, and it is marked valid. For a disconnected graph it is marked invalid, and the forest found has minimum weight.",
  ['inputs'], 'all graphs with up to N nodes and any finite weights, with equal weights too',
  T + '(ten graphs); minimality quantifies over all spanning trees of all weighted graphs.',
  [A + 'kruskal.c', D + 'mfset.c'], [('greedy selection', A + 'kruskal.c: kruskal')])
p('C11', 'Sorting the edges gives an ordered permutation with consistent positions',
  'After sorting, the edge list is a permutation of the previous one in non-decreasing order of weight; in hybrid mode edges of equal weight come in non-increasing order of probability. The adjacency matrix still describes the same graph and its stored positions designate the right entries of the sorted list.',
  ['inputs', 'configurations'], 'all edge lists, including equal weights, already sorted and reversed ones, of any length up to the maximum',
  'The tests see sorting only through spanning-tree values; a lost or duplicated edge or a stale position often leaves those unchanged.',
  [A + 'kruskal.c'], [('quicksort', A + 'kruskal.c: wrap_quick_sort, quick_sort, pivot_quicksort, swap')])
p('C12', 'Disjoint sets answer connectivity exactly',
  'After any sequence of unions, two elements have the same representative exactly when a chain of the performed unions connects them. Queries never change the partition and always terminate.',
  ['histories'], 'all sequences of creations, queries and unions, in any order',
  'Whole-history property; no test exercises the structure on its own.',
  [D + 'mfset.c'], [('path compression', D + 'mfset.c: find'), ('union by rank', D + 'mfset.c: merge')])
p('C13', 'The priority queue always delivers a minimum, for any history',
  'After any sequence of insertions, decreases and extractions, an extraction returns an element of minimum current value among those inserted and not yet extracted, and removes exactly that element. An empty queue is recognised as such.',
  ['histories'], 'all operation sequences on up to N elements with distinct keys and arbitrary values',
  'The tests use it only inside Prim on a few graphs; the states with marked nodes and cascading cuts are hardly reached.',
  [D + 'fibonacci_heap.c'], [('links and cuts', D + 'fibonacci_heap.c: link_trees, cut, cascading_cut'), ('consolidation', D + 'fibonacci_heap.c: consolidate'), ('extraction', D + 'fibonacci_heap.c: extract_min'), ('decrease', D + 'fibonacci_heap.c: decrease_value')])
p('C14', 'The doubly linked list behaves as a sequence',
  'After any sequence of insertions and deletions at either end or any index, the list holds exactly the expected sequence, readable forwards, backwards, by index and by iterator, with the right size. Operations with an index out of range change nothing.',
  ['histories'], 'all operation sequences, all indices including those out of range, empty and missing lists',
  'No test of the list; whole-history property.',
  [L + 'list_functions.c', L + 'list_iterator.c'], [('insertion', L + 'list_functions.c: add_elem_list_bottom, add_elem_list_index'), ('deletion', L + 'list_functions.c: delete_list_elem_index, delete_list_elem_bottom'), ('iteration', L + 'list_iterator.c')])
p('C15', 'The list of open subproblems behaves as a sequence of copies',
  'After any sequence of insertions and deletions, the list of subproblems holds exactly the expected sequence, each element an unaltered copy of the subproblem inserted, with the right size and readable by index and by iterator. Operations with an index out of range change nothing.',
  ['histories'], 'all operation sequences and all indices',
  'No test of this list; whole-history property.',
  [D + 'b_and_b_data.c'], [('insertion and deletion', D + 'b_and_b_data.c'), ('iteration', D + 'b_and_b_data.c')])
p('C16', 'Open subproblems are kept in best-first order',
  'In the queue of open subproblems no element has a bound lower than an earlier element by more than the tolerance, whatever was inserted and removed before. Hence the subproblem explored next is within the tolerance of the best open one.',
  ['histories', 'configurations'], 'all insertion and removal histories, both modes',
  'The order influences only running time and incumbents on interruption, which the tests do not observe.',
  [BB], [('insertion position', BB + ': branch'), ('comparison', BB + ': compare_subproblems')])
p('C17', 'A built graph is the graph described by its input',
  'A graph built from a list of nodes and edges contains exactly these, with a symmetric adjacency matrix, neighbour lists that name exactly the adjacent nodes, and the sum of the weights as cost. For points in the plane it is the complete graph whose weights are the Euclidean distances.',
  ['inputs'], 'all lists of up to N nodes and their edges',
  T + 'and check only results computed from them.',
  [D + 'graph.c'], [('construction', D + 'graph.c: create_graph'), ('distances', D + 'graph.c: create_euclidean_graph')])
p('C18', 'Instance files are read faithfully or rejected',
  'Reading an instance file yields exactly the graph the file describes (coordinates, weights, probabilities in hybrid mode, absent edges). A file of the wrong kind, with an unreadable entry, or too large for the compiled maximum ends in an error message, not in a wrong or corrupted graph.',
  ['inputs', 'configurations'], 'all well-formed instance files in both formats, and files with unreadable entries or too many nodes',
  T + 'that are all well formed.',
  [M + 'tsp_instance_reader.c'], [('TSPLIB', M + 'tsp_instance_reader.c: read_tsp_lib_file'), ('CSV', M + 'tsp_instance_reader.c: read_tsp_csv_file')])
p('C19', 'Solving leaves the input graph unchanged',
  'Solving an instance does not alter its graph: nodes, edges, weights, probabilities and adjacency are afterwards as before. The dual reformulation works on a separate copy, which starts from the original weights in every subproblem.',
  ['inputs', 'configurations'], 'all graphs, both modes',
  'The tests do not look at the graph after solving.',
  [BB], [('reformulation graph', BB + ': bound'), ('private copy for mandatory edges', BB + ': constrained_prim')])
p('C20', 'Interruption is reported honestly',
  'If the solver stops because of the time limit while work remains, the interruption flag of the result is set; if the flag is not set, the search was completed. In both cases the best solution found so far is reported.',
  ['schedules', 'inputs'], 'all points at which the time limit may expire',
  'No test runs into the time limit.',
  [BB], [('time limit', BB + ': time_limit_reached, branch_and_bound')])
p('C21', 'Bounding closes a subproblem only when it cannot improve the incumbent',
  'After a subproblem has been bounded, either it remains open with a value that no admissible tour undercuts, or no admissible tour is cheaper than the incumbent by more than the tolerance. The incumbent only changes to a cheaper tour.',
  ['inputs', 'histories', 'configurations'], 'all graphs, subproblems and incumbents; every dual iteration',
  'The tests see only final values; an invalid bound shows only on particular weights.',
  [BB], [('subgradient loop', BB + ': bound'), ('closing rules', BB + ': bound')])
p('C22', 'Trees keep exact totals of what was added to them',
  'Adding edges to a tree keeps its edge list, neighbour lists, edge index and edge count consistent, its cost equal to the sum of the added weights, and in hybrid mode its probability equal to the mean probability of the added edges.',
  ['histories'], 'all sequences of added edges',
  'Only total costs of a few trees are looked at.',
  [D + 'mst.c'], [('creation', D + 'mst.c: create_mst'), ('accumulation', D + 'mst.c: add_edge')])
p('C23', 'The initial tours follow the nearest-neighbour rule',
  'The greedy start walks from the start node, at each step to an unvisited adjacent node of least weight (in hybrid mode also, separately, of highest probability), and closes the tour. The resulting tour replaces the incumbent only if it is complete and cheaper; in hybrid mode the cheaper of the two tours is used.',
  ['inputs', 'configurations'], 'all graphs, start nodes and incumbents, both modes',
  'The initial tour is overwritten by better ones before the tests look.',
  [BB], [('greedy walk', BB + ': nearest_prob_neighbour')])
p('C24', 'The special node is the one with the strongest relaxation',
  'The node chosen as special node for the 1-trees has a minimum 1-tree whose cost is, up to the tolerance, the largest over all nodes of the graph.',
  ['inputs', 'configurations'], 'all graphs in which every node has a 1-tree, both modes',
  'The choice influences only speed; the tests do not observe it.',
  [BB], [('selection', BB + ': find_candidate_node, compare_candidate_node')])
p('C25', 'The search branches only on undecided edges',
  'A subproblem that stays open for branching designates an existing edge of the graph that is undecided in it; hence every branching step decides a further edge and the search tree is finite. A subproblem left without such an edge contains no tour cheaper than the incumbent by more than the tolerance.',
  ['inputs', 'histories', 'configurations'], 'all graphs and subproblems, both modes',
  'Only visible as wasted or endless search on particular instances.',
  [BB], [('choice of the branching edge', BB + ': bound')])
p('C26', 'A relaxation is accepted as a tour exactly when it is one',
  'The test whether a 1-tree is a Hamiltonian tour answers yes exactly when it is one. The cycle extracted from a 1-tree consists of edges of the 1-tree, forms a simple cycle and passes through the special node.',
  ['inputs'], 'all 1-trees on 3..N nodes and all special nodes',
  'Only a few 1-trees occur in the tests.',
  [BB], [('cycle extraction', BB + ': dfs'), ('decision', BB + ': check_hamiltonian')])
p('C27', 'Solving and printing stay within memory and terminate',
  'For every instance that fits the compiled maximum, solving it and printing the result read and write only valid, initialised memory, release what they allocate, never divide by zero or overflow an array, and every loop of a step terminates.',
  ['inputs', 'configurations'], 'all graphs with 3..N nodes (also fewer than the maximum), both modes',
  'The tests run without sanitizers on instances of one size.',
  [BB, D + 'mst.c', D + 'graph.c', D + 'fibonacci_heap.c'], [('array sizes and index arithmetic', BB), ('printing buffers', D + 'mst.c: print_mst')])
p('C28', 'Wall-clock behaviour: the solver stops close to its time limit',
  'The solver stops within a short, bounded time after the configured time limit has expired.',
  ['schedules', 'inputs'], 'all instances and machine speeds',
  'Needs runs of ten minutes and depends on the machine.',
  [BB], [('time limit check between subproblems', BB + ': branch_and_bound')])
p('C29', 'The Python driver hands the solver the instance the network saw',
  'The driver passes to the solver the same instance (coordinates, distances) that the graph neural network scored, and the probabilities it passes are those the network produced for the same edges.',
  ['inputs', 'configurations'], 'all instances and pretrained models',
  'Needs the network, its data and a GPU stack; nothing of it is run by the tests.',
  [M + 'HybridSolver.py', M + 'graph-convnet-tsp/main.py'], [('pipeline', M + 'HybridSolver.py')])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x) + '\n')
print(len(P))
