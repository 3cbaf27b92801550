"""What each check depends on: functions under contract (spec file, function), lemmas, replay harness."""

# harness -> configurations (MAX_VERTEX_NUM, HYBRID)
DS = [(1, 0), (5, 1), (12, 0), (60, 1)]
P = {}


# focus: clauses that belong to other properties (a failure of one is reported by their checks, not by this one's)
def prop(id, specs, fns, harness, configs, lemmas=(), bounded=(), notes='', rule='', focus=None):
    P[id] = dict(focus=focus, specs=specs, fns=fns, lemmas=list(lemmas), harness=harness, configs=configs, bounded=list(bounded), notes=notes, rule=rule)


prop('C12', ['mfset'], ['find', 'merge', 'create_forest', 'create_forest_constrained'], 'h_ds', [(2, 0), (5, 1), (12, 0), (60, 1)],
     rule='random forests (1..N elements, with or without the special element) and union histories of four shapes, compared with a label array after every query; non-trivial: at least one union')
prop('C14', ['list'], ['new_list', 'del_list', 'is_list_empty', 'get_list_size', 'add_elem_list_bottom', 'add_elem_list_index', 'delete_list_elem_bottom',
                       'delete_list_elem_index', 'get_list_elem_index', 'build_dll_elem', 'create_list_iterator', 'is_list_iterator_valid',
                       'get_current_list_iterator_element', 'list_iterator_next', 'list_iterator_get_next', 'delete_list_iterator'], 'h_ds', [(4, 0), (5, 1)],
     rule='operation histories (all short operation words, then random ones), every reading compared with an array after each operation; every history counts')
prop('C15', ['sublist'], None, 'h_ds', [(3, 0), (5, 1)],
     rule='operation histories on random subproblem contents, whole structs compared with an array after each operation; every history counts')

BB1 = [(4, 0), (5, 1), (7, 0), (9, 1)]
BB2 = [(5, 0), (6, 1), (8, 0), (10, 1)]
BB3 = [(5, 0), (8, 1), (10, 0), (13, 0), (14, 1)]
MS = [(3, 1), (6, 0), (12, 1), (40, 0)]
_b = ' Non-trivial: more than three nodes and at least one Hamiltonian tour.'

prop('C22', ['base', 'mst'], ['create_mst', 'add_edge'], 'h_mst', MS, lemmas=['RSumExt', 'RSumPush', 'Pigeon'],
     rule='random sequences of added edges, all totals recomputed after each; non-trivial: more than one edge')


prop('C05', ['base', 'mst', 'tour', 'constraints'], ['infer_constraints', 'initialize_matrix'], 'h_bnb', BB1, lemmas=['Pigeon', 'TriInj', 'TriBound', 'PcInj', 'PcRange'], rule='random symmetric decision matrices; admissible tours before and after by enumeration.' + _b)
prop('C04', ['base', 'mst', 'tour', 'constraints', 'sublist', 'branch'], ['branch', 'copy_constraints', 'infer_constraints', 'compare_subproblems', 'add_elem_SubProblemList_bottom', 'add_elem_SubProblemList_index', 'SubProblemList_iterator_get_next', 'create_SubProblemList_iterator', 'delete_SubProblemList_iterator'], 'h_bnb', BB1, lemmas=['Pigeon', 'TriInj', 'TriBound', 'PcInj', 'PcRange'], rule='random parents and branching edges; admissible tours of the parent compared with those of the children by enumeration.' + _b)
prop('C16', ['base', 'mst', 'tour', 'constraints', 'sublist', 'branch'], ['branch', 'compare_subproblems', 'add_elem_SubProblemList_bottom', 'add_elem_SubProblemList_index', 'delete_SubProblemList_elem_index', 'get_SubProblemList_elem_index', 'SubProblemList_iterator_get_next', 'create_SubProblemList_iterator', 'delete_SubProblemList_iterator'], 'h_bnb', BB1, lemmas=[], rule='random histories of branchings and removals; all pairs of the queue compared.' + _b)
prop('C11', ['base', 'graphdef', 'sort'], ['swap', 'pivot_quicksort', 'quick_sort', 'wrap_quick_sort'], 'h_mst', MS, lemmas=[], rule='random, sorted and reversed edge lists with ties; every clause of the property re-checked on the result')
prop('C17', ['base', 'graphdef', 'mst', 'list', 'graph'], ['create_graph', 'create_euclidean_graph', 'new_list', 'del_list', 'add_elem_list_bottom', 'get_list_elem_index', 'build_dll_elem', 'create_list_iterator', 'list_iterator_get_next', 'delete_list_iterator'], 'h_graph', MS, lemmas=['Pigeon', 'RSumPush', 'RSumExt', 'PairPlace'], rule='random node and edge lists; every stored fact re-derived from the lists')
prop('C10', ['base', 'graphdef', 'mfset', 'mst', 'sort', 'kruskal'], ['kruskal', 'wrap_quick_sort', 'quick_sort', 'pivot_quicksort', 'swap', 'find', 'merge', 'create_forest', 'create_mst', 'add_edge'], 'h_mst', MS, lemmas=['Pigeon', 'RSumExt', 'RSumPush', 'MulMono', 'MulDelta', 'Tail', 'OneComp', 'TwoComp'], rule='as C09, with minimum spanning forests for disconnected graphs')
prop('C13', ['base', 'fib'], ['create_fibonacci_heap', 'create_node', 'insert_node', 'create_insert_node', 'link_trees', 'consolidate', 'extract_min', 'cut', 'cascading_cut', 'decrease_value', 'delete_node'], 'h_ds', [(12, 0), (12, 1)], lemmas=['Pigeon', 'Degree', 'MinRoot'], rule='random histories of insertions, decreases and extractions on up to 400 elements in five styles, compared with an array; non-trivial: more than two elements')
prop('C09', ['base', 'graphdef', 'mst', 'fib', 'sums', 'prim'], ['prim', 'create_mst', 'add_edge', 'create_fibonacci_heap', 'create_node', 'insert_node', 'create_insert_node', 'link_trees', 'consolidate', 'extract_min', 'cut', 'cascading_cut', 'decrease_value'], 'h_mst', MS, lemmas=['Pigeon', 'RSumExt', 'RSumPush', 'RSumSet', 'RSumPerm', 'CheapestAt', 'RootChild', 'PrimMin', 'Spread', 'Degree', 'MinRoot'], rule='random graphs (connected or not, ties, zero and negative weights, scaled); compared with an independent minimum spanning tree. Non-trivial: more than two nodes.')
prop('C07', ['base', 'graphdef', 'list', 'mfset', 'sort', 'mst', 'tour', 'constraints', 'kruskal', 'fib', 'sums', 'prim', 'mandmin', 'exch', 'cprim', 'onetree', 'ckruskal'], ['constrained_prim', 'constrained_kruskal', 'mst_to_one_tree', 'create_mst', 'add_edge'], 'h_bnb', BB1, lemmas=[], rule='random subproblems; structure of the reported 1-tree, existence by an independent constrained spanning-tree search.' + _b)
prop('C08', ['base', 'graphdef', 'list', 'mfset', 'sort', 'mst', 'tour', 'constraints', 'kruskal', 'fib', 'sums', 'prim', 'mandmin', 'exch', 'cprim', 'onetree', 'ckruskal'], ['constrained_prim', 'constrained_kruskal', 'mst_to_one_tree', 'create_mst', 'add_edge'], 'h_bnb', BB1, lemmas=[], rule='random subproblems; cost compared with an independent constrained minimum and with all admissible tours.' + _b)
prop('C26', ['base', 'graphdef', 'mst', 'tour', 'list', 'tourdef', 'ham'], ['dfs', 'check_hamiltonian', 'new_list', 'del_list', 'add_elem_list_bottom', 'add_elem_list_index', 'delete_list_elem_index', 'get_list_elem_index', 'build_dll_elem'], 'h_bnb', [(3, 0), (5, 1), (8, 0), (20, 1)], lemmas=['Pigeon'], rule='random 1-trees of four shapes on 3..N nodes; verdict and extracted cycle compared with a degree count')
prop('C23', ['base', 'graphdef', 'mst', 'tourdef', 'nn'], ['nearest_prob_neighbour', 'are_adjacent', 'create_mst', 'add_edge'], 'h_bnb', BB1, lemmas=['Pigeon', 'RSumExt', 'RSumPush'], rule='random graphs, start nodes and incumbents; the reported walk checked step by step, and against an independent greedy walk when choices are unique.' + _b)
prop('C24', ['base', 'graphdef', 'mst', 'tour', 'constraints', 'fib', 'sums', 'prim', 'mandmin', 'exch', 'cprim', 'onetree', 'tourdef', 'nn', 'candidate'], ['find_candidate_node', 'compare_candidate_node', 'nearest_prob_neighbour', 'are_adjacent', 'constrained_prim', 'mst_to_one_tree', 'create_mst', 'add_edge'], 'h_bnb', BB1, lemmas=[], rule='random graphs; 1-tree cost of the chosen node compared with the maximum over all nodes (independent computation).' + _b)
prop('C21', ['base', 'graphdef', 'list', 'mst', 'tour', 'constraints', 'sublist', 'branch', 'fib', 'sums', 'prim', 'mandmin', 'exch', 'cprim', 'onetree', 'tourdef', 'ham', 'arb', 'bound'], ['bound', 'constrained_prim', 'mst_to_one_tree', 'check_hamiltonian', 'dfs', 'create_mst', 'add_edge', 'new_SubProblemList', 'delete_SubProblemList', 'add_elem_SubProblemList_bottom', 'get_SubProblemList_elem_index'], 'h_bnb', BB1, lemmas=[], rule='random subproblems and incumbents, several boundings in a row; compared with the cheapest admissible tour by enumeration.' + _b)
prop('C25', ['base', 'graphdef', 'list', 'mst', 'tour', 'constraints', 'sublist', 'branch', 'fib', 'sums', 'prim', 'mandmin', 'exch', 'cprim', 'onetree', 'tourdef', 'ham', 'arb', 'bound', 'nn', 'candidate', 'fixing', 'bb'], ['bound', 'variable_fixing', 'branch_and_bound', 'branch'], 'h_bnb', BB1, lemmas=[], rule='random subproblems; the designated branching edge examined after bounding.' + _b)
prop('C01', ['base', 'graphdef', 'list', 'mfset', 'sort', 'mst', 'kruskal', 'graph', 'tour', 'constraints', 'sublist', 'branch', 'fib', 'sums', 'prim', 'mandmin', 'exch', 'cprim', 'onetree', 'tourdef', 'ham', 'arb', 'bound', 'nn', 'candidate', 'fixing', 'bb', 'io', 'csv', 'tsplib', 'print', 'main'], ['branch_and_bound', 'check_feasibility', 'bound', 'find_candidate_node', 'nearest_prob_neighbour', 'are_adjacent', 'check_hamiltonian', 'dfs', 'print_problem', 'print_subProblem', 'main'], 'h_bnb', BB3, lemmas=[], rule='random graphs of ten kinds (complete, sparse, ties, scaled), whole solver, a quarter of the runs interrupted by a faked clock; the reported cycle is examined edge by edge.' + _b)
prop('C02', ['base', 'graphdef', 'list', 'mfset', 'sort', 'mst', 'kruskal', 'graph', 'tour', 'constraints', 'sublist', 'branch', 'fib', 'sums', 'prim', 'mandmin', 'exch', 'cprim', 'onetree', 'tourdef', 'ham', 'arb', 'bound', 'nn', 'candidate', 'fixing', 'bb', 'io', 'csv', 'tsplib', 'print', 'main'], ['branch_and_bound', 'bound', 'find_candidate_node', 'nearest_prob_neighbour', 'create_mst', 'add_edge', 'mst_to_one_tree', 'print_problem', 'print_subProblem', 'main'], 'h_bnb', BB3, lemmas=[], rule='as C01; the reported value is compared with the sum of the input weights of the reported cycle.' + _b)
prop('C03', ['base', 'graphdef', 'list', 'mst', 'tour', 'constraints', 'sublist', 'branch', 'fib', 'sums', 'prim', 'mandmin', 'exch', 'cprim', 'onetree', 'tourdef', 'ham', 'arb', 'bound', 'nn', 'candidate', 'fixing', 'bb'], ['variable_fixing', 'max_edge_path_1Tree', 'branch_and_bound', 'bound', 'branch', 'infer_constraints', 'copy_constraints', 'initialize_matrix', 'constrained_prim', 'mst_to_one_tree', 'check_feasibility', 'check_hamiltonian'], 'h_bnb', BB3, lemmas=[], rule='random graphs of ten kinds; the reported value is compared with the optimum over all enumerated tours.' + _b)
prop('C19', ['base', 'graphdef', 'list', 'mst', 'tour', 'constraints', 'sublist', 'branch', 'fib', 'sums', 'prim', 'mandmin', 'exch', 'cprim', 'onetree', 'tourdef', 'ham', 'arb', 'bound', 'nn', 'candidate', 'fixing', 'bb'], ['variable_fixing', 'max_edge_path_1Tree', 'branch_and_bound', 'check_feasibility', 'bound', 'find_candidate_node', 'nearest_prob_neighbour', 'branch', 'infer_constraints', 'initialize_matrix', 'constrained_prim', 'mst_to_one_tree', 'create_mst', 'add_edge', 'check_hamiltonian', 'dfs'], 'h_bnb', BB3, lemmas=[], rule='random graphs; the graph is compared with a copy after solving.' + _b)
prop('C20', ['base', 'graphdef', 'list', 'mfset', 'sort', 'mst', 'kruskal', 'graph', 'tour', 'constraints', 'sublist', 'branch', 'fib', 'sums', 'prim', 'mandmin', 'exch', 'cprim', 'onetree', 'tourdef', 'ham', 'arb', 'bound', 'nn', 'candidate', 'fixing', 'bb', 'io', 'csv', 'tsplib', 'print', 'main'], ['branch_and_bound', 'bound', 'branch', 'find_candidate_node', 'print_problem', 'print_subProblem', 'main'], 'h_bnb', BB3, lemmas=[], rule='each instance solved to the end, then again with a faked clock that jumps at a random reading.' + _b)
prop('C06', ['base', 'graphdef', 'list', 'mst', 'tour', 'constraints', 'sublist', 'branch', 'fib', 'sums', 'prim', 'mandmin', 'exch', 'cprim', 'onetree', 'tourdef', 'ham', 'arb', 'bound', 'nn', 'candidate', 'fixing', 'bb'], ['variable_fixing', 'max_edge_path_1Tree', 'bound', 'branch_and_bound'], 'h_bnb', BB1, lemmas=[], rule='random subproblems and incumbents; admissible tours below the incumbent before and after by enumeration.' + _b)
prop('C18', ['base', 'graphdef', 'list', 'mst', 'tour', 'constraints', 'sublist', 'branch', 'fib', 'sums', 'prim', 'mandmin', 'exch', 'cprim', 'graph', 'io', 'csv', 'tsplib'], ['read_tsp_csv_file', 'read_tsp_lib_file', 'create_euclidean_graph', 'create_graph', 'new_list', 'add_elem_list_bottom', 'build_dll_elem', 'create_list_iterator', 'list_iterator_get_next', 'delete_list_iterator', 'del_list'], 'h_graph', MS, lemmas=['CsvPlace', 'CsvRow'], rule='random instance files in both formats, a fifth of them to be rejected; the graph re-derived from the file')
# what the result means, as opposed to what the memory contains
FUNC = set('minimum optimal target incumbent honest infeasible none yes no closed left open cert cover children sound exact same strongest least nearest likeliest walk pwalk improved value adj cross rc less mandatory spanning disconnected exchange rooted allowed subset order sorted cost prob entries all steps tour shown usage points forest'.split())
prop('C27', ['base', 'graphdef', 'list', 'mfset', 'sort', 'mst', 'kruskal', 'graph', 'tour', 'constraints', 'sublist', 'branch', 'fib', 'sums', 'prim', 'mandmin', 'exch', 'cprim', 'ckruskal', 'onetree', 'tourdef', 'ham', 'arb', 'bound', 'nn', 'candidate', 'fixing', 'bb', 'io', 'csv', 'tsplib', 'print', 'main'], None, 'h_bnb', BB2 + [(5, 2), (8, 3)], lemmas=[], rule='random graphs solved and printed under AddressSanitizer and UBSan, memory balance after each run; two more configurations (shown as HYBRID 2 and 3, for 0 and 1) under MemorySanitizer.' + _b, focus=FUNC)
