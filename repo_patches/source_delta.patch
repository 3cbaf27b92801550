From f73e35dfca248a7c8efaae3783f20ae704ad6446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 01/22] fix: variable_fixing visits only the edges of the
 1-tree

The loop ran to MAX_VERTEX_NUM; with fewer nodes than that it read
uninitialised edges of the 1-tree and indexed the matrices with them.
---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 16e27ff..48d3b31 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -469,7 +469,7 @@ int variable_fixing(SubProblem *currentSubProb){
     }
 
 
-    for (int i = 0; i < MAX_VERTEX_NUM; i++){
+    for (int i = 0; i < currentSubProb->oneTree.num_edges; i++){
         Edge edge_1tree = currentSubProb->oneTree.edges[i];
         double edge_1tree_weight = problem->graph.edges_matrix[edge_1tree.src][edge_1tree.dest].weight;
 
-- 
2.43.0


From 4865e3d7e2c883cb9b3b1080d20401d4ea285a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 02/22] fix: mst_to_one_tree overflowed its arrays on a third
 mandatory edge

The scan goes on until it has seen three mandatory edges at the candidate
node, so the arrays that collect them need three slots.
---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 48d3b31..0d6e72e 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -88,8 +88,8 @@ bool check_hamiltonian(SubProblem *subProblem) {
 BBNodeType mst_to_one_tree(SubProblem *currentSubproblem, Graph *graph) {
 
     Node candidate = graph->nodes[problem->candidateNodeId];
-    int bestEdgesPos[2];
-    double bestEdgesWeight[2];
+    int bestEdgesPos[3];
+    double bestEdgesWeight[3];
     unsigned short src = candidate.positionInGraph;
     unsigned short others [candidate.num_neighbours];
     unsigned short num_others = 0;
-- 
2.43.0


From f18b6ef4214a94edeae4a2283c6c06d31eb8d873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 03/22] fix: room for every mandatory edge in a SubProblem

Inference can make more than MAX_VERTEX_NUM edges mandatory (in a sub-problem
that is then found to be infeasible): the array was overrun.
---
 src/HybridSolver/main/data_structures/b_and_b_data.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/data_structures/b_and_b_data.h b/src/HybridSolver/main/data_structures/b_and_b_data.h
index f76eda6..22128ca 100644
--- a/src/HybridSolver/main/data_structures/b_and_b_data.h
+++ b/src/HybridSolver/main/data_structures/b_and_b_data.h
@@ -53,7 +53,7 @@ typedef struct SubProblem{
     unsigned short num_forbidden_edges; ///< The number of forbidden edges in the SubProblem.
     unsigned short num_mandatory_edges; ///< The number of mandatory edges in the SubProblem.
     int edge_to_branch; ///< The id of the edge to branch in the SubProblem.
-    ConstrainedEdge mandatoryEdges [MAX_VERTEX_NUM]; ///< The mandatory edges in the SubProblem.
+    ConstrainedEdge mandatoryEdges [MAX_EDGES_NUM]; ///< The mandatory edges in the SubProblem.
     ConstraintType constraints [MAX_VERTEX_NUM][MAX_VERTEX_NUM]; ///< The constraints of the edges in the SubProblem.
 }SubProblem;
 
-- 
2.43.0


From 4cfe7fc3a317ca31ba200193b3a21f88146de86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 04/22] fix: a mandatory edge is always the cheapest one for
 constrained_prim

-num_nodes is not below the weights of the dual reformulation when the input
weights are large: a mandatory edge was then left out of the 1-tree and the
optimal tour could be pruned.
---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 0d6e72e..f1c5bcf 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -590,9 +590,9 @@ void constrained_prim(Graph * graph, SubProblem * subProblem, unsigned short can
 
         if(src != candidateId && dest != candidateId) {
 
-            graph_copy.edges_matrix[src][dest].weight = -((double) problem->graph.num_nodes);
-            graph_copy.edges_matrix[dest][src].weight = -((double) problem->graph.num_nodes);
-            graph_copy.edges[graph->edges_matrix[src][dest].positionInGraph].weight = -((double) problem->graph.num_nodes);
+            graph_copy.edges_matrix[src][dest].weight = -FLT_MAX;
+            graph_copy.edges_matrix[dest][src].weight = -FLT_MAX;
+            graph_copy.edges[graph->edges_matrix[src][dest].positionInGraph].weight = -FLT_MAX;
         }
     }
 
-- 
2.43.0


From 4a5ad3a2e647bca215de26bd15095a812ad27e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 05/22] fix: infer_constraints counts the nodes of the graph
 only

With fewer nodes than MAX_VERTEX_NUM the rows of the absent nodes were
inferred upon too, and could force edges towards nodes that do not exist.
---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index f1c5bcf..7d51546 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -185,15 +185,16 @@ void initialize_matrix(SubProblem *subProblem) {
 bool infer_constraints(SubProblem * subProblem){
 
     bool valid = true;
+    short num_nodes = (short) problem->graph.num_nodes;
 
-    for (short i = 0; i < MAX_VERTEX_NUM && valid; i++) {
+    for (short i = 0; i < num_nodes && valid; i++) {
 
         short num_nothing_node = 0;
         short num_mandatory_node = 0;
         short num_forbidden_node = 0;
         short nothing_nodes[MAX_VERTEX_NUM];
 
-        for (short j = 0; j < MAX_VERTEX_NUM; j++) {
+        for (short j = 0; j < num_nodes; j++) {
             if (subProblem->constraints[i][j] == NOTHING) {
                 nothing_nodes[num_nothing_node] = j;
                 num_nothing_node++;
@@ -211,9 +212,9 @@ bool infer_constraints(SubProblem * subProblem){
                 subProblem->num_forbidden_edges++;
                 problem->num_fixed_edges++;
             }
-        } else if (num_mandatory_node > 2 || (MAX_VERTEX_NUM - num_forbidden_node < 2)) {
+        } else if (num_mandatory_node > 2 || (num_nodes - num_forbidden_node < 2)) {
             valid = false;
-        } else if (MAX_VERTEX_NUM - num_forbidden_node == 2) {
+        } else if (num_nodes - num_forbidden_node == 2) {
 
             if (num_nothing_node + num_mandatory_node == 2) {
                 for (short j = 0; j < num_nothing_node; j++) {
-- 
2.43.0


From 58b6c4df9ed5052be464ca09b71f22132ca37ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 06/22] fix: the initial tour uses edges of the graph only

In a graph that is not complete (zero distances are dropped by the CSV reader)
the nearest neighbour walk can get stuck, or end in a node that is not adjacent
to the start: its made-up closing edges were then reported as a tour cheaper
than any tour of the graph. Such a walk is now discarded.
---
 .../main/algorithms/branch_and_bound.c        | 34 +++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 7d51546..e45ab61 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -842,6 +842,16 @@ bool time_limit_reached(void) {
 }
 
 
+static bool are_adjacent(unsigned short node_a, unsigned short node_b) {
+    for (unsigned short i = 0; i < problem->graph.nodes[node_a].num_neighbours; i++) {
+        if (problem->graph.nodes[node_a].neighbours[i] == node_b) {
+            return true;
+        }
+    }
+    return false;
+}
+
+
 void nearest_prob_neighbour(unsigned short start_node) {
     SubProblem nn_subProblem;
     nn_subProblem.num_forbidden_edges = 0;
@@ -851,11 +861,16 @@ void nearest_prob_neighbour(unsigned short start_node) {
     create_mst(&nn_subProblem.oneTree, problem->graph.nodes, problem->graph.num_nodes);
     unsigned short current_node = start_node;
     bool visited[MAX_VERTEX_NUM] = {false};
+    bool tour_found = true; // in a graph that is not complete, the walk may not be able to visit all the nodes
     ConstrainedEdge cycleEdge;
 
     for (unsigned short visited_count = 0; visited_count < problem->graph.num_nodes; visited_count++) {
 
         if (visited_count == problem->graph.num_nodes - 1) {
+            if (!are_adjacent(current_node, start_node)) {
+                tour_found = false;
+                break;
+            }
             add_edge(&nn_subProblem.oneTree, &problem->graph.edges_matrix[current_node][start_node]);
             cycleEdge.src = current_node;
             cycleEdge.dest = start_node;
@@ -873,6 +888,10 @@ void nearest_prob_neighbour(unsigned short start_node) {
                     best_neighbour = problem->graph.nodes[current_node].neighbours[i];
                 }
             }
+            if (best_neighbour == current_node) {
+                tour_found = false;
+                break;
+            }
             add_edge(&nn_subProblem.oneTree, &problem->graph.edges_matrix[current_node][best_neighbour]);
             cycleEdge.src = current_node;
             cycleEdge.dest = best_neighbour;
@@ -882,7 +901,7 @@ void nearest_prob_neighbour(unsigned short start_node) {
             current_node = best_neighbour;
         }
     }
-    nn_subProblem.value = nn_subProblem.oneTree.cost;
+    nn_subProblem.value = tour_found ? nn_subProblem.oneTree.cost : INFINITE;
     nn_subProblem.oneTree.isValid = true;
     nn_subProblem.type = CLOSED_NN;
     nn_subProblem.prob = nn_subProblem.oneTree.prob;
@@ -894,11 +913,16 @@ void nearest_prob_neighbour(unsigned short start_node) {
         prob_nn_subProblem.num_edges_in_cycle = 0;
         create_mst(&prob_nn_subProblem.oneTree, problem->graph.nodes, problem->graph.num_nodes);
         bool prob_visited[MAX_VERTEX_NUM] = {false};
+        bool prob_tour_found = true;
         current_node = start_node;
 
         for (unsigned short visited_count = 0; visited_count < problem->graph.num_nodes; visited_count++) {
 
             if (visited_count == problem->graph.num_nodes - 1) {
+                if (!are_adjacent(current_node, start_node)) {
+                    prob_tour_found = false;
+                    break;
+                }
                 add_edge(&prob_nn_subProblem.oneTree, &problem->graph.edges_matrix[current_node][start_node]);
                 cycleEdge.src = current_node;
                 cycleEdge.dest = start_node;
@@ -916,6 +940,10 @@ void nearest_prob_neighbour(unsigned short start_node) {
                         best_neighbour = problem->graph.nodes[current_node].neighbours[i];
                     }
                 }
+                if (best_neighbour == current_node) {
+                    prob_tour_found = false;
+                    break;
+                }
                 add_edge(&prob_nn_subProblem.oneTree, &problem->graph.edges_matrix[current_node][best_neighbour]);
                 cycleEdge.src = current_node;
                 cycleEdge.dest = best_neighbour;
@@ -925,7 +953,7 @@ void nearest_prob_neighbour(unsigned short start_node) {
                 current_node = best_neighbour;
             }
         }
-        prob_nn_subProblem.value = prob_nn_subProblem.oneTree.cost;
+        prob_nn_subProblem.value = prob_tour_found ? prob_nn_subProblem.oneTree.cost : INFINITE;
         prob_nn_subProblem.oneTree.isValid = true;
         prob_nn_subProblem.type = CLOSED_NN_HYBRID;
         prob_nn_subProblem.prob = prob_nn_subProblem.oneTree.prob;
@@ -1018,6 +1046,8 @@ void branch_and_bound(Problem *current_problem) {
 
         problem->start = clock();
         problem->bestValue = INFINITE;
+        problem->bestSolution.value = INFINITE;
+        problem->bestSolution.num_edges_in_cycle = 0;
         problem->candidateNodeId = find_candidate_node();
         problem->bestSolution.id = 0;
         problem->bestSolution.treeLevel = 0;
-- 
2.43.0


From 6a0611de1923ddcf252a644a4d8cd1ecc98855ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 07/22] fix: bound leaked its generated sub-problems on early
 returns

---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index e45ab61..74320cf 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -737,6 +737,7 @@ void bound(SubProblem *currentSubProb) {
                     if(analyzedSubProblem.type != OPEN){
                         if(iter == 1 || (analyzedSubProblem.type == CLOSED_SUBGRADIENT)) {
                             currentSubProb->type = analyzedSubProblem.type;
+                            delete_SubProblemList(&generatedSubProblems);
                             return;
                         }
                     }
@@ -780,10 +781,12 @@ void bound(SubProblem *currentSubProb) {
 
                 else{
                     currentSubProb->type = CLOSED_UNFEASIBLE;
+                    delete_SubProblemList(&generatedSubProblems);
                     return;
                 }
             } else {
                 currentSubProb->type = CLOSED_UNFEASIBLE;
+                delete_SubProblemList(&generatedSubProblems);
                 return;
             }
 
-- 
2.43.0


From 85884ba496d3e3416c8eaecbbae2cb835762fed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 08/22] fix: inserting at the end of a SubProblem list updates
 its tail

---
 src/HybridSolver/main/data_structures/b_and_b_data.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/HybridSolver/main/data_structures/b_and_b_data.c b/src/HybridSolver/main/data_structures/b_and_b_data.c
index e9cf1dc..f120683 100644
--- a/src/HybridSolver/main/data_structures/b_and_b_data.c
+++ b/src/HybridSolver/main/data_structures/b_and_b_data.c
@@ -99,6 +99,7 @@ void add_elem_SubProblemList_index(SubProblemsList *list, SubProblem *element, s
         if (supp == NULL) {
             e = build_list_elem(element, NULL, list->tail);
             list->tail->next = e;
+            list->tail = e;
         } else {
             e = build_list_elem(element, supp, supp->prev);
             e->next->prev = e;
-- 
2.43.0


From e60098d201fa044c8671cf80502082684400a2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 09/22] fix: inserting at the end of a List updates its tail

A later insertion at the bottom overwrote the link and lost the element.
---
 .../main/data_structures/doubly_linked_list/list_functions.c     | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c b/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
index 9f2be7e..f068d1f 100644
--- a/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
+++ b/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
@@ -110,6 +110,7 @@ void add_elem_list_index(List *list, void *element, size_t index) {
         if (supp == NULL) {
             e = build_dll_elem(element, NULL, list->tail);
             list->tail->next = e;
+            list->tail = e;
         } else {
             e = build_dll_elem(element, supp, supp->prev);
             e->next->prev = e;
-- 
2.43.0


From adf7eb04632eb8cfee6697b85a90d8a692ba90b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 10/22] fix: delete_list_elem_bottom dereferenced NULL on a
 List of one element

---
 .../data_structures/doubly_linked_list/list_functions.c     | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c b/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
index f068d1f..0a224f2 100644
--- a/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
+++ b/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
@@ -134,7 +134,11 @@ void delete_list_elem_bottom(List *list) {
     DllElem *oldTail = list->tail;
 
     list->tail = oldTail->prev;
-    list->tail->next = NULL;
+    if (list->tail != NULL) {
+        list->tail->next = NULL;
+    } else {
+        list->head = NULL;
+    }
 
     free(oldTail);
     list->size--;
-- 
2.43.0


From 0ede28f320a3b97771be6842dfc47c41a3bd0b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 11/22] fix: consolidate overran its degree list

Cuts make trees of degree k with as few as Fibonacci(k+2) nodes, so the degree
of a root can exceed ceil(log2(num_nodes)) + 1: the array was overrun.
---
 src/HybridSolver/main/data_structures/fibonacci_heap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/data_structures/fibonacci_heap.c b/src/HybridSolver/main/data_structures/fibonacci_heap.c
index 49a9a9b..99820a9 100644
--- a/src/HybridSolver/main/data_structures/fibonacci_heap.c
+++ b/src/HybridSolver/main/data_structures/fibonacci_heap.c
@@ -113,7 +113,7 @@ void swap_roots(FibonacciHeap * heap, OrdTreeNode * node1, OrdTreeNode * node2){
 
 void consolidate(FibonacciHeap * heap){
 
-    int dimension = ((int) ceil(log(heap->num_nodes) / log(2))) + 2;
+    int dimension = heap->num_nodes + 1; // after some cuts, the degree of a root can exceed log2(num_nodes)
     OrdTreeNode * degree_list [dimension] ;
 
     for (int i = 0; i < dimension; i++) {
-- 
2.43.0


From ce77eecaabc4e031f6a41c9013a6c9450096cd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 12/22] fix: sorting a graph without edges went out of bounds

num_edges - 1 wraps to 65535 when it is passed as an unsigned short.
---
 src/HybridSolver/main/algorithms/kruskal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/algorithms/kruskal.c b/src/HybridSolver/main/algorithms/kruskal.c
index 69aa710..fa7338b 100644
--- a/src/HybridSolver/main/algorithms/kruskal.c
+++ b/src/HybridSolver/main/algorithms/kruskal.c
@@ -123,7 +123,9 @@ static void quick_sort(Graph * graph, unsigned short first, unsigned short last)
 void wrap_quick_sort(Graph * graph) {
     if (!graph->orderedEdges) {
         graph->orderedEdges = true;
-        quick_sort(graph, 0, graph->num_edges - 1);
+        if (graph->num_edges > 0) {
+            quick_sort(graph, 0, graph->num_edges - 1);
+        }
     }
 }
 
-- 
2.43.0


From d2da21c491468e570c86603050dbe35880b2ddf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 13/22] fix: pivot_quicksort read one edge past the end of the
 array

---
 src/HybridSolver/main/algorithms/kruskal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/algorithms/kruskal.c b/src/HybridSolver/main/algorithms/kruskal.c
index fa7338b..422283a 100644
--- a/src/HybridSolver/main/algorithms/kruskal.c
+++ b/src/HybridSolver/main/algorithms/kruskal.c
@@ -82,7 +82,9 @@ static int pivot_quicksort(Graph * graph, unsigned short first, unsigned short l
         while (i <= j && ((!HYBRID && pivot_weight >= i_edge.weight) ||
                           (HYBRID && (pivot_weight > i_edge.weight || (pivot_weight == i_edge.weight && pivot_prob <= i_edge.prob))))){
             i += 1;
-            i_edge = edges[i];
+            if (i <= j) {
+                i_edge = edges[i];
+            }
         }
         Edge j_edge = edges[j];
         while (i <= j && (j_edge.weight > pivot_weight
-- 
2.43.0


From 26b84b8853f3616cceb0dfb48c8785670e358aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 14/22] fix: the printing buffers had no room for the
 terminator

---
 src/HybridSolver/main/data_structures/graph.c | 2 +-
 src/HybridSolver/main/data_structures/mst.c   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/HybridSolver/main/data_structures/graph.c b/src/HybridSolver/main/data_structures/graph.c
index 26da3df..4a733bf 100644
--- a/src/HybridSolver/main/data_structures/graph.c
+++ b/src/HybridSolver/main/data_structures/graph.c
@@ -116,7 +116,7 @@ void print_graph(const Graph *G) {
     double dim = (log(G->num_nodes) / log(10) + 1) * 2 + 7;
     for (unsigned short j = 0; j < G->num_edges; j++) {
         char edge_print [(int) dim] ;
-        char edge_print_dest [(int) (dim-7)/2] ;
+        char edge_print_dest [(int) (dim-7)/2 + 1] ;
         Edge curr = G->edges[j];
         sprintf(edge_print, "%i", curr.src);
         strcat(edge_print, " <--> ");
diff --git a/src/HybridSolver/main/data_structures/mst.c b/src/HybridSolver/main/data_structures/mst.c
index 3e71278..e640ea0 100644
--- a/src/HybridSolver/main/data_structures/mst.c
+++ b/src/HybridSolver/main/data_structures/mst.c
@@ -73,7 +73,7 @@ void print_mst(const MST * tree){
     double dim = (log(tree->num_nodes) / log(10) + 1) * 2 + 7;
     for (unsigned short i = 0; i < tree->num_edges; i++) {
         char edge_print [(int) dim] ;
-        char edge_print_dest [(int) (dim-7)/2] ;
+        char edge_print_dest [(int) (dim-7)/2 + 1] ;
         const Edge * curr = &tree->edges[i];
         sprintf(edge_print, "%i", curr->src);
         strcat(edge_print, " <--> ");
@@ -95,7 +95,7 @@ void print_mst_original_weight(const MST * tree, const Graph * graph){
     double dim = (log(tree->num_nodes) / log(10) + 1) * 2 + 7;
     for (unsigned short i = 0; i < tree->num_edges; i++) {
         char edge_print [(int) dim] ;
-        char edge_print_dest [(int) (dim-7)/2] ;
+        char edge_print_dest [(int) (dim-7)/2 + 1] ;
         const Edge * curr = &tree->edges[i];
         sprintf(edge_print, "%i", curr->src);
         strcat(edge_print, " <--> ");
-- 
2.43.0


From 5e69241ed1e6695708ca8c4c336f7a90e16f64e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 15/22] fix: read_tsp_lib_file accepted any kind of instance

The test on EDGE_WEIGHT_TYPE was inverted: every line that is not the EUC_2D
one made the instance an euclidean one.
---
 src/HybridSolver/main/tsp_instance_reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/tsp_instance_reader.c b/src/HybridSolver/main/tsp_instance_reader.c
index 99c940b..44ad66b 100644
--- a/src/HybridSolver/main/tsp_instance_reader.c
+++ b/src/HybridSolver/main/tsp_instance_reader.c
@@ -28,7 +28,7 @@ void read_tsp_lib_file(Graph *graph, char *filename) {
     bool check_euc_2d = false;
     while (getline(&line, &len, fp) != -1 &&
            strstr(line, "NODE_COORD_SECTION") == NULL) {
-        if (strstr(line, "EDGE_WEIGHT_TYPE : EUC_2D") == NULL) {
+        if (strstr(line, "EDGE_WEIGHT_TYPE : EUC_2D") != NULL) {
             check_euc_2d = true;
         }
     }
-- 
2.43.0


From 8eeeb50630a586c0efbf5b1d1e95e15718b11b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 16/22] fix: the readers overran the Graph on instances that
 are too large

A file with more than MAX_VERTEX_NUM nodes is now refused.
---
 src/HybridSolver/main/tsp_instance_reader.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/HybridSolver/main/tsp_instance_reader.c b/src/HybridSolver/main/tsp_instance_reader.c
index 44ad66b..0fcc52a 100644
--- a/src/HybridSolver/main/tsp_instance_reader.c
+++ b/src/HybridSolver/main/tsp_instance_reader.c
@@ -56,6 +56,11 @@ void read_tsp_lib_file(Graph *graph, char *filename) {
                 printf("\nFile: %s\n", filename);
                 exit(1);
             }
+            if (i >= MAX_VERTEX_NUM) {
+                perror("The instance has more nodes than MAX_VERTEX_NUM.\n");
+                printf("\nFile: %s\n", filename);
+                exit(1);
+            }
             nodes[i].positionInGraph = i;
             nodes[i].x = x;
             nodes[i].y = y;
@@ -107,6 +112,11 @@ void read_tsp_csv_file(Graph *graph, char *filename) {
                     printf("\nFile: %s\n", filename);
                     exit(1);
                 }
+                if (node_num >= MAX_VERTEX_NUM) {
+                    perror("The instance has more nodes than MAX_VERTEX_NUM.\n");
+                    printf("\nFile: %s\n", filename);
+                    exit(1);
+                }
                 graph->nodes[node_num].positionInGraph = node_num;
                 graph->nodes[node_num].x = x;
                 graph->nodes[node_num].y = y;
@@ -130,6 +140,12 @@ void read_tsp_csv_file(Graph *graph, char *filename) {
                     exit(1);
                 }
 
+                if (i >= MAX_VERTEX_NUM || j >= MAX_VERTEX_NUM) {
+                    perror("The instance has more nodes than MAX_VERTEX_NUM.\n");
+                    printf("\nFile: %s\n", filename);
+                    exit(1);
+                }
+
                 if (weight > 0) {
                     if (j > i) {
                         graph->nodes[i].neighbours[graph->nodes[i].num_neighbours] = j;
-- 
2.43.0


From 363078847c1b188c1257dbd340d0cfe1340a5b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 17/22] fix: an empty line of a CSV instance was counted as a
 node

An empty line at the end of the file added a node without neighbours (past the
end of the array when the file has MAX_VERTEX_NUM nodes already).
---
 src/HybridSolver/main/tsp_instance_reader.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HybridSolver/main/tsp_instance_reader.c b/src/HybridSolver/main/tsp_instance_reader.c
index 0fcc52a..f0fc45e 100644
--- a/src/HybridSolver/main/tsp_instance_reader.c
+++ b/src/HybridSolver/main/tsp_instance_reader.c
@@ -127,6 +127,9 @@ void read_tsp_csv_file(Graph *graph, char *filename) {
 
             continue;
         }
+        if (strcmp(line, "\n") == 0) {
+            continue;
+        }
         char *token = strtok(line, ";");
         unsigned short j = 0;
         while (token != NULL && strcmp(token, "\n") != 0) {
-- 
2.43.0


From bc4cc11da5361304eb776457874dd423694afb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:10 +0000
Subject: [PATCH 18/22] fix: variable fixing decided the edge that is about to
 be branched on

The branching then overwrote that decision and listed the edge a second
time among the mandatory ones.
---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 74320cf..cb81569 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -452,7 +452,9 @@ int variable_fixing(SubProblem *currentSubProb){
                     }
                 }
 
-                if (currentSubProb->oneTree.cost + current_edge.weight - max_edge_path >= problem->bestValue){
+                // the edge to branch on must remain undecided: the branching decides it
+                if ((int) i != currentSubProb->edge_to_branch &&
+                    currentSubProb->oneTree.cost + current_edge.weight - max_edge_path >= problem->bestValue){
                     currentSubProb->constraints[current_edge.src][current_edge.dest] = FORBIDDEN;
                     currentSubProb->constraints[current_edge.dest][current_edge.src] = FORBIDDEN;
                     currentSubProb->num_forbidden_edges++;
@@ -474,7 +476,10 @@ int variable_fixing(SubProblem *currentSubProb){
         Edge edge_1tree = currentSubProb->oneTree.edges[i];
         double edge_1tree_weight = problem->graph.edges_matrix[edge_1tree.src][edge_1tree.dest].weight;
 
-        if(currentSubProb->constraints[edge_1tree.src][edge_1tree.dest] == NOTHING) {
+        int position_in_graph = problem->graph.edges_matrix[edge_1tree.src][edge_1tree.dest].positionInGraph;
+
+        if(position_in_graph != currentSubProb->edge_to_branch &&
+           currentSubProb->constraints[edge_1tree.src][edge_1tree.dest] == NOTHING) {
             if (edge_1tree.src != problem->candidateNodeId && edge_1tree.dest != problem->candidateNodeId) {
                 if (currentSubProb->oneTree.cost + replacement_costs[i] - edge_1tree_weight >= problem->bestValue) {
                     currentSubProb->constraints[edge_1tree.src][edge_1tree.dest] = MANDATORY;
-- 
2.43.0


From f5612349c2ec14efccf77705a510e3f07b7bf994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:30 +0000
Subject: [PATCH 19/22] fix: a CSV instance with a blank row beyond the
 compiled maximum was accepted and overran the node array

---
 src/HybridSolver/main/tsp_instance_reader.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/tsp_instance_reader.c b/src/HybridSolver/main/tsp_instance_reader.c
index f0fc45e..4e7c282 100644
--- a/src/HybridSolver/main/tsp_instance_reader.c
+++ b/src/HybridSolver/main/tsp_instance_reader.c
@@ -130,6 +130,11 @@ void read_tsp_csv_file(Graph *graph, char *filename) {
         if (strcmp(line, "\n") == 0) {
             continue;
         }
+        if (i >= MAX_VERTEX_NUM) {
+            perror("The instance has more nodes than MAX_VERTEX_NUM.\n");
+            printf("\nFile: %s\n", filename);
+            exit(1);
+        }
         char *token = strtok(line, ";");
         unsigned short j = 0;
         while (token != NULL && strcmp(token, "\n") != 0) {
@@ -143,7 +148,7 @@ void read_tsp_csv_file(Graph *graph, char *filename) {
                     exit(1);
                 }
 
-                if (i >= MAX_VERTEX_NUM || j >= MAX_VERTEX_NUM) {
+                if (j >= MAX_VERTEX_NUM) {
                     perror("The instance has more nodes than MAX_VERTEX_NUM.\n");
                     printf("\nFile: %s\n", filename);
                     exit(1);
-- 
2.43.0


From c1e307de9197d7c797cb302c37cb137019ef8f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:31 +0000
Subject: [PATCH 20/22] fix: a graph without nodes was taken as feasible and
 searched

---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index cb81569..667b244 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -1033,7 +1033,10 @@ unsigned short find_candidate_node(void) {
 
 bool check_feasibility(Graph *graph) {
 
-    bool feasible = true;
+    bool feasible = graph->num_nodes > 0;
+    if (!feasible) {
+        printf("\nThe graph is not feasible for the BB algorithm. It has no nodes.");
+    }
     for (short i = 0; feasible && i < graph->num_nodes; i++) {
         Node current_node = graph->nodes[i];
         if (current_node.num_neighbours < 2) {
-- 
2.43.0


From b2fc160e21d9cdcfca276d37ecce7b0d54ff8e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:33 +0000
Subject: [PATCH 21/22] fix: an infeasible graph left the best value, cycle and
 interruption flag of the result undefined

---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 667b244..fab1413 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -1052,13 +1052,14 @@ bool check_feasibility(Graph *graph) {
 void branch_and_bound(Problem *current_problem) {
 
     problem = current_problem;
+    problem->bestValue = INFINITE;
+    problem->bestSolution.value = INFINITE;
+    problem->bestSolution.num_edges_in_cycle = 0;
+    problem->interrupted = false;
 
     if (check_feasibility(&problem->graph)) {
 
         problem->start = clock();
-        problem->bestValue = INFINITE;
-        problem->bestSolution.value = INFINITE;
-        problem->bestSolution.num_edges_in_cycle = 0;
         problem->candidateNodeId = find_candidate_node();
         problem->bestSolution.id = 0;
         problem->bestSolution.treeLevel = 0;
@@ -1066,7 +1067,6 @@ void branch_and_bound(Problem *current_problem) {
         problem->exploredBBNodes = 0;
         problem->generatedBBNodes = 0;
         problem->totTreeLevels = 1;
-        problem->interrupted = false;
         problem->reformulationGraph = problem->graph;
         problem->generatedBBNodes++;
         problem->num_fixed_edges = 0;
-- 
2.43.0


From 5542911b2b4495948337339f552e127f010fa92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:45 +0000
Subject: [PATCH 22/22] fix: printing a nearest-neighbour tour read
 indeterminate fields of the SubProblem

---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index fab1413..90d4eb6 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -862,6 +862,10 @@ static bool are_adjacent(unsigned short node_a, unsigned short node_b) {
 
 void nearest_prob_neighbour(unsigned short start_node) {
     SubProblem nn_subProblem;
+    nn_subProblem.id = 0;
+    nn_subProblem.fatherId = -1;
+    nn_subProblem.treeLevel = 0;
+    nn_subProblem.edge_to_branch = -1;
     nn_subProblem.num_forbidden_edges = 0;
     nn_subProblem.num_mandatory_edges = 0;
     nn_subProblem.num_edges_in_cycle = 0;
@@ -916,6 +920,11 @@ void nearest_prob_neighbour(unsigned short start_node) {
 
     if (HYBRID) {
         SubProblem prob_nn_subProblem;
+        prob_nn_subProblem.id = 0;
+        prob_nn_subProblem.fatherId = -1;
+        prob_nn_subProblem.treeLevel = 0;
+        prob_nn_subProblem.edge_to_branch = -1;
+        prob_nn_subProblem.timeToReach = nn_subProblem.timeToReach;
         prob_nn_subProblem.num_forbidden_edges = 0;
         prob_nn_subProblem.num_mandatory_edges = 0;
         prob_nn_subProblem.num_edges_in_cycle = 0;
-- 
2.43.0

