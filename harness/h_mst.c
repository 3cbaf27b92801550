/* C09 Prim, C10 Kruskal, C11 sorting, C22 tree totals */
#include "gen.h"
#include "main/algorithms/kruskal.h"
#include "main/algorithms/prim.h"
static Graph G, G0; static MST T;
static int mkg(void) {
    int n = 1 + rnd(NV); if (rnd(4) == 0) n = NV;
    gen_weights(n, rnd(10));
    if (rnd(6) == 0) for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (W[i][j] >= 0 && rnd(3) == 0) W[i][j] = W[j][i] = 0;
    if (rnd(8) == 0) { double sc = rnd(2) ? 1e12 : 1e-9; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (W[i][j] > 0) W[i][j] *= sc; }
    SH = rnd(4) ? 0 : 0.7; if (rnd(16) == 0) SH = 1000;
    build(&G, n, rnd(4)); g_nontrivial = n > 2; dump_graph(n); return n;
}
static void tree_checks(int n, bool forest_min) {
    check_tree(&T, n, &G);
    double c; int k = mst_oracle(n, -1, &c, NULL); double c1 = fabs(c) + fabs(SH) * k; c -= SH * k;
    bool conn = k == n - 1;
    uf_init(n);
    for (int e = 0; e < T.num_edges; e++) CHECK(uf_union(T.edges[e].src, T.edges[e].dest), "the result has a cycle");
    CHECK(T.isValid == conn, "marked %s, but the graph is %s", T.isValid ? "valid" : "invalid", conn ? "connected" : "disconnected");
    if (conn) CHECK(T.num_edges == n - 1, "%d edges, expected %d", T.num_edges, n - 1);
    if (conn || forest_min) { CHECK(T.num_edges == k, "%d edges, expected %d", T.num_edges, k); CHECK(fabs(T.cost - c) <= 1e-9 * (1e-12 + c1), "weight %.17g, minimum %.17g", T.cost, c); }
}
static void c09(void) { int n = mkg(); memset(&T, 0xA5, sizeof T); const char *w; G0 = G; prim(&G, &T); tree_checks(n, false); CHECK(eq_graph(&G, &G0, &w), "graph altered: %s", w); }
static bool before(const Edge *a, const Edge *b) { return a->weight < b->weight || (a->weight == b->weight && (!HYBRID || a->prob >= b->prob)); }
static void sorted_checks(int n) {
    CHECK(G.num_edges == G0.num_edges && G.num_nodes == G0.num_nodes && eqd(G.cost, G0.cost), "counts changed");
    static bool seen[NV * NV]; memset(seen, 0, sizeof seen);
    for (int k = 0; k < G.num_edges; k++) {
        const Edge *e = &G.edges[k];
        if (k) CHECK(before(&G.edges[k - 1], e), "edges %d and %d out of order: %.17g/%.3g, %.17g/%.3g", k - 1, k, G.edges[k - 1].weight, G.edges[k - 1].prob, e->weight, e->prob);
        CHECK(e->positionInGraph == k, "edge %d stores position %d", k, e->positionInGraph);
        int o = -1; for (int l = 0; l < G0.num_edges; l++) if (G0.edges[l].symbol == e->symbol) o = l;
        CHECK(o >= 0 && !seen[o], "edge list is not a permutation"); seen[o] = true;
        CHECK(e->src == G0.edges[o].src && e->dest == G0.edges[o].dest && eqd(e->weight, G0.edges[o].weight) && eqd(e->prob, G0.edges[o].prob), "edge altered");
        CHECK(eq_edge(&G.edges_matrix[e->src][e->dest], e) && eq_edge(&G.edges_matrix[e->dest][e->src], e), "adjacency matrix entry %d-%d is not edge %d", e->src, e->dest, k);
    }
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (W[i][j] < 0) CHECK(eq_edge(&G.edges_matrix[i][j], &G0.edges_matrix[i][j]), "adjacency entry of a non-edge changed");
    for (int i = 0; i < n; i++) CHECK(eq_node(&G.nodes[i], &G0.nodes[i]), "node changed");
    CHECK(G.orderedEdges, "not flagged as ordered");
}
static void c10(void) { int n = mkg(); memset(&T, 0xA5, sizeof T); G0 = G; kruskal(&G, &T); tree_checks(n, true); }
static int cmp_up(const void *a, const void *b) { return before(a, b) ? (before(b, a) ? 0 : -1) : 1; }
static int cmp_dn(const void *a, const void *b) { return -cmp_up(a, b); }
static void c11(void) {
    int n = mkg(); int k = rnd(6);
    if (k < 2 && G.num_edges) { /* presorted / reversed */
        qsort(G.edges, G.num_edges, sizeof(Edge), k ? cmp_up : cmp_dn);
        for (int i = 0; i < G.num_edges; i++) { Edge *e = &G.edges[i]; e->positionInGraph = (unsigned short) i; G.edges_matrix[e->src][e->dest] = G.edges_matrix[e->dest][e->src] = *e; }
    }
    G0 = G; D("order %d:", k); for (int i = 0; i < G.num_edges; i++) D(" %d-%d", G.edges[i].src, G.edges[i].dest);
    wrap_quick_sort(&G); sorted_checks(n);
    wrap_quick_sort(&G); sorted_checks(n);
}
static void c22(void) {
    int n = 1 + rnd(NV); gen_weights(n, rnd(9)); if (rnd(3) == 0) for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (rnd(2)) { W[i][j] = W[j][i] = rnd(3) - 1; if (W[i][j] < 0) W[i][j] = W[j][i] = 0; }
    build(&G, n, 1); memset(&T, 0xA5, sizeof T); create_mst(&T, G.nodes, (unsigned short) n);
    CHECK(T.num_edges == 0 && T.cost == 0, "new tree not empty"); for (int i = 0; i < n; i++) CHECK(T.nodes[i].x == G.nodes[i].x && T.nodes[i].y == G.nodes[i].y, "coordinates");
    check_tree(&T, n, &G);
    int m = G.num_edges < n ? G.num_edges : n; dump_graph(n); g_nontrivial = m > 1;
    if (m > NV - 1 && rnd(2)) m = NV - 1;
    for (int k = 0; k < m; k++) {
        int r = rnd(G.num_edges), c = 0; while (T.edges_matrix[G.edges[r].src][G.edges[r].dest] != -1 && c++ < G.num_edges) r = (r + 1) % G.num_edges;
        D(" +%d-%d", G.edges[r].src, G.edges[r].dest); int ne = T.num_edges;
        add_edge(&T, &G.edges[r]); CHECK(T.num_edges == ne + 1, "edge count"); check_tree(&T, n, &G);
    }
}
int main(int argc, char **argv) { static const HCase t[] = {{"C09", c09, 20}, {"C10", c10, 20}, {"C11", c11, 20}, {"C22", c22, 20}}; return harness_main(argc, argv, t, 4); }
