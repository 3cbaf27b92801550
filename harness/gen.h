/* random graphs and structural checks, independent of the code under test */
#ifndef VF_GEN_H
#define VF_GEN_H
#include "common.h"
#include "main/data_structures/b_and_b_data.h"
#define NV MAX_VERTEX_NUM

static bool eqd(double a, double b) { return !memcmp(&a, &b, sizeof a); }
static bool eq_edge(const Edge *a, const Edge *b) { return a->src == b->src && a->dest == b->dest && a->symbol == b->symbol && eqd(a->weight, b->weight) && eqd(a->prob, b->prob) && a->positionInGraph == b->positionInGraph; }
static bool eq_node(const Node *a, const Node *b) { return eqd(a->x, b->x) && eqd(a->y, b->y) && a->positionInGraph == b->positionInGraph && a->num_neighbours == b->num_neighbours && !memcmp(a->neighbours, b->neighbours, sizeof a->neighbours); }
static bool eq_mst(const MST *a, const MST *b) {
    if (a->isValid != b->isValid || !eqd(a->cost, b->cost) || !eqd(a->prob, b->prob) || a->num_nodes != b->num_nodes || a->num_edges != b->num_edges || memcmp(a->edges_matrix, b->edges_matrix, sizeof a->edges_matrix)) return false;
    for (int i = 0; i < NV; i++) if (!eq_node(&a->nodes[i], &b->nodes[i]) || !eq_edge(&a->edges[i], &b->edges[i])) return false;
    return true;
}
static bool eq_sub(const SubProblem *a, const SubProblem *b) {
    return a->type == b->type && a->id == b->id && a->fatherId == b->fatherId && eqd(a->value, b->value) && a->treeLevel == b->treeLevel && !memcmp(&a->timeToReach, &b->timeToReach, sizeof(float)) &&
        eq_mst(&a->oneTree, &b->oneTree) && a->num_edges_in_cycle == b->num_edges_in_cycle && eqd(a->prob, b->prob) && !memcmp(a->cycleEdges, b->cycleEdges, sizeof a->cycleEdges) &&
        a->num_forbidden_edges == b->num_forbidden_edges && a->num_mandatory_edges == b->num_mandatory_edges && a->edge_to_branch == b->edge_to_branch &&
        !memcmp(a->mandatoryEdges, b->mandatoryEdges, sizeof a->mandatoryEdges) && !memcmp(a->constraints, b->constraints, sizeof a->constraints);
}
/* what a graph means: everything but orderedEdges and unused array tails */
static bool eq_graph(const Graph *a, const Graph *b, const char **why) {
    *why = "header"; if (a->kind != b->kind || a->num_nodes != b->num_nodes || a->num_edges != b->num_edges || !eqd(a->cost, b->cost)) return false;
    *why = "nodes"; for (int i = 0; i < a->num_nodes; i++) { const Node *p = &a->nodes[i], *q = &b->nodes[i]; if (!eqd(p->x, q->x) || !eqd(p->y, q->y) || p->positionInGraph != q->positionInGraph || p->num_neighbours != q->num_neighbours || memcmp(p->neighbours, q->neighbours, sizeof(unsigned short) * p->num_neighbours)) return false; }
    *why = "edges"; for (int i = 0; i < a->num_edges; i++) if (!eq_edge(&a->edges[i], &b->edges[i])) return false;
    *why = "adjacency"; for (int i = 0; i < a->num_nodes; i++) for (int j = 0; j < a->num_nodes; j++) if (!eq_edge(&a->edges_matrix[i][j], &b->edges_matrix[i][j])) return false;
    return true;
}

/* W < 0: absent */
static double W[NV][NV], PR[NV][NV];
static double XY[NV][2];
static double SH; /* subtracted from every weight: negative weights */
static void put_edge(Graph *g, int i, int j, int sym) {
    Edge e; memset(&e, 0, sizeof e);
    int z = g->num_edges++;
    e.src = (unsigned short) i; e.dest = (unsigned short) j; e.symbol = (unsigned short) sym; e.weight = W[i][j] - SH; e.prob = HYBRID ? PR[i][j] : 0; e.positionInGraph = (unsigned short) z;
    g->edges[z] = e; g->edges_matrix[i][j] = e; g->edges_matrix[j][i] = e; g->cost += e.weight;
    g->nodes[i].neighbours[g->nodes[i].num_neighbours++] = (unsigned short) j;
    g->nodes[j].neighbours[g->nodes[j].num_neighbours++] = (unsigned short) i;
}
/* builds g from W/PR; shuffled: edge list in random order with random orientation */
static void build(Graph *g, int n, int shuffled) {
    memset(g, 0, sizeof *g); g->kind = WEIGHTED_GRAPH; g->num_nodes = (unsigned short) n;
    for (int i = 0; i < n; i++) { g->nodes[i].positionInGraph = (unsigned short) i; g->nodes[i].x = XY[i][0]; g->nodes[i].y = XY[i][1]; }
    static int ps[NV * NV][2]; int m = 0;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (W[i][j] >= 0 || W[i][j] == -2) { ps[m][0] = i; ps[m][1] = j; m++; }
    if (shuffled) for (int k = m - 1; k > 0; k--) { int r = rnd(k + 1); int a = ps[k][0], b = ps[k][1]; ps[k][0] = ps[r][0]; ps[k][1] = ps[r][1]; ps[r][0] = a; ps[r][1] = b; }
    for (int k = 0; k < m; k++) { int a = ps[k][0], b = ps[k][1]; if (shuffled && rnd(2)) { int t = a; a = b; b = t; } put_edge(g, a, b, k + 1); }
}
/* kinds: 0 euclid 1 random 2 small ints 3 euclid*1000 4 sparse random 5 random*1000 6 grid (ties) 7 sparse ints 8 few distinct 9 near-cycle sparse */
static void gen_weights(int n, int kind) {
    double sparse = kind == 4 || kind == 7 ? 0.15 + 0.5 * rndd() : kind == 9 ? 0.75 : 0;
    for (int i = 0; i < n; i++) { XY[i][0] = kind == 6 ? rnd(3) : rndd(); XY[i][1] = kind == 6 ? rnd(3) : rndd(); }
    double base = 0.1 + rndd();
    for (int i = 0; i < n; i++) for (int j = i; j < n; j++) {
        double d = hypot(XY[i][0] - XY[j][0], XY[i][1] - XY[j][1]);
        switch (kind) { case 0: break; case 1: case 4: d = 0.001 + rndd(); break; case 2: case 7: d = 1 + rnd(5); break; case 3: d *= 1000; break; case 5: d = 1 + 1000 * rndd(); break;
            case 6: d += 1; break; case 8: d = base * (1 + rnd(2)); break; default: d = 0.001 + rndd(); }
        if (d <= 0) d = 0.0001;
        if (i == j) d = -1; else if (sparse > 0 && rndd() < sparse && !(kind == 9 && (j == i + 1 || (i == 0 && j == n - 1)))) d = -1;
        W[i][j] = W[j][i] = d; PR[i][j] = PR[j][i] = rnd(3) ? rndd() : rnd(3) * 0.5;
    }
}
static void dump_graph(int n) {
    D("n=%d N=%d HYBRID=%d shift=%g weights:", n, NV, HYBRID, SH);
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (W[i][j] >= 0) { if (HYBRID) D(" %d-%d:%.17g/%.3g", i, j, W[i][j], PR[i][j]); else D(" %d-%d:%.17g", i, j, W[i][j]); }
    D("\n");
}
/* consistency of a tree / 1-tree structure with graph g; special < 0: any */
static void check_tree(const MST *t, int n, const Graph *g) {
    CHECK(t->num_nodes == n, "tree has %d nodes, expected %d", t->num_nodes, n);
    int deg[NV] = {0}; double s = 0, p = 0; bool in[NV][NV]; memset(in, 0, sizeof in);
    CHECK(t->num_edges <= n, "tree has %d edges", t->num_edges);
    for (int k = 0; k < t->num_edges; k++) {
        const Edge *e = &t->edges[k];
        CHECK(e->src < n && e->dest < n && e->src != e->dest, "tree edge %d is %d-%d", k, e->src, e->dest);
        CHECK(!in[e->src][e->dest], "tree edge %d-%d twice", e->src, e->dest);
        in[e->src][e->dest] = in[e->dest][e->src] = true;
        if (g) { const Edge *q = &g->edges_matrix[e->src][e->dest]; CHECK(W[e->src][e->dest] >= 0 || W[e->src][e->dest] == -2, "tree edge %d-%d is not in the graph", e->src, e->dest);
            CHECK(e->weight == q->weight && e->prob == q->prob && e->symbol == q->symbol, "tree edge %d-%d: weight/prob/symbol differ from the graph", e->src, e->dest); }
        CHECK(e->positionInGraph == k, "tree edge %d has position %d", k, e->positionInGraph);
        CHECK(t->edges_matrix[e->src][e->dest] == k && t->edges_matrix[e->dest][e->src] == k, "edge index of %d-%d", e->src, e->dest);
        deg[e->src]++; deg[e->dest]++; s += e->weight; p += e->prob;
    }
    for (int i = 0; i < n; i++) {
        const Node *v = &t->nodes[i];
        CHECK(v->positionInGraph == i, "node %d has position %d", i, v->positionInGraph);
        CHECK(v->num_neighbours == deg[i], "node %d has %d neighbours, expected %d", i, v->num_neighbours, deg[i]);
        for (int k = 0; k < deg[i]; k++) { CHECK(v->neighbours[k] < n && in[i][v->neighbours[k]], "node %d: wrong neighbour %d", i, v->neighbours[k]); for (int l = 0; l < k; l++) CHECK(v->neighbours[l] != v->neighbours[k], "node %d: neighbour %d twice", i, v->neighbours[k]); }
        for (int j = 0; j < n; j++) if (!in[i][j]) CHECK(t->edges_matrix[i][j] == -1, "edge index of absent %d-%d is %d", i, j, t->edges_matrix[i][j]);
    }
    CHECK(fabs(t->cost - s) <= 1e-9 * (1 + fabs(s)) || (s > 1e200 && t->cost > 1e200), "cost %.17g, sum of the weights %.17g", t->cost, s);
    if (HYBRID && t->num_edges) CHECK(fabs(t->prob - p / t->num_edges) <= 1e-6, "probability %.17g, mean %.17g", t->prob, p / t->num_edges);
}
static int ufp[NV];
static int uff(int x) { while (ufp[x] != x) x = ufp[x]; return x; }
static void uf_init(int n) { for (int i = 0; i < n; i++) ufp[i] = i; }
static bool uf_union(int a, int b) { a = uff(a); b = uff(b); if (a == b) return false; ufp[a] = b; return true; }
/* weight of a minimum spanning forest by repeated selection; skip: a node left out; -> number of edges */
static int mst_oracle(int n, int skip, double *cost, int cons[NV][NV]) {
    uf_init(n); *cost = 0; int k = 0;
    if (cons) for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (i != skip && j != skip && cons[i][j] == MANDATORY && W[i][j] >= 0 && uf_union(i, j)) { *cost += W[i][j]; k++; }
    for (;;) {
        int a = -1, b = -1;
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++)
            if (i != skip && j != skip && W[i][j] >= 0 && !(cons && cons[i][j] == FORBIDDEN) && uff(i) != uff(j) && (a < 0 || W[i][j] < W[a][b])) { a = i; b = j; }
        if (a < 0) return k;
        uf_union(a, b); *cost += W[a][b]; k++;
    }
}
#endif
