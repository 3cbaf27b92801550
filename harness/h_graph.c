/* C17 graph construction, C18 instance readers */
#include "gen.h"
#include "main/tsp_instance_reader.h"
#include <sys/stat.h>
static Graph G;
/* every stored fact about the graph agrees with the edge list it was given */
static void check_graph(int n, int m, const Edge *in, double tol) {
    CHECK(G.num_nodes == n, "%d nodes, expected %d", G.num_nodes, n);
    CHECK(G.num_edges == m, "%d edges, expected %d", G.num_edges, m);
    static int idx[NV][NV]; memset(idx, -1, sizeof idx); double s = 0; int deg[NV] = {0}; bool used[MAX_EDGES_NUM + 1]; memset(used, 0, sizeof used);
    for (int k = 0; k < m; k++) { idx[in[k].src][in[k].dest] = idx[in[k].dest][in[k].src] = k; s += in[k].weight; deg[in[k].src]++; deg[in[k].dest]++; }
    for (int k = 0; k < m; k++) {
        const Edge *e = &G.edges[k]; CHECK(e->src < n && e->dest < n, "edge %d: nodes %d-%d", k, e->src, e->dest);
        int o = idx[e->src][e->dest]; CHECK(o >= 0 && !used[o], "edge %d (%d-%d) was not described, or twice", k, e->src, e->dest); used[o] = true;
        CHECK(fabs(e->weight - in[o].weight) <= tol * (1e-30 + fabs(in[o].weight)), "edge %d-%d weight %.17g, expected %.17g", e->src, e->dest, e->weight, in[o].weight);
        CHECK(e->prob == in[o].prob, "edge %d-%d probability %.17g, expected %.17g", e->src, e->dest, e->prob, in[o].prob);
        CHECK(e->positionInGraph == k, "edge %d stores position %d", k, e->positionInGraph);
        if (in[o].symbol) CHECK(e->symbol == in[o].symbol, "edge %d-%d symbol %d, expected %d", e->src, e->dest, e->symbol, in[o].symbol);
        for (int l = 0; l < k; l++) if (m < 200) CHECK(G.edges[l].symbol != e->symbol, "symbol %d twice", e->symbol);
        if (k && G.orderedEdges) CHECK(G.edges[k - 1].weight <= e->weight, "flagged ordered, but is not");
        CHECK(eq_edge(&G.edges_matrix[e->src][e->dest], e) && eq_edge(&G.edges_matrix[e->dest][e->src], e), "adjacency matrix entry of %d-%d differs from the edge", e->src, e->dest);
    }
    for (int i = 0; i < n; i++) {
        Node *v = &G.nodes[i]; CHECK(v->positionInGraph == i, "node %d stores position %d", i, v->positionInGraph);
        CHECK(v->num_neighbours == deg[i], "node %d: %d neighbours, expected %d", i, v->num_neighbours, deg[i]);
        for (int k = 0; k < deg[i]; k++) { CHECK(v->neighbours[k] < n && idx[i][v->neighbours[k]] >= 0, "node %d: %d is not adjacent", i, v->neighbours[k]); for (int l = 0; l < k; l++) CHECK(v->neighbours[l] != v->neighbours[k], "node %d: neighbour %d twice", i, v->neighbours[k]); }
    }
    CHECK(fabs(G.cost - s) <= (tol + 1e-9) * (1e-30 + fabs(s)), "cost %.17g, expected %.17g", G.cost, s);
}
static Node nd[NV + 4]; static Edge ed[(NV + 4) * (NV + 4)];
static void c17(void) {
    int n = rnd(12) ? 1 + rnd(NV) : NV; bool eu = rnd(2); int m = 0;
    size_t before = __sanitizer_get_current_allocated_bytes();
    memset(&G, rnd(2) ? 0xA5 : 0, sizeof G); memset(nd, 0xA5, sizeof nd);
    List *nl = new_list();
    double sc = rnd(3) == 0 ? 1000 : rnd(3) == 0 ? 1e-3 : 1; int dup = rnd(3);
    for (int i = 0; i < n; i++) { nd[i].positionInGraph = (unsigned short) i; nd[i].num_neighbours = (unsigned short) rnd(7); XY[i][0] = nd[i].x = dup == 0 ? rnd(3) : (rndd() - 0.5) * sc; XY[i][1] = nd[i].y = dup == 0 ? rnd(3) : (rndd() - 0.5) * sc; add_elem_list_bottom(nl, &nd[i]); D(" (%.17g,%.17g)", nd[i].x, nd[i].y); }
    g_nontrivial = n > 1;
    if (eu) {
        D(" euclidean"); create_euclidean_graph(&G, nl);
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { Edge e; memset(&e, 0, sizeof e); e.src = (unsigned short) i; e.dest = (unsigned short) j; double dx = XY[i][0] - XY[j][0], dy = XY[i][1] - XY[j][1]; e.weight = sqrt(dx * dx + dy * dy); ed[m++] = e; }
        check_graph(n, m, ed, 2e-6);
    } else {
        gen_weights(n, rnd(9)); for (int i = 0; i < n; i++) { XY[i][0] = nd[i].x; XY[i][1] = nd[i].y; }
        if (rnd(10) == 0) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) W[i][j] = -1;
        build(&G, n, 1); m = G.num_edges; memcpy(ed, G.edges, sizeof(Edge) * (size_t) m); memset(&G, rnd(2) ? 0xA5 : 0, sizeof G);
        List *el = new_list(); for (int k = 0; k < m; k++) { if (!HYBRID) ed[k].prob = rndd(); if (rnd(5) == 0) ed[k].weight = -ed[k].weight; add_elem_list_bottom(el, &ed[k]); D(" %d-%d:%g", ed[k].src, ed[k].dest, ed[k].weight); }
        GraphKind kd = rnd(2) ? WEIGHTED_GRAPH : UNWEIGHTED_GRAPH;
        Edge cp[(NV + 4) * (NV + 4)]; memcpy(cp, ed, sizeof(Edge) * (size_t) m); for (int k = 0; k < m; k++) ed[k].positionInGraph = (unsigned short) rnd(60000);
        create_graph(&G, nl, el, kd); CHECK(G.kind == kd, "kind");
        check_graph(n, m, cp, 0); for (int k = 0; k < m; k++) CHECK(G.edges[k].src < n, "edge");
    }
    for (int i = 0; i < n; i++) CHECK(eqd(G.nodes[i].x, XY[i][0]) && eqd(G.nodes[i].y, XY[i][1]), "coordinates of node %d", i);
    CHECK(__sanitizer_get_current_allocated_bytes() == before, "memory not released: %zd bytes", (ssize_t) (__sanitizer_get_current_allocated_bytes() - before));
}
static char fname[64], fbuf[1 << 18]; static size_t fl;
static void P(const char *f, ...) { va_list a; va_start(a, f); int k = vsnprintf(fbuf + fl, sizeof fbuf - fl, f, a); va_end(a); fl += (size_t) k; }
static void flush_file(void) { snprintf(fname, sizeof fname, "vf_inst_%d.txt", (int) getpid()); FILE *f = fopen(fname, "w"); if (!f) FAIL("cannot write the instance file"); fwrite(fbuf, 1, fl, f); fclose(f); D("file:\n%.450s%s\n", fbuf, fl > 450 ? "..." : ""); for (size_t k = 450; k < fl && k < 4000; k += 450) D("%.450s", fbuf + k); }
/* the reader must refuse the file: an error message and a nonzero exit, no crash */
static void expect_reject(bool csv, const char *what) {
    int pfd[2]; if (pipe(pfd)) FAIL("pipe");
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) { in_child = 1; all_done = 1; alarm(20); close(pfd[0]); dup2(pfd[1], 2); if (csv) read_tsp_csv_file(&G, fname); else read_tsp_lib_file(&G, fname); _exit(0); }
    close(pfd[1]); char b[4096]; size_t k = 0; ssize_t r; while ((r = read(pfd[0], b + k, sizeof b - 1 - k)) > 0) { k += (size_t) r; if (k >= sizeof b - 1) k = sizeof b / 2; } b[k] = 0; close(pfd[0]);
    int st; waitpid(p, &st, 0);
    CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 0), "%s: the file was accepted", what);
    CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 77 && !strstr(b, "Sanitizer"), "%s: the reader crashed (status %d): %.600s", what, st, b);
    CHECK(k > 0, "%s: no error message", what);
}
static const char *numfmt(void) { static const char *f[] = {"%.6f", "%.17g", "%.3f", "%.9g", "%.12e", "%.1f"}; return f[rnd(6)]; }
static double parse(const char *f, double v) { char b[64]; snprintf(b, sizeof b, f, v); return strtod(b, 0); }
static void c18(void) {
    int bad = rnd(5) == 0 ? 1 + rnd(7) : 0; int n = rnd(6) ? 2 + rnd(NV - 1) : NV; if (n > NV) n = NV; fl = 0; fbuf[0] = 0;
    size_t before = __sanitizer_get_current_allocated_bytes(); int m = 0; const char *f = numfmt(); char b[3][80];
    memset(&G, rnd(2) ? 0xA5 : 0, sizeof G);
    g_nontrivial = 1;
    if (bad == 4) n = NV + 1 + (rnd(4) ? 0 : rnd(3));
    if (rnd(2)) { /* CSV */
        static double w[NV + 4][NV + 4], p[NV + 4][NV + 4]; bool sp = rnd(3) == 0, tiny = rnd(4) == 0; bool iso = rnd(8) == 0 && bad != 2 && bad != 3; if (bad == 5) n = NV;
        for (int i = 0; i < n; i++) { nd[i].x = (rndd() - 0.2) * 2; nd[i].y = rndd(); snprintf(b[0], 80, f, nd[i].x); snprintf(b[1], 80, f, nd[i].y); nd[i].x = strtod(b[0], 0); nd[i].y = strtod(b[1], 0);
            if (bad == 1 && i == n / 2) P(rnd(2) ? "(abc, %s)" : "%s", b[0]); else P("(%s, %s)", b[0], b[1]); if (i < n - 1) P(";"); else if (rnd(4) == 0) P(";"); }
        P("\n");
        for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { w[i][j] = w[j][i] = i == j || (sp && rnd(3) == 0) ? 0 : tiny && rnd(3) == 0 ? parse(f, (rnd(2) ? 1e-7 : 1e-10) * (1 + rndd())) : parse(f, 0.1 + 5 * rndd()); p[i][j] = p[j][i] = i == j ? 0 : parse(f, rndd()); }
        if (iso) for (int i = 0; i < n; i++) w[i][n - 1] = w[n - 1][i] = 0; /* the last row may then be left empty */
        for (int i = 0; i < n; i++) { if (iso && i == n - 1 && rnd(3)) { P(";\n"); continue; } for (int j = 0; j < n; j++) { snprintf(b[0], 80, f, w[i][j]); snprintf(b[1], 80, f, p[i][j]);
            if ((bad == 2 || bad == 3) && i == n - 1 && j == 0) P(bad == 2 ? "(%s);" : "x;", b[0]); else P("(%s, %s)%s", b[0], b[1], j == n - 1 && rnd(3) == 0 ? "" : ";"); } P("\n"); }
        if (rnd(4) == 0) P("\n");
        if (bad == 5) for (int k = 1 + rnd(3); k > 0; k--) P(";\n"); /* rows without entries, beyond the maximum */
        if (bad == 6 || bad == 7) bad = 0;
        flush_file();
        if (bad) { if (n > 1 || bad == 5) expect_reject(true, bad >= 4 ? "more nodes than the compiled maximum" : "unreadable entry"); unlink(fname); return; }
        read_tsp_csv_file(&G, fname); unlink(fname);
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (w[i][j] > 0) { Edge e; memset(&e, 0, sizeof e); e.src = (unsigned short) i; e.dest = (unsigned short) j; e.weight = w[i][j]; e.prob = HYBRID ? p[i][j] : 0; ed[m++] = e; }
        check_graph(n, m, ed, 0);
        for (int i = 0; i < n; i++) CHECK(G.nodes[i].x == nd[i].x && G.nodes[i].y == nd[i].y, "coordinates of node %d: %.17g %.17g", i, G.nodes[i].x, G.nodes[i].y);
    } else {
        static const char *hd[] = {"NAME : inst\n", "COMMENT : a comment line\n", "TYPE : TSP\n", "DIMENSION : 7\n"};
        int h = rnd(5), at = rnd(h + 1);
        for (int k = 0; k <= h; k++) { if (k == at && bad != 1) P(bad == 2 ? "EDGE_WEIGHT_TYPE : GEO\n" : "EDGE_WEIGHT_TYPE : EUC_2D\n"); if (k < h) P("%s", hd[k % 4]); }
        P("NODE_COORD_SECTION\n");
        if (bad == 5) bad = 0;
        for (int i = 0; i < n; i++) { nd[i].x = (rndd() - 0.2) * 100; nd[i].y = rndd() * 100; snprintf(b[0], 80, f, nd[i].x); snprintf(b[1], 80, f, nd[i].y); nd[i].x = strtof(b[0], 0); nd[i].y = strtof(b[1], 0);
            if (bad == 3 && i == n - 1) P(rnd(2) ? "%d %s\n" : "%d abc %s\n", i + 1, b[0]); else P(rnd(2) ? "%d %s %s\n" : " %d  %s   %s \n", i + 1, b[0], b[1]); }
        int eof = rnd(2); if (bad == 7) P(rnd(2) ? "E%d 1 2\n" : "END\n", n + 1); if (eof) P(rnd(3) ? "EOF\n" : rnd(2) ? " EOF\n" : "EOF \n"); else if (rnd(2)) fl--, fbuf[fl] = 0;
        flush_file();
        if (bad == 6) { unlink(fname); expect_reject(false, "missing file"); expect_reject(true, "missing file"); return; }
        if (bad) { expect_reject(false, bad == 4 ? "more nodes than the compiled maximum" : bad == 3 ? "unreadable coordinate" : bad == 7 ? "a line that is neither a node nor the end of the file" : "not an EUC_2D instance"); unlink(fname); return; }
        read_tsp_lib_file(&G, fname); unlink(fname);
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { Edge e; memset(&e, 0, sizeof e); e.src = (unsigned short) i; e.dest = (unsigned short) j; double dx = nd[i].x - nd[j].x, dy = nd[i].y - nd[j].y; e.weight = sqrt(dx * dx + dy * dy); ed[m++] = e; }
        check_graph(n, m, ed, 2e-6);
        for (int i = 0; i < n; i++) CHECK(G.nodes[i].x == nd[i].x && G.nodes[i].y == nd[i].y, "coordinates of node %d: %.9g %.9g, expected %.9g %.9g", i, G.nodes[i].x, G.nodes[i].y, nd[i].x, nd[i].y);
    }
    CHECK(G.kind == WEIGHTED_GRAPH, "kind");
    CHECK(__sanitizer_get_current_allocated_bytes() == before, "memory not released: %zd bytes", (ssize_t) (__sanitizer_get_current_allocated_bytes() - before));
}
int main(int argc, char **argv) { static const HCase t[] = {{"C17", c17, 20}, {"C18", c18, 20}}; return harness_main(argc, argv, t, 2); }
