/* Branch and bound: C01-C08, C16, C19-C21, C23-C27 */
/* LINK: -Wl,--wrap=clock */
#include "gen.h"
#include "main/algorithms/branch_and_bound.h"
#include "main/tsp_instance_reader.h"
extern void constrained_prim(Graph *, SubProblem *, unsigned short) __attribute__((weak));
extern void constrained_kruskal(Graph *, SubProblem *, unsigned short) __attribute__((weak));

/* the solver's clock */
clock_t __real_clock(void);
static long fake_calls = -1, fake_jump_at, fake_jump; /* fake_calls < 0: real clock */
clock_t __wrap_clock(void) { if (fake_calls < 0) return __real_clock(); fake_calls++; return (clock_t) (1000 + fake_calls + (fake_calls > fake_jump_at ? fake_jump : 0)); }

static Problem PB; static SubProblem S, S2, S3; static Graph G0;
static int C[NV][NV]; /* decisions */
static int n;
static double tol(double x) { return 1e-7 * (1 + fabs(x)); }

/* ---- tours as edge masks ---- */
typedef unsigned long long M;
#define MAXT 20200
static M tm_[MAXT]; static double tc[MAXT]; static int nt; static int eid[NV][NV];
static int prm[NV];
static void trec(int k, unsigned used, M m, double c) {
    if (k == n) { if (prm[1] < prm[n - 1] && W[prm[k - 1]][0] >= 0 && nt < MAXT) { tm_[nt] = m | 1ull << eid[prm[k - 1]][0]; tc[nt++] = c + W[prm[k - 1]][0]; } return; }
    for (int i = 1; i < n; i++) if (!(used >> i & 1) && W[prm[k - 1]][i] >= 0) { prm[k] = i; trec(k + 1, used | 1u << i, m | 1ull << eid[prm[k - 1]][i], c + W[prm[k - 1]][i]); }
}
static void tours(void) { nt = 0; int e = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) eid[i][j] = eid[j][i] = e++; prm[0] = 0; trec(1, 1, 0, 0); }
/* optimum of larger instances by dynamic programming over subsets; nt becomes 1 or 0 */
static double hk[1 << 13][14];
static void held_karp(void) {
    int m = n - 1, full = (1 << m) - 1;
    for (int S_ = 1; S_ <= full; S_++) for (int l = 0; l < m; l++) {
        double b = DBL_MAX;
        if (S_ >> l & 1) { if (S_ == 1 << l) { if (W[0][l + 1] >= 0) b = W[0][l + 1]; } else for (int k = 0; k < m; k++) if (k != l && (S_ >> k & 1) && W[k + 1][l + 1] >= 0 && hk[S_ ^ 1 << l][k] < DBL_MAX && hk[S_ ^ 1 << l][k] + W[k + 1][l + 1] < b) b = hk[S_ ^ 1 << l][k] + W[k + 1][l + 1]; }
        hk[S_][l] = b;
    }
    double b = DBL_MAX; for (int l = 0; l < m; l++) if (hk[full][l] < DBL_MAX && W[0][l + 1] >= 0 && hk[full][l] + W[0][l + 1] < b) b = hk[full][l] + W[0][l + 1];
    nt = b < DBL_MAX; tc[0] = b; tm_[0] = 0;
}
static void masks(SubProblem *s, M *mand, M *forb) { *mand = *forb = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { if (s->constraints[i][j] == MANDATORY) *mand |= 1ull << eid[i][j]; if (s->constraints[i][j] == FORBIDDEN) *forb |= 1ull << eid[i][j]; } }
static bool adm(int t, M mand, M forb) { return (tm_[t] & forb) == 0 && (tm_[t] & mand) == mand; }
static double best_adm(SubProblem *s, double *which) { M m, f; masks(s, &m, &f); double b = DBL_MAX; for (int t = 0; t < nt; t++) if (adm(t, m, f) && tc[t] < b) b = tc[t]; (void) which; return b; }

static int deg2 = 1, g_shift; /* g_shift: stored weights may be zero or negative, as in a reformulated graph */
static bool min_degree2(void) { for (int i = 0; i < n; i++) if (PB.graph.nodes[i].num_neighbours < 2) return false; return true; }
static void gen_problem(int maxn, int minn) {
    int hi = NV < maxn ? NV : maxn, tries = 0; if (minn > hi) minn = hi;
again:
    n = minn + rnd(hi - minn + 1); if (rnd(3) == 0) n = hi;
    int kind = rnd(10); gen_weights(n, kind);
    if (rnd(10) == 0) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (W[i][j] > 0) W[i][j] *= 1e5;
    if (rnd(8) == 0) { double base = 1 + rnd(3) * 0.5, st = (double) EPSILON * (1 + rnd(4)) / 4; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (W[i][j] > 0) W[i][j] = W[j][i] = base + st * rnd(5); } /* near ties, on the scale of the tolerance */
    if (rnd(12) == 0) for (int k = 1 + rnd(n); k > 0; k--) { int i = rnd(n), j = rnd(n); if (W[i][j] > 0) W[i][j] = W[j][i] = 0; }
    SH = g_shift ? 0.2 + rndd() * (rnd(2) ? 1 : 5) : 0; memset(&PB, 0, sizeof PB); build(&PB.graph, n, rnd(3) ? 0 : 1);
    if (deg2 && !min_degree2() && tries++ < 200) goto again; /* precondition: checked by check_feasibility() before the search */
    G0 = PB.graph; dump_graph(n); if (n > 9) held_karp(); else tours();
    set_problem(&PB); PB.reformulationGraph = PB.graph; PB.candidateNodeId = (unsigned short) rnd(n); PB.totTreeLevels = 1; PB.generatedBBNodes = 1;
    PB.bestValue = PB.bestSolution.value = INFINITE; fake_calls = -1; PB.start = __real_clock(); g_nontrivial = (n > 3 || NV == 3) && nt > 0;
}
static void rebuild_lists(SubProblem *s) {
    s->num_mandatory_edges = s->num_forbidden_edges = 0;
    for (int i = 0; i < NV; i++) for (int j = i; j < NV; j++) { if (s->constraints[i][j] == MANDATORY) { int r = rnd(2); s->mandatoryEdges[s->num_mandatory_edges].src = (unsigned short) (r ? i : j); s->mandatoryEdges[s->num_mandatory_edges++].dest = (unsigned short) (r ? j : i); } if (s->constraints[i][j] == FORBIDDEN && (i != j)) s->num_forbidden_edges++; }
    if (s->num_forbidden_edges && rnd(2)) s->num_forbidden_edges += NV;
}
/* style: 0 random, 1 forced subset of a random tour + forbidden, 2 only forbidden, 3 none */
static void gen_sub(SubProblem *s, int style) {
    memset(s, 0, sizeof *s); s->type = OPEN; s->id = 77; s->fatherId = 3; s->treeLevel = (unsigned short) (1 + rnd(4)); s->edge_to_branch = -1; s->prob = rndd();
    for (int i = 0; i < NV; i++) s->constraints[i][i] = FORBIDDEN;
    double pm = rndd() * 0.5, pf = rndd() * 0.6; int t = nt ? rnd(nt) : -1;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
        ConstraintType c = NOTHING; double r = rndd();
        if (style == 0) c = r < pm * 0.6 ? MANDATORY : r < pm * 0.6 + pf ? FORBIDDEN : NOTHING;
        else if (style == 1) { if (t >= 0 && (tm_[t] >> eid[i][j] & 1)) c = r < pm * 1.6 ? MANDATORY : NOTHING; else c = r < pf ? FORBIDDEN : NOTHING; }
        else if (style == 2) c = r < pf * 0.7 ? FORBIDDEN : NOTHING;
        s->constraints[i][j] = s->constraints[j][i] = c;
    }
    rebuild_lists(s);
}
static void dump_sub(SubProblem *s, const char *nm) { D("%s: special=%d level=%d value=%.17g;", nm, PB.candidateNodeId, s->treeLevel, s->value); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (s->constraints[i][j] != NOTHING) D(" %s%d-%d", s->constraints[i][j] == MANDATORY ? "+" : "-", i, j); D("\n"); }
static void check_sub_lists(SubProblem *s, const char *what) {
    static bool in[NV][NV]; memset(in, 0, sizeof in);
    for (int k = 0; k < s->num_mandatory_edges; k++) { int a = s->mandatoryEdges[k].src, b = s->mandatoryEdges[k].dest; CHECK(a < NV && b < NV && s->constraints[a][b] == MANDATORY, "%s: listed mandatory edge %d-%d is not mandatory", what, a, b); in[a][b] = in[b][a] = true; }
    bool anyf = false;
    for (int i = 0; i < NV; i++) for (int j = 0; j < NV; j++) { CHECK(s->constraints[i][j] == s->constraints[j][i], "%s: decision on %d-%d is not symmetric", what, i, j); if (s->constraints[i][j] == MANDATORY) CHECK(in[i][j], "%s: mandatory edge %d-%d is not listed", what, i, j); if (i != j && s->constraints[i][j] == FORBIDDEN) anyf = true; }
    CHECK(!anyf || s->num_forbidden_edges > 0, "%s: forbidden edges not counted", what);
}
static bool is_tour(SubProblem *s, double *cost, const char **why) {
    int deg[NV] = {0}; *cost = 0; *why = "number of edges"; if (s->num_edges_in_cycle != n) return false;
    uf_init(n); int joins = 0;
    for (int k = 0; k < n; k++) { int a = s->cycleEdges[k].src, b = s->cycleEdges[k].dest; *why = "nodes"; if (a >= n || b >= n || a == b) return false; *why = "a step is not an edge of the graph"; if (W[a][b] < 0) return false; deg[a]++; deg[b]++; *cost += W[a][b]; joins += uf_union(a, b); }
    *why = "degrees"; for (int i = 0; i < n; i++) if (deg[i] != 2) return false;
    *why = "not a single cycle"; return joins == n - 1;
}

/* ---- C05 ---- */
static void c05(void) {
    deg2 = rnd(4); gen_problem(7, 3); gen_sub(&S, rnd(4)); dump_sub(&S, "sub"); S2 = S; M m0, f0, m1, f1; masks(&S, &m0, &f0); PB.num_fixed_edges = 5;
    bool ok = infer_constraints(&S);
    if (!ok) { for (int t = 0; t < nt; t++) CHECK(!adm(t, m0, f0), "declared contradictory, but a tour of cost %g is admissible", tc[t]); return; }
    masks(&S, &m1, &f1); check_sub_lists(&S, "after inference");
    for (int i = 0; i < NV; i++) for (int j = 0; j < NV; j++) if (S2.constraints[i][j] != NOTHING) CHECK(S.constraints[i][j] == S2.constraints[i][j], "decision on %d-%d changed", i, j);
    for (int t = 0; t < nt; t++) CHECK(adm(t, m0, f0) == adm(t, m1, f1), "a tour of cost %g was %s", tc[t], adm(t, m0, f0) ? "lost" : "added");
}
static int rand_undecided(SubProblem *s) { int k = rnd(PB.graph.num_edges), c = 0; while (c++ < PB.graph.num_edges && s->constraints[PB.graph.edges[k].src][PB.graph.edges[k].dest] != NOTHING) k = (k + 1) % PB.graph.num_edges; return c <= PB.graph.num_edges ? k : -1; }
/* ---- C04 ---- */
static void c04(void) {
    gen_problem(7, 3); if (!PB.graph.num_edges) return; gen_sub(&S, rnd(4)); S.value = rndd() * 3; int eb = rand_undecided(&S); if (eb < 0) return;
    S.edge_to_branch = eb; S.id = 9; dump_sub(&S, "parent"); D("edge %d-%d\n", PB.graph.edges[eb].src, PB.graph.edges[eb].dest); PB.generatedBBNodes = 9;
    SubProblemsList L; new_SubProblemList(&L); int q = rnd(4);
    for (int k = 0; k < q; k++) { memset(&S3, 0, sizeof S3); S3.id = 1000 + (unsigned) k; S3.fatherId = 500; S3.value = 0.7 * k; S3.prob = rndd(); add_elem_SubProblemList_bottom(&L, &S3); }
    S2 = S; branch(&L, &S);
    M m0, f0, m1, f1, eb_m = 1ull << eid[PB.graph.edges[eb].src][PB.graph.edges[eb].dest]; masks(&S2, &m0, &f0);
    int cover[2] = {0, 0}; int others = 0; static int cnt[MAXT]; memset(cnt, 0, sizeof(int) * (size_t) nt);
    for (SubProblemElem *e = L.head; e; e = e->next) {
        SubProblem *c = &e->subProblem; if (c->fatherId == 500) { others++; continue; }
        CHECK(c->fatherId == S2.id, "a child does not name its parent"); masks(c, &m1, &f1); check_sub_lists(c, "child");
        CHECK(((m1 & eb_m) != 0) != ((f1 & eb_m) != 0), "child does not decide the branching edge"); cover[(m1 & eb_m) ? 0 : 1]++;
        for (int i = 0; i < NV; i++) for (int j = 0; j < NV; j++) if (S2.constraints[i][j] != NOTHING) CHECK(c->constraints[i][j] == S2.constraints[i][j], "child does not inherit the decision on %d-%d", i, j);
        CHECK(c->type == OPEN && c->treeLevel == S2.treeLevel + 1 && c->value == S2.value && c->num_edges_in_cycle == 0, "child state");
        for (int t = 0; t < nt; t++) if (adm(t, m1, f1)) cnt[t]++;
    }
    CHECK(others == q, "other open subproblems were lost"); CHECK(cover[0] <= 1 && cover[1] <= 1, "a decision was made twice");
    for (int t = 0; t < nt; t++) CHECK(cnt[t] == (adm(t, m0, f0) ? 1 : 0), "a tour of cost %g admissible in %d children, %s in the parent", tc[t], cnt[t], adm(t, m0, f0) ? "admissible" : "not admissible");
    delete_SubProblemList(&L);
}
/* ---- C16 ---- */
static void c16(void) {
    gen_problem(5, 4); if (!PB.graph.num_edges) return; SubProblemsList L; new_SubProblemList(&L); int ops = 3 + rnd(25); int style = rnd(4);
    for (int k = 0; k < ops; k++) {
        if (rnd(3) == 0 && L.size) { int ix = rnd(2) ? 0 : rnd((int) L.size); D(" R%d", ix); delete_SubProblemList_elem_index(&L, (size_t) ix); continue; }
        gen_sub(&S, 3); S.edge_to_branch = rand_undecided(&S); double base = 2.0;
        S.value = style == 0 ? rndd() * 3 : style == 1 ? base + EPSILON * (rnd(9) * 0.5) : style == 2 ? base + EPSILON * rndd() * 3 : base + EPSILON * (rnd(40) * 0.25 - 5);
        S.prob = rnd(2) ? rndd() : rnd(5) * 0.04; D(" B%.17g/%.3g", S.value, S.prob); branch(&L, &S);
        for (SubProblemElem *a = L.head; a; a = a->next) for (SubProblemElem *b = a->next; b; b = b->next) CHECK(a->subProblem.value - b->subProblem.value <= EPSILON * (1 + 1e-9) + 1e-12, "value %.17g precedes %.17g, tolerance %.17g", a->subProblem.value, b->subProblem.value, (double) EPSILON);
    }
    delete_SubProblemList(&L);
}
/* ---- C07 C08 ---- */
static void cmat(SubProblem *s) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) C[i][j] = s->constraints[i][j]; }
/* all mandatory edges exist and can be part of one tour (as far as degrees and cycles tell) */
static bool mand_path_like(SubProblem *s) { int deg[NV] = {0}; uf_init(n); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (s->constraints[i][j] == MANDATORY) { if (W[i][j] < 0) return false; deg[i]++; deg[j]++; if (!uf_union(i, j)) return false; } for (int i = 0; i < n; i++) if (deg[i] > 2) return false; return true; }
static bool one_tree_oracle(SubProblem *s, int sp, double *cost) { /* minimum 1-tree with all mandatory and no forbidden edges */
    cmat(s); int k = mst_oracle(n, sp, cost, C); if (k != n - 2) return false; int m = 0; bool used[NV] = {0};
    for (int j = 0; j < n; j++) if (j != sp && C[sp][j] == MANDATORY && W[sp][j] >= 0) { m++; used[j] = true; *cost += W[sp][j]; }
    if (m > 2) return false;
    for (; m < 2; m++) { int b = -1; for (int j = 0; j < n; j++) if (j != sp && !used[j] && W[sp][j] >= 0 && C[sp][j] != FORBIDDEN && (b < 0 || W[sp][j] < W[sp][b])) b = j; if (b < 0) return false; used[b] = true; *cost += W[sp][b]; }
    return true;
}
static void one_tree_case(bool mincost) {
    g_shift = rnd(3) == 0; gen_problem(8, 3); g_shift = 0; gen_sub(&S, rnd(4)); dump_sub(&S, "sub"); int kr = rnd(3) == 0 && constrained_kruskal; if (!constrained_prim && !constrained_kruskal) { g_nontrivial = 0; return; } if (!constrained_prim) kr = 1;
    int sp = PB.candidateNodeId; double c = 0; bool ex = one_tree_oracle(&S, sp, &c); bool pl = mand_path_like(&S);
    PB.reformulationGraph = PB.graph; Graph *g = rnd(2) ? &PB.graph : &PB.reformulationGraph;
    D("algorithm %s\n", kr ? "kruskal" : "prim"); memset(&S.oneTree, 0xA5, sizeof S.oneTree);
    if (kr) constrained_kruskal(g, &S, (unsigned short) sp); else constrained_prim(g, &S, (unsigned short) sp);
    bool feas = S.oneTree.isValid && mst_to_one_tree(&S, g) == OPEN;
    if (!mincost) {
        if (!feas) { CHECK(!(pl && ex), "reported infeasible, but there is an admissible 1-tree"); return; }
        check_tree(&S.oneTree, n, g); CHECK(S.oneTree.num_edges == n, "%d edges, expected %d", S.oneTree.num_edges, n);
        uf_init(n); int d = 0; for (int k = 0; k < n; k++) { Edge *e = &S.oneTree.edges[k]; if (e->src == sp || e->dest == sp) d++; else CHECK(uf_union(e->src, e->dest), "cycle that avoids the special node"); CHECK(S.constraints[e->src][e->dest] != FORBIDDEN, "forbidden edge %d-%d", e->src, e->dest); }
        CHECK(d == 2, "special node has degree %d", d);
        if (pl) { CHECK(ex, "reported feasible, but no admissible 1-tree exists"); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (S.constraints[i][j] == MANDATORY) CHECK(S.oneTree.edges_matrix[i][j] != -1, "mandatory edge %d-%d missing", i, j); }
    } else if (feas) {
        double s = 0; for (int k = 0; k < S.oneTree.num_edges; k++) s += W[S.oneTree.edges[k].src][S.oneTree.edges[k].dest];
        s -= SH * S.oneTree.num_edges; c -= SH * n; CHECK(fabs(S.oneTree.cost - s) <= 1e-9 * (1 + fabs(s) + SH * n), "stored cost %.17g, sum of the weights %.17g", S.oneTree.cost, s);
        if (pl && ex) CHECK(fabs(s - c) <= 1e-9 * (1 + fabs(c) + SH * n), "cost %.17g, minimum %.17g", s, c);
        double b = best_adm(&S, 0); CHECK(b == DBL_MAX || s <= b - SH * n + tol(b), "costs %.17g, an admissible tour costs %.17g", s, b);
    } else CHECK(best_adm(&S, 0) == DBL_MAX, "no relaxation, but an admissible tour exists");
}
static void c07(void) { one_tree_case(false); }
static void c08(void) { one_tree_case(true); }
/* an incumbent of some quality */
static void set_incumbent(void) {
    double mn = DBL_MAX, v; for (int t = 0; t < nt; t++) if (tc[t] < mn) mn = tc[t];
    switch (rnd(5)) { case 0: v = INFINITE; break; case 1: v = nt ? tc[rnd(nt)] : 5; break; case 2: v = nt ? mn : 3; break; case 3: v = nt ? mn * (1 + rndd() * 0.3) : 4; break; default: v = nt ? mn * (0.7 + 0.4 * rndd()) : 2; }
    PB.bestValue = PB.bestSolution.value = v; PB.bestSolution.num_edges_in_cycle = 0; D("incumbent %.17g\n", v);
}
/* ---- C06 ---- */
static void c06(void) {
    gen_problem(7, 3); gen_sub(&S, rnd(4)); set_incumbent(); int sp = PB.candidateNodeId;
    dump_sub(&S, "sub"); bool viab = rnd(2) || !constrained_prim;
    if (!infer_constraints(&S)) return;
    if (viab) { S.value = 0; bound(&S); if (S.type != OPEN || S.edge_to_branch == -1) return; }
    else { constrained_prim(&PB.graph, &S, (unsigned short) sp); if (!S.oneTree.isValid || mst_to_one_tree(&S, &PB.graph) != OPEN) return; }
    if (rnd(3) == 0) { double lb = S.oneTree.cost; PB.bestValue = PB.bestSolution.value = lb * (1 + rndd() * 0.4); D("incumbent now %.17g\n", PB.bestValue); }
    S2 = S; M m0, f0, m1, f1; masks(&S2, &m0, &f0); int r = variable_fixing(&S); masks(&S, &m1, &f1); D("fixed %d", r);
    check_sub_lists(&S, "after fixing");
    for (int i = 0; i < NV; i++) for (int j = 0; j < NV; j++) if (S2.constraints[i][j] != NOTHING) CHECK(S.constraints[i][j] == S2.constraints[i][j], "decision on %d-%d changed", i, j);
    for (int t = 0; t < nt; t++) if (adm(t, m0, f0) && tc[t] < PB.bestValue - tol(tc[t])) CHECK(adm(t, m1, f1), "an admissible tour of cost %.17g, below the incumbent %.17g, was cut off", tc[t], PB.bestValue);
}
/* ---- C21 C25 ---- */
static void bound_case(int which) {
    gen_problem(7, 3); set_incumbent(); int rounds = 1 + rnd(3);
    for (int r = 0; r < rounds; r++) {
        gen_sub(&S, rnd(4)); if (rnd(3)) PB.candidateNodeId = (unsigned short) rnd(n); 
        double b0 = best_adm(&S, 0); S.value = rnd(3) || b0 == DBL_MAX ? 0 : b0 * rndd(); dump_sub(&S, "sub");
        if (!infer_constraints(&S)) continue;
        S2 = S; double inc0 = PB.bestValue; bound(&S);
        double b = best_adm(&S2, 0), c; const char *w;
        M m0, f0, m1, f1; masks(&S2, &m0, &f0); masks(&S, &m1, &f1);
        if (which == 21) {
            CHECK(PB.bestValue <= inc0, "the incumbent became worse: %.17g after %.17g", PB.bestValue, inc0);
            if (PB.bestValue != inc0) { CHECK(is_tour(&PB.bestSolution, &c, &w), "the new incumbent is not a tour: %s", w); CHECK(fabs(c - PB.bestValue) <= tol(c), "incumbent value %.17g, cost of the tour %.17g", PB.bestValue, c); CHECK(PB.bestSolution.value == PB.bestValue, "two incumbent values"); }
            if (S.type == OPEN) { CHECK(m0 == m1 && f0 == f1, "decisions changed"); if (S.edge_to_branch != -1) CHECK(b == DBL_MAX || S.value <= b + tol(b), "value %.17g, but an admissible tour costs %.17g", S.value, b); }
            if (S.type != OPEN || S.edge_to_branch == -1) CHECK(b == DBL_MAX || b >= PB.bestValue - EPSILON - tol(b), "closed, but an admissible tour costs %.17g, incumbent %.17g, tolerance %.3g", b, PB.bestValue, (double) EPSILON);
        } else if (S.type == OPEN) {
            int e = S.edge_to_branch;
            if (e == -1) CHECK(b == DBL_MAX || b >= PB.bestValue - EPSILON - tol(b), "no branching edge, but an admissible tour costs %.17g, incumbent %.17g", b, PB.bestValue);
            else { CHECK(e >= 0 && e < PB.graph.num_edges, "branching edge %d does not exist", e); Edge *q = &PB.graph.edges[e]; CHECK(S.constraints[q->src][q->dest] == NOTHING && S2.constraints[q->src][q->dest] == NOTHING, "branching edge %d-%d is already decided", q->src, q->dest); 
                if (rnd(2)) { double lb = S.oneTree.cost; PB.bestValue = PB.bestSolution.value = lb * (1 + rndd() * 0.4); D("incumbent now %.17g\n", PB.bestValue); }
                variable_fixing(&S); CHECK(S.constraints[q->src][q->dest] == NOTHING, "branching edge %d-%d was decided by variable fixing before the branching", q->src, q->dest); }
        }
        const char *why; CHECK(eq_graph(&PB.graph, &G0, &why), "input graph altered: %s", why);
    }
}
static void c21(void) { bound_case(21); }
static void c25(void) { bound_case(25); }
/* ---- C26 ---- */
static void c26(void) {
    int hi = NV; n = 3 + rnd(hi - 2); gen_weights(n, 1); SH = 0; memset(&PB, 0, sizeof PB); build(&PB.graph, n, 0); set_problem(&PB); PB.start = __real_clock();
    int sp = rnd(n); PB.candidateNodeId = (unsigned short) sp; memset(&S, 0xA5, sizeof S); S.num_edges_in_cycle = 0; S.num_forbidden_edges = S.num_mandatory_edges = 0;
    create_mst(&S.oneTree, PB.graph.nodes, (unsigned short) n); int o[NV], k = 0; for (int i = 0; i < n; i++) if (i != sp) o[k++] = i;
    for (int i = k - 1; i > 0; i--) { int j = rnd(i + 1), t = o[i]; o[i] = o[j]; o[j] = t; }
    int style = rnd(4); static Edge te[NV]; int ne = 0;
    for (int i = 1; i < k; i++) { int f = style == 0 ? i - 1 : style == 1 ? (rnd(4) ? i - 1 : rnd(i)) : rnd(i); te[ne++] = PB.graph.edges_matrix[o[i]][o[f]]; }
    int a = style == 0 && rnd(3) ? 0 : rnd(k), b = style == 0 && rnd(3) ? k - 1 : rnd(k); if (a == b) b = (a + 1) % k;
    te[ne++] = PB.graph.edges_matrix[sp][o[a]]; te[ne++] = PB.graph.edges_matrix[sp][o[b]];
    if (rnd(2)) for (int i = ne - 1; i > 0; i--) { int j = rnd(i + 1); Edge t = te[i]; te[i] = te[j]; te[j] = t; }
    D("n=%d special=%d 1-tree:", n, sp); g_nontrivial = n > 3;
    for (int i = 0; i < ne; i++) { add_edge(&S.oneTree, &te[i]); D(" %d-%d", te[i].src, te[i].dest); } S.oneTree.isValid = true;
    int deg[NV] = {0}; for (int i = 0; i < ne; i++) { deg[te[i].src]++; deg[te[i].dest]++; } bool ham = true; for (int i = 0; i < n; i++) if (deg[i] != 2) ham = false;
    bool r = check_hamiltonian(&S); CHECK(r == ham, "answered %s", r ? "yes" : "no");
    int m = S.num_edges_in_cycle; CHECK(m >= 3 && m <= n, "cycle of %d edges", m); int d2[NV] = {0}; uf_init(n); int joins = 0;
    for (int i = 0; i < m; i++) { int x = S.cycleEdges[i].src, y = S.cycleEdges[i].dest; CHECK(x < n && y < n && S.oneTree.edges_matrix[x][y] != -1, "cycle edge %d-%d is not in the 1-tree", x, y); for (int j = 0; j < i; j++) { int p = S.cycleEdges[j].src, q = S.cycleEdges[j].dest; CHECK(!((p == x && q == y) || (p == y && q == x)), "cycle edge %d-%d twice", x, y); } d2[x]++; d2[y]++; joins += uf_union(x, y); }
    for (int i = 0; i < n; i++) CHECK(d2[i] == 0 || d2[i] == 2, "node %d has degree %d in the cycle", i, d2[i]); CHECK(joins == m - 1, "not one cycle"); CHECK(d2[sp] == 2, "the cycle avoids the special node");
}
/* ---- C23 ---- */
static double greedy_best; static int greedy_any;
static void greedy(int start, bool byprob, double *cost, bool *found, bool *tie) { /* the unique greedy walk; *tie: a choice was not unique */
    bool vis[NV] = {0}; int cur = start; *cost = 0; *found = false; *tie = false; vis[start] = true;
    for (int k = 1; k < n; k++) { int b = -1, cnt = 0; for (int j = 0; j < n; j++) if (!vis[j] && W[cur][j] >= 0) { double x = byprob ? -PR[cur][j] : W[cur][j]; double y = b < 0 ? 0 : byprob ? -PR[cur][b] : W[cur][b]; if (b < 0 || x < y) { b = j; cnt = 1; } else if (x == y) cnt++; } if (b < 0) return; if (cnt > 1) *tie = true; *cost += W[cur][b]; vis[b] = true; cur = b; }
    if (W[cur][start] < 0) return; *cost += W[cur][start]; *found = true;
}
static bool follows(SubProblem *s, int start, bool byprob) {
    bool vis[NV] = {0}; int cur = start; vis[start] = true;
    for (int k = 0; k < n; k++) { int a = s->cycleEdges[k].src, b = s->cycleEdges[k].dest; if (a != cur) { int t = a; a = b; b = t; } if (a != cur) return false; if (k == n - 1) return b == start; if (vis[b]) return false;
        for (int j = 0; j < n; j++) if (!vis[j] && W[cur][j] >= 0 && (byprob ? PR[cur][j] > PR[cur][b] : W[cur][j] < W[cur][b])) return false; vis[b] = true; cur = b; }
    return true;
}
static void c23(void) {
    deg2 = rnd(4); gen_problem(8, 3); int start = rnd(n); set_incumbent(); if (rnd(2)) PB.bestValue = PB.bestSolution.value = INFINITE; D("start %d incumbent %.17g\n", start, PB.bestValue);
    double inc0 = PB.bestValue, c1, c2 = DBL_MAX, c; bool f1, f2 = false, t1, t2 = false; greedy(start, false, &c1, &f1, &t1); if (HYBRID) greedy(start, true, &c2, &f2, &t2);
    nearest_prob_neighbour((unsigned short) start); const char *w;
    if (PB.bestValue != inc0) {
        CHECK(PB.bestValue < inc0, "the incumbent became worse"); CHECK(is_tour(&PB.bestSolution, &c, &w), "the initial tour is not a tour: %s", w); CHECK(fabs(c - PB.bestValue) <= tol(c), "value %.17g, cost of the tour %.17g", PB.bestValue, c); CHECK(PB.bestSolution.value == PB.bestValue, "two incumbent values");
        CHECK(follows(&PB.bestSolution, start, false) || (HYBRID && follows(&PB.bestSolution, start, true)), "the tour does not follow the nearest-neighbour rule");
    }
    if (!t1 && !t2) { double b = DBL_MAX; if (f1) b = c1; if (f2 && c2 < b) b = c2; double want = b < inc0 ? b : inc0; CHECK(fabs(PB.bestValue - want) <= tol(want) || PB.bestValue == want, "incumbent %.17g, expected %.17g", PB.bestValue, want); }
}
/* ---- C24 ---- */
static void c24(void) {
    gen_problem(9, 3); if (!min_degree2()) return; memset(&S, 0, sizeof S); double v[NV], mx = -DBL_MAX;
    for (int i = 0; i < n; i++) { if (!one_tree_oracle(&S, i, &v[i])) { g_nontrivial = 0; return; } if (v[i] > mx) mx = v[i]; }
    int r = find_candidate_node(); CHECK(r < n, "node %d", r); CHECK(v[r] >= mx - EPSILON - tol(mx), "node %d has relaxation %.17g, the strongest is %.17g", r, v[r], mx);
}
/* ---- whole solver ---- */
static double optimum(void) { double b = DBL_MAX; for (int t = 0; t < nt; t++) if (tc[t] < b) b = tc[t]; return b; }
static void poison(void) { /* the result may not depend on what the Problem held before */ Graph g = PB.graph; memset(&PB, 0, sizeof PB); PB.graph = g; if (rnd(2)) { PB.bestValue = rndd(); PB.bestSolution.num_edges_in_cycle = (unsigned short) rnd(n + 1); PB.interrupted = rnd(2); PB.exploredBBNodes = 999; PB.bestSolution.value = rndd(); PB.candidateNodeId = (unsigned short) rnd(n + !n); } }
static void check_result(int what, bool finished) {
    double c, opt = optimum(); const char *w;
    if (PB.bestValue >= 1e200) { if (what == 1) CHECK(PB.bestSolution.num_edges_in_cycle == 0, "no tour found, but a cycle of %d edges is reported", PB.bestSolution.num_edges_in_cycle); if (what == 3 && finished) CHECK(nt == 0, "no tour reported, but one of cost %.17g exists", opt); return; }
    bool t = is_tour(&PB.bestSolution, &c, &w);
    if (what == 1) CHECK(t, "the reported solution is not a Hamiltonian tour: %s", w);
    if (what == 2 && PB.bestSolution.num_edges_in_cycle == n) { c = 0; for (int k = 0; k < n; k++) c += PB.graph.edges_matrix[PB.bestSolution.cycleEdges[k].src][PB.bestSolution.cycleEdges[k].dest].weight; CHECK(fabs(c - PB.bestValue) <= tol(c), "reported cost %.17g, cost of the reported tour %.17g", PB.bestValue, c); }
    if (what == 3 && finished) CHECK(PB.bestValue <= opt + EPSILON + tol(opt), "reported %.17g, optimum %.17g, tolerance %.3g", PB.bestValue, opt, (double) EPSILON);
}
/* what print_problem shows is the result */
static void check_print(int what) {
    char *buf = NULL; size_t sz = 0; FILE *old = stdout; fflush(stdout); stdout = open_memstream(&buf, &sz); print_problem(); fclose(stdout); stdout = old;
    int m = -1, k = 0, a, b, first = -1, last = -1; double v = -1; char *p = strstr(buf, "Cycle with "), *q = strstr(buf, "with cost = ");
    if (p) m = atoi(p + 11);
    if (q) v = atof(q + 12);
    if (what == 20) { char *i = strstr(buf, "interrupted = "); CHECK(i && (strncmp(i + 14, "TRUE", 4) == 0) == PB.interrupted, "the interruption flag is %d, but the output says otherwise", PB.interrupted); }
    if (what == 2) CHECK(q && (PB.bestValue > 1e200 ? v > 1e200 : fabs(v - PB.bestValue) <= 1e-6 * (1 + fabs(v))), "printed cost %.17g, best value %.17g", v, PB.bestValue);
    if (what == 1) {
        CHECK(m == PB.bestSolution.num_edges_in_cycle, "a cycle of %d edges is announced, %d were found", m, PB.bestSolution.num_edges_in_cycle);
        bool seen[NV] = {0};
        for (p = strstr(buf, "<->"); p; p = strstr(p + 3, "<->")) {
            char *s = p - 1; while (s > buf && *s == ' ') s--; while (s > buf && s[-1] >= '0' && s[-1] <= '9') s--;
            a = atoi(s); b = atoi(p + 3);
            CHECK(a >= 0 && a < n && b >= 0 && b < n && a != b && (W[a][b] >= 0 || W[a][b] == -2), "printed step %d <-> %d is no edge", a, b);
            CHECK(k == 0 || a == last, "printed step %d starts at %d, the previous one ends at %d", k, a, last);
            CHECK(!seen[a], "the printed tour visits %d twice", a);
            seen[a] = true; if (k == 0) first = a; last = b; k++;
        }
        CHECK(k == (m < 0 ? 0 : m) && (k == 0 || last == first), "%d steps printed, %d announced, from %d to %d", k, m, first, last);
    }
    free(buf);
}
static void solve_case(int what) {
    deg2 = rnd(20) != 0; bool big = rnd(5) == 0; if (NV >= 12) big = true;
    gen_problem(big ? 13 : 8, big ? 9 : 3); if (rnd(60) == 0) { memset(&PB, 0, sizeof PB); G0 = PB.graph; n = nt = 0; D("no nodes%s\n", ""); } poison(); if (!n || !min_degree2()) { g_nontrivial = 0; if (n && rnd(8)) return; }
    bool feas = n && min_degree2(); const char *why;
    bool interrupt = what != 3 && what != 19 && rnd(4) == 0; if (interrupt) { fake_calls = 0; fake_jump_at = rnd(80); fake_jump = 700L * CLOCKS_PER_SEC; D("clock jumps after %ld readings\n", fake_jump_at); }
    branch_and_bound(&PB); fake_calls = -1;
    if (what == 19 || what == 27) CHECK(eq_graph(&PB.graph, &G0, &why), "input graph altered: %s", why);
    if (!feas) CHECK(what != 1 || (PB.bestValue >= 1e200 && !PB.interrupted), "rejected as infeasible, but the value %.17g is reported", PB.bestValue);
    if (what <= 3) check_result(what, !PB.interrupted);
    if (what <= 2) check_print(what);
    if (what == 27) { size_t b0 = __sanitizer_get_current_allocated_bytes(); print_problem(); print_graph(&PB.graph); print_subProblem(&PB.bestSolution); fflush(stdout); print_mst(&PB.bestSolution.oneTree); print_mst_original_weight(&PB.bestSolution.oneTree, &PB.graph); fflush(stdout); (void) b0; }
}
static void c01(void) { solve_case(1); }
static void c02(void) { solve_case(2); }
static void c03(void) { solve_case(3); }
static void c19(void) { solve_case(19); }
static void c20(void) {
    bool big = rnd(5) == 0 || NV >= 12; gen_problem(big ? 13 : 8, big ? 9 : 3); if (!min_degree2()) return; poison(); fake_calls = 0; fake_jump_at = 1L << 60; fake_jump = 0; branch_and_bound(&PB); long full = fake_calls; unsigned explored = PB.exploredBBNodes; CHECK(!PB.interrupted, "interrupted without the time limit having expired"); double fullv = PB.bestValue;
    poison(); fake_calls = 0; fake_jump_at = rnd((int) full + 4); fake_jump = (TIME_LIMIT_SECONDS + 1 + rnd(5000)) * (long) CLOCKS_PER_SEC; if (rnd(8) == 0) fake_jump = (long) CLOCKS_PER_SEC * (TIME_LIMIT_SECONDS - 3); D("clock jumps by %ld after %ld of %ld readings\n", fake_jump, fake_jump_at, full);
    branch_and_bound(&PB); fake_calls = -1;
    if (!PB.interrupted) { CHECK(PB.exploredBBNodes >= explored, "stopped after %u of %u subproblems, but the interruption flag is not set", PB.exploredBBNodes, explored); CHECK(PB.bestValue == fullv || (PB.bestValue <= optimum() + EPSILON + tol(fullv)), "not interrupted, but not optimal"); }
    CHECK(!(PB.interrupted && fake_jump < TIME_LIMIT_SECONDS * (long) CLOCKS_PER_SEC), "interrupted before the time limit");
    check_result(1, false); check_result(2, false); check_print(20); CHECK(PB.bestValue >= fullv - EPSILON - tol(fullv), "value below the optimum");
    double nn = DBL_MAX; (void) nn;
}
static void c27(void) {
    static int warm = 0; if (!warm) { warm = 1; printf("warm %f\n", 1.5); fprintf(stderr, "%s", ""); fflush(stdout); }
    size_t b0 = __sanitizer_get_current_allocated_bytes(); solve_case(27); size_t b1 = __sanitizer_get_current_allocated_bytes();
    static int first = 1; if (first) { first = 0; return; }
    CHECK(b1 == b0, "memory not released: %zd bytes", (ssize_t) (b1 - b0));
}
int main(int argc, char **argv) {
    static const HCase t[] = {{"C01", c01, 30}, {"C02", c02, 30}, {"C03", c03, 30}, {"C04", c04, 20}, {"C05", c05, 20}, {"C06", c06, 20}, {"C07", c07, 20}, {"C08", c08, 20}, {"C16", c16, 20}, {"C19", c19, 30}, {"C20", c20, 30}, {"C21", c21, 20}, {"C23", c23, 20}, {"C24", c24, 20}, {"C25", c25, 20}, {"C26", c26, 20}, {"C27", c27, 30}};
    return harness_main(argc, argv, t, sizeof t / sizeof *t);
}
