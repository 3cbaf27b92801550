#!/usr/bin/env python3
"""Writes the planted bugs of /verif/seeded from the table below (patch.diff, demo.sh, demo.c, t.h, meta.json)
and confirms each in a scratch copy: builds, stable tests pass, demo passes without and fails with the patch.
   tools/mkseed.py [ID...]"""
import os, sys, subprocess, shutil, json, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = 'src/HybridSolver/main/'
BB, DS = M + 'algorithms/branch_and_bound.c', M + 'data_structures/'
T = r'''#include "main/algorithms/branch_and_bound.h"
#include "main/tsp_instance_reader.h"
bool infer_constraints(SubProblem *); void initialize_matrix(SubProblem *); void constrained_prim(Graph *, SubProblem *, unsigned short); BBNodeType mst_to_one_tree(SubProblem *, Graph *); int variable_fixing(SubProblem *); unsigned short find_candidate_node(void); void nearest_prob_neighbour(unsigned short); bool check_hamiltonian(SubProblem *); void bound(SubProblem *); void branch(SubProblemsList *, SubProblem *);
static Problem P;
/* complete or sparse graph from a weight function; w <= 0: no edge */
static void mk(Graph *g, int n, double (*w)(int, int), double (*p)(int, int)) {
    memset(g, 0, sizeof *g); g->kind = WEIGHTED_GRAPH; g->num_nodes = n;
    for (int i = 0; i < n; i++) g->nodes[i].positionInGraph = i;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (w(i, j) > 0) {
        Edge e; memset(&e, 0, sizeof e); e.src = i; e.dest = j; e.weight = w(i, j); e.prob = p ? p(i, j) : 0; e.symbol = g->num_edges + 1; e.positionInGraph = g->num_edges;
        g->edges[g->num_edges++] = e; g->edges_matrix[i][j] = g->edges_matrix[j][i] = e; g->cost += e.weight;
        g->nodes[i].neighbours[g->nodes[i].num_neighbours++] = j; g->nodes[j].neighbours[g->nodes[j].num_neighbours++] = i;
    }
}
static SubProblem S0;
static void start(SubProblem *s, int cand) { memset(s, 0, sizeof *s); initialize_matrix(s); s->edge_to_branch = -1; s->treeLevel = 2; s->type = OPEN; P.candidateNodeId = cand; P.bestValue = P.bestSolution.value = INFINITE; P.reformulationGraph = P.graph; set_problem(&P); }
static void decide(SubProblem *s, int a, int b, ConstraintType t) { s->constraints[a][b] = s->constraints[b][a] = t; if (t == MANDATORY) { s->mandatoryEdges[s->num_mandatory_edges].src = a; s->mandatoryEdges[s->num_mandatory_edges].dest = b; s->num_mandatory_edges++; } else s->num_forbidden_edges++; }
static unsigned rs = 12345; static unsigned rn(unsigned n) { rs = rs * 1103515245u + 12345u; return (rs >> 8) % n; }
static double WM[MAX_VERTEX_NUM][MAX_VERTEX_NUM]; static double wm(int i, int j) { return WM[i][j]; }
/* cheapest tour obeying s (NULL: none), by enumeration */
static double opt_rec(int n, int *t, int k, int used, double c, SubProblem *s) {
    if (k == n) { int a = t[n - 1], b = t[0]; if (WM[a][b] <= 0 || (s && s->constraints[a][b] == FORBIDDEN)) return INFINITE;
        if (s) for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (s->constraints[i][j] == MANDATORY) { int ok = 0; for (int q = 0; q < n; q++) { int x = t[q], y = t[(q + 1) % n]; if ((x == i && y == j) || (x == j && y == i)) ok = 1; } if (!ok) return INFINITE; }
        return c + WM[a][b]; }
    double best = INFINITE; for (int v = 1; v < n; v++) if (!(used >> v & 1) && WM[t[k - 1]][v] > 0 && !(s && s->constraints[t[k - 1]][v] == FORBIDDEN)) { t[k] = v; double x = opt_rec(n, t, k + 1, used | 1 << v, c + WM[t[k - 1]][v], s); if (x < best) best = x; }
    return best; }
static double opt(int n, SubProblem *s) { int t[20] = {0}; return opt_rec(n, t, 1, 1, 0, s); }
#define FAILIF(c) do { if (c) { printf("WRONG: %s\n", #c); return 1; } } while (0)
'''
SEEDS = {}


def seed(id, prop, edits, N, H, demo, needs, breaks, san=True): SEEDS[id] = (prop, edits, N, H, demo, needs, breaks, san)


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds.py')).read())


def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def main():
    ids = sys.argv[1:] or list(SEEDS)
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for id in ids:
        prop, edits, N, H, demo, needs, breaks, san = SEEDS[id]
        d = os.path.join(ROOT, 'seeded', id); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + '/t.h', 'w').write(T); open(d + '/demo.c', 'w').write('#include "t.h"\n' + demo)
        open(d + '/demo.sh', 'w').write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
S=$PWD/src/HybridSolver
clang -O1 -g -w -std=gnu11 %s -DMAX_VERTEX_NUM=%d -DHYBRID=%d -I"$S" "$here/demo.c" $(find "$S/main" -name '*.c' ! -name main.c) -o "$t/demo" -lm -lpthread || exit 2
cd "$t" && ulimit -s unlimited; ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo
''' % ('-fsanitize=address,undefined -fno-sanitize-recover=all' if san else '', N, H))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        w = tempfile.mkdtemp(prefix='seed_'); r = w + '/repo'; sh('cp -a /repo %s' % r)
        for f, old, new in edits:
            s = open(r + '/' + f).read()
            if s.count(old) != 1: print(id, 'EDIT MATCHES', s.count(old), old); break
            open(r + '/' + f, 'w').write(s.replace(old, new))
        p = sh('git -C %s diff' % r); open(d + '/patch.diff', 'wb').write(p.stdout)
        a = sh('bash %s/demo.sh' % d, cwd='/repo'); b = sh('bash %s/demo.sh' % d, cwd=r)
        # stable tests on /repo with the patch
        t = ''
        try:
            sh('git -C /repo apply %s/patch.diff' % d)
            x = sh('bash /opt/vp/build.sh'); y = sh('bash /opt/vp/test.sh %s/out.json' % w)
            ok = set(json.load(open(w + '/out.json'))['passed']); t = 'tests ok' if stable <= ok else 'TESTS FAIL %s' % sorted(stable - ok)[:3]
            if x.returncode: t = 'BUILD FAILS'
        finally: sh('git -C /repo checkout -- .'); sh('bash /opt/vp/build.sh')
        good = a.returncode == 0 and b.returncode not in (0, 2) and t == 'tests ok' and p.stdout
        print('%-14s %s without=%d with=%d %s' % (id, 'OK ' if good else 'BAD', a.returncode, b.returncode, t), flush=True)
        if not good: print(a.stdout[-400:].decode(errors='replace'), '----', b.stdout[-400:].decode(errors='replace'))
        shutil.rmtree(w)


main()
