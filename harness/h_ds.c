/* C12 disjoint sets, C13 Fibonacci heap, C14 list, C15 subproblem list: model-based histories. */
#include "common.h"
#include "gen.h"
#include "main/data_structures/b_and_b_data.h"
#include "main/data_structures/fibonacci_heap.h"

/* ---------------- C12 ---------------- */
static Forest forest; static Node nodes[MAX_VERTEX_NUM];
static void c12(void) {
    int n = 1 + rnd(MAX_VERTEX_NUM); int cons = n >= 2 && rnd(3) == 0; int cand = cons ? rnd(n) : -1;
    memset(&forest, 0xA5, sizeof forest);
    for (int i = 0; i < n; i++) { memset(&nodes[i], 0, sizeof(Node)); nodes[i].positionInGraph = (unsigned short) i; nodes[i].x = i; nodes[i].num_neighbours = (unsigned short) rnd(5); }
    D("n=%d special=%d ops:", n, cand);
    if (cons) create_forest_constrained(&forest, nodes, (unsigned short) n, (unsigned short) cand); else create_forest(&forest, nodes, (unsigned short) n);
    CHECK(forest.num_sets == (cons ? n - 1 : n), "number of sets %d", forest.num_sets);
    int lab[MAX_VERTEX_NUM]; for (int i = 0; i < n; i++) lab[i] = i;
    int ops = rnd(3 * n + 2); int shape = rnd(4); int prev = -1;
    g_nontrivial = ops > 0;
    for (int k = 0; k <= ops; k++) {
        if (k > 0) {
            int a = rnd(n), b = rnd(n);
            if (shape == 1 && prev >= 0) a = prev;             /* chains */
            if (shape == 2) { a = k % n; b = (k / 2) % n; }    /* binomial-like */
            if (a == cand || b == cand) continue;
            prev = b; D(" U(%d,%d)", a, b);
            merge(&forest.sets[a], &forest.sets[b]);
            int la = lab[a], lb = lab[b]; for (int i = 0; i < n; i++) if (lab[i] == lb) lab[i] = la;
        }
        int rounds = k == ops ? n : rnd(3);
        for (int q = 0; q < rounds; q++) {
            int a = k == ops ? q : rnd(n); if (a == cand) continue;
            Set *ra = find(&forest.sets[a]);
            CHECK(ra >= forest.sets && ra < forest.sets + n && ra != forest.sets + cand, "representative of %d outside of the forest", a);
            int idx = (int) (ra - forest.sets);
            CHECK(lab[idx] == lab[a], "representative of %d is %d, not in its class", a, idx);
            for (int b = 0; b < n; b++) if (b != cand) {
                if (k != ops && rnd(3)) continue;
                Set *rb = find(&forest.sets[b]);
                CHECK((rb == find(&forest.sets[a])) == (lab[a] == lab[b]), "find: %d and %d %s", a, b, lab[a] == lab[b] ? "connected but different representatives" : "not connected but same representative");
            }
        }
    }
    for (int i = 0; i < n; i++) if (i != cand) CHECK(forest.sets[i].num_in_forest == i && eq_node(&forest.sets[i].curr, &nodes[i]), "element %d no longer holds its node", i);
}

/* ---------------- C13 ---------------- */
#define HN 400
static OrdTreeNode hn[HN];
static void c13(void) {
    int n = rnd(4) ? 1 + rnd(24) : 1 + rnd(HN); int style = rnd(5);
    FibonacciHeap h; memset(&h, 0xA5, sizeof h); memset(hn, 0xA5, sizeof hn);
    unsigned short key[HN]; double val[HN]; int st[HN]; /* 0 new 1 in 2 out */
    int base = rnd(3) == 0 ? rnd(60000) : 0;
    for (int i = 0; i < n; i++) key[i] = (unsigned short) (base + i), st[i] = 0;
    for (int i = n - 1; i > 0 && rnd(2); i--) { int j = rnd(i + 1); unsigned short t = key[i]; key[i] = key[j]; key[j] = t; }
    create_fibonacci_heap(&h);
    CHECK(h.num_nodes == 0 && extract_min(&h) == -1 && h.num_nodes == 0, "new heap not empty");
    int live = 0, ins = 0, steps = n * 6 + 10;
    D("n=%d style=%d base=%d:", n, style, base); g_nontrivial = n > 2;
    for (int s = 0; s < steps || live; s++) {
        int op = rnd(10);
        if (style == 0 && ins < n) op = 0;                        /* all inserts first */
        if (s >= steps) op = 9;
        if (op <= 3 && ins < n) {
            double v = style == 1 ? rnd(4) : style == 2 ? (double) rnd(2 * n) : rndd() * 100 - (rnd(2) ? 50 : 0);
            if (rnd(12) == 0) v = DBL_MAX; if (rnd(40) == 0) v = FLT_MAX;
            val[ins] = v; st[ins] = 1; D(" I%d=%g", key[ins], v);
            if (rnd(2)) create_insert_node(&h, &hn[ins], key[ins], v); else { create_node(&hn[ins], key[ins], v); insert_node(&h, &hn[ins]); }
            ins++; live++;
        } else if (op <= 7 && live) {
            int k = rnd(n), c = 0; while (st[k] != 1 && c < n) { k = (k + 1) % n; c++; }
            if (rnd(3) == 0) { for (int i = 0; i < n; i++) if (st[i] == 1 && val[i] > val[k]) k = i; } /* deep/large ones: cuts */
            double v = val[k];
            switch (rnd(5)) { case 0: v -= 1; break; case 1: break; case 2: v = v > 0 ? v / 2 : v * 2; break;
                case 3: for (int i = 0; i < n; i++) if (st[i] == 1 && val[i] < v) v = val[i]; v -= rnd(2); break; default: v = v > 1e6 ? rndd() * 100 : v - rndd() * 20; }
            if (v > val[k]) v = val[k];
            D(" D%d=%g", key[k], v); decrease_value(&h, &hn[k], v); val[k] = v;
            CHECK(hn[k].value == v, "decreased value not stored");
        } else {
            if (style >= 3 && s < steps && rnd(3)) continue;
            int m = extract_min(&h); D(" X->%d", m);
            if (!live) { CHECK(m == -1, "extraction from an empty queue returned %d", m); continue; }
            int k = -1; for (int i = 0; i < n; i++) if (st[i] == 1 && key[i] == m) k = i;
            CHECK(k >= 0, "extracted key %d is not in the queue", m);
            for (int i = 0; i < n; i++) if (st[i] == 1) CHECK(!(val[i] < val[k]), "extracted key %d value %g, but key %d has value %g", m, val[k], key[i], val[i]);
            st[k] = 2; live--;
        }
        CHECK(h.num_nodes == live, "num_nodes %d, expected %d", h.num_nodes, live);
        CHECK((h.min_root == NULL) == (live == 0), "emptiness not recognised");
    }
    CHECK(extract_min(&h) == -1, "queue not empty at the end");
}

/* ---------------- C14 ---------------- */
static int vals[4096];
static void c14_check(List *l, int *m, int n) {
    CHECK(get_list_size(l) == (size_t) n && l->size == (size_t) n, "size %zu, expected %d", get_list_size(l), n);
    CHECK(is_list_empty(l) == (n == 0), "emptiness");
    int i = 0; DllElem *p = NULL;
    for (DllElem *e = l->head; e; p = e, e = e->next, i++) { CHECK(i < n, "too long forwards"); CHECK(e->prev == p, "prev link of element %d", i); CHECK(e->value == &vals[m[i]], "element %d differs forwards", i); }
    CHECK(i == n && l->tail == p, "length forwards %d, expected %d, or wrong tail", i, n);
    i = n; for (DllElem *e = l->tail; e; e = e->prev) { i--; CHECK(i >= 0 && e->value == &vals[m[i]], "element %d differs backwards", i); }
    CHECK(i == 0, "length backwards");
    for (i = 0; i < n; i++) CHECK(get_list_elem_index(l, (size_t) i) == &vals[m[i]], "element %d by index", i);
    CHECK(get_list_elem_index(l, (size_t) n) == NULL && get_list_elem_index(l, (size_t) n + 3) == NULL, "index out of range yields an element");
    ListIterator *it = create_list_iterator(l);
    for (i = 0; i < n; i++) {
        CHECK(is_list_iterator_valid(it), "iterator invalid at %d of %d", i, n);
        CHECK(get_current_list_iterator_element(it) == &vals[m[i]], "iterator element %d", i);
        if (i & 1) list_iterator_next(it); else CHECK(list_iterator_get_next(it) == &vals[m[i]], "iterator next %d", i);
    }
    CHECK(!is_list_iterator_valid(it) && list_iterator_get_next(it) == NULL, "iterator valid past the end");
    delete_list_iterator(it);
}
static void c14(void) {
    size_t before = __sanitizer_get_current_allocated_bytes();
    List *l = new_list(); int m[4096], n = 0; CHECK(l, "no list");
    int ops, bits = 0, exh = g_case < 4000;
    if (exh) { ops = 5; bits = (int) g_case; } else ops = 1 + rnd(60);
    D("ops:"); g_nontrivial = 1; c14_check(l, m, n);
    for (int k = 0; k < ops; k++) {
        int op, ix; int d = 2;
        if (exh) { int x = bits % 5; bits /= 5; op = x; ix = rnd(n + 2); } else { op = rnd(6); ix = rnd(8) == 0 ? n + rnd(3) : rnd(n + 1); if (op == 5 && rnd(3)) op = 0; }
        int v = rnd(4096); (void) d;
        switch (op) {
            case 0: D(" A%d", v); add_elem_list_bottom(l, &vals[v]); m[n++] = v; break;
            case 1: case 5: D(" I%d@%d", v, ix); add_elem_list_index(l, &vals[v], (size_t) ix); if (ix <= n) { memmove(m + ix + 1, m + ix, sizeof(int) * (size_t) (n - ix)); m[ix] = v; n++; } break;
            case 2: D(" DB"); delete_list_elem_bottom(l); if (n) n--; break;
            case 3: D(" D@%d", ix); delete_list_elem_index(l, (size_t) ix); if (ix < n) { memmove(m + ix, m + ix + 1, sizeof(int) * (size_t) (n - ix - 1)); n--; } break;
            default: D(" A%d", v); add_elem_list_bottom(l, &vals[v]); m[n++] = v; break;
        }
        c14_check(l, m, n);
    }
    if (rnd(10) == 0) { CHECK(is_list_empty(NULL) && get_list_size(NULL) == 0 && get_list_elem_index(NULL, 0) == NULL && !create_list_iterator(NULL) && !is_list_iterator_valid(NULL), "missing list"); add_elem_list_bottom(NULL, vals); add_elem_list_index(NULL, vals, 0); delete_list_elem_bottom(NULL); delete_list_elem_index(NULL, 0); del_list(NULL); }
    del_list(l);
    CHECK(__sanitizer_get_current_allocated_bytes() == before, "memory not released: %zu bytes", __sanitizer_get_current_allocated_bytes() - before);
}

/* ---------------- C15 ---------------- */
static SubProblem *pool[64];
static void c15_check(SubProblemsList *l, int *m, int n) {
    CHECK(get_SubProblemList_size(l) == (size_t) n && l->size == (size_t) n, "size %zu, expected %d", get_SubProblemList_size(l), n);
    CHECK(is_SubProblemList_empty(l) == (n == 0), "emptiness");
    int i = 0; SubProblemElem *p = NULL;
    for (SubProblemElem *e = l->head; e; p = e, e = e->next, i++) { CHECK(i < n, "too long forwards"); CHECK(e->prev == p, "prev link of element %d", i); CHECK(eq_sub(&e->subProblem, pool[m[i]]), "element %d differs forwards", i); }
    CHECK(i == n && l->tail == p, "length forwards %d, expected %d, or wrong tail", i, n);
    i = n; for (SubProblemElem *e = l->tail; e; e = e->prev) { i--; CHECK(i >= 0 && eq_sub(&e->subProblem, pool[m[i]]), "element %d differs backwards", i); }
    CHECK(i == 0, "length backwards");
    for (i = 0; i < n; i++) { SubProblem *s = get_SubProblemList_elem_index(l, (size_t) i); CHECK(s && eq_sub(s, pool[m[i]]), "element %d by index", i); }
    CHECK(get_SubProblemList_elem_index(l, (size_t) n) == NULL && get_SubProblemList_elem_index(l, (size_t) n + 2) == NULL, "index out of range yields an element");
    SubProblemsListIterator *it = create_SubProblemList_iterator(l);
    for (i = 0; i < n; i++) { CHECK(is_SubProblemList_iterator_valid(it), "iterator invalid at %d", i); SubProblem *s = SubProblemList_iterator_get_next(it); CHECK(s && eq_sub(s, pool[m[i]]), "iterator element %d", i); }
    CHECK(!is_SubProblemList_iterator_valid(it) && SubProblemList_iterator_get_next(it) == NULL, "iterator valid past the end");
    delete_SubProblemList_iterator(it);
}
static void c15(void) {
    if (!pool[0]) for (int i = 0; i < 64; i++) { pool[i] = malloc(sizeof(SubProblem)); for (size_t b = 0; b < sizeof(SubProblem); b++) ((unsigned char *) pool[i])[b] = (unsigned char) rnd64(); pool[i]->oneTree.isValid = rnd(2); pool[i]->type = (BBNodeType) rnd(3); }
    size_t before = __sanitizer_get_current_allocated_bytes();
    SubProblemsList L, *l = &L; memset(l, 0xA5, sizeof L); new_SubProblemList(l); int m[4096], n = 0;
    int exh = g_case < 1500, bits = (int) g_case, ops = exh ? 5 : 1 + rnd(40);
    D("ops:"); g_nontrivial = 1; c15_check(l, m, n);
    for (int k = 0; k < ops; k++) {
        int op = exh ? bits % 4 : rnd(4); bits /= 4; int ix = rnd(8) == 0 ? n + rnd(3) : rnd(n + 1), v = rnd(64);
        SubProblem *s = malloc(sizeof(SubProblem)); memcpy(s, pool[v], sizeof(SubProblem)); /* must be copied, not kept */
        switch (op) {
            case 0: D(" A%d", v); add_elem_SubProblemList_bottom(l, s); m[n++] = v; break;
            case 1: D(" I%d@%d", v, ix); add_elem_SubProblemList_index(l, s, (size_t) ix); if (ix <= n) { memmove(m + ix + 1, m + ix, sizeof(int) * (size_t) (n - ix)); m[ix] = v; n++; } break;
            case 2: if (rnd(2)) ix = n ? rnd(n) : 0;
                D(" D@%d", ix); delete_SubProblemList_elem_index(l, (size_t) ix); if (ix < n) { memmove(m + ix, m + ix + 1, sizeof(int) * (size_t) (n - ix - 1)); n--; } break;
            default: D(" I%d@0", v); add_elem_SubProblemList_index(l, s, 0); memmove(m + 1, m, sizeof(int) * (size_t) n); m[0] = v; n++; break;
        }
        CHECK(eq_sub(s, pool[v]), "the inserted subproblem was altered");
        memset(s, 0x5A, sizeof *s); free(s);
        c15_check(l, m, n);
    }
    if (rnd(10) == 0) { CHECK(is_SubProblemList_empty(NULL) && get_SubProblemList_size(NULL) == 0 && !get_SubProblemList_elem_index(NULL, 0) && !create_SubProblemList_iterator(NULL) && !is_SubProblemList_iterator_valid(NULL), "missing list"); add_elem_SubProblemList_bottom(NULL, pool[0]); add_elem_SubProblemList_index(NULL, pool[0], 0); delete_SubProblemList_elem_index(NULL, 0); delete_SubProblemList(NULL); }
    delete_SubProblemList(l);
    CHECK(__sanitizer_get_current_allocated_bytes() == before, "memory not released: %zd bytes", (ssize_t) (__sanitizer_get_current_allocated_bytes() - before));
}

int main(int argc, char **argv) {
    static const HCase t[] = {{"C12", c12, 20}, {"C13", c13, 20}, {"C14", c14, 20}, {"C15", c15, 20}};
    return harness_main(argc, argv, t, 4);
}
