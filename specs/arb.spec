# an arbitrary Hamiltonian tour of the graph: tq()[k] is its k-th node (tr() = places), tnx(), tpv() its successors and predecessors
pred tnext(k, n) = k + 1 == n ? 0 : k + 1
pred tord(n, c) = istour(n) && tq()[0] == c && (forall i {tq()[i]}: 0 <= i < n ==> 0 <= tq()[i] < n && tr()[tq()[i]] == i) && (forall u {tr()[u]}: 0 <= u < n ==> 0 <= tr()[u] < n && tq()[tr()[u]] == u)
|  && (forall u {tnx()[u]}: 0 <= u < n ==> tr()[tnx()[u]] == (tr()[u] + 1 == n ? 0 : tr()[u] + 1)) && (forall u {tpv()[u]}: 0 <= u < n ==> tr()[u] == (tr()[tpv()[u]] + 1 == n ? 0 : tr()[tpv()[u]] + 1))
pred tgraph(g) = (forall u {tnx()[u]}: nodeof(g, u) ==> names(g, u, tnx()[u])) && (forall u {tpv()[u]}: nodeof(g, u) ==> names(g, u, tpv()[u]))
# the tree and the pair that make up the tour
pred tshape(n, c) = froot() == tq()[1] && spa() == tq()[1] && spb() == tq()[n - 1] && (forall v {fpar(v)}: 0 <= v < n && v != c && v != froot() ==> fpar(v) == tpv()[v]) && (forall v {fdep(v)}: 0 <= v < n ==> fdep(v) == tr()[v])
# weights of its steps
ghostfield Problem.tw AReal
pred tsteps(p) = forall k {p->tw[k]}: 0 <= k < p->graph.num_nodes ==> p->tw[k] == p->graph.edges_matrix[tq()[k]][tnx()[tq()[k]]].weight
pred thetour(p) = tord(p->graph.num_nodes, p->candidateNodeId) && tgraph(&p->graph) && tshape(p->graph.num_nodes, p->candidateNodeId) && tsteps(p)
pred tcost(p) = rsum(p->tw, p->graph.num_nodes)
# an injective sequence reaches every position
lemma Surj(p@AInt, n, m)
  requires 0 <= m < n && (forall i {p[i]}: 0 <= i < n ==> 0 <= p[i] < n) && (forall i, j {p[i], p[j]}: 0 <= i < j < n ==> p[i] != p[j])
  step if !(exists i: 0 <= i < n && p[i] == m) then use Pigeon(store(p, n, m), n + 1, n)
  ensures exists i {p[i]}: 0 <= i < n && p[i] == m
lemma RSumInj(a@AReal, b@AReal, p@AInt, n)
  requires n >= 0 && (forall i {p[i]} {b[i]}: 0 <= i < n ==> 0 <= p[i] < n && b[i] == a[p[i]]) && (forall i, j {p[i], p[j]}: 0 <= i < j < n ==> p[i] != p[j])
  measure n
  step if n > 0 then use Surj(p, n, n - 1)
  step if n > 0 then obtain i: 0 <= i < n && p[i] == n - 1
  step if n > 0 then use RSumStep(a, n - 1)
  step if n > 0 then use RSumStep(b, n - 1)
  step if n > 0 && i == n - 1 then use RSumInj(a, b, p, n - 1)
  step if n > 0 && i != n - 1 then use RSumSet(b, store(b, i, b[n - 1]), i, n - 1)
  step if n > 0 && i != n - 1 then use RSumInj(a, store(b, i, b[n - 1]), store(p, i, p[n - 1]), n - 1)
  ensures rsum(a, n) == rsum(b, n)
# node weights added to both ends of each step of a tour
lemma TourPi(a@AReal, b@AReal, pi@AReal, q@AInt, n)
  requires n >= 1 && (forall i {q[i]}: 0 <= i < n ==> 0 <= q[i] < n) && (forall i, j {q[i], q[j]}: 0 <= i < j < n ==> q[i] != q[j])
  requires forall k {a[k]} {b[k]}: 0 <= k < n ==> b[k] == a[k] + pi[q[k]] + pi[q[k + 1 == n ? 0 : k + 1]]
  step use RSumInj(pi, lam k: pi[q[k]], q, n)
  step use RSumInj(pi, lam k: pi[q[k + 1 == n ? 0 : k + 1]], lam k: q[k + 1 == n ? 0 : k + 1], n)
  step use RSumMix(a, lam k: pi[q[k]], lam k: a[k] + pi[q[k]], 1.0, n)
  step use RSumMix(lam k: a[k] + pi[q[k]], lam k: pi[q[k + 1 == n ? 0 : k + 1]], b, 1.0, n)
  ensures rsum(b, n) == rsum(a, n) + 2.0 * rsum(pi, n)
lemma RSumShift(b@AReal, a@AReal, n)
  requires n >= 2 && b[0] == 0.0 && b[1] == 0.0 && forall k {b[k]}: 2 <= k < n ==> b[k] == a[k - 1]
  measure n
  step use RSumStep(b, n - 1)
  step use RSumStep(a, n - 2)
  step if n == 2 then use RSumStep(b, 0)
  step if n > 2 then use RSumShift(b, a, n - 1)
  ensures rsum(b, n) + a[0] == rsum(a, n - 1)
# the tour consists of a path without node q[0] and the two steps at q[0]
lemma TreeTour(fv@AReal, a@AReal, q@AInt, n)
  requires n >= 3 && (forall i {q[i]}: 0 <= i < n ==> 0 <= q[i] < n) && (forall i, j {q[i], q[j]}: 0 <= i < j < n ==> q[i] != q[j])
  requires fv[q[0]] == 0.0 && fv[q[1]] == 0.0 && forall k {q[k]}: 2 <= k < n ==> fv[q[k]] == a[k - 1]
  step use RSumInj(fv, lam k: fv[q[k]], q, n)
  step use RSumShift(lam k: fv[q[k]], a, n)
  step use RSumStep(a, n - 1)
  ensures rsum(fv, n) + a[0] + a[n - 1] == rsum(a, n)
# the same for a sequence given with the places of its values
lemma TourPiR(a@AReal, b@AReal, pi@AReal, q@AInt, r@AInt, n)
  requires n >= 1 && (forall i {q[i]}: 0 <= i < n ==> 0 <= q[i] < n && r[q[i]] == i)
  requires forall k {a[k]} {b[k]}: 0 <= k < n ==> b[k] == a[k] + pi[q[k]] + pi[q[k + 1 == n ? 0 : k + 1]]
  step use TourPi(a, b, pi, q, n)
  ensures rsum(b, n) == rsum(a, n) + 2.0 * rsum(pi, n)
lemma TreeTourR(fv@AReal, a@AReal, q@AInt, r@AInt, n)
  requires n >= 3 && (forall i {q[i]}: 0 <= i < n ==> 0 <= q[i] < n && r[q[i]] == i)
  requires fv[q[0]] == 0.0 && fv[q[1]] == 0.0 && forall k {q[k]}: 2 <= k < n ==> fv[q[k]] == a[k - 1]
  step use TreeTour(fv, a, q, n)
  ensures rsum(fv, n) + a[0] + a[n - 1] == rsum(a, n)
# the n edges of a graph that contains a cycle of n nodes are those of the cycle
lemma CycleEdges(hc@AInt, es@AInt, ed@AInt, p@AInt, n)
  requires n >= 3 && hc[n] == hc[0] && (forall j, k {hc[j], hc[k]}: 0 <= j < k < n ==> hc[j] != hc[k]) && (forall k {p[k]} {hc[k]}: 0 <= k < n ==> 0 <= p[k] < n && pairis(hc[k], hc[k + 1], es[p[k]], ed[p[k]]))
  ensures forall j, k {p[j], p[k]}: 0 <= j < k < n ==> p[j] != p[k]
lemma CycleSum(hc@AInt, es@AInt, ed@AInt, ew@AReal, hw@AReal, p@AInt, n)
  requires n >= 3 && hc[n] == hc[0] && (forall j, k {hc[j], hc[k]}: 0 <= j < k < n ==> hc[j] != hc[k]) && (forall k {p[k]} {hc[k]}: 0 <= k < n ==> 0 <= p[k] < n && pairis(hc[k], hc[k + 1], es[p[k]], ed[p[k]]) && hw[k] == ew[p[k]])
  step use CycleEdges(hc, es, ed, p, n)
  step use RSumInj(ew, hw, p, n)
  ensures rsum(hw, n) == rsum(ew, n)
