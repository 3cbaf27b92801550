# sums and the argument behind Prim's algorithm
# changing one summand
lemma RSumSet(a@AReal, b@AReal, i, n)
  requires 0 <= i < n && forall j {a[j]} {b[j]}: 0 <= j < n && j != i ==> a[j] == b[j]
  measure n
  step use RSumStep(a, n - 1)
  step use RSumStep(b, n - 1)
  step if i < n - 1 then use RSumSet(a, b, i, n - 1)
  step if i == n - 1 then use RSumExt(a, b, n - 1)
  ensures rsum(a, n) - a[i] == rsum(b, n) - b[i]
# summing in another order
lemma RSumPerm(a@AReal, b@AReal, p@AInt, q@AInt, n)
  requires n >= 0 && (forall i {p[i]}: 0 <= i < n ==> 0 <= p[i] < n && q[p[i]] == i && b[i] == a[p[i]]) && (forall i {q[i]}: 0 <= i < n ==> 0 <= q[i] < n && p[q[i]] == i)
  measure n
  step if n > 0 then use RSumStep(a, n - 1)
  step if n > 0 then use RSumStep(b, n - 1)
  step if n > 0 && q[n - 1] != n - 1 then use RSumSet(b, store(b, q[n - 1], b[n - 1]), q[n - 1], n - 1)
  step if n > 0 then use RSumPerm(a, store(b, q[n - 1], b[n - 1]), store(p, q[n - 1], p[n - 1]), store(q, p[n - 1], q[n - 1]), n - 1)
  step if n > 0 && q[n - 1] == n - 1 then use RSumExt(b, store(b, q[n - 1], b[n - 1]), n - 1)
  ensures rsum(a, n) == rsum(b, n)
# a cheapest edge at v (edge j joins j and fp[j]; the root, fp = -1, has none)
lemma CheapestAt(fp@AInt, fw@AReal, v, n)
  requires 0 <= n <= v && (fp[v] != -1 || exists j: 0 <= j < n && fp[j] == v)
  measure n
  step if n > 0 && (fp[v] != -1 || exists j: 0 <= j < n - 1 && fp[j] == v) then use CheapestAt(fp, fw, v, n - 1)
  step if n > 0 && (fp[v] != -1 || exists j: 0 <= j < n - 1 && fp[j] == v) then obtain x: (x == v && fp[v] != -1 || 0 <= x < n - 1 && fp[x] == v) && (fp[v] != -1 ==> fw[x] <= fw[v]) && forall j {fp[j]} {fw[j]}: 0 <= j < n - 1 && fp[j] == v ==> fw[x] <= fw[j]
  ensures exists y {fw[y]}: (y == v && fp[v] != -1 || 0 <= y < n && fp[y] == v) && (fp[v] != -1 ==> fw[y] <= fw[v]) && forall j {fp[j]} {fw[j]}: 0 <= j < n && fp[j] == v ==> fw[y] <= fw[j]
# the root of a tree of several nodes has a child
lemma RootChild(fp@AInt, fd@AInt, r, n, j)
  requires tree0(fp, fd, r, n) && 0 <= j < n && j != r
  measure fd[j]
  step if fp[j] != r then use RootChild(fp, fd, r, n, fp[j])
  ensures exists c: 0 <= c < n && fp[c] == r
# the Prim sequence W costs no more than any tree whose edges cost at least the steps they bridge
pred tree0(fp, fd, r, n) = 0 <= r < n && fp[r] == -1 && (forall j {fp[j]}: 0 <= j < n && j != r ==> 0 <= fp[j] < n && fd[fp[j]] < fd[j]) && forall j {fd[j]}: 0 <= j < n ==> fd[j] >= 0
pred bridges(W, fp, fw, n) = forall j, k {fp[j], W[k]}: 0 <= j < n && fp[j] != -1 && 0 <= k < n && (j < k <= fp[j] || fp[j] < k <= j) ==> W[k] <= fw[j]
lemma PrimMin(W@AReal, fp@AInt, fd@AInt, fw@AReal, r, n)
  requires n >= 1 && W[0] == 0.0 && fw[r] == 0.0 && tree0(fp, fd, r, n) && bridges(W, fp, fw, n)
  measure n
  step if n == 1 then use RSumStep(W, 0)
  step if n == 1 then use RSumStep(fw, 0)
  step if n > 1 && r == n - 1 then use RootChild(fp, fd, r, n, 0)
  step if n > 1 then use CheapestAt(fp, fw, n - 1, n - 1)
  step if n > 1 then obtain x: (x == n - 1 && fp[n - 1] != -1 || 0 <= x < n - 1 && fp[x] == n - 1) && (fp[n - 1] != -1 ==> fw[x] <= fw[n - 1]) && forall j {fp[j]} {fw[j]}: 0 <= j < n - 1 && fp[j] == n - 1 ==> fw[x] <= fw[j]
  step if n > 1 then assert W[n - 1] <= fw[x]
  step if n > 1 then use RSumStep(W, n - 1)
  step if n > 1 then use RSumStep(fw, n - 1)
  step if n > 1 && x == n - 1 then use PrimMin(W, lam j: fp[j] == n - 1 ? fp[n - 1] : fp[j], fd, fw, r, n - 1)
  step if n > 1 && x != n - 1 then use RSumSet(fw, store(fw, x, fw[n - 1]), x, n - 1)
  step if n > 1 && x != n - 1 then use PrimMin(W, store(lam j: fp[j] == n - 1 ? x : fp[j], x, fp[n - 1]), store(fd, x, fd[n - 1]), store(fw, x, fw[n - 1]), r == n - 1 ? x : r, n - 1)
  ensures rsum(W, n) <= rsum(fw, n)
# all nodes of a tree lie on the side of its root, if no edge changes sides
lemma OneSide(sd@AInt, fp@AInt, fd@AInt, r, c, n, v)
  requires 0 <= r < n && r != c && 0 <= v < n && v != c && fd[r] >= 0
  requires forall x {fp[x]} {fd[x]}: 0 <= x < n && x != c && x != r ==> 0 <= fp[x] < n && fp[x] != c && 0 <= fd[fp[x]] < fd[x] && sd[x] == sd[fp[x]]
  measure fd[v]
  step if v != r then use OneSide(sd, fp, fd, r, c, n, fp[v])
  ensures sd[v] == sd[r]
lemma AllOneSide(sd@AInt, fp@AInt, fd@AInt, r, c, n)
  requires 0 <= r < n && r != c && fd[r] >= 0
  requires forall x {fp[x]} {fd[x]}: 0 <= x < n && x != c && x != r ==> 0 <= fp[x] < n && fp[x] != c && 0 <= fd[fp[x]] < fd[x] && sd[x] == sd[fp[x]]
  step if exists v: 0 <= v < n && v != c && sd[v] != sd[r] then obtain v: 0 <= v < n && v != c && sd[v] != sd[r]
  step if exists w: 0 <= w < n && w != c && sd[w] != sd[r] then use OneSide(sd, fp, fd, r, c, n, v)
  ensures forall v {sd[v]}: 0 <= v < n && v != c ==> sd[v] == sd[r]
