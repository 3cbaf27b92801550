# Prim's algorithm with mandatory edges: the trees are given by positions in the order of extraction
lemma RSumPos(b@AReal, n)
  requires n >= 0 && forall i {b[i]}: 0 <= i < n ==> b[i] >= 0.0
  measure n
  step if n > 0 then use RSumPos(b, n - 1)
  step if n > 0 then use RSumStep(b, n - 1)
  ensures rsum(b, n) >= 0.0
lemma RSumZero(b@AReal, n)
  requires n >= 0 && forall i {b[i]}: 0 <= i < n ==> b[i] == 0.0
  measure n
  step if n > 0 then use RSumZero(b, n - 1)
  step if n > 0 then use RSumStep(b, n - 1)
  ensures rsum(b, n) == 0.0
lemma RSumMix(a@AReal, b@AReal, c@AReal, x@Real, n)
  requires n >= 0 && forall i {c[i]}: 0 <= i < n ==> c[i] == a[i] + x * b[i]
  measure n
  step if n > 0 then use RSumMix(a, b, c, x, n - 1)
  step if n > 0 then use RSumStep(a, n - 1)
  step if n > 0 then use RSumStep(b, n - 1)
  step if n > 0 then use RSumStep(c, n - 1)
  step if n > 0 then assert x * rsum(b, n) == x * rsum(b, n - 1) + x * b[n - 1]
  ensures rsum(c, n) == rsum(a, n) + x * rsum(b, n)
# the nonzero summands of a occur among those of b, which are not negative
lemma InjSum(a@AReal, b@AReal, f@AInt, g@AInt, n, m)
  requires n >= 0 && m >= 0 && (forall i {a[i]}: 0 <= i < n && a[i] != 0.0 ==> 0 <= f[i] < m && b[f[i]] == a[i] && g[f[i]] == i) && (forall j {b[j]}: 0 <= j < m ==> b[j] >= 0.0)
  measure n
  step if n == 0 then use RSumPos(b, m)
  step if n > 0 then use RSumStep(a, n - 1)
  step if n > 0 && a[n - 1] == 0.0 then use InjSum(a, b, f, g, n - 1, m)
  step if n > 0 && a[n - 1] != 0.0 then use RSumSet(b, store(b, f[n - 1], 0.0), f[n - 1], m)
  step if n > 0 && a[n - 1] != 0.0 then use InjSum(a, store(b, f[n - 1], 0.0), f, g, n - 1, m)
  ensures rsum(a, n) <= rsum(b, m)
# the nonzero summands of a and b correspond to each other
lemma BijSum(a@AReal, b@AReal, f@AInt, g@AInt, n, m)
  requires n >= 0 && m >= 0 && (forall i {a[i]}: 0 <= i < n && a[i] != 0.0 ==> 0 <= f[i] < m && b[f[i]] == a[i] && g[f[i]] == i) && (forall j {b[j]}: 0 <= j < m && b[j] != 0.0 ==> 0 <= g[j] < n && a[g[j]] == b[j] && f[g[j]] == j)
  measure n
  step if n == 0 then use RSumZero(b, m)
  step if n > 0 then use RSumStep(a, n - 1)
  step if n > 0 && a[n - 1] == 0.0 then use BijSum(a, b, f, g, n - 1, m)
  step if n > 0 && a[n - 1] != 0.0 then use RSumSet(b, store(b, f[n - 1], 0.0), f[n - 1], m)
  step if n > 0 && a[n - 1] != 0.0 then use BijSum(a, store(b, f[n - 1], 0.0), f, g, n - 1, m)
  ensures rsum(a, n) == rsum(b, m)

pred mbridges(tw, tm, fp, fw, fm, n) = forall j, k {fp[j], tw[k]} {fp[j], tm[k]}: 0 <= j < n && fp[j] != -1 && 0 <= k < n && (j < k <= fp[j] || fp[j] < k <= j) ==> tm[k] || !fm[j] && tw[k] <= fw[j]
pred mtree(tp, tm, tw, n) = tw[0] == 0.0 && !tm[0] && tp[0] == -1 && forall k {tp[k]} {tm[k]}: 1 <= k < n ==> 0 <= tp[k] < k
pred both(tp, tw, tm, fp, fw, fm, n) = (forall k {tm[k]}: 1 <= k < n && tm[k] ==> (fp[k] == tp[k] && fm[k] && fw[k] == tw[k]) || (fp[tp[k]] == k && fm[tp[k]] && fw[tp[k]] == tw[k]))
|  && (forall j {fm[j]}: 0 <= j < n && fm[j] && fp[j] != -1 && tp[j] == fp[j] ==> tm[j] && tw[j] == fw[j])
|  && (forall j {fm[j]}: 0 <= j < n && fm[j] && fp[j] != -1 && tp[fp[j]] == j ==> tm[fp[j]] && tw[fp[j]] == fw[j])
# T takes every mandatory edge of a tree F that has them all
lemma MandIn(tp@AInt, tw@AReal, tm@ABool, fp@AInt, fd@AInt, fw@AReal, fm@ABool, r, n, j)
  requires n >= 1 && mtree(tp, tm, tw, n) && tree0(fp, fd, r, n) && fw[r] == 0.0 && !fm[r] && mbridges(tw, tm, fp, fw, fm, n) && both(tp, tw, tm, fp, fw, fm, n)
  requires 0 <= j < n && fm[j] && tp[j] != fp[j] && tp[fp[j]] != j
  step use PrimMin(lam k: tm[k] ? -1.0 : 0.0, fp, fd, lam k: fm[k] ? -1.0 : 0.0, r, n)
  step use RSumMix(lam k: 0.0, lam k: tm[k] ? 1.0 : 0.0, lam k: tm[k] ? -1.0 : 0.0, -1.0, n)
  step use RSumMix(lam k: 0.0, lam k: fm[k] ? 1.0 : 0.0, lam k: fm[k] ? -1.0 : 0.0, -1.0, n)
  step use RSumZero(lam k: 0.0, n)
  step use RSumSet(lam k: fm[k] ? 1.0 : 0.0, store(lam k: fm[k] ? 1.0 : 0.0, j, 0.0), j, n)
  step use InjSum(lam k: tm[k] ? 1.0 : 0.0, store(lam k: fm[k] ? 1.0 : 0.0, j, 0.0), lam k: fp[k] == tp[k] ? k : tp[k], lam k: tp[k] == fp[k] ? k : fp[k], n, n)
  ensures false
# and costs no more
lemma MandMin(tp@AInt, tw@AReal, tm@ABool, fp@AInt, fd@AInt, fw@AReal, fm@ABool, r, n, K@Real)
  requires n >= 1 && mtree(tp, tm, tw, n) && tree0(fp, fd, r, n) && fw[r] == 0.0 && !fm[r] && mbridges(tw, tm, fp, fw, fm, n) && both(tp, tw, tm, fp, fw, fm, n)
  requires K > 0.0 && (forall k {tw[k]}: 0 <= k < n ==> tw[k] > 0.0 - K) && (forall k {fw[k]}: 0 <= k < n ==> fw[k] > 0.0 - K)
  step if exists p: 0 <= p < n && fm[p] && tp[p] != fp[p] && tp[fp[p]] != p then obtain p: 0 <= p < n && fm[p] && tp[p] != fp[p] && tp[fp[p]] != p
  step if exists q: 0 <= q < n && fm[q] && tp[q] != fp[q] && tp[fp[q]] != q then use MandIn(tp, tw, tm, fp, fd, fw, fm, r, n, p)
  step assert forall j {fm[j]}: 0 <= j < n && fm[j] ==> tp[j] == fp[j] || tp[fp[j]] == j
  step use PrimMin(lam k: tm[k] ? 0.0 - K : tw[k], fp, fd, lam k: fm[k] ? 0.0 - K : fw[k], r, n)
  step use RSumMix(lam k: tm[k] ? 0.0 : tw[k], lam k: tm[k] ? 1.0 : 0.0, lam k: tm[k] ? 0.0 - K : tw[k], 0.0 - K, n)
  step use RSumMix(lam k: fm[k] ? 0.0 : fw[k], lam k: fm[k] ? 1.0 : 0.0, lam k: fm[k] ? 0.0 - K : fw[k], 0.0 - K, n)
  step use BijSum(lam k: tm[k] ? 1.0 : 0.0, lam k: fm[k] ? 1.0 : 0.0, lam k: fp[k] == tp[k] ? k : tp[k], lam k: tp[k] == fp[k] ? k : fp[k], n, n)
  step use BijSum(lam k: tm[k] ? tw[k] : 0.0, lam k: fm[k] ? fw[k] : 0.0, lam k: fp[k] == tp[k] ? k : tp[k], lam k: tp[k] == fp[k] ? k : fp[k], n, n)
  step use RSumMix(lam k: tm[k] ? 0.0 : tw[k], lam k: tm[k] ? tw[k] : 0.0, tw, 1.0, n)
  step use RSumMix(lam k: fm[k] ? 0.0 : fw[k], lam k: fm[k] ? fw[k] : 0.0, fw, 1.0, n)
  ensures (forall j {fm[j]}: 0 <= j < n && fm[j] ==> tp[j] == fp[j] || tp[fp[j]] == j) && rsum(tw, n) <= rsum(fw, n)
