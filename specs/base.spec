# general lemmas about finite sums and finite sets of positions
logic rsum(AReal, Int): Real
axiom rsum_zero: forall a@AReal {rsum(a, 0)}: rsum(a, 0) == 0.0
lemma RSumStep(a@AReal, n) trusted: definition of the sum of a prefix
  requires n >= 0
  ensures rsum(a, n + 1) == rsum(a, n) + a[n]
lemma RSumExt(a@AReal, b@AReal, n)
  requires n >= 0 && forall i {a[i]} {b[i]}: 0 <= i < n ==> a[i] == b[i]
  measure n
  step if n > 0 then use RSumExt(a, b, n - 1)
  step if n > 0 then use RSumStep(a, n - 1)
  step if n > 0 then use RSumStep(b, n - 1)
  ensures rsum(a, n) == rsum(b, n)
lemma RSumPush(a@AReal, b@AReal, n)
  requires n >= 0 && forall i {a[i]} {b[i]}: 0 <= i < n ==> a[i] == b[i]
  step use RSumExt(a, b, n)
  step use RSumStep(b, n)
  ensures rsum(b, n + 1) == rsum(a, n) + b[n]
# an injective sequence of n positions below m has n <= m
lemma Pigeon(f@AInt, n, m)
  requires n >= 0 && m >= 0 && (forall i {f[i]}: 0 <= i < n ==> 0 <= f[i] < m) && (forall i, j {f[i], f[j]}: 0 <= i < j < n ==> f[i] != f[j])
  measure m
  step assert n > 0 ==> 0 <= f[0] && f[0] < m
  step if n > 0 && m > 0 && (exists p: 0 <= p < n && f[p] == m - 1) then obtain p: 0 <= p < n && f[p] == m - 1
  step if n > 0 && m > 0 && (exists q: 0 <= q < n && f[q] == m - 1) then use Pigeon(store(f, p, f[n - 1]), n - 1, m - 1)
  step if n > 0 && m > 0 && !(exists q: 0 <= q < n && f[q] == m - 1) then use Pigeon(f, n, m - 1)
  ensures n <= m
