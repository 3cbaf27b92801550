# exchanging an edge of a path for an edge of the Prim tree.  The path is qq[0], .., qq[n - 1] (places rr); fp, fw, fm = its tree rooted at qq[0]
pred pathtree(qq, rr, fp, n) = n >= 1 && (forall i {qq[i]}: 0 <= i < n ==> 0 <= qq[i] < n && rr[qq[i]] == i) && (forall j {rr[j]}: 0 <= j < n ==> 0 <= rr[j] < n && qq[rr[j]] == j)
|  && fp[qq[0]] == -1 && forall i {qq[i]}: 1 <= i < n ==> fp[qq[i]] == qq[i - 1]
# the steps between the ends of a tree edge
pred tself(tp, tw, tm, n) = forall y, k {tp[y], tw[k]}: 1 <= y < n && tp[y] < k <= y && !tm[y] ==> tm[k] || tw[k] <= tw[y]
# the path without its edge at place e, and with an edge of weight wg between places a and b
pred swapped(qq, rr, fw, fm, e, a, b, wg, fp2, fd2, fw2, fm2, p2, q2, n) = forall j {fp2[j]} {fw2[j]} {fm2[j]} {fd2[j]} {p2[j]} {q2[j]}: 0 <= j < n ==>
|     fp2[j] == (rr[j] == 0 ? -1 : rr[j] == b ? qq[a] : rr[j] < e || rr[j] > b ? qq[rr[j] - 1] : qq[rr[j] + 1])
|  && fd2[j] == (rr[j] < e ? rr[j] : rr[j] > b ? n + rr[j] - b : n + b - rr[j])
|  && fw2[j] == (rr[j] == b ? wg : rr[j] < e || rr[j] > b ? fw[j] : fw[qq[rr[j] + 1]])
|  && (fm2[j] <==> rr[j] != b && (rr[j] < e || rr[j] > b ? fm[j] : fm[qq[rr[j] + 1]]))
|  && p2[j] == (rr[j] == b ? qq[e] : rr[j] < e || rr[j] > b ? j : qq[rr[j] + 1])
|  && q2[j] == (rr[j] == e ? qq[b] : rr[j] < e || rr[j] > b ? j : qq[rr[j] - 1])
lemma ExchOne(tp@AInt, tw@AReal, tm@ABool, fp@AInt, fw@AReal, fm@ABool, qq@AInt, rr@AInt, n, K@Real, e, a, b, y, fp2@AInt, fd2@AInt, fw2@AReal, fm2@ABool, p2@AInt, q2@AInt)
  requires mtree(tp, tm, tw, n) && pathtree(qq, rr, fp, n) && fw[qq[0]] == 0.0 && !fm[qq[0]] && mbridges(tw, tm, fp, fw, fm, n) && both(tp, tw, tm, fp, fw, fm, n) && tself(tp, tw, tm, n)
  requires K > 0.0 && (forall k {tw[k]}: 0 <= k < n ==> tw[k] > 0.0 - K) && (forall k {fw[k]}: 0 <= k < n ==> fw[k] > 0.0 - K)
  requires 0 <= a < e && e <= b && b < n && 1 <= y < n && !fm[qq[e]] && !tm[y] && pairis(qq[a], qq[b], y, tp[y])
  requires swapped(qq, rr, fw, fm, e, a, b, tw[y], fp2, fd2, fw2, fm2, p2, q2, n)
  step assert tree0(fp2, fd2, qq[0], n)
  step assert forall j {fp2[j]}: 0 <= j < n && j != qq[b] && j != qq[0] ==> (rr[j] < e || rr[j] > b ? fp[j] == fp2[j] && fw2[j] == fw[j] && (fm2[j] <==> fm[j]) : fp[fp2[j]] == j && 0 <= fp2[j] < n && fw2[j] == fw[fp2[j]] && (fm2[j] <==> fm[fp2[j]]))
  step assert mbridges(tw, tm, fp2, fw2, fm2, n)
  step assert forall j {fp[j]}: 0 <= j < n && j != qq[e] && j != qq[0] ==> (fp2[j] == fp[j] && fw2[j] == fw[j] && (fm2[j] <==> fm[j])) || (fp2[fp[j]] == j && fw2[fp[j]] == fw[j] && (fm2[fp[j]] <==> fm[j]))
  step assert forall k {tm[k]}: 1 <= k < n && tm[k] ==> (fp2[k] == tp[k] && fm2[k] && fw2[k] == tw[k]) || (fp2[tp[k]] == k && fm2[tp[k]] && fw2[tp[k]] == tw[k])
  step assert both(tp, tw, tm, fp2, fw2, fm2, n)
  step use MandMin(tp, tw, tm, fp2, fd2, fw2, fm2, qq[0], n, K)
  step use RSumSet(fw, store(fw, qq[e], tw[y]), qq[e], n)
  step use RSumPerm(store(fw, qq[e], tw[y]), fw2, p2, q2, n)
  ensures rsum(tw, n) <= rsum(fw, n) - fw[qq[e]] + tw[y]
lemma ExchGo(tp@AInt, tw@AReal, tm@ABool, fp@AInt, fw@AReal, fm@ABool, qq@AInt, rr@AInt, n, K@Real, e, a, b, y)
  requires mtree(tp, tm, tw, n) && pathtree(qq, rr, fp, n) && fw[qq[0]] == 0.0 && !fm[qq[0]] && mbridges(tw, tm, fp, fw, fm, n) && both(tp, tw, tm, fp, fw, fm, n) && tself(tp, tw, tm, n)
  requires K > 0.0 && (forall k {tw[k]}: 0 <= k < n ==> tw[k] > 0.0 - K) && (forall k {fw[k]}: 0 <= k < n ==> fw[k] > 0.0 - K)
  requires 0 <= a < e && e <= b && b < n && 1 <= y < n && !fm[qq[e]] && !tm[y] && pairis(qq[a], qq[b], y, tp[y])
  step use ExchOne(tp, tw, tm, fp, fw, fm, qq, rr, n, K, e, a, b, y, lam j: rr[j] == 0 ? -1 : rr[j] == b ? qq[a] : rr[j] < e || rr[j] > b ? qq[rr[j] - 1] : qq[rr[j] + 1], lam j: rr[j] < e ? rr[j] : rr[j] > b ? n + rr[j] - b : n + b - rr[j], lam j: rr[j] == b ? tw[y] : rr[j] < e || rr[j] > b ? fw[j] : fw[qq[rr[j] + 1]], lam j: rr[j] != b && (rr[j] < e || rr[j] > b ? fm[j] : fm[qq[rr[j] + 1]]), lam j: rr[j] == b ? qq[e] : rr[j] < e || rr[j] > b ? j : qq[rr[j] + 1], lam j: rr[j] == e ? qq[b] : rr[j] < e || rr[j] > b ? j : qq[rr[j] - 1])
  ensures rsum(tw, n) <= rsum(fw, n) - fw[qq[e]] + tw[y]
# every exchange at once
pred xcase(tp, tm, fm, qq, rr, n, e, y) = 1 <= e < n && 1 <= y < n && !fm[qq[e]] && !tm[y] && min(rr[y], rr[tp[y]]) < e && e <= max(rr[y], rr[tp[y]])
lemma ExchAll(tp@AInt, tw@AReal, tm@ABool, fp@AInt, fw@AReal, fm@ABool, qq@AInt, rr@AInt, n, K@Real)
  requires mtree(tp, tm, tw, n) && pathtree(qq, rr, fp, n) && fw[qq[0]] == 0.0 && !fm[qq[0]] && mbridges(tw, tm, fp, fw, fm, n) && both(tp, tw, tm, fp, fw, fm, n) && tself(tp, tw, tm, n)
  requires K > 0.0 && (forall k {tw[k]}: 0 <= k < n ==> tw[k] > 0.0 - K) && (forall k {fw[k]}: 0 <= k < n ==> fw[k] > 0.0 - K)
  step if exists e1, y1: xcase(tp, tm, fm, qq, rr, n, e1, y1) && !(rsum(tw, n) <= rsum(fw, n) - fw[qq[e1]] + tw[y1]) then obtain e: exists y1: xcase(tp, tm, fm, qq, rr, n, e, y1) && !(rsum(tw, n) <= rsum(fw, n) - fw[qq[e]] + tw[y1])
  step if exists y1: xcase(tp, tm, fm, qq, rr, n, e, y1) && !(rsum(tw, n) <= rsum(fw, n) - fw[qq[e]] + tw[y1]) then obtain y: xcase(tp, tm, fm, qq, rr, n, e, y) && !(rsum(tw, n) <= rsum(fw, n) - fw[qq[e]] + tw[y])
  step if xcase(tp, tm, fm, qq, rr, n, e, y) then assert pairis(qq[min(rr[y], rr[tp[y]])], qq[max(rr[y], rr[tp[y]])], y, tp[y])
  step if xcase(tp, tm, fm, qq, rr, n, e, y) then use ExchGo(tp, tw, tm, fp, fw, fm, qq, rr, n, K, e, min(rr[y], rr[tp[y]]), max(rr[y], rr[tp[y]]), y)
  ensures forall e, y {qq[e], tp[y]}: xcase(tp, tm, fm, qq, rr, n, e, y) ==> rsum(tw, n) <= rsum(fw, n) - fw[qq[e]] + tw[y]
