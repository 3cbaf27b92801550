# Fibonacci heaps.  Ghost state of a heap: in = its nodes; kx = node of a key; nm, ix = a numbering of the nodes;
# sq[p] = the children of p in the order of their ring (sq[0]: the roots), cn[p] = how many, ps = place in the ring;
# ht = a height (parents are higher), top = a bound on it.
ghostfield FibonacciHeap.in ABool
ghostfield FibonacciHeap.kx AInt
ghostfield FibonacciHeap.nm AInt
ghostfield FibonacciHeap.ix AInt
ghostfield FibonacciHeap.sq AAInt
ghostfield FibonacciHeap.cn AInt
ghostfield FibonacciHeap.ps AInt
ghostfield FibonacciHeap.ht AInt
ghostfield FibonacciHeap.top Int
pred par(p) = code(@OrdTreeNode[p].parent)
pred right(p) = code(@OrdTreeNode[p].right_sibling)
pred left(p) = code(@OrdTreeNode[p].left_sibling)
pred inq(hp, q) = q == 0 || hp->in[q]
# members, parents, keys, numbering
pred hmem(hp, n) = !hp->in[0] && 0 <= n <= 65535
|  && (forall p {hp->in[p]}: hp->in[p] ==> p > 0 && alive(OrdTreeNode, p) && hp->kx[@OrdTreeNode[p].key] == p && 0 <= hp->ix[p] < n && hp->nm[hp->ix[p]] == p)
|  && (forall k {hp->nm[k]}: 0 <= k < n ==> hp->in[hp->nm[k]] && hp->ix[hp->nm[k]] == k)
# the rings as sequences
pred hseq(hp) = hp->cn[0] >= 0
|  && (forall p {hp->in[p]} {par(p)}: hp->in[p] ==> inq(hp, par(p)) && 0 <= hp->ps[p] < hp->cn[par(p)] && hp->sq[par(p)][hp->ps[p]] == p && 0 <= hp->cn[p] == @OrdTreeNode[p].num_children && 0 <= hp->ht[p] <= hp->top && (par(p) != 0 ==> hp->ht[p] < hp->ht[par(p)]))
|  && (forall q, i {hp->sq[q][i]}: inq(hp, q) && 0 <= i < hp->cn[q] ==> hp->in[hp->sq[q][i]] && par(hp->sq[q][i]) == q && hp->ps[hp->sq[q][i]] == i)
# the pointers follow the sequences
pred hnext(hp, p) = hp->sq[par(p)][hp->ps[p] + 1 < hp->cn[par(p)] ? hp->ps[p] + 1 : 0]
pred hprev(hp, p) = hp->sq[par(p)][hp->ps[p] > 0 ? hp->ps[p] - 1 : hp->cn[par(p)] - 1]
pred hring(hp, p) = right(p) == hnext(hp, p) && left(p) == hprev(hp, p)
pred hends(hp, q) = hp->cn[q] > 0 ==> code(@OrdTreeNode[q].head_child_list) == hp->sq[q][0] && code(@OrdTreeNode[q].tail_child_list) == hp->sq[q][hp->cn[q] - 1]
pred hrings(hp) = (forall p {hp->in[p]} {right(p)} {left(p)}: hp->in[p] ==> hring(hp, p))
|  && (forall q {hp->cn[q]}: hp->in[q] ==> hends(hp, q))
|  && (hp->cn[0] > 0 ==> code(hp->head_tree_list) == hp->sq[0][0] && code(hp->tail_tree_list) == hp->sq[0][hp->cn[0] - 1])
pred hst(hp, n) = hmem(hp, n) && hseq(hp) && hrings(hp) && hp->num_trees == hp->cn[0]
# heap order
pred hord(hp) = forall p {hp->in[p]} {par(p)}: hp->in[p] && par(p) != 0 ==> @OrdTreeNode[par(p)].value <= @OrdTreeNode[p].value
pred hmin(hp) = (code(hp->min_root) == 0 <==> hp->num_nodes == 0) && (hp->num_nodes > 0 ==> hp->in[code(hp->min_root)] && par(code(hp->min_root)) == 0 && forall p {hp->in[p]} {@OrdTreeNode[p].value}: hp->in[p] ==> @OrdTreeNode[code(hp->min_root)].value <= @OrdTreeNode[p].value)
pred hwf(hp) = hst(hp, hp->num_nodes) && hord(hp) && hmin(hp)

# a node of a heap of n nodes has less than n children
lemma Degree(in@ABool, ix@AInt, nm@AInt, pr@AInt, sq@AAInt, ps@AInt, cn@AInt, n, q)
  requires (q == 0 || in[q] && pr[q] != q) && !in[0] && n >= 0 && cn[q] >= 0
  requires forall p {in[p]}: in[p] ==> 0 <= ix[p] < n && nm[ix[p]] == p
  requires forall i {sq[q][i]}: 0 <= i < cn[q] ==> in[sq[q][i]] && pr[sq[q][i]] == q && ps[sq[q][i]] == i
  step use Pigeon(q == 0 ? lam i: ix[sq[q][i]] : store(lam i: ix[sq[q][i]], cn[q], ix[q]), cn[q] + (q == 0 ? 0 : 1), n)
  ensures cn[q] + (q == 0 ? 0 : 1) <= n

fn create_fibonacci_heap
  assigns heap->min_root, heap->head_tree_list, heap->tail_tree_list, heap->num_nodes, heap->num_trees, heap->in, heap->cn
  at return: heap->in := constarr(false)
  at return: heap->cn := constarr(0)
  ensures wf: hwf(heap)
  ensures empty: heap->num_nodes == 0 && forall p {heap->in[p]}: !heap->in[p]

fn create_node
  requires node: code(node) > 0 && alive(OrdTreeNode, code(node))
  assigns node->value, node->key, node->parent, node->left_sibling, node->right_sibling, node->head_child_list, node->tail_child_list, node->num_children
  ensures made: node->value == value && node->key == key && code(node->parent) == 0 && code(node->left_sibling) == code(node) && code(node->right_sibling) == code(node) && node->num_children == 0

fn insert_node
  requires wf: hwf(heap) && heap->num_nodes < 65535
  requires node: code(node) > 0 && alive(OrdTreeNode, code(node)) && !heap->in[code(node)]
  requires key: forall p {heap->in[p]}: heap->in[p] ==> @OrdTreeNode[p].key != node->key
  requires single: code(node->parent) == 0 && code(node->left_sibling) == code(node) && code(node->right_sibling) == code(node) && node->num_children == 0
  assigns heap->min_root, heap->head_tree_list, heap->tail_tree_list, heap->num_nodes, heap->num_trees, heap->in, heap->kx, heap->nm, heap->ix, heap->sq, heap->cn, heap->ps, heap->ht, heap->top, @OrdTreeNode.left_sibling, @OrdTreeNode.right_sibling, @OrdTreeNode.marked, @OrdTreeNode.is_root
  at entry: use Pigeon(lam i: heap->ix[heap->sq[0][i]], heap->num_trees, heap->num_nodes)
  at return: heap->kx[node->key] := code(node)
  at return: heap->nm[old(heap->num_nodes)] := code(node)
  at return: heap->ix[code(node)] := old(heap->num_nodes)
  at return: heap->in[code(node)] := true
  at return: heap->sq[0][old(heap->num_trees)] := code(node)
  at return: heap->ps[code(node)] := old(heap->num_trees)
  at return: heap->ht[code(node)] := 0
  at return: heap->top := max(old(heap->top), 0)
  at return: heap->cn[code(node)] := 0
  at return: heap->cn[0] := old(heap->num_trees) + 1
  ensures wf: hwf(heap)
  ensures count: heap->num_nodes == old(heap->num_nodes) + 1
  ensures in: forall p {heap->in[p]}: heap->in[p] <==> old(heap->in[p]) || p == code(node)

fn create_insert_node
  requires wf: hwf(heap) && heap->num_nodes < 65535
  requires node: code(node) > 0 && alive(OrdTreeNode, code(node)) && !heap->in[code(node)]
  requires key: forall p {heap->in[p]}: heap->in[p] ==> @OrdTreeNode[p].key != key
  assigns heap->min_root, heap->head_tree_list, heap->tail_tree_list, heap->num_nodes, heap->num_trees, heap->in, heap->kx, heap->nm, heap->ix, heap->sq, heap->cn, heap->ps, heap->ht, heap->top, @OrdTreeNode.left_sibling, @OrdTreeNode.right_sibling, @OrdTreeNode.marked, @OrdTreeNode.is_root, node->value, node->key, node->parent, node->head_child_list, node->tail_child_list, node->num_children
  ensures wf: hwf(heap)
  ensures count: heap->num_nodes == old(heap->num_nodes) + 1
  ensures in: forall p {heap->in[p]}: heap->in[p] <==> old(heap->in[p]) || p == code(node)
  ensures data: node->value == value && node->key == key

fn extract_min
  requires wf: hwf(heap)
  assigns heap->min_root, heap->head_tree_list, heap->tail_tree_list, heap->num_nodes, heap->num_trees, heap->in, heap->kx, heap->nm, heap->ix, heap->sq, heap->cn, heap->ps, heap->ht, heap->top, @OrdTreeNode.left_sibling, @OrdTreeNode.right_sibling, @OrdTreeNode.marked, @OrdTreeNode.is_root, @OrdTreeNode.parent, @OrdTreeNode.head_child_list, @OrdTreeNode.tail_child_list, @OrdTreeNode.num_children
  local m Int
  local c Int
  local k Int
  local n Int
  local og AInt
  loop 1
    inv st: hst(heap, heap->num_nodes) && hord(heap) && code(heap->min_root) == m
    inv child: i < num_children ==> code(child) == heap->sq[m][0]
    inv count: i <= num_children && heap->min_root->num_children == num_children - i && par(m) == 0
    dec num_children - i
  at entry: m := code(heap->min_root)
  at loop 1 body: c := code(child)
  at loop 1 body: use Pigeon(store(lam x: heap->ix[heap->sq[0][x]], heap->num_trees, heap->ix[c]), heap->num_trees + 1, heap->num_nodes)
  at loop 1 end: heap->ps := lam p: p == c ? heap->cn[0] : iter(par(p)) == m ? heap->ps[p] - 1 : heap->ps[p]
  at loop 1 end: heap->sq[m] := lam x: iter(heap->sq[m][x + 1])
  at loop 1 end: heap->sq[0][heap->cn[0]] := c
  at loop 1 end: heap->cn[m] := heap->cn[m] - 1
  at loop 1 end: heap->cn[0] := heap->cn[0] + 1
  at loop 1 end: assert forall x {heap->sq[m][x]}: 0 <= x < heap->cn[m] ==> heap->in[heap->sq[m][x]] && par(heap->sq[m][x]) == m && heap->ps[heap->sq[m][x]] == x
  at loop 1 end: assert forall q, x {heap->sq[q][x]}: heap->in[q] && q != m && 0 <= x < heap->cn[q] ==> heap->in[heap->sq[q][x]] && par(heap->sq[q][x]) == q && heap->ps[heap->sq[q][x]] == x
  at loop 1 end: assert forall x {heap->sq[0][x]}: 0 <= x < heap->cn[0] ==> heap->in[heap->sq[0][x]] && par(heap->sq[0][x]) == 0 && heap->ps[heap->sq[0][x]] == x
  at loop 1 end: assert forall p {heap->in[p]} {right(p)} {left(p)}: heap->in[p] && par(p) != 0 && par(p) != m ==> hring(heap, p)
  at loop 1 end: assert forall p {heap->in[p]} {right(p)} {left(p)}: heap->in[p] && par(p) == m ==> hring(heap, p)
  at loop 1 end: assert hring(heap, c)
  at loop 1 end: assert forall p {heap->in[p]} {right(p)} {left(p)}: heap->in[p] && par(p) == 0 ==> right(p) == hnext(heap, p)
  at loop 1 end: assert forall p {heap->in[p]} {right(p)} {left(p)}: heap->in[p] && par(p) == 0 ==> left(p) == hprev(heap, p)
  at loop 1 exit: n := heap->num_nodes
  at loop 1 exit: k := heap->ps[m]
  at loop 1 exit: c := heap->nm[n - 1]
  at loop 1 exit: heap->nm[heap->ix[m]] := c
  at loop 1 exit: heap->ix[c] := heap->ix[m]
  at loop 1 exit: heap->in[m] := false
  at loop 1 exit: heap->ps := lam p: par(p) == 0 && heap->ps[p] > k ? heap->ps[p] - 1 : heap->ps[p]
  at loop 1 exit: og := heap->sq[0]
  at loop 1 exit: heap->sq[0] := lam x: x < k ? og[x] : og[x + 1]
  at loop 1 exit: heap->cn[0] := heap->cn[0] - 1
  at loop 1 exit: if heap->cn[0] == 0 && n > 1 then use MinRoot(heap->in, lam p: par(p), lam p: @OrdTreeNode[p].value, heap->ht, heap->top, @OrdTreeNode[heap->nm[0]].value + 1.0, heap->top + 1)
  at loop 1 exit: assert n > 1 ==> heap->in[heap->nm[0]]
  at loop 1 exit: assert heap->cn[0] == 0 ==> n == 1
  at before call consolidate 1: assert forall p {heap->in[p]} {right(p)}: isroot(heap, p) ==> right(p) == hnext(heap, p)
  at before call consolidate 1: assert forall p {heap->in[p]} {left(p)}: isroot(heap, p) ==> left(p) == hprev(heap, p)
  at before call consolidate 1: assert forall p {heap->in[p]} {right(p)} {left(p)}: heap->in[p] && par(p) != 0 ==> hring(heap, p)
  ensures wf: hwf(heap)
  ensures empty: old(heap->num_nodes) == 0 ==> result == -1 && heap->num_nodes == 0
  ensures least: old(heap->num_nodes) > 0 ==> heap->num_nodes == old(heap->num_nodes) - 1 && 0 <= result && old(heap->in[heap->kx[result]]) && @OrdTreeNode[old(heap->kx[result])].key == result && (forall p {heap->in[p]} {@OrdTreeNode[p].value}: old(heap->in[p]) ==> @OrdTreeNode[old(heap->kx[result])].value <= @OrdTreeNode[p].value)
  ensures in: forall p {heap->in[p]}: heap->in[p] <==> old(heap->in[p]) && (old(heap->num_nodes) == 0 || @OrdTreeNode[p].key != result)

fn decrease_value
  requires wf: hwf(heap)
  requires node: heap->in[code(node)] && new_value <= node->value
  assigns heap->min_root, heap->head_tree_list, heap->tail_tree_list, heap->num_trees, heap->sq, heap->cn, heap->ps, heap->ht, heap->top, @OrdTreeNode.left_sibling, @OrdTreeNode.right_sibling, @OrdTreeNode.marked, @OrdTreeNode.is_root, @OrdTreeNode.parent, @OrdTreeNode.head_child_list, @OrdTreeNode.tail_child_list, @OrdTreeNode.num_children, node->value
  ensures wf: hwf(heap)
  ensures value: node->value == new_value

# node leaves the ring of its parent and becomes the last root
fn cut
  requires st: hst(heap, heap->num_nodes)
  requires root: heap->cn[0] > 0
  requires node: heap->in[code(node)] && par(code(node)) == code(parent) && code(parent) != 0
  assigns heap->head_tree_list, heap->tail_tree_list, heap->num_trees, heap->sq, heap->cn, heap->ps, @OrdTreeNode.left_sibling, @OrdTreeNode.right_sibling, node->marked, node->is_root, node->parent, parent->head_child_list, parent->tail_child_list, parent->num_children
  local k Int
  at entry: use Pigeon(store(lam i: heap->ix[heap->sq[0][i]], heap->num_trees, heap->ix[code(node)]), heap->num_trees + 1, heap->num_nodes)
  at return: k := heap->ps[code(node)]
  at return: heap->ps := lam p: p == code(node) ? heap->cn[0] : old(par(p)) == code(parent) && heap->ps[p] > k ? heap->ps[p] - 1 : heap->ps[p]
  at return: heap->sq[code(parent)] := lam i: i < k ? old(heap->sq[code(parent)][i]) : old(heap->sq[code(parent)][i + 1])
  at return: heap->sq[0][heap->cn[0]] := code(node)
  at return: heap->cn[code(parent)] := heap->cn[code(parent)] - 1
  at return: heap->cn[0] := heap->cn[0] + 1
  ensures root: heap->cn[0] > 0
  ensures st: hst(heap, heap->num_nodes)
  ensures parents: forall p {par(p)}: par(p) == (p == code(node) ? 0 : old(par(p)))

fn cascading_cut
  requires st: hst(heap, heap->num_nodes)
  requires root: heap->cn[0] > 0
  requires node: heap->in[code(node)]
  assigns heap->head_tree_list, heap->tail_tree_list, heap->num_trees, heap->sq, heap->cn, heap->ps, @OrdTreeNode.left_sibling, @OrdTreeNode.right_sibling, @OrdTreeNode.marked, @OrdTreeNode.is_root, @OrdTreeNode.parent, @OrdTreeNode.head_child_list, @OrdTreeNode.tail_child_list, @OrdTreeNode.num_children
  decreases heap->top - heap->ht[code(node)]
  ensures root: heap->cn[0] > 0
  ensures st: hst(heap, heap->num_nodes)
  ensures parents: forall p {par(p)}: heap->in[p] ==> par(p) == old(par(p)) || par(p) == 0

# while the trees are being linked: the rings of children are in order, each root has its place between two roots
pred hroots(hp) = forall p {hp->in[p]} {right(p)} {left(p)}: hp->in[p] && par(p) == 0 ==> hp->in[right(p)] && par(right(p)) == 0 && left(right(p)) == p && hp->in[left(p)] && par(left(p)) == 0 && right(left(p)) == p
pred hpart(hp, n) = hmem(hp, n) && hseq(hp) && hp->num_trees == hp->cn[0]
|  && (forall p {hp->in[p]} {right(p)} {left(p)}: hp->in[p] && par(p) != 0 ==> hring(hp, p))
|  && (forall q {hp->cn[q]}: hp->in[q] ==> hends(hp, q))
pred isroot(hp, p) = hp->in[p] && par(p) == 0

fn link_trees
  requires st: hpart(heap, heap->num_nodes - 1) && hroots(heap)
  requires nodes: isroot(heap, code(child)) && isroot(heap, code(father)) && code(child) != code(father)
  assigns heap->num_trees, heap->sq, heap->cn, heap->ps, heap->ht, heap->top, @OrdTreeNode.left_sibling, @OrdTreeNode.right_sibling, child->marked, child->is_root, child->parent, father->num_children, father->head_child_list, father->tail_child_list
  local k Int
  at entry: use Pigeon(store(store(lam i: heap->ix[heap->sq[code(father)][i]], heap->cn[code(father)], heap->ix[code(child)]), heap->cn[code(father)] + 1, heap->ix[code(father)]), heap->cn[code(father)] + 2, heap->num_nodes - 1)
  at return: k := heap->ps[code(child)]
  at return: heap->ps := lam p: p == code(child) ? heap->cn[code(father)] : old(par(p)) == 0 && heap->ps[p] > k ? heap->ps[p] - 1 : heap->ps[p]
  at return: heap->sq[0] := lam i: i < k ? old(heap->sq[0][i]) : old(heap->sq[0][i + 1])
  at return: heap->sq[code(father)][heap->cn[code(father)]] := code(child)
  at return: heap->cn[code(father)] := heap->cn[code(father)] + 1
  at return: heap->cn[0] := heap->cn[0] - 1
  at return: heap->ht[code(father)] := max(heap->ht[code(father)], heap->ht[code(child)] + 1)
  at return: heap->top := max(heap->top, heap->ht[code(father)])
  ensures st: hpart(heap, heap->num_nodes - 1) && hroots(heap)
  ensures parents: forall p {par(p)}: par(p) == (p == code(child) ? code(father) : old(par(p)))
  ensures degree: father->num_children == old(father->num_children) + 1
  ensures order: forall p {right(p)}: isroot(heap, p) ==> right(p) == (old(right(p)) == code(child) ? old(right(code(child))) : old(right(p)))

# a lower bound of the roots is a lower bound of all
lemma MinRoot(in@ABool, pr@AInt, v@AReal, ht@AInt, top, m@Real, b)
  requires b >= 0 && forall q {in[q]}: in[q] ==> 0 <= ht[q] <= top && (pr[q] == 0 ? m <= v[q] : in[pr[q]] && ht[q] < ht[pr[q]] && v[pr[q]] <= v[q])
  measure b
  step if b > 0 then use MinRoot(in, pr, v, ht, top, m, b - 1)
  ensures forall p {in[p]}: in[p] && top - ht[p] < b ==> m <= v[p]

fn consolidate
  requires st: hst(heap, heap->num_nodes - 1) && hord(heap) && heap->num_trees > 0
  assigns heap->min_root, heap->head_tree_list, heap->tail_tree_list, heap->num_trees, heap->sq, heap->cn, heap->ps, heap->ht, heap->top, @OrdTreeNode.left_sibling, @OrdTreeNode.right_sibling, @OrdTreeNode.marked, @OrdTreeNode.is_root, @OrdTreeNode.parent, @OrdTreeNode.head_child_list, @OrdTreeNode.tail_child_list, @OrdTreeNode.num_children
  local og AInt = heap->sq[0]
  local op AInt = heap->ps
  local cur Int
  local rs AInt
  local rp AInt
  local rk Int = 0
  loop 1
    inv none: forall d {degree_list[d]}: 0 <= d < i ==> code(degree_list[d]) == 0
    dec dimension - i
  loop 2
    inv st: hpart(heap, heap->num_nodes - 1) && hroots(heap) && hord(heap)
    inv iter: i < num_it ==> code(iter) == og[i]
    inv count: heap->cn[0] > 0
    inv orig: (forall p {heap->in[p]} {op[p]}: isroot(heap, p) ==> 0 <= op[p] < num_it && og[op[p]] == p)
    inv todo: forall j {og[j]}: i <= j < num_it ==> isroot(heap, og[j]) && op[og[j]] == j && (j < num_it - 1 ==> right(og[j]) == og[j + 1])
    inv list: forall d {degree_list[d]}: 0 <= d < dimension && code(degree_list[d]) != 0 ==> isroot(heap, code(degree_list[d])) && op[code(degree_list[d])] < i && degree_list[d]->num_children == d
    inv done: forall p {heap->in[p]} {op[p]}: isroot(heap, p) && op[p] < i ==> 0 <= @OrdTreeNode[p].num_children < dimension && code(degree_list[@OrdTreeNode[p].num_children]) == p
    dec num_it - i
  loop 3
    inv st: hpart(heap, heap->num_nodes - 1) && hroots(heap) && hord(heap)
    inv iter: i + 1 < num_it ==> code(iter) == og[i + 1]
    inv cur: isroot(heap, code(deg_i_node)) && op[code(deg_i_node)] <= i && deg_i_node->num_children == deg && deg < dimension && heap->cn[0] > 0
    inv orig: (forall p {heap->in[p]} {op[p]}: isroot(heap, p) ==> 0 <= op[p] < num_it && og[op[p]] == p)
    inv todo: forall j {og[j]}: i < j < num_it ==> isroot(heap, og[j]) && op[og[j]] == j && (j < num_it - 1 ==> right(og[j]) == og[j + 1])
    inv list: forall d {degree_list[d]}: 0 <= d < dimension && code(degree_list[d]) != 0 ==> isroot(heap, code(degree_list[d])) && op[code(degree_list[d])] <= i && degree_list[d]->num_children == d && code(degree_list[d]) != code(deg_i_node)
    inv done: forall p {heap->in[p]} {op[p]}: isroot(heap, p) && op[p] <= i && p != code(deg_i_node) ==> 0 <= @OrdTreeNode[p].num_children < dimension && code(degree_list[@OrdTreeNode[p].num_children]) == p
    dec dimension - deg
  loop 4
    inv st: hpart(heap, heap->num_nodes - 1) && hord(heap) && heap->cn[0] > 0
    inv list: forall d {degree_list[d]}: 0 <= d < dimension && code(degree_list[d]) != 0 ==> isroot(heap, code(degree_list[d])) && degree_list[d]->num_children == d
    inv done: forall p {heap->in[p]}: isroot(heap, p) ==> 0 <= @OrdTreeNode[p].num_children < dimension && code(degree_list[@OrdTreeNode[p].num_children]) == p
    inv rooted: forall j {rs[j]}: 0 <= j < rk ==> isroot(heap, rs[j]) && rp[rs[j]] == j && @OrdTreeNode[rs[j]].num_children < i
    inv listed: 0 <= rk <= i && forall d {degree_list[d]}: 0 <= d < i && code(degree_list[d]) != 0 ==> 0 <= rp[code(degree_list[d])] < rk && rs[rp[code(degree_list[d])]] == code(degree_list[d])
    inv ends: (rk == 0 <==> code(heap->min_root) == 0) && (rk > 0 ==> code(heap->head_tree_list) == rs[0] && code(heap->tail_tree_list) == rs[rk - 1] && isroot(heap, code(heap->min_root)))
    inv least: forall j {rs[j]}: 0 <= j < rk ==> heap->min_root->value <= @OrdTreeNode[rs[j]].value
    inv ring: rk > 1 ==> forall j {rs[j]}: 0 <= j < rk ==> right(rs[j]) == rs[j + 1 < rk ? j + 1 : 0] && left(rs[j]) == rs[j > 0 ? j - 1 : rk - 1]
    inv small: rk <= 1 ==> hroots(heap)
    dec dimension - i
  at loop 2 body: use Degree(heap->in, heap->ix, heap->nm, lam p: par(p), heap->sq, heap->ps, heap->cn, heap->num_nodes - 1, og[i])
  at loop 3 end: cur := code(deg_i_node)
  at loop 3 end: assert heap->cn[cur] == deg_i_node->num_children
  at loop 3 end: use Degree(heap->in, heap->ix, heap->nm, lam p: par(p), heap->sq, heap->ps, heap->cn, heap->num_nodes - 1, cur)
  at loop 4 body: cur := code(degree_list[i])
  at loop 4 end: if cur != 0 then rs[rk] := cur
  at loop 4 end: if cur != 0 then rp[cur] := rk
  at loop 4 end: if cur != 0 then rk := rk + 1
  at loop 4 end: assert cur != 0 && rk > 1 ==> right(rs[rk - 2]) == cur && right(cur) == rs[0] && left(cur) == rs[rk - 2] && left(rs[0]) == cur && rs[rk - 1] == cur
  at loop 4 end: assert rk > 1 ==> forall j {rs[j]}: 0 <= j < rk - 2 ==> right(rs[j]) == rs[j + 1]
  at loop 4 end: assert rk > 1 ==> forall j {rs[j]}: 1 <= j < rk - 1 ==> left(rs[j]) == rs[j - 1]
  at loop 4 end: assert rk > 1 ==> right(rs[rk - 2]) == rs[rk - 1] && right(rs[rk - 1]) == rs[0] && left(rs[rk - 1]) == rs[rk - 2] && left(rs[0]) == rs[rk - 1]
  at loop 4 end: assert rk > 1 ==> forall j {rs[j]}: j == rk - 2 ==> right(rs[j]) == rs[j + 1]
  at loop 4 end: assert rk > 1 ==> forall j {rs[j]}: j == rk - 1 ==> right(rs[j]) == rs[0] && left(rs[j]) == rs[j - 1]
  at loop 4 exit: assert forall p {heap->in[p]}: isroot(heap, p) ==> 0 <= rp[p] < rk && rs[rp[p]] == p
  at loop 4 exit: use Pigeon(lam j: heap->ps[rs[j]], rk, heap->cn[0])
  at loop 4 exit: use Pigeon(lam j: rp[heap->sq[0][j]], heap->cn[0], rk)
  at loop 4 exit: assert rk == heap->cn[0]
  at loop 4 exit: assert rk == 1 ==> forall p {heap->in[p]}: isroot(heap, p) ==> p == rs[0]
  at loop 4 exit: assert forall p {heap->in[p]} {rp[p]}: isroot(heap, p) ==> right(p) == rs[rp[p] + 1 < rk ? rp[p] + 1 : 0] && left(p) == rs[rp[p] > 0 ? rp[p] - 1 : rk - 1]
  at return: heap->sq[0] := rs
  at return: heap->ps := lam p: isroot(heap, p) ? rp[p] : heap->ps[p]
  at return: assert forall p {heap->in[p]} {right(p)} {left(p)}: isroot(heap, p) ==> hring(heap, p)
  at return: assert forall p {heap->in[p]} {right(p)} {left(p)}: heap->in[p] && par(p) != 0 ==> hring(heap, p)
  at return: use MinRoot(heap->in, lam p: par(p), lam p: @OrdTreeNode[p].value, heap->ht, heap->top, heap->min_root->value, heap->top + 1)
  ensures st: hst(heap, heap->num_nodes - 1) && hord(heap)
  ensures min: isroot(heap, code(heap->min_root)) && forall p {heap->in[p]} {@OrdTreeNode[p].value}: heap->in[p] ==> heap->min_root->value <= @OrdTreeNode[p].value

fn delete_node
  requires wf: hwf(heap)
  requires node: heap->in[code(node)] && node->value >= 0.0 - FLT_MAX
  requires least: forall p {heap->in[p]}: heap->in[p] && p != code(node) ==> @OrdTreeNode[p].value > 0.0 - FLT_MAX
  assigns heap->min_root, heap->head_tree_list, heap->tail_tree_list, heap->num_nodes, heap->num_trees, heap->in, heap->kx, heap->nm, heap->ix, heap->sq, heap->cn, heap->ps, heap->ht, heap->top, @OrdTreeNode.left_sibling, @OrdTreeNode.right_sibling, @OrdTreeNode.marked, @OrdTreeNode.is_root, @OrdTreeNode.parent, @OrdTreeNode.head_child_list, @OrdTreeNode.tail_child_list, @OrdTreeNode.num_children, node->value
  ensures wf: hwf(heap)
  ensures in: forall p {heap->in[p]}: heap->in[p] <==> old(heap->in[p]) && p != code(node)
