# disjoint sets.  Ghost state: live = the sets of the forest in use, root = representative of each live set.
ghostfield Set.live Bool
ghostfield Set.root Int

pred ufwf() = (forall s {@Set[s].live}: @Set[s].live ==> s > 0 && alive(Set, s) && 0 <= @Set[s].rango <= 65535
|   && @Set[@Set[s].root].live && @Set[@Set[s].root].root == @Set[s].root && @Set[s].rango <= @Set[@Set[s].root].rango)
|   && (forall s {@Set[s].parentSet}: @Set[s].live ==> (code(@Set[s].parentSet) == 0 <==> @Set[s].root == s)
|     && (code(@Set[s].parentSet) != 0 ==> @Set[code(@Set[s].parentSet)].live
|        && @Set[code(@Set[s].parentSet)].root == @Set[s].root
|        && @Set[s].rango < @Set[code(@Set[s].parentSet)].rango))
|   && (forall s, t {@Set[s].num_in_forest, @Set[t].num_in_forest}: @Set[s].live && @Set[t].live && @Set[s].num_in_forest == @Set[t].num_in_forest ==> s == t)
pred block(f, n, s) = ref(f->sets) <= s < ref(f->sets) + n

fn find
  requires wf: ufwf()
  requires live: @Set[code(set)].live
  assigns @Set.parentSet
  returns @Set[code(set)].root
  decreases 65536 - @Set[code(set)].rango
  ensures wf: ufwf()

fn merge
  requires wf: ufwf()
  requires live: @Set[code(set1)].live && @Set[code(set2)].live
  requires rank: forall s {@Set[s].rango}: @Set[s].live ==> @Set[s].rango < 65535
  assigns @Set.parentSet, @Set.rango, @Set.root
  at return: @Set.root := lam s: (old(@Set[s].root) == old(@Set[code(set1)].root) || old(@Set[s].root) == old(@Set[code(set2)].root)) && @Set[s].live ? (code(@Set[old(@Set[code(set1)].root)].parentSet) == 0 ? old(@Set[code(set1)].root) : old(@Set[code(set2)].root)) : old(@Set[s].root)
  ensures wf: ufwf()
  ensures union: forall s, t {@Set[s].root, @Set[t].root}: @Set[s].live && @Set[t].live ==>
|     (@Set[s].root == @Set[t].root <==> old(@Set[s].root) == old(@Set[t].root)
|       || (old(@Set[s].root) == old(@Set[code(set1)].root) && old(@Set[t].root) == old(@Set[code(set2)].root))
|       || (old(@Set[s].root) == old(@Set[code(set2)].root) && old(@Set[t].root) == old(@Set[code(set1)].root)))
  ensures root: (@Set[code(set1)].root == old(@Set[code(set1)].root) || @Set[code(set1)].root == old(@Set[code(set2)].root)) && forall s {@Set[s].root}: @Set[s].live ==> @Set[s].root == (old(@Set[s].root) == old(@Set[code(set1)].root) || old(@Set[s].root) == old(@Set[code(set2)].root) ? @Set[code(set1)].root : old(@Set[s].root))
  ensures rank: forall s {@Set[s].rango}: @Set[s].live ==> @Set[s].rango <= old(@Set[s].rango) + 1

pred created(forest, nodes, num_nodes, cand) =
|   (forall s {@Set[s].live}: @Set[s].live <==> block(forest, num_nodes, s) && s != ref(forest->sets) + cand)
|   && (forall s {@Set[s].num_in_forest} {@Set[s].root} {@Set[s].rango}: block(forest, num_nodes, s) && s != ref(forest->sets) + cand ==> @Set[s].rango == 0 && @Set[s].num_in_forest == s - ref(forest->sets)
|        && code(@Set[s].parentSet) == 0 && same(@Set[s].curr, nodes[s - ref(forest->sets)]) && @Set[s].root == s)

fn create_forest
  requires size: num_nodes <= N
  requires mem: ref(forest->sets) > 0 && forall s {alive(Set, s)}: block(forest, N, s) ==> alive(Set, s)
  param nodes[N]
  assigns forest->num_sets, @Set.parentSet, @Set.rango, @Set.curr, @Set.num_in_forest, @Set.live, @Set.root
  at return: @Set.live := lam s: block(forest, num_nodes, s)
  at return: @Set.root := lam s: s
  loop 1
    inv made: forall s {@Set[s].num_in_forest} {@Set[s].rango} {@Set[s].parentSet}: block(forest, i, s) ==> @Set[s].rango == 0 && @Set[s].num_in_forest == s - ref(forest->sets) && code(@Set[s].parentSet) == 0
    inv nodes: forall s {@Set[s].curr.positionInGraph} {@Set[s].num_in_forest}: block(forest, i, s) ==> same(@Set[s].curr, nodes[s - ref(forest->sets)])
    dec num_nodes - i
  ensures num: forest->num_sets == num_nodes
  ensures wf: ufwf()
  ensures made: created(forest, nodes, num_nodes, 0 - 1)

fn create_forest_constrained
  requires size: 1 <= num_nodes <= N
  requires cand: candidateId < num_nodes
  requires mem: ref(forest->sets) > 0 && forall s {alive(Set, s)}: block(forest, N, s) ==> alive(Set, s)
  param nodes[N]
  assigns forest->num_sets, @Set.parentSet, @Set.rango, @Set.curr, @Set.num_in_forest, @Set.live, @Set.root
  at return: @Set.live := lam s: block(forest, num_nodes, s) && s != ref(forest->sets) + candidateId
  at return: @Set.root := lam s: s
  loop 1
    inv made: forall s {@Set[s].num_in_forest} {@Set[s].rango} {@Set[s].parentSet}: block(forest, i, s) && s != ref(forest->sets) + candidateId ==> @Set[s].rango == 0 && @Set[s].num_in_forest == s - ref(forest->sets) && code(@Set[s].parentSet) == 0
    inv nodes: forall s {@Set[s].curr.positionInGraph} {@Set[s].num_in_forest}: block(forest, i, s) && s != ref(forest->sets) + candidateId ==> same(@Set[s].curr, nodes[s - ref(forest->sets)])
    dec num_nodes - i
  ensures num: forest->num_sets == num_nodes - 1
  ensures wf: ufwf()
  ensures made: created(forest, nodes, num_nodes, candidateId)

# (the loop copies each set into a local object)
fn print_forest
  requires wf: ufwf()
  requires mem: ref(forest->sets) > 0 && 0 <= forest->num_sets <= N && forall s {@Set[s].live}: block(forest, forest->num_sets, s) ==> @Set[s].live
  assigns alloc(Set), @Set.parentSet, @Set.rango, @Set.curr, @Set.num_in_forest, @Set.live, @Set.root
  loop 1
    inv range: 0 <= i <= forest->num_sets
    inv kept: forall s {alive(Set, s)} {@Set[s].parentSet}: old(alive(Set, s)) ==> alive(Set, s) && same(@Set[s], old(@Set[s]))
    dec forest->num_sets - i
  ensures kept: forall s {alive(Set, s)}: old(alive(Set, s)) ==> alive(Set, s) && same(@Set[s], old(@Set[s]))
