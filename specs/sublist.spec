# list of open subproblems.  Ghost state: gs = references of the elements in order; own/pos = list and position of an element.
ghostfield SubProblemsList.gs AInt
ghostfield SubProblemElem.own Int
ghostfield SubProblemElem.pos Int

pred slwf(l) = let L = code(l): L > 0 && alive(SubProblemsList, L) && @SubProblemsList[L].size >= 0
|  && (forall i {@SubProblemsList[L].gs[i]}: 0 <= i < @SubProblemsList[L].size ==>
|        @SubProblemsList[L].gs[i] > 0 && alive(SubProblemElem, @SubProblemsList[L].gs[i]) && @SubProblemElem[@SubProblemsList[L].gs[i]].own == L && @SubProblemElem[@SubProblemsList[L].gs[i]].pos == i
|        && code(@SubProblemElem[@SubProblemsList[L].gs[i]].next) == (i + 1 < @SubProblemsList[L].size ? @SubProblemsList[L].gs[i+1] : 0)
|        && code(@SubProblemElem[@SubProblemsList[L].gs[i]].prev) == (i > 0 ? @SubProblemsList[L].gs[i-1] : 0))
|  && (forall e {@SubProblemElem[e].own}: alive(SubProblemElem, e) && @SubProblemElem[e].own == L ==> 0 <= @SubProblemElem[e].pos < @SubProblemsList[L].size && @SubProblemsList[L].gs[@SubProblemElem[e].pos] == e)
|  && code(@SubProblemsList[L].head) == (@SubProblemsList[L].size > 0 ? @SubProblemsList[L].gs[0] : 0)
|  && code(@SubProblemsList[L].tail) == (@SubProblemsList[L].size > 0 ? @SubProblemsList[L].gs[@SubProblemsList[L].size - 1] : 0)
# elements of other lists are untouched
pred slothers(l) = forall e {alive(SubProblemElem, e)} {@SubProblemElem[e].own}: old(alive(SubProblemElem, e)) && old(@SubProblemElem[e].own) != code(l) ==> alive(SubProblemElem, e)
|    && @SubProblemElem[e].own == old(@SubProblemElem[e].own) && @SubProblemElem[e].pos == old(@SubProblemElem[e].pos) && same(@SubProblemElem[e].subProblem, old(@SubProblemElem[e].subProblem))
|    && code(@SubProblemElem[e].next) == code(old(@SubProblemElem[e].next)) && code(@SubProblemElem[e].prev) == code(old(@SubProblemElem[e].prev))
pred sinsat(l, element, k) = l->size == old(l->size) + 1
|    && (forall i {l->gs[i]}: 0 <= i < k ==> same(@SubProblemElem[l->gs[i]].subProblem, old(@SubProblemElem[l->gs[i]].subProblem)))
|    && same(@SubProblemElem[l->gs[k]].subProblem, old(*element))
|    && (forall i {l->gs[i]}: k < i <= old(l->size) ==> same(@SubProblemElem[l->gs[i]].subProblem, old(@SubProblemElem[l->gs[i-1]].subProblem)))
pred sdelat(l, k) = l->size == old(l->size) - 1
|    && (forall i {l->gs[i]}: 0 <= i < k ==> same(@SubProblemElem[l->gs[i]].subProblem, old(@SubProblemElem[l->gs[i]].subProblem)))
|    && (forall i {l->gs[i]}: k <= i < l->size ==> same(@SubProblemElem[l->gs[i]].subProblem, old(@SubProblemElem[l->gs[i+1]].subProblem)))

# inserting keeps the elements already there and adds one
pred skept(l) = forall e {@SubProblemElem[e].own} {alive(SubProblemElem, e)}: old(alive(SubProblemElem, e)) && old(@SubProblemElem[e].own) == code(l) ==> alive(SubProblemElem, e) && @SubProblemElem[e].own == code(l) && same(@SubProblemElem[e].subProblem, old(@SubProblemElem[e].subProblem))
pred sonly(l) = alive(SubProblemElem, old(nxt(SubProblemElem))) && @SubProblemElem[old(nxt(SubProblemElem))].own == code(l) && !old(alive(SubProblemElem, nxt(SubProblemElem))) && old(nxt(SubProblemElem)) > 0
|    && (forall e {@SubProblemElem[e].own}: alive(SubProblemElem, e) && @SubProblemElem[e].own == code(l) && e != old(nxt(SubProblemElem)) ==> old(alive(SubProblemElem, e)) && old(@SubProblemElem[e].own) == code(l))

fn new_SubProblemList
  requires mem: code(list) > 0 && alive(SubProblemsList, code(list))
  assigns list->size, list->head, list->tail, @SubProblemElem.own
  at return: @SubProblemElem.own := lam e: @SubProblemElem[e].own == code(list) ? 0 : @SubProblemElem[e].own
  ensures wf: slwf(list)
  ensures empty: list->size == 0
  ensures keep: forall e {@SubProblemElem[e].own}: old(@SubProblemElem[e].own) != code(list) ==> @SubProblemElem[e].own == old(@SubProblemElem[e].own)

fn delete_SubProblemList
  requires wf: code(list) == 0 || slwf(list)
  assigns alloc(SubProblemElem)
  loop 1
    inv cur: code(current) == 0 || (0 <= @SubProblemElem[code(current)].pos < list->size && list->gs[@SubProblemElem[code(current)].pos] == code(current))
    inv freed: forall e {alive(SubProblemElem, e)}: alive(SubProblemElem, e) <==> old(alive(SubProblemElem, e)) && (@SubProblemElem[e].own != code(list) || (code(current) != 0 && @SubProblemElem[e].pos >= @SubProblemElem[code(current)].pos))
    dec code(current) == 0 ? 0 : list->size - @SubProblemElem[code(current)].pos
  ensures elems: code(list) != 0 ==> forall e {alive(SubProblemElem, e)}: alive(SubProblemElem, e) <==> old(alive(SubProblemElem, e)) && @SubProblemElem[e].own != code(list)
  ensures none: code(list) == 0 ==> forall e {alive(SubProblemElem, e)}: alive(SubProblemElem, e) <==> old(alive(SubProblemElem, e))

fn is_SubProblemList_empty inline
  requires wf: code(list) == 0 || slwf(list)
  assigns nothing
  returns code(list) == 0 || list->size == 0

fn get_SubProblemList_size inline
  requires wf: code(list) == 0 || slwf(list)
  assigns nothing
  ensures size: result == (code(list) == 0 ? 0 : list->size)

fn add_elem_SubProblemList_bottom
  requires wf: code(list) == 0 || slwf(list)
  assigns list->head, list->tail, list->size, list->gs, @SubProblemElem.next, @SubProblemElem.prev, @SubProblemElem.subProblem, @SubProblemElem.own, @SubProblemElem.pos, alloc(SubProblemElem)
  at return: if code(list) != 0 then list->gs := store(list->gs, old(list->size), old(nxt(SubProblemElem)))
  at return: if code(list) != 0 then @SubProblemElem.own := lam e: e == old(nxt(SubProblemElem)) ? code(list) : alive(SubProblemElem, e) ? @SubProblemElem[e].own : 0
  at return: if code(list) != 0 then @SubProblemElem.pos := lam e: e == old(nxt(SubProblemElem)) ? old(list->size) : @SubProblemElem[e].pos
  ensures wf: code(list) != 0 ==> slwf(list)
  ensures view: code(list) != 0 ==> sinsat(list, element, old(list->size))
  ensures kept: code(list) != 0 ==> skept(list)
  ensures only: code(list) != 0 ==> sonly(list) && list->gs[old(list->size)] == old(nxt(SubProblemElem)) && same(@SubProblemElem[old(nxt(SubProblemElem))].subProblem, old(*element))
  ensures others: slothers(list)
  ensures alive: forall e {alive(SubProblemElem, e)}: alive(SubProblemElem, e) ==> old(alive(SubProblemElem, e)) || code(list) != 0 && e == old(nxt(SubProblemElem))

fn add_elem_SubProblemList_index
  requires wf: code(list) == 0 || slwf(list)
  requires range: index >= 0
  assigns list->head, list->tail, list->size, list->gs, @SubProblemElem.next, @SubProblemElem.prev, @SubProblemElem.subProblem, @SubProblemElem.own, @SubProblemElem.pos, alloc(SubProblemElem)
  at return: if code(list) != 0 && index <= old(list->size) then list->gs := lam i: i < index ? old(list->gs[i]) : i == index ? old(nxt(SubProblemElem)) : old(list->gs[i-1])
  at return: if code(list) != 0 && index <= old(list->size) then @SubProblemElem.own := lam e: e == old(nxt(SubProblemElem)) ? code(list) : alive(SubProblemElem, e) ? @SubProblemElem[e].own : 0
  at return: if code(list) != 0 && index <= old(list->size) then @SubProblemElem.pos := lam e: e == old(nxt(SubProblemElem)) ? index : old(@SubProblemElem[e].own) == code(list) && old(@SubProblemElem[e].pos) >= index ? old(@SubProblemElem[e].pos) + 1 : old(@SubProblemElem[e].pos)
  loop 1
    inv at: code(supp) == (i < list->size ? list->gs[i] : 0)
    dec index - i
  ensures wf: code(list) != 0 ==> slwf(list)
  ensures view: code(list) != 0 && index <= old(list->size) ==> sinsat(list, element, index)
  ensures kept: code(list) != 0 && index <= old(list->size) ==> skept(list)
  ensures only: code(list) != 0 && index <= old(list->size) ==> sonly(list) && list->gs[index] == old(nxt(SubProblemElem)) && same(@SubProblemElem[old(nxt(SubProblemElem))].subProblem, old(*element))
  ensures ignored: code(list) != 0 && index > old(list->size) ==> list->size == old(list->size) && forall i {list->gs[i]}: 0 <= i < list->size ==> same(@SubProblemElem[list->gs[i]].subProblem, old(@SubProblemElem[list->gs[i]].subProblem))
  ensures others: slothers(list)
  ensures alive: forall e {alive(SubProblemElem, e)}: alive(SubProblemElem, e) ==> old(alive(SubProblemElem, e)) || code(list) != 0 && e == old(nxt(SubProblemElem))

fn delete_SubProblemList_elem_index
  requires wf: code(list) == 0 || slwf(list)
  requires range: index >= 0
  assigns list->head, list->tail, list->size, list->gs, @SubProblemElem.next, @SubProblemElem.prev, @SubProblemElem.pos, alloc(SubProblemElem)
  at return: if code(list) != 0 && index < old(list->size) then list->gs := lam i: i < index ? old(list->gs[i]) : old(list->gs[i+1])
  at return: if code(list) != 0 && index < old(list->size) then @SubProblemElem.pos := lam e: old(@SubProblemElem[e].own) == code(list) && old(@SubProblemElem[e].pos) > index ? old(@SubProblemElem[e].pos) - 1 : old(@SubProblemElem[e].pos)
  loop 1
    inv at: code(oldElem) == (i < list->size ? list->gs[i] : 0)
    dec index - i
  ensures wf: code(list) != 0 ==> slwf(list)
  ensures view: code(list) != 0 && index < old(list->size) ==> sdelat(list, index)
  ensures kept: code(list) != 0 && index < old(list->size) ==> forall e {@SubProblemElem[e].own} {alive(SubProblemElem, e)}: old(alive(SubProblemElem, e)) && e != old(list->gs[index]) ==> alive(SubProblemElem, e)
  ensures only: code(list) != 0 && index < old(list->size) ==> forall e {@SubProblemElem[e].own} {alive(SubProblemElem, e)}: alive(SubProblemElem, e) ==> old(alive(SubProblemElem, e)) && e != old(list->gs[index])
  ensures ignored: code(list) != 0 && index >= old(list->size) ==> list->size == old(list->size) && forall i {list->gs[i]}: 0 <= i < list->size ==> same(@SubProblemElem[list->gs[i]].subProblem, old(@SubProblemElem[list->gs[i]].subProblem))
  ensures others: slothers(list)

fn get_SubProblemList_elem_index
  requires wf: code(list) == 0 || slwf(list)
  requires range: index >= 0
  assigns nothing
  loop 1
    inv at: code(supp) == (i < list->size ? list->gs[i] : 0)
    dec index - i
  returns code(list) == 0 || index >= list->size ? NULL : &@SubProblemElem[list->gs[index]].subProblem

# iterators
pred sitwf(it) = slwf(it->list) && 0 <= it->index <= it->list->size
|    && code(it->curr) == (it->list->size == 0 ? 0 : it->list->gs[it->index < it->list->size ? it->index : it->list->size - 1])

fn create_SubProblemList_iterator
  requires wf: code(list) == 0 || slwf(list)
  assigns @SubProblemsListIterator.list, @SubProblemsListIterator.curr, @SubProblemsListIterator.index, alloc(SubProblemsListIterator)
  ensures none: code(list) == 0 ==> code(result) == 0
  ensures wf: code(list) != 0 ==> code(result) > 0 && alive(SubProblemsListIterator, code(result)) && sitwf(result) && result->index == 0 && code(result->list) == code(list)
  ensures fresh: code(list) != 0 ==> code(result) >= old(nxt(SubProblemsListIterator))
  ensures only: forall r {alive(SubProblemsListIterator, r)}: alive(SubProblemsListIterator, r) <==> old(alive(SubProblemsListIterator, r)) || code(list) != 0 && r == code(result)

fn is_SubProblemList_iterator_valid inline
  requires wf: code(iterator) == 0 || (code(iterator) > 0 && alive(SubProblemsListIterator, code(iterator)) && sitwf(iterator))
  assigns nothing
  returns code(iterator) != 0 && iterator->index < iterator->list->size

fn get_current_openSubProblemList_iterator_element inline
  requires wf: code(iterator) == 0 || (code(iterator) > 0 && alive(SubProblemsListIterator, code(iterator)) && sitwf(iterator))
  assigns nothing
  returns code(iterator) == 0 || code(iterator->curr) == 0 ? NULL : &@SubProblemElem[code(iterator->curr)].subProblem

fn list_openSubProblemList_next
  requires wf: code(iterator) == 0 || (code(iterator) > 0 && alive(SubProblemsListIterator, code(iterator)) && sitwf(iterator))
  assigns iterator->index, iterator->curr
  ensures wf: code(iterator) != 0 ==> sitwf(iterator)
  ensures step: code(iterator) != 0 ==> iterator->index == old(iterator->index) + (old(iterator->index) < old(iterator->list->size) ? 1 : 0)

fn SubProblemList_iterator_get_next
  requires wf: code(iterator) == 0 || (code(iterator) > 0 && alive(SubProblemsListIterator, code(iterator)) && sitwf(iterator))
  assigns iterator->index, iterator->curr
  ensures wf: code(iterator) != 0 ==> sitwf(iterator)
  returns code(iterator) == 0 || old(iterator->index) >= iterator->list->size ? NULL : &@SubProblemElem[iterator->list->gs[old(iterator->index)]].subProblem
  ensures step: code(iterator) != 0 ==> iterator->index == old(iterator->index) + (old(iterator->index) < old(iterator->list->size) ? 1 : 0)

fn delete_SubProblemList_iterator
  requires wf: code(iterator) == 0 || alive(SubProblemsListIterator, code(iterator))
  assigns alloc(SubProblemsListIterator)
  ensures gone: forall r {alive(SubProblemsListIterator, r)}: alive(SubProblemsListIterator, r) <==> old(alive(SubProblemsListIterator, r)) && r != code(iterator)
