# doubly linked list.  Ghost state: gs = references of the elements in order; own/pos = list and position of an element.
ghostfield List.gs AInt
ghostfield DllElem.own Int
ghostfield DllElem.pos Int

pred lwf(l) = let L = code(l): L > 0 && alive(List, L) && @List[L].size >= 0
|  && (forall i {@List[L].gs[i]}: 0 <= i < @List[L].size ==>
|        @List[L].gs[i] > 0 && alive(DllElem, @List[L].gs[i]) && @DllElem[@List[L].gs[i]].own == L && @DllElem[@List[L].gs[i]].pos == i
|        && code(@DllElem[@List[L].gs[i]].next) == (i + 1 < @List[L].size ? @List[L].gs[i+1] : 0)
|        && code(@DllElem[@List[L].gs[i]].prev) == (i > 0 ? @List[L].gs[i-1] : 0))
|  && (forall e {@DllElem[e].own}: alive(DllElem, e) && @DllElem[e].own == L ==> 0 <= @DllElem[e].pos < @List[L].size && @List[L].gs[@DllElem[e].pos] == e)
|  && code(@List[L].head) == (@List[L].size > 0 ? @List[L].gs[0] : 0)
|  && code(@List[L].tail) == (@List[L].size > 0 ? @List[L].gs[@List[L].size - 1] : 0)
pred lval(l, i) = code(@DllElem[l->gs[i]].value)
# elements of other lists are untouched
pred lothers(l) = forall e {alive(DllElem, e)} {@DllElem[e].own}: old(alive(DllElem, e)) && old(@DllElem[e].own) != code(l) ==> alive(DllElem, e)
|    && @DllElem[e].own == old(@DllElem[e].own) && @DllElem[e].pos == old(@DllElem[e].pos) && code(@DllElem[e].value) == code(old(@DllElem[e].value))
|    && code(@DllElem[e].next) == code(old(@DllElem[e].next)) && code(@DllElem[e].prev) == code(old(@DllElem[e].prev))
# all list memory has been released
pred lfreed() = (forall e {alive(DllElem, e)}: alive(DllElem, e) <==> old(alive(DllElem, e))) && (forall r {alive(List, r)}: alive(List, r) <==> old(alive(List, r)))
# no element joins another list
pred lonly(l) = forall e {alive(DllElem, e)} {@DllElem[e].own}: alive(DllElem, e) && @DllElem[e].own != code(l) ==> old(alive(DllElem, e)) && @DllElem[e].own == old(@DllElem[e].own)
pred insat(l, element, k) = l->size == old(l->size) + 1
|    && (forall i {l->gs[i]}: 0 <= i < k ==> lval(l, i) == old(lval(l, i)))
|    && lval(l, k) == code(element)
|    && (forall i {l->gs[i]}: k < i <= old(l->size) ==> lval(l, i) == old(lval(l, i - 1)))
pred delat(l, k) = l->size == old(l->size) - 1
|    && (forall i {l->gs[i]}: 0 <= i < k ==> lval(l, i) == old(lval(l, i)))
|    && (forall i {l->gs[i]}: k <= i < l->size ==> lval(l, i) == old(lval(l, i + 1)))

fn new_list
  assigns @List.head, @List.tail, @List.size, alloc(List), @List.gs
  at return: @DllElem.own := lam e: @DllElem[e].own == code(result) ? 0 : @DllElem[e].own
  assigns @DllElem.own
  ensures fresh: code(result) >= old(nxt(List))
  ensures wf: lwf(result)
  ensures empty: result->size == 0
  ensures keep: forall e {@DllElem[e].own}: @DllElem[e].own == (old(@DllElem[e].own) == code(result) ? 0 : old(@DllElem[e].own))
  ensures only: forall r {alive(List, r)}: alive(List, r) <==> old(alive(List, r)) || r == code(result)
  ensures lists: forall r {@List[r].size} {@List[r].gs} {@List[r].head} {@List[r].tail}: r != code(result) ==> @List[r].size == old(@List[r].size) && @List[r].gs == old(@List[r].gs) && code(@List[r].head) == code(old(@List[r].head)) && code(@List[r].tail) == code(old(@List[r].tail))

fn del_list
  requires wf: code(list) == 0 || lwf(list)
  assigns alloc(DllElem), alloc(List)
  loop 1
    inv cur: code(current) == 0 || (0 <= @DllElem[code(current)].pos < list->size && list->gs[@DllElem[code(current)].pos] == code(current))
    inv freed: forall e {alive(DllElem, e)}: alive(DllElem, e) <==> old(alive(DllElem, e)) && (@DllElem[e].own != code(list) || (code(current) != 0 && @DllElem[e].pos >= @DllElem[code(current)].pos))
    dec code(current) == 0 ? 0 : list->size - @DllElem[code(current)].pos
  ensures elems: code(list) != 0 ==> forall e {alive(DllElem, e)}: alive(DllElem, e) <==> old(alive(DllElem, e)) && @DllElem[e].own != code(list)
  ensures list: forall r {alive(List, r)}: alive(List, r) <==> old(alive(List, r)) && r != code(list)
  ensures none: code(list) == 0 ==> forall e {alive(DllElem, e)}: alive(DllElem, e) <==> old(alive(DllElem, e))

fn is_list_empty inline
  requires wf: code(list) == 0 || lwf(list)
  assigns nothing
  returns code(list) == 0 || list->size == 0

fn get_list_size inline
  requires wf: code(list) == 0 || lwf(list)
  assigns nothing
  ensures size: result == (code(list) == 0 ? 0 : list->size)

fn add_elem_list_bottom
  requires wf: code(list) == 0 || lwf(list)
  assigns list->head, list->tail, list->size, list->gs, @DllElem.next, @DllElem.prev, @DllElem.value, @DllElem.own, @DllElem.pos, alloc(DllElem)
  at return: if code(list) != 0 then list->gs := store(list->gs, old(list->size), old(nxt(DllElem)))
  at return: if code(list) != 0 then @DllElem.own := lam e: e == old(nxt(DllElem)) ? code(list) : alive(DllElem, e) ? @DllElem[e].own : 0
  at return: if code(list) != 0 then @DllElem.pos := lam e: e == old(nxt(DllElem)) ? old(list->size) : @DllElem[e].pos
  ensures wf: code(list) != 0 ==> lwf(list)
  ensures view: code(list) != 0 ==> insat(list, element, old(list->size))
  ensures only: lonly(list)
  ensures others: lothers(list)

fn add_elem_list_index
  requires wf: code(list) == 0 || lwf(list)
  requires range: index >= 0
  assigns list->head, list->tail, list->size, list->gs, @DllElem.next, @DllElem.prev, @DllElem.value, @DllElem.own, @DllElem.pos, alloc(DllElem)
  at return: if code(list) != 0 && index <= old(list->size) then list->gs := lam i: i < index ? old(list->gs[i]) : i == index ? old(nxt(DllElem)) : old(list->gs[i-1])
  at return: if code(list) != 0 && index <= old(list->size) then @DllElem.own := lam e: e == old(nxt(DllElem)) ? code(list) : alive(DllElem, e) ? @DllElem[e].own : 0
  at return: if code(list) != 0 && index <= old(list->size) then @DllElem.pos := lam e: e == old(nxt(DllElem)) ? index : old(@DllElem[e].own) == code(list) && old(@DllElem[e].pos) >= index ? old(@DllElem[e].pos) + 1 : old(@DllElem[e].pos)
  loop 1
    inv at: code(supp) == (i < list->size ? list->gs[i] : 0)
    dec index - i
  ensures wf: code(list) != 0 ==> lwf(list)
  ensures view: code(list) != 0 && index <= old(list->size) ==> insat(list, element, index)
  ensures ignored: code(list) != 0 && index > old(list->size) ==> list->size == old(list->size) && forall i {list->gs[i]}: 0 <= i < list->size ==> lval(list, i) == old(lval(list, i))
  ensures only: lonly(list)
  ensures others: lothers(list)

fn delete_list_elem_bottom
  requires wf: code(list) == 0 || lwf(list)
  assigns list->head, list->tail, list->size, list->gs, @DllElem.next, @DllElem.prev, alloc(DllElem)
  ensures wf: code(list) != 0 ==> lwf(list)
  ensures view: code(list) != 0 && old(list->size) > 0 ==> delat(list, old(list->size) - 1)
  ensures ignored: code(list) != 0 && old(list->size) == 0 ==> list->size == 0
  ensures only: lonly(list)
  ensures others: lothers(list)

fn delete_list_elem_index
  requires wf: code(list) == 0 || lwf(list)
  requires range: index >= 0
  assigns list->head, list->tail, list->size, list->gs, @DllElem.next, @DllElem.prev, @DllElem.pos, alloc(DllElem)
  at return: if code(list) != 0 && index < old(list->size) then list->gs := lam i: i < index ? old(list->gs[i]) : old(list->gs[i+1])
  at return: if code(list) != 0 && index < old(list->size) then @DllElem.pos := lam e: old(@DllElem[e].own) == code(list) && old(@DllElem[e].pos) > index ? old(@DllElem[e].pos) - 1 : old(@DllElem[e].pos)
  loop 1
    inv at: code(oldElem) == (i < list->size ? list->gs[i] : 0)
    dec index - i
  ensures wf: code(list) != 0 ==> lwf(list)
  ensures view: code(list) != 0 && index < old(list->size) ==> delat(list, index)
  ensures ignored: code(list) != 0 && index >= old(list->size) ==> list->size == old(list->size) && forall i {list->gs[i]}: 0 <= i < list->size ==> lval(list, i) == old(lval(list, i))
  ensures only: lonly(list)
  ensures others: lothers(list)

fn get_list_elem_index
  requires wf: code(list) == 0 || lwf(list)
  requires range: index >= 0
  assigns nothing
  loop 1
    inv at: code(supp) == (i < list->size ? list->gs[i] : 0)
    dec index - i
  ensures view: code(result) == (code(list) == 0 || index >= list->size ? 0 : lval(list, index))

# iterators
pred itwf(it) = lwf(it->list) && 0 <= it->index <= it->list->size
|    && code(it->curr) == (it->list->size == 0 ? 0 : it->list->gs[it->index < it->list->size ? it->index : it->list->size - 1])

fn create_list_iterator
  requires wf: code(list) == 0 || lwf(list)
  assigns @ListIterator.list, @ListIterator.curr, @ListIterator.index, alloc(ListIterator)
  ensures none: code(list) == 0 ==> code(result) == 0
  ensures wf: code(list) != 0 ==> code(result) > 0 && alive(ListIterator, code(result)) && itwf(result) && result->index == 0 && code(result->list) == code(list)
  ensures fresh: code(list) != 0 ==> code(result) >= old(nxt(ListIterator))
  ensures only: forall r {alive(ListIterator, r)}: alive(ListIterator, r) <==> old(alive(ListIterator, r)) || code(list) != 0 && r == code(result)

fn is_list_iterator_valid inline
  requires wf: code(iterator) == 0 || (code(iterator) > 0 && alive(ListIterator, code(iterator)) && itwf(iterator))
  assigns nothing
  returns code(iterator) != 0 && iterator->index < iterator->list->size

fn get_current_list_iterator_element inline
  requires wf: code(iterator) == 0 || (code(iterator) > 0 && alive(ListIterator, code(iterator)) && itwf(iterator))
  assigns nothing
  ensures view: code(iterator) != 0 && iterator->index < iterator->list->size ==> code(result) == lval(iterator->list, iterator->index)
  ensures none: code(iterator) == 0 || iterator->list->size == 0 ==> code(result) == 0

fn list_iterator_next
  requires wf: code(iterator) == 0 || (code(iterator) > 0 && alive(ListIterator, code(iterator)) && itwf(iterator))
  assigns iterator->index, iterator->curr
  ensures wf: code(iterator) != 0 ==> itwf(iterator)
  ensures step: code(iterator) != 0 ==> iterator->index == old(iterator->index) + (old(iterator->index) < old(iterator->list->size) ? 1 : 0)

fn list_iterator_get_next
  requires wf: code(iterator) == 0 || (code(iterator) > 0 && alive(ListIterator, code(iterator)) && itwf(iterator))
  assigns iterator->index, iterator->curr
  ensures wf: code(iterator) != 0 ==> itwf(iterator)
  ensures view: code(result) == (code(iterator) == 0 || old(iterator->index) >= old(iterator->list->size) ? 0 : lval(iterator->list, old(iterator->index)))
  ensures step: code(iterator) != 0 ==> iterator->index == old(iterator->index) + (old(iterator->index) < old(iterator->list->size) ? 1 : 0)

fn delete_list_iterator
  requires wf: code(iterator) == 0 || alive(ListIterator, code(iterator))
  assigns alloc(ListIterator)
  ensures gone: forall r {alive(ListIterator, r)}: alive(ListIterator, r) <==> old(alive(ListIterator, r)) && r != code(iterator)
