# the program: what it prints is the result for the instance in the file it is given
# entries above and below the diagonal: u and v joined, weight of the step
pred fjoined(f, u, v) = u != v && listed(f, u, v)
pred icost(f, u, v) = u < v ? cw(f, u, v) : cw(f, v, u)
# finite weights, and probabilities
pred moderate(f) = forall u, v {cw(f, u, v)} {cp(f, u, v)}: 0 <= u < rb(f, fnum(f)) && 0 <= v < rb(f, fnum(f)) && u != v ==> cw(f, u, v) < FLT_MAX && (HYBRID ==> cp(f, u, v) >= 0.0)
fn main
  param argv[argc]
  flag prints
  requires args: argc >= 0 && forall k {argv[k]}: 0 <= k < argc ==> lasting(argv[k])
  requires start: io(open) == 0 && io(buf) == 0 && !io(bad) && io(on) >= 0 && forall e {alive(SubProblemElem, e)}: !alive(SubProblemElem, e)
  requires file: argc == 3 ==> let f = fileof(str(argv[1])): goodfile(f) && moderate(f) && fnum(f) > 0
  assigns problem, clock(), io()
  assigns @SubProblemElem.next, @SubProblemElem.prev, @SubProblemElem.subProblem, @SubProblemElem.own, @SubProblemElem.pos, alloc(SubProblemElem)
  assigns @SubProblemsListIterator.list, @SubProblemsListIterator.curr, @SubProblemsListIterator.index, alloc(SubProblemsListIterator)
  assigns @DllElem.next, @DllElem.prev, @DllElem.value, @DllElem.own, @DllElem.pos, @List.head, @List.tail, @List.size, @List.gs, alloc(DllElem), alloc(List)
  assigns @OrdTreeNode.left_sibling, @OrdTreeNode.right_sibling, @OrdTreeNode.marked, @OrdTreeNode.is_root, @OrdTreeNode.parent, @OrdTreeNode.head_child_list, @OrdTreeNode.tail_child_list, @OrdTreeNode.num_children, @OrdTreeNode.value, @OrdTreeNode.key
  assigns @SubProblemsList.head, @SubProblemsList.tail, @SubProblemsList.size, @SubProblemsList.gs
  local f Int
  local on0 Int
  local rn0 Int
  local sn0 Int
  local left0 Int
  at before call read_tsp_csv_file 1: f := fileof(str(input_file))
  at before call print_problem 1: points problem: true ? &new_problem : &new_problem
  at before call print_problem 1: on0 := io(on)
  at before call print_problem 1: rn0 := io(rn)
  at before call print_problem 1: sn0 := io(sn)
  exits usage: argc != 3
  local k0 Int
  at before call print_problem 1: assert problem->graph.num_nodes == rb(f, fnum(f)) && gwf(&problem->graph)
  at before call print_problem 1: assert problem->bestSolution.num_edges_in_cycle == 0 || (problem->graph.num_nodes >= 3 && tourof(&problem->bestSolution, &problem->graph) && tourcost(&problem->bestSolution, &problem->graph))
  ensures usage: argc == 3
  ensures shown: let f = old(fileof(str(argv[1]))): io(out)[on0 + 8] == 0 || io(out)[on0 + 8] == rb(f, fnum(f))
  ensures steps: forall k {problem->bestSolution.hc[k]}: 0 <= k < io(out)[on0 + 8] ==> io(out)[on0 + 9 + 2 * k] == problem->bestSolution.hc[k] && io(out)[on0 + 10 + 2 * k] == problem->bestSolution.hc[k + 1]
  ensures tour: let f = old(fileof(str(argv[1]))): io(out)[on0 + 8] != 0 ==> problem->bestSolution.hc[0] == problem->bestSolution.hc[rb(f, fnum(f))] && (forall k {problem->bestSolution.hc[k]}: 0 <= k < rb(f, fnum(f)) ==> 0 <= problem->bestSolution.hc[k] < rb(f, fnum(f)) && fjoined(f, problem->bestSolution.hc[k], problem->bestSolution.hc[k + 1])) && (forall j, k {problem->bestSolution.hc[j], problem->bestSolution.hc[k]}: 0 <= j < k < rb(f, fnum(f)) ==> problem->bestSolution.hc[j] != problem->bestSolution.hc[k])
  ensures cost: let f = old(fileof(str(argv[1]))): io(out)[on0 + 8] != 0 ==> io(rout)[rn0 + 3] == rsum(problem->bestSolution.hw, rb(f, fnum(f))) && forall k {problem->bestSolution.hw[k]}: 0 <= k < rb(f, fnum(f)) ==> problem->bestSolution.hw[k] == icost(f, problem->bestSolution.hc[k], problem->bestSolution.hc[k + 1])
  ensures none: io(out)[on0 + 8] == 0 ==> io(rout)[rn0 + 3] == INFINITE
  ensures optimal: problem->graph.num_nodes >= 1 && io(sout)[sn0] == "FALSE" && thetour(problem) ==> io(rout)[rn0 + 3] - tcost(problem) <= EPS() && io(out)[on0 + 8] != 0
  ensures closed: io(open) == 0 && io(buf) == 0
  ensures freed: lfreed() && (forall e {alive(SubProblemElem, e)}: alive(SubProblemElem, e) ==> old(alive(SubProblemElem, e))) && (forall r {alive(SubProblemsListIterator, r)}: alive(SubProblemsListIterator, r) <==> old(alive(SubProblemsListIterator, r)))
