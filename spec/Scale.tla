------------------------------- MODULE Scale -------------------------------
(***************************************************************************)
(* Deep and wide trees.  A state is a small forest each node of which stands *)
(* for a gadget of size K: a chain, a fan, or a comb.  Blow(s, K) is the     *)
(* forest meant.                                                             *)
(*                                                                         *)
(* Blow commutes with the operations (Lift names the operation on the large  *)
(* forest), and the traversal of the large forest is a short sequence of     *)
(* runs (Runs), so that what is known of every small forest is known of      *)
(* forests of any size: TLC checks both for small K, the conformance driver  *)
(* uses the runs with K in the thousands.                                    *)
(***************************************************************************)
EXTENDS Forest, Integers

Gadgets == {"one", "chain", "fan", "fanr", "combl", "combr"}
Deep == {"chain", "combl", "combr"}
Fans == {"fan", "fanr"}
Combs == {"combl", "combr"}

(* A label is <<x, part, a, b>>: the node number a * K + b of the part ("s": *)
(* spine, "l": leaf) of the gadget of x.                                     *)
Top(x) == <<x, "s", 0, 1>>
Bottom(s, x) == IF s.g[x] \in Deep THEN <<x, "s", 1, 0>> ELSE Top(x)
LeafOne(x) == <<x, "l", 0, 1>>
LeafLast(x) == <<x, "l", 1, 0>>

Code(x, part, i) == x * 1000 + (IF part = "l" THEN 500 ELSE 0) + i
CodeOf(l, K) == Code(l[1], l[2], l[3] * K + l[4])

SpineLen(g, K) == IF g \in Deep THEN K ELSE 1
LeafCount(g, K) == CASE g \in Fans -> K [] g \in Combs -> K - 1 [] OTHER -> 0

Blow(s, K) ==
  LET f == s.f
      g == s.g
      Spine(x) == { <<x, "s", i>> : i \in 1..SpineLen(g[x], K) }
      Leaves(x) == { <<x, "l", i>> : i \in 1..LeafCount(g[x], K) }
      all == UNION { Spine(x) \cup Leaves(x) : x \in Nodes(f) }
      C(n) == Code(n[1], n[2], n[3])
      heads(x) == [i \in 1..Len(f.kids[x]) |-> Code(f.kids[x][i], "s", 1)]
      leaves(x) == [i \in 1..K |-> Code(x, "l", i)]
      kids(n) == LET x == n[1] i == n[3] IN
        CASE n[2] = "l" -> <<>>
          [] i < SpineLen(g[x], K) ->
               (CASE g[x] = "chain" -> <<Code(x, "s", i + 1)>>
                  [] g[x] = "combl" -> <<Code(x, "l", i), Code(x, "s", i + 1)>>
                  [] g[x] = "combr" -> <<Code(x, "s", i + 1), Code(x, "l", i)>>)
          [] g[x] = "fan" -> leaves(x) \o heads(x)
          [] g[x] = "fanr" -> heads(x) \o leaves(x)
          [] OTHER -> heads(x)
      par(n) == LET x == n[1] i == n[3] IN
        CASE n[2] = "l" -> IF g[x] \in Fans THEN Code(x, "s", 1) ELSE Code(x, "s", i)
          [] i > 1 -> Code(x, "s", i - 1)
          [] f.par[x] = 0 -> 0
          [] OTHER -> LET p == f.par[x] IN Code(p, "s", SpineLen(g[p], K))
      node(c) == CHOOSE n \in all : C(n) = c
      dom == { C(n) : n \in all }
  IN [kids |-> [c \in dom |-> kids(node(c))],
      par |-> [c \in dom |-> par(node(c))],
      tr |-> [c \in dom |-> f.tr[c \div 1000]]]

-----------------------------------------------------------------------------
(* Operations. *)

(* Where the place is in the large forest: <<place, label of the anchor>>. *)
LiftPlace(s, a, where) ==
  CASE where = "first" -> IF s.g[a] = "fan" THEN <<"next", LeafLast(a)>> ELSE <<"first", Bottom(s, a)>>
    [] where = "last" -> IF s.g[a] = "fanr" THEN <<"prev", LeafOne(a)>> ELSE <<"last", Bottom(s, a)>>
    [] OTHER -> <<where, Top(a)>>

(* The operation on the large forest, with labels for nodes. *)
Lift(s, op) ==
  CASE op[1] \in {"new", "droptree"} -> op
    [] op[1] = "create" -> LET p == LiftPlace(s, op[2], op[3]) IN <<"create", p[2], p[1]>>
    [] op[1] \in {"move", "cloneins"} -> LET p == LiftPlace(s, op[3], op[4]) IN <<op[1], Top(op[2]), p[2], p[1]>>
    [] op[1] = "ichild" -> <<"ichild", Bottom(s, op[2])>>
    [] OTHER -> <<op[1], Top(op[2])>>
Coded(op, K) ==
  CASE op[1] \in {"new", "droptree"} -> op
    [] op[1] = "create" -> <<"create", CodeOf(op[2], K), op[3]>>
    [] op[1] \in {"move", "cloneins"} -> <<op[1], CodeOf(op[2], K), CodeOf(op[3], K), op[4]>>
    [] OTHER -> <<op[1], CodeOf(op[2], K)>>

(* A fan's leaves can become those of its parent: they are at one of its ends. *)
Spliceable(s, x) ==
  LET p == s.f.par[x] IN
  /\ p # 0 /\ s.g[p] = "one"
  /\ IF s.g[x] = "fan" THEN s.f.kids[p][1] = x ELSE s.f.kids[p][Len(s.f.kids[p])] = x

(* Those that have a counterpart. *)
Liftable(s, op) ==
  CASE op[1] = "replace" -> \/ s.g[op[2]] = "one"
                            \/ s.g[op[2]] \in Fans /\ (s.f.par[op[2]] = 0 \/ Spliceable(s, op[2]))
    [] OTHER -> TRUE
ScaleOps(s) == { op \in StructOps(s.f) : Liftable(s, op) }

(* Leaves: <<x, y>> if the leaves of x are given to y. *)
ApplyScale(s, op) ==
  LET x == op[2]
      onfan == op[1] \in {"ichild", "replace"} /\ s.g[x] \in Fans
      \* (A root with many children is not replaced with them.)
      a == IF onfan /\ op[1] = "replace" /\ s.f.par[x] = 0 THEN Refuse(s.f, "nosib")
           ELSE ApplyStruct(s.f, op, Trees(s.f))
      image(y) == Preorder(s.f, x)[IndexIn(a.born, y)]
      copy == op[1] \in {"clone", "cloneins"}
      leaves == IF ~onfan \/ a.r # "ok" THEN <<>> ELSE IF op[1] = "ichild" THEN <<x, a.born[1]>> ELSE <<x, s.f.par[x]>>
      gadget(y) == CASE leaves # <<>> /\ y = leaves[2] -> s.g[leaves[1]]
                     [] leaves # <<>> /\ y = leaves[1] -> "one"
                     [] y \in Range(a.born) -> IF copy THEN s.g[image(y)] ELSE "one"
                     [] OTHER -> s.g[y]
  IN [s |-> [f |-> a.f, g |-> [y \in Nodes(a.f) |-> gadget(y)]], r |-> a.r, born |-> a.born, leaves |-> leaves]

Commutes(s, op, K) ==
  LET a == ApplyScale(s, op)
      big == Blow(s, K)
      b == ApplyStruct(big, Coded(Lift(s, op), K), Trees(big))
  IN a.r = b.r /\ Canon(Blow(a.s, K)) = Canon(b.f)

-----------------------------------------------------------------------------
(* The depth-first traversal as a sequence of runs.  A run                   *)
(*    <<lo, hi, step, body>>                                                 *)
(* repeats its body for i from lo to hi (each <<a, b>>: a * K + b) by step;   *)
(* the body is a sequence of <<"o" or "c", x, part>>.                        *)

RECURSIVE Runs(_, _)
Runs(s, x) ==
  LET inner == FlattenSeq([i \in 1..Len(s.f.kids[x]) |-> Runs(s, s.f.kids[x][i])])
      run(lo, hi, step, body) == <<<<lo, hi, step, body>>>>
      one == <<0, 1>>
      last == <<1, 0>>
      prev == <<1, -1>>
      open == <<"o", x, "s">>
      close == <<"c", x, "s">>
      leaf == <<<<"o", x, "l">>, <<"c", x, "l">>>>
  IN CASE s.g[x] = "one" -> run(one, one, 1, <<open>>) \o inner \o run(one, one, 1, <<close>>)
       [] s.g[x] = "chain" -> run(one, last, 1, <<open>>) \o inner \o run(last, one, -1, <<close>>)
       [] s.g[x] = "fan" -> run(one, one, 1, <<open>>) \o run(one, last, 1, leaf) \o inner \o run(one, one, 1, <<close>>)
       [] s.g[x] = "fanr" -> run(one, one, 1, <<open>>) \o inner \o run(one, last, 1, leaf) \o run(one, one, 1, <<close>>)
       [] s.g[x] = "combl" -> run(one, prev, 1, <<open>> \o leaf) \o run(last, last, 1, <<open>>) \o inner
                              \o run(last, last, 1, <<close>>) \o run(prev, one, -1, <<close>>)
       [] s.g[x] = "combr" -> run(one, last, 1, <<open>>) \o inner
                              \o run(last, last, 1, <<close>>) \o run(prev, one, -1, leaf \o <<close>>)

Expand(runs, K) ==
  LET At(p) == p[1] * K + p[2]
      Indices(r) == IF r[3] = 1 THEN [k \in 1..(At(r[2]) - At(r[1]) + 1) |-> At(r[1]) + k - 1]
                    ELSE [k \in 1..(At(r[1]) - At(r[2]) + 1) |-> At(r[1]) - k + 1]
      One(r) == LET is == Indices(r) IN
                FlattenSeq([k \in 1..Len(is) |-> [j \in 1..Len(r[4]) |-> <<r[4][j][1], Code(r[4][j][2], r[4][j][3], is[k])>>]])
  IN FlattenSeq([k \in 1..Len(runs) |-> One(runs[k])])
=============================================================================
