------------------------------ MODULE MCCursors ------------------------------
(***************************************************************************)
(* One traversal of every kind, at every position, on every forest of at    *)
(* most MaxN nodes, interleaved with every edit and every way of giving up  *)
(* or taking handles.  Every transition is printed and replayed.            *)
(***************************************************************************)
EXTENDS Cursors, Json

CONSTANTS MaxN, MaxOut, Emit
VARIABLES s, last

Key(v) == ToString(<<v.f.par, v.cur.kind, v.cur.start, v.cur.pend, v.u>>)
RelabelCursor(c, order) ==
  [kind |-> c.kind, start |-> IF c.start = 0 THEN 0 ELSE IndexIn(order, c.start),
   pend |-> IF c.pend = <<>> THEN <<>> ELSE <<c.pend[1], IndexIn(order, c.pend[2])>>]

Init == s = EmptyCursorState /\ last = <<>>

Step(op) ==
  LET a == ApplyCursor(s, op)
      order == CanonOrder(a.s.f)
      ts == SortedTrees(a.s.f)
      v == [f |-> Relabel(a.s.f, order, ts), cur |-> RelabelCursor(a.s.cur, order),
            u |-> { IndexIn(ts, t) : t \in a.s.u }]
  IN /\ Cardinality(Nodes(a.s.f)) <= MaxOut
     \* a new tree that goes at once is of no interest
     /\ \A i \in 1..Len(a.born) : a.born[i] \in Nodes(a.s.f)
     /\ IF Emit THEN PrintT(ToJson([k |-> "E", src |-> Key(s), op |-> op, r |-> a.r, born |-> a.born, x |-> a.x,
                                    dst |-> Key(v), order |-> order, torder |-> ts])) ELSE TRUE
     /\ s' = v
     /\ last' = [op |-> op, before |-> s, after |-> a.s, x |-> a.x]

Next == \E op \in Ops(s) : Step(op)
Spec == Init /\ [][Next]_<<s, last>>
View == s
SmallEnough == Cardinality(Nodes(s.f)) <= MaxN

Inv ==
  /\ WellFormed(s.f)
  /\ Alive(s)
  \* what is announced is alive
  /\ HeldByCursor(s.cur) \subseteq Nodes(s.f)
  \* an open node is in the subtree where its builder began, and keeps edits granted
  /\ Building(s) => IsAncestorOrSelf(s.f, s.cur.start, s.cur.pend[2])
  \* left alone, every traversal ends, and yields no item twice
  /\ LET rem == Remaining(s.f, s.cur) IN
       /\ Len(rem) <= 2 * Cardinality(Nodes(s.f))
       /\ \A i, j \in 1..Len(rem) : rem[i] = rem[j] => i = j
  \* a fresh traversal is the window model of module Traversal
  /\ (s.cur.kind = "dft" /\ s.cur.pend = <<"o", s.cur.start>>) =>
       LET d == Dft(s.f, s.cur.start) IN Remaining(s.f, s.cur) = [i \in 1..Len(d) |-> <<d[i][1], d[i][2]>>]
  /\ (s.cur.kind = "rdft" /\ s.cur.pend = <<"c", s.cur.start>>) =>
       LET d == Reverse(Dft(s.f, s.cur.start)) IN Remaining(s.f, s.cur) = [i \in 1..Len(d) |-> <<d[i][1], d[i][2]>>]
Locked(v) == IF Building(v) THEN {v.f.tr[v.cur.pend[2]]} ELSE {}
(* A builder touches nothing but the children of the innermost open node, where it appends. *)
BuildOK == [][
  /\ last'.op[1] = "bopen" /\ last'.before.cur.pend # <<>> =>
       LET f == last'.before.f
           g == last'.after.f
           x == last'.before.cur.pend[2]
           new == Nodes(g) \ Nodes(f)
       IN /\ Cardinality(new) = 1
          /\ \A y \in Nodes(f) \ {x} : g.kids[y] = f.kids[y]
          /\ \A y \in Nodes(f) : g.par[y] = f.par[y] /\ g.tr[y] = f.tr[y]
          /\ \E y \in new : g.kids[x] = Append(f.kids[x], y) /\ g.kids[y] = <<>> /\ last'.after.cur.pend = <<"b", y>>
  /\ last'.op[1] = "bclose" => last'.after.f = last'.before.f /\ last'.after.u = last'.before.u
  /\ last'.op[1] = "bclose" /\ last'.op[2] = 1 /\ Building(last'.before) =>
       \/ last'.before.cur.pend[2] = last'.before.cur.start /\ last'.after.cur.pend = <<>>
       \/ last'.after.cur.pend = <<"b", Parent(last'.before.f, last'.before.cur.pend[2])>>
  ]_<<s, last>>
(* Edits do not advance cursors; a step yields what was announced. *)
StepOK == [][
  /\ last'.op[1] \in {"edit", "edit_forget", "release"} => last'.after.cur = last'.before.cur
  /\ last'.op[1] = "step" => last'.x = last'.before.cur.pend
  ]_<<s, last>>
EmitInv == IF Emit THEN PrintT(ToJson([k |-> "S", key |-> Key(s),
             obs |-> [nodes |-> [x \in Nodes(s.f) |-> NodeObs(s.f, x)], kind |-> s.cur.kind, start |-> s.cur.start,
                      pend |-> s.cur.pend, rest |-> Remaining(s.f, s.cur),
                      u |-> SetToSortSeq(s.u, LAMBDA a, b : a < b),
                      open |-> IF Building(s) THEN OpenNodes(s) ELSE <<>>,
                      prohibitable |-> [t \in 1..Cardinality(Trees(s.f)) |-> t \notin Locked(s)]]]))
           ELSE TRUE
=============================================================================
