-------------------------------- MODULE Data --------------------------------
(***************************************************************************)
(* Data of the nodes, borrowed and written, next to the hierarchy           *)
(* (property C18), and cloning that fails half-way (C16, C05).               *)
(*                                                                         *)
(* The state is [f, v, b]: a forest, the value of each node (0 or 1), and    *)
(* its outstanding borrows: n > 0 shared ones, -1 for an exclusive one.      *)
(***************************************************************************)
EXTENDS Forest, Integers

EmptyData == [f |-> EmptyForest, v |-> <<>>, b |-> <<>>]
NoEffect(s, r) == [s |-> s, r |-> r, born |-> <<>>]

Busy(s, x) == s.b[x] = -1
CloneOps == {"clone", "cloneins"}
Blocked(s, x) == \E y \in Subtree(s.f, x) : Busy(s, y)

(* Values and borrows after a hierarchy operation: those of old nodes stay, copies carry the
   values of their originals, other new nodes the value 0, and none of them is borrowed. *)
After(s, op, a) ==
  LET orig(z) == IF op[1] \in CloneOps
                 THEN s.v[Preorder(s.f, op[2])[IndexIn(a.born, z)]] ELSE 0
  IN [f |-> a.f,
      v |-> [z \in Nodes(a.f) |-> IF z \in Nodes(s.f) THEN s.v[z] ELSE orig(z)],
      b |-> [z \in Nodes(a.f) |-> IF z \in Nodes(s.f) THEN s.b[z] ELSE 0]]

ApplyData(s, op) ==
  CASE op[1] = "read" -> IF Busy(s, op[2]) THEN NoEffect(s, "busy")
                         ELSE NoEffect([s EXCEPT !.b[op[2]] = @ + 1], "ok")
    [] op[1] = "write" -> IF s.b[op[2]] # 0 THEN NoEffect(s, "busy")
                          ELSE NoEffect([s EXCEPT !.b[op[2]] = -1, !.v[op[2]] = 1 - @], "ok")
    [] op[1] = "unread" -> NoEffect([s EXCEPT !.b[op[2]] = @ - 1], "ok")
    [] op[1] = "unwrite" -> NoEffect([s EXCEPT !.b[op[2]] = 0], "ok")
    \* the k-th copy of data made by this operation fails
    [] op[1] = "fault" -> NoEffect(s, "panic")
    [] OTHER ->
       LET a == ApplyStruct(s.f, op, Trees(s.f)) IN
       IF op[1] \in CloneOps /\ Blocked(s, op[2])
       THEN NoEffect(s, IF a.r = "ok" THEN "borrow" ELSE "refused")   \* for either reason
       ELSE [s |-> After(s, op, a), r |-> a.r, born |-> a.born]

Weight(s) == FoldFunction(LAMBDA n, acc : acc + (IF n < 0 THEN 1 ELSE n), 0, s.b)
DataOps(s, maxw) ==
  { <<"read", x>> : x \in { y \in Nodes(s.f) : Weight(s) < maxw \/ Busy(s, y) } }
  \cup { <<"write", x>> : x \in { y \in Nodes(s.f) : Weight(s) < maxw \/ s.b[y] # 0 } }
  \cup { <<"unread", x>> : x \in { y \in Nodes(s.f) : s.b[y] > 0 } }
  \cup { <<"unwrite", x>> : x \in { y \in Nodes(s.f) : Busy(s, y) } }
  \* a borrowed node keeps its tree alive
  \cup { op \in StructOps(s.f) : op[1] = "droptree" => \A x \in TreeNodes(s.f, op[2]) : s.b[x] = 0 }
  \cup UNION { { <<"fault", op, k>> : k \in 1..Cardinality(Subtree(s.f, op[2])) }
               : op \in { o \in StructOps(s.f) : /\ o[1] \in CloneOps /\ ~Blocked(s, o[2])
                                                 /\ ApplyStruct(s.f, o, Trees(s.f)).r = "ok" } }
=============================================================================
