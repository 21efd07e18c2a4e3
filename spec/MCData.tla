-------------------------------- MODULE MCData --------------------------------
(***************************************************************************)
(* Every way of borrowing and writing the data of the nodes of every forest  *)
(* of at most MaxN nodes, with every hierarchy operation in between, and     *)
(* every point at which copying data can fail.                               *)
(***************************************************************************)
EXTENDS Data, Json

CONSTANTS MaxN, MaxOut, MaxW, Emit
VARIABLES s, last

(* The values themselves do not influence anything: states that differ only in them are the same. *)
Key(w) == ToString(<<w.f.par, w.f.tr, w.b>>)
Init == s = EmptyData /\ last = <<>>
Step(op) ==
  LET a == ApplyData(s, op)
      order == CanonOrder(a.s.f)
      ts == SortedTrees(a.s.f)
      w == [f |-> Relabel(a.s.f, order, ts),
            v |-> [i \in 1..Len(order) |-> a.s.v[order[i]]],
            b |-> [i \in 1..Len(order) |-> a.s.b[order[i]]]]
  IN /\ Cardinality(Nodes(a.s.f)) <= MaxOut
     /\ IF Emit THEN PrintT(ToJson([k |-> "E", src |-> Key(s), op |-> op, r |-> a.r, born |-> a.born,
                                    dst |-> Key(w), order |-> order, torder |-> ts])) ELSE TRUE
     /\ s' = w
     /\ last' = [op |-> op, before |-> s, after |-> a.s, r |-> a.r]

Next == \E op \in DataOps(s, MaxW) : Step(op)
Spec == Init /\ [][Next]_<<s, last>>
View == <<s.f, s.b>>
FullView == s
SmallEnough == Cardinality(Nodes(s.f)) <= MaxN

Inv == /\ WellFormed(s.f) /\ DOMAIN s.v = Nodes(s.f) /\ DOMAIN s.b = Nodes(s.f)
       /\ \A x \in Nodes(s.f) : s.b[x] >= -1
StepOK == [][
  LET A == last'.after
      B == last'.before
      o == last'.op[1]
  IN \* data change only through explicit mutable access; borrows only through borrowing
     /\ \A x \in Nodes(B.f) \cap Nodes(A.f) :
          /\ A.v[x] # B.v[x] => o = "write" /\ last'.op[2] = x /\ B.b[x] = 0
          /\ A.b[x] # B.b[x] => o \in {"read", "write", "unread", "unwrite"} /\ last'.op[2] = x
     \* accesses do not touch the hierarchy
     /\ o \in {"read", "write", "unread", "unwrite", "fault"} => A.f = B.f
     /\ last'.r \notin {"ok"} => A = B
     \* and hierarchy operations other than copying never look at data
     /\ o \notin {"read", "write", "unread", "unwrite", "fault", "clone", "cloneins"} =>
          last'.r = ApplyStruct(B.f, last'.op, Trees(B.f)).r
  ]_<<s, last>>
EmitInv == IF Emit THEN PrintT(ToJson([k |-> "S", key |-> Key(s),
             obs |-> [nodes |-> [x \in Nodes(s.f) |-> NodeObs(s.f, x)], b |-> s.b]]))
           ELSE TRUE
=============================================================================
