------------------------------ MODULE MCTeardown ------------------------------
(***************************************************************************)
(* All teardowns, at most MaxDepth nested, with at most MaxN living nodes    *)
(* around them and at most MaxTotal nodes altogether.                        *)
(***************************************************************************)
EXTENDS Teardown, Json

CONSTANTS MaxN, MaxTotal, MaxDepth, Emit
VARIABLES s, last

Left(st) == FoldSeq(LAMBDA S, acc : acc + Cardinality(S.left), 0, st)
StSeq(st) == [i \in 1..Len(st) |-> SetToSortSeq(st[i].left, LAMBDA a, b : a < b)]
Bursts(st) == [i \in 1..Len(st) |-> st[i].burst]
Key(w) == ToString(<<w.f.par, w.f.tr, StSeq(w.st), Bursts(w.st)>>)
Init == s = EmptyTear /\ last = <<>>
Step(op, by) ==
  LET a == ApplyTear(s, op)
      order == CanonOrder(a.s.f)
      ts == SortedTrees(a.s.f)
      w == [f |-> Relabel(a.s.f, order, ts), st |-> a.s.st]
  IN /\ Cardinality(Nodes(w.f)) <= MaxN
     /\ Cardinality(Nodes(w.f)) + Left(w.st) <= MaxTotal
     /\ Len(w.st) <= MaxDepth
     /\ IF Emit THEN PrintT(ToJson([k |-> "E", src |-> Key(s), op |-> op, r |-> a.r, born |-> a.born,
                                    dst |-> Key(w), order |-> order, torder |-> ts, x |-> by])) ELSE TRUE
     /\ s' = w
     /\ last' = [op |-> op, by |-> by, before |-> s, after |-> a.s]
Next == \/ \E op \in UserOps(s) : Step(op, "user")
        \/ \E op \in LibraryOps(s) : Step(op, "library")
Spec == Init /\ [][Next]_<<s, last>>
View == s

Inv == /\ WellFormed(s.f)
       /\ \A i \in 1..Len(s.st) : s.st[i].left \subseteq 1..MaxTotal
       /\ \A i, j \in 1..Len(s.st) : s.st[i].burst /\ s.st[j].burst => i = j
StepOK == [][
  LET A == last'.after
      B == last'.before
  IN \* dropping data touches nothing that is alive
     /\ last'.by = "library" => A.f = B.f
     \* no teardown but the innermost goes on, and no data is dropped twice
     /\ \A i \in 1..Len(B.st) : i < Len(B.st) => A.st[i] = B.st[i]
     /\ Len(A.st) >= Len(B.st) \/ Top(B).left = {}
     /\ (last'.by = "user" /\ last'.op[1] # "droptree") => A.st = B.st
  ]_<<s, last>>
EmitInv == IF Emit THEN PrintT(ToJson([k |-> "S", key |-> Key(s),
             obs |-> [nodes |-> [x \in Nodes(s.f) |-> NodeObs(s.f, x)],
                      st |-> StSeq(s.st), burst |-> Bursts(s.st)]]))
           ELSE TRUE
=============================================================================
