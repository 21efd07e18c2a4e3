------------------------------ MODULE MCBuilder ------------------------------
(***************************************************************************)
(* Every builder state reachable from an empty builder, or from a builder    *)
(* given any node of any tree, within MaxN nodes; every event, acceptable    *)
(* or not.  With each tree and node, also the serialization of the subtree.  *)
(***************************************************************************)
EXTENDS Builder, Json

CONSTANTS MaxN, MaxInit, MaxTrees, Emit
VARIABLES b, last

Key(v) == ToString(<<v.f.par, v.root, v.cur>>)

Init == /\ last = <<>>
        /\ \/ b = NewBuilder
           \/ \E n \in 1..MaxInit : \E p \in ParVectors(n) : \E x \in 1..n : b = WithRoot(ForestOf(p), x)

Step(op) ==
  LET a == Apply(b, op)
      order == CanonOrder(a.b.f)
      ts == SortedTrees(a.b.f)
      new(y) == IF y = 0 THEN 0 ELSE IndexIn(order, y)
      v == [f |-> Relabel(a.b.f, order, ts), root |-> new(a.b.root), cur |-> new(a.b.cur)]
  IN /\ Cardinality(Nodes(a.b.f)) <= MaxN
     /\ IF Emit THEN PrintT(ToJson([k |-> "E", src |-> Key(b), op |-> op, r |-> a.r, born |-> a.born,
                                    dst |-> Key(v), order |-> order, torder |-> ts])) ELSE TRUE
     /\ b' = v
     /\ last' = [op |-> op, before |-> b, after |-> a.b, r |-> a.r]

Huge2 == Huge \* usize::MAX
Next == Step(<<"open">>) \/ \E k \in (0..(Len(Opens(b)) + 2)) \cup {Huge2} : Step(<<"close", k>>)
Spec == Init /\ [][Next]_<<b, last>>
View == b

Inv ==
  /\ WellFormed(b.f)
  /\ b.root = 0 => b.cur = 0 /\ Nodes(b.f) = {}
  /\ b.cur # 0 => b.cur \in Subtree(b.f, b.root)
(* Nothing outside of the subtree is touched, no node moves, and opened nodes come last. *)
StepOK == [][
  LET A == last'.after
      B == last'.before
  IN /\ Nodes(B.f) \subseteq Nodes(A.f)
     /\ \A x \in Nodes(B.f) :
          /\ A.f.par[x] = B.f.par[x]
          /\ IF last'.op[1] = "open" /\ last'.r = "ok" /\ x = B.cur
             THEN A.f.kids[x] = Append(B.f.kids[x], A.cur)
             ELSE A.f.kids[x] = B.f.kids[x]
     /\ last'.r # "ok" => A = B
     /\ last'.r = "notopened" <=> B.root = 0 /\ last'.op[1] = "close" /\ last'.op[2] > 0
     /\ last'.r = "closed" <=> B.root # 0 /\ ((last'.op[1] = "open" /\ B.cur = 0)
                                               \/ (last'.op[1] = "close" /\ last'.op[2] > Len(Opens(B))))
  ]_<<b, last>>

EmitInv == IF Emit THEN PrintT(ToJson([k |-> "S", key |-> Key(b),
             obs |-> [nodes |-> [x \in Nodes(b.f) |-> NodeObs(b.f, x)], root |-> b.root, cur |-> b.cur,
                      init |-> (b = NewBuilder \/ (b.root = b.cur /\ Cardinality(Nodes(b.f)) <= MaxInit))]]))
           ELSE TRUE

ASSUME \A n \in 1..MaxTrees : \A p \in ParVectors(n) : LET f == ForestOf(p) IN \A x \in 1..n :
  /\ RoundTrip(f, x)
  /\ IF Emit THEN PrintT(ToJson([k |-> "T", par |-> p, x |-> x, events |-> Serial(f, x),
                                 nodes |-> [y \in 1..n |-> NodeObs(f, y)]])) ELSE TRUE
=============================================================================
