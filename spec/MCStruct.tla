------------------------------ MODULE MCStruct ------------------------------
(***************************************************************************)
(* Exhaustive model of the hierarchy operations on all ordered forests of   *)
(* at most MaxN nodes: TLC visits every forest reachable by any history and *)
(* applies every operation with every argument to it (including those that  *)
(* must be refused, and those that grow a forest of MaxN nodes).            *)
(*                                                                         *)
(* Every transition is printed; the conformance driver replays each of      *)
(* them, and sequences of them, on the real library and compares the result *)
(* and everything observable with what is printed here.                     *)
(***************************************************************************)
EXTENDS Forest, Json, TLCExt

CONSTANTS MaxN,   \* forests explored
          MaxOut, \* forests that a transition may lead to
          Emit    \* print states and transitions

VARIABLES f,    \* the forest, canonically labelled
          last  \* ghost: the last transition, for the action properties

Key(g) == ToString(g.par)

Obs(g) == [x \in Nodes(g) |-> NodeObs(g, x)]
EmitState(g) == IF Emit THEN PrintT(ToJson([k |-> "S", key |-> Key(g), obs |-> Obs(g)])) ELSE TRUE

Init == f = EmptyForest /\ last = <<>>

Step(op) ==
  LET a == ApplyStruct(f, op, Trees(f))
      order == CanonOrder(a.f)
      ts == SortedTrees(a.f)
      g == Relabel(a.f, order, ts)
  IN /\ Cardinality(Nodes(a.f)) <= MaxOut
     /\ IF Emit THEN PrintT(ToJson([k |-> "E", src |-> Key(f), op |-> op, r |-> a.r, born |-> a.born,
                                    dst |-> Key(g), order |-> order, torder |-> ts])) ELSE TRUE
     /\ f' = g
     /\ last' = [op |-> op, r |-> a.r, before |-> f, after |-> a.f, born |-> a.born]

Next == \E op \in StructOps(f) : Step(op)
Spec == Init /\ [][Next]_<<f, last>>

View == f
SmallEnough == Cardinality(Nodes(f)) <= MaxN

-----------------------------------------------------------------------------
(* Invariants and action properties: C01 - C06 and C16 on the design. *)

Inv == WellFormed(f)

(* Emitted once per distinct state (evaluated as an invariant). *)
EmitInv == EmitState(f)

(* Frame conditions.  All are stated on the un-relabelled result.  *)
A == last'.after
B == last'.before
Op == last'.op
Survive == Nodes(B)

(* Shape of the subtree of x, by identity. *)
SameSubtree(g, h, x) == /\ Preorder(g, x) = Preorder(h, x)
                        /\ \A y \in Subtree(g, x) : g.kids[y] = h.kids[y]

RefusedUnchanged == last'.r # "ok" => A = B
NoNodeLost == IF Op[1] = "droptree"
              THEN Nodes(A) = Nodes(B) \ TreeNodes(B, Op[2]) /\ \A x \in Nodes(A) : NodeObs(A, x) = NodeObs(B, x)
              ELSE Nodes(B) \subseteq Nodes(A) /\ Nodes(A) = Nodes(B) \cup Range(last'.born)

CreateAddsLeaf ==
  (Op[1] = "create" /\ last'.r = "ok") =>
     LET x == last'.born[1] IN
       /\ A.kids[x] = <<>> /\ A.tr[x] = B.tr[Op[2]]
       /\ CASE Op[3] = "first" -> FirstChild(A, Op[2]) = x
            [] Op[3] = "last" -> LastChild(A, Op[2]) = x
            [] Op[3] = "prev" -> NextSib(A, x) = Op[2]
            [] Op[3] = "next" -> PrevSib(A, x) = Op[2]
       \* removing the new node gives the old forest back
       /\ RemoveNodes(Unlink(A, x), {x}) = B

MovedIntact ==
  (Op[1] \in {"move", "detach"} /\ last'.r = "ok") =>
     LET x == Op[2] IN
       /\ SameSubtree(B, A, x)
       /\ \A y \in Subtree(A, x) : A.tr[y] = A.tr[x]
       /\ Nodes(A) = Nodes(B)
       \* everything else is where it was: unlinking x on both sides gives the same forest
       /\ LET u == Unlink(B, x) v == Unlink(A, x) IN u.kids = v.kids /\ u.par = v.par
       /\ \A y \in Nodes(B) \ Subtree(B, x) : A.tr[y] = B.tr[y]
       /\ Op[1] = "detach" => A.par[x] = 0
       /\ (Op[1] = "move" /\ Op[3] # x) =>
            CASE Op[4] = "first" -> FirstChild(A, Op[3]) = x
              [] Op[4] = "last" -> LastChild(A, Op[3]) = x
              [] Op[4] = "prev" -> NextSib(A, x) = Op[3]
              [] Op[4] = "next" -> PrevSib(A, x) = Op[3]
       /\ (Op[1] = "move" /\ Op[3] = x) => A = B

InterruptionsExact ==
  /\ Op[1] = "iparent" =>
       LET y == last'.born[1] x == Op[2] IN
         /\ A.kids[y] = <<x>> /\ SameSubtree(B, A, x) /\ A.par[y] = B.par[x]
         /\ Preceding(A, y) = Preceding(B, x) /\ Following(A, y) = Following(B, x)
         /\ OpReplace(A, y, Trees(A)).r = "ok"
         \* dissolving the new node undoes the interruption
         /\ LET u == RemoveNodes(OpReplace(A, y, Trees(A)).f, {y}) IN u = B
  /\ Op[1] = "ichild" =>
       LET y == last'.born[1] x == Op[2] IN
         /\ A.kids[x] = <<y>> /\ A.kids[y] = B.kids[x]
         /\ RemoveNodes(OpReplace(A, y, Trees(A)).f, {y}) = B
  /\ (Op[1] = "replace" /\ last'.r = "ok") =>
       LET x == Op[2] IN
         /\ A.kids[x] = <<>> /\ A.par[x] = 0 /\ TreeNodes(A, A.tr[x]) = {x}
         /\ \A y \in Range(B.kids[x]) : SameSubtree(B, A, y) /\ A.par[y] = B.par[x]
         \* document order of the remaining nodes is unchanged
         /\ B.par[x] # 0 => Without(Preorder(B, RootOf(B, x)), x) = Preorder(A, RootOf(B, x))

RefusalsExact ==
  /\ last'.r \in {"ok", "loop", "nosib", "empty"}
  /\ last'.r = "loop" <=> Op[1] = "move" /\ Op[2] \in Range(AncestorsSeq(B, Op[3])) \cup {Op[3]}
                            /\ ~(Op[2] = Op[3] /\ Op[4] \in {"prev", "next"})
                            /\ ~(Op[4] \in {"prev", "next"} /\ (Op[2] = Op[3] \/ B.par[Op[3]] = 0))
  /\ last'.r = "empty" <=> Op[1] = "replace" /\ B.par[Op[2]] = 0 /\ B.kids[Op[2]] = <<>>
  /\ last'.r = "nosib" <=>
       \/ Op[1] = "create" /\ Op[3] \in {"prev", "next"} /\ B.par[Op[2]] = 0
       \/ Op[1] \in {"move", "cloneins"} /\ Op[4] \in {"prev", "next"} /\ B.par[Op[3]] = 0
       \/ Op[1] = "replace" /\ B.par[Op[2]] = 0 /\ Len(B.kids[Op[2]]) > 1

(* Equality of shape of two subtrees in possibly different forests. *)
RECURSIVE SameShape(_, _, _, _)
SameShape(g, x, h, y) ==
  /\ Len(g.kids[x]) = Len(h.kids[y])
  /\ \A i \in 1..Len(g.kids[x]) : SameShape(g, g.kids[x][i], h, h.kids[y][i])

ClonesExact ==
  (Op[1] \in {"clone", "cloneins"} /\ last'.r = "ok") =>
     LET c == last'.born[1] IN
       /\ SameShape(B, Op[2], A, c)
       /\ Range(last'.born) = Subtree(A, c)
       /\ RemoveNodes(Unlink(A, c), Subtree(A, c)) = B
       /\ Op[1] = "clone" => A.par[c] = 0 /\ A.tr[c] \notin Trees(B)

TreesTracked ==
  \* identities of trees survive everything that leaves them a node (except joining)
  \A t \in Trees(B) : t \in Trees(A)
     \/ Op = <<"droptree", t>>
     \/ (Op[1] = "move" /\ B.par[Op[2]] = 0 /\ t = B.tr[Op[2]])

ActionProps == RefusedUnchanged /\ NoNodeLost /\ CreateAddsLeaf /\ MovedIntact
               /\ InterruptionsExact /\ RefusalsExact /\ ClonesExact /\ TreesTracked
StepOK == [][ActionProps]_<<f, last>>
=============================================================================
