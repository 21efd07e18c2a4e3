------------------------------ MODULE MCPretty ------------------------------
(***************************************************************************)
(* The picture of every subtree of every tree of at most MaxT nodes (as the  *)
(* marks before each node's lines); for trees of at most MaxN nodes the      *)
(* pictures themselves, for all texts of at most MaxLen tokens.              *)
(***************************************************************************)
EXTENDS Pretty, Json

CONSTANTS MaxN, MaxLen, MaxT, Emit
VARIABLES p, x, text

Texts == UNION { [1..n -> {"a", NL}] : n \in 0..MaxLen }
Init == \E n \in 1..MaxN : p \in ParVectors(n) /\ x \in 1..n /\ text \in [1..n -> Texts]
Spec == Init /\ [][FALSE]_<<p, x, text>>

F == ForestOf(p)
Inv == LET pic == Picture(F, text, x) IN
  /\ pic = ByNode(F, text, x)
  \* as many lines as the texts of the subtree have: nothing twice, nothing from outside
  /\ Len(pic) = FoldLeft(LAMBDA acc, y : acc + Len(Lines(text[y])), 0, Preorder(F, x))
  /\ IF Emit THEN PrintT(ToJson([k |-> "P", par |-> p, x |-> x, text |-> text, lines |-> pic])) ELSE TRUE

ASSUME \A n \in 1..MaxT : \A q \in ParVectors(n) : LET f == ForestOf(q) IN \A y \in 1..n :
  IF Emit THEN PrintT(ToJson([k |-> "M", par |-> q, x |-> y, pre |-> Preorder(f, y),
     first |-> [i \in 1..Len(Preorder(f, y)) |-> MarkOf(f, y, Preorder(f, y)[i])],
     others |-> [i \in 1..Len(Preorder(f, y)) |-> Column(f, y, Preorder(f, y)[i])]])) ELSE TRUE
=============================================================================
