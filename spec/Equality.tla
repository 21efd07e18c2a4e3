------------------------------ MODULE Equality ------------------------------
(***************************************************************************)
(* When two subtrees are equal (property C17), and a comparison that walks   *)
(* both in step, as a state machine with unreadable data.                    *)
(*                                                                         *)
(* A labelled tree is [par, lab]; the label Odd stands for data that are not *)
(* equal to themselves (like NaN).                                           *)
(***************************************************************************)
EXTENDS Traversal

Odd == 9
DataEq(a, b) == a = b /\ a # Odd

RECURSIVE Equal(_, _, _, _, _, _)
Equal(f, l, x, g, m, y) ==
  /\ DataEq(l[x], m[y])
  /\ Len(f.kids[x]) = Len(g.kids[y])
  /\ \A i \in 1..Len(f.kids[x]) : Equal(f, l, f.kids[x][i], g, m, g.kids[y][i])

(* A canonical text of a subtree: equal subtrees are those with the same text and no odd data. *)
RECURSIVE Code(_, _, _)
Code(f, l, x) ==
  "(" \o ToString(l[x]) \o FoldLeft(LAMBDA acc, k : acc \o Code(f, l, k), "", f.kids[x]) \o ")"
HasOdd(f, l, x) == \E y \in Subtree(f, x) : l[y] = Odd

(* One step of the comparison: the next event of either side; z1 and z2 are the nodes whose
   data cannot be read. *)
Event(f, x, i) == LET s == Dft(f, x) IN IF i <= Len(s) THEN s[i] ELSE <<"-", 0, 0>>
Compare(f, l, x, z1, g, m, y, z2, i) ==
  LET e == Event(f, x, i)
      d == Event(g, y, i)
  IN CASE e[1] = "-" /\ d[1] = "-" -> "true"
       [] e[1] # d[1] -> "false"
       [] e[1] = "o" /\ (e[2] \in z1 \/ d[2] \in z2) -> "err"
       [] e[1] = "o" /\ ~DataEq(l[e[2]], m[d[2]]) -> "false"
       [] OTHER -> "more"

(* What a comparison may answer. *)
Allowed(f, l, x, z1, g, m, y, z2) ==
  LET truth == IF Equal(f, l, x, g, m, y) THEN "true" ELSE "false"
      blind == Subtree(f, x) \cap z1 # {} \/ Subtree(g, y) \cap z2 # {}
  IN IF ~blind THEN {truth} ELSE {"err"} \cup ({truth} \cap {"false"})
=============================================================================
