------------------------------- MODULE Builder -------------------------------
(***************************************************************************)
(* Serialized trees and the builder.  Property C15.                          *)
(*                                                                         *)
(* A builder is [f, root, cur]: the forest around it, the root of what is    *)
(* being built (0: not opened yet) and the innermost open node (0: none).    *)
(***************************************************************************)
EXTENDS Traversal

(* The serialization of the subtree of x: <<"open", y>> or <<"close", 1>>. *)
Serial(f, x) == LET d == Dft(f, x) IN [i \in 1..Len(d) |-> IF d[i][1] = "o" THEN <<"open", d[i][2]>> ELSE <<"close", 1>>]

Opens(b) == IF b.cur = 0 THEN <<>>  \* open nodes, innermost first
  ELSE LET a == <<b.cur>> \o AncestorsSeq(b.f, b.cur) IN SubSeq(a, 1, IndexIn(a, b.root))

NewBuilder == [f |-> EmptyForest, root |-> 0, cur |-> 0]
WithRoot(f, x) == [f |-> f, root |-> x, cur |-> x]

Fails(b, why) == [b |-> b, r |-> why, born |-> <<>>]
Does(b, born) == [b |-> b, r |-> "ok", born |-> born]

Open(b) ==
  IF b.root = 0 THEN LET a == OpNew(b.f, Trees(b.f)) IN Does([f |-> a.f, root |-> a.born[1], cur |-> a.born[1]], a.born)
  ELSE IF b.cur = 0 THEN Fails(b, "closed")
  ELSE LET a == OpCreate(b.f, b.cur, "last") IN Does([b EXCEPT !.f = a.f, !.cur = a.born[1]], a.born)

Close(b, k) ==
  IF k = 0 THEN Does(b, <<>>)
  ELSE IF b.root = 0 THEN Fails(b, "notopened")
  ELSE LET o == Opens(b) IN
       IF k > Len(o) THEN Fails(b, "closed")
       ELSE Does([b EXCEPT !.cur = IF k = Len(o) THEN 0 ELSE o[k + 1]], <<>>)

Apply(b, op) == IF op[1] = "open" THEN Open(b) ELSE Close(b, op[2])

RECURSIVE Run(_, _)
(* Feeds events to a builder up to the first failure. *)
Run(b, evs) == IF evs = <<>> THEN Does(b, <<>>)
  ELSE LET a == Apply(b, Head(evs)) IN IF a.r # "ok" THEN a ELSE Run(a.b, Tail(evs))

RECURSIVE SameShape(_, _, _, _)
SameShape(g, x, h, y) ==
  /\ Len(g.kids[x]) = Len(h.kids[y])
  /\ \A i \in 1..Len(g.kids[x]) : SameShape(g, g.kids[x][i], h, h.kids[y][i])
(* Building is the inverse of serialization. *)
RoundTrip(f, x) ==
  LET a == Run(NewBuilder, Serial(f, x)) IN
  a.r = "ok" /\ a.b.cur = 0 /\ SameShape(f, x, a.b.f, a.b.root)
=============================================================================
