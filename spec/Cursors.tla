------------------------------- MODULE Cursors -------------------------------
(***************************************************************************)
(* Traversals that do not prevent edits, as cursors on a changing forest.   *)
(* Property C19 (and the part of C10 about what a traversal keeps alive).   *)
(*                                                                         *)
(* A cursor is [kind, start, pend]: pend is the item that the next step     *)
(* yields, as <<"o"|"c"|"n", node>>, or <<>> once the traversal has ended;   *)
(* start is the node where a depth-first traversal turns around (0 for      *)
(* other kinds and for ended traversals).  A step yields pend, and the new  *)
(* pend is its neighbour in the forest AS IT IS AT THAT STEP.                *)
(*                                                                         *)
(* A state is [f, cur, u]: u is the set of trees that the user keeps alive. *)
(*                                                                         *)
(* A builder is also a cursor (property C15 while others edit): kind        *)
(* "build", start is the node where it began, pend is <<"b", x>> with x the *)
(* innermost open node, <<>> once start is closed, and <<"s", start>> after *)
(* it failed half-way (what is open then is not specified).  It holds a     *)
(* grant of x's tree as long as x is open.                                  *)
(***************************************************************************)
EXTENDS Traversal

CursorKinds == {"dft", "rdft", "sib", "rsib", "anc"}
Ended(kind) == [kind |-> kind, start |-> 0, pend |-> <<>>]
NoCursor == Ended("none")

Event(e) == IF e = <<>> THEN <<>> ELSE <<e[1], e[2]>>
OrEnd(x) == IF x = 0 THEN <<>> ELSE <<"n", x>>
(* What is announced after yielding c.pend. *)
After(f, c) ==
  LET x == c.pend[2] IN
  CASE c.kind = "dft"  -> IF c.pend = <<"c", c.start>> THEN <<>> ELSE Event(Succ(f, c.pend))
    [] c.kind = "rdft" -> IF c.pend = <<"o", c.start>> THEN <<>> ELSE Event(Pred(f, c.pend))
    [] c.kind = "sib"  -> OrEnd(NextSib(f, x))
    [] c.kind = "rsib" -> OrEnd(PrevSib(f, x))
    [] c.kind = "anc"  -> OrEnd(Parent(f, x))

(* [c |-> cursor afterwards, x |-> item yielded] *)
Advance(f, c) ==
  IF c.pend = <<>> THEN [c |-> c, x |-> <<>>]
  ELSE LET p == After(f, c) IN
       [x |-> c.pend, c |-> IF p = <<>> THEN Ended(c.kind) ELSE [c EXCEPT !.pend = p]]

(* close_current: yields the closing that is not opened on the way. *)
RECURSIVE CloseFrom(_, _, _)
CloseFrom(f, c, depth) ==
  LET a == Advance(f, c) IN
  IF a.x = <<>> THEN a
  ELSE IF a.x[1] = "o" THEN CloseFrom(f, a.c, depth + 1)
  ELSE IF depth = 0 THEN a ELSE CloseFrom(f, a.c, depth - 1)

(* All that is left to be delivered, if nothing is edited any more. *)
RECURSIVE Remaining(_, _)
Remaining(f, c) ==
  IF c.kind = "build" THEN <<>>
  ELSE LET a == Advance(f, c) IN IF a.x = <<>> THEN <<>> ELSE <<a.x>> \o Remaining(f, a.c)

HeldByCursor(c) == (IF c.start = 0 THEN {} ELSE {c.start}) \cup (IF c.pend = <<>> THEN {} ELSE {c.pend[2]})
TreesHeld(s) == s.u \cup { s.f.tr[x] : x \in HeldByCursor(s.cur) }
Alive(s) == Trees(s.f) = TreesHeld(s)
ReapUnheld(s) ==
  LET dead == { x \in Nodes(s.f) : s.f.tr[x] \notin TreesHeld(s) }
  IN [s EXCEPT !.f = RemoveNodes(s.f, dead)]

AllEvents(f) == { <<k, x>> : k \in {"o", "c"}, x \in Nodes(f) }
AllItems(f) == { <<"n", x>> : x \in Nodes(f) }

Creations(f) ==
  { [kind |-> k, start |-> x, pend |-> e] : k \in {"dft", "rdft"}, x \in Nodes(f), e \in AllEvents(f) }
  \cup { [kind |-> k, start |-> 0, pend |-> e] : k \in {"sib", "rsib", "anc"}, e \in AllItems(f) }
  \cup { [kind |-> "build", start |-> x, pend |-> <<"b", x>>] : x \in Nodes(f) }

-----------------------------------------------------------------------------
(* The open nodes, innermost first. *)
RECURSIVE Open(_, _, _)
Open(f, x, root) == IF x = root THEN <<x>> ELSE IF x = 0 THEN <<0>> ELSE <<x>> \o Open(f, Parent(f, x), root)
OpenNodes(s) == IF s.cur.pend = <<>> THEN <<>> ELSE Open(s.f, s.cur.pend[2], s.cur.start)
Building(s) == s.cur.kind = "build" /\ s.cur.pend # <<>> /\ s.cur.pend[1] = "b"
Spent(s) == s.cur.kind = "build" /\ s.cur.pend # <<>> /\ s.cur.pend[1] = "s"

BuilderOps(s) ==
  {<<"bopen">>} \cup { <<"bclose", k>> : k \in 0..(Len(OpenNodes(s)) + 1) }

At(c, x) == [c EXCEPT !.pend = IF x = 0 THEN <<>> ELSE <<"b", x>>]
Same(s, r) == [s |-> s, r |-> r, x |-> <<>>, born |-> <<>>]
ApplyBuilder(s, op) ==
  IF op[1] = "bclose" /\ op[2] = 0 THEN Same(s, "ok")
  ELSE IF s.cur.pend = <<>> THEN Same(s, "closed")
  ELSE IF op[1] = "bopen" THEN
    LET a == OpCreate(s.f, s.cur.pend[2], "last")
    IN [s |-> [s EXCEPT !.f = a.f, !.cur = At(@, a.born[1])], r |-> "ok", x |-> <<>>, born |-> a.born]
  ELSE LET open == OpenNodes(s)
           k == op[2]
       IN IF k > Len(open) THEN Same([s EXCEPT !.cur.pend = <<"s", s.cur.start>>], "closed")
          ELSE Same([s EXCEPT !.cur = At(@, IF k = Len(open) THEN 0 ELSE open[k + 1])], "ok")

(* Edits that put something between open nodes, or tear them apart, would   *)
(* leave open what it means to close them; the others do not bother.        *)
Unbothered(s, op) ==
  LET a == ApplyStruct(s.f, op, Trees(s.f))
  IN Building(s) => Open(a.f, s.cur.pend[2], s.cur.start) = OpenNodes(s)

-----------------------------------------------------------------------------
(* ApplyCursor(s, op) = [s, r, x, born] *)
Ops(s) ==
  IF s.cur.kind = "build" THEN
    {<<"free">>, <<"bfinish", TRUE>>, <<"bfinish", FALSE>>}
    \cup (IF Spent(s) THEN {} ELSE
          BuilderOps(s)
          \cup { <<"edit", o>> : o \in { o \in StructOps(s.f) : o[1] # "droptree" /\ Unbothered(s, o) } }
          \cup { <<"edit_forget", o>> : o \in { o \in StructOps(s.f) : o[1] \in {"detach", "replace"} /\ Unbothered(s, o) } }
          \cup { <<"release", t>> : t \in s.u })
  ELSE
  { <<"edit", o>> : o \in StructOps(s.f) \ { <<"droptree", t>> : t \in Trees(s.f) } }
  \cup { <<"edit_forget", o>> : o \in { o \in StructOps(s.f) : o[1] \in {"detach", "replace"} } }
  \cup { <<"release", t>> : t \in s.u }
  \cup (IF s.cur.kind = "none" THEN { <<"make", c>> : c \in Creations(s.f) }
        ELSE {<<"free">>, <<"step", TRUE>>, <<"step", FALSE>>}
             \cup (IF s.cur.kind = "dft" THEN {<<"close", TRUE>>, <<"close", FALSE>>} ELSE {}))

Yield(s, a, keep) ==
  [s |-> ReapUnheld([s EXCEPT !.cur = a.c,
                             !.u = IF keep /\ a.x # <<>> THEN @ \cup {s.f.tr[a.x[2]]} ELSE @]),
   r |-> "ok", x |-> a.x, born |-> <<>>]
ApplyCursor(s, op) ==
  CASE op[1] \in {"edit", "edit_forget"} ->
         LET a == ApplyStruct(s.f, op[2], Trees(s.f))
             \* a tree that arises is held by the user, unless it is at once forgotten
             fresh == IF op[1] = "edit" THEN Trees(a.f) \ Trees(s.f) ELSE {}
         IN [s |-> ReapUnheld([s EXCEPT !.f = a.f, !.u = (@ \cap Trees(a.f)) \cup fresh]),
             r |-> a.r, x |-> <<>>, born |-> a.born]
    [] op[1] = "release" -> [s |-> ReapUnheld([s EXCEPT !.u = @ \ {op[2]}]), r |-> "ok", x |-> <<>>, born |-> <<>>]
    [] op[1] = "make" -> [s |-> [s EXCEPT !.cur = op[2]], r |-> "ok", x |-> <<>>, born |-> <<>>]
    [] op[1] = "free" -> [s |-> ReapUnheld([s EXCEPT !.cur = NoCursor]), r |-> "ok", x |-> <<>>, born |-> <<>>]
    [] op[1] \in {"bopen", "bclose"} -> ApplyBuilder(s, op)
    [] op[1] = "bfinish" -> Yield(s, [c |-> NoCursor, x |-> <<"n", s.cur.start>>], op[2])
    [] op[1] = "step" -> Yield(s, Advance(s.f, s.cur), op[2])
    [] op[1] = "close" -> Yield(s, CloseFrom(s.f, s.cur, 0), op[2])

EmptyCursorState == [f |-> EmptyForest, cur |-> NoCursor, u |-> {}]
=============================================================================
