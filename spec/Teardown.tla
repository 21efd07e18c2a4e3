------------------------------ MODULE Teardown ------------------------------
(***************************************************************************)
(* Trees being taken down while destructors of their data use other trees   *)
(* (property C10).                                                           *)
(*                                                                         *)
(* When the last handle of a tree goes, its nodes are dead at once (no weak  *)
(* reference upgrades any more), and their data are dropped one after        *)
(* another, in no promised order.  The destructor of one may do anything to  *)
(* the living trees, including giving up the last handle of one of them:     *)
(* teardowns nest.                                                           *)
(*                                                                         *)
(* A destructor may also panic.  Then the teardown goes on: all other data   *)
(* of the tree are dropped nevertheless, once each, and the panic arrives at *)
(* whoever gave up the last handle.                                          *)
(*                                                                         *)
(* The state is [f, st]: the forest of living nodes, and the stack of        *)
(* teardowns in progress, each with the set of nodes (by their position in   *)
(* the preorder of the tree as it was) whose data are not dropped yet, and   *)
(* whether a destructor has panicked.                                        *)
(***************************************************************************)
EXTENDS Forest

EmptyTear == [f |-> EmptyForest, st |-> <<>>]
Top(s) == s.st[Len(s.st)]

ApplyTear(s, op) ==
  CASE op[1] = "droptree" ->
         [s |-> [f |-> OpDropTree(s.f, op[2]).f,
                 st |-> Append(s.st, [left |-> 1..Cardinality(TreeNodes(s.f, op[2])), burst |-> FALSE])],
          r |-> "ok", born |-> <<>>]
    \* the library drops data
    [] op[1] = "data" -> [s |-> [s EXCEPT !.st[Len(s.st)].left = @ \ {op[2]}], r |-> "ok", born |-> <<>>]
    \* ... whose destructor panics
    [] op[1] = "burst" -> [s |-> [s EXCEPT !.st[Len(s.st)] = [left |-> @.left \ {op[2]}, burst |-> TRUE]], r |-> "ok", born |-> <<>>]
    \* the library is done with the tree
    [] op[1] = "done" -> [s |-> [s EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)],
                         r |-> IF Top(s).burst THEN "panic" ELSE "ok", born |-> <<>>]
    [] OTHER -> LET a == ApplyStruct(s.f, op, Trees(s.f)) IN
                [s |-> [s EXCEPT !.f = a.f], r |-> a.r, born |-> a.born]

(* What the user, and what the library can do. *)
UserOps(s) == StructOps(s.f)
LibraryOps(s) ==
  IF s.st = <<>> THEN {}
  ELSE { <<"data", i>> : i \in Top(s).left }
       \* (A panic while another one is under way ends the process.)
       \cup (IF \E i \in DOMAIN s.st : s.st[i].burst THEN {} ELSE { <<"burst", i>> : i \in Top(s).left })
       \cup (IF Top(s).left = {} THEN { <<"done">> } ELSE {})
=============================================================================
