------------------------------- MODULE Forest -------------------------------
(***************************************************************************)
(* Ordered forests, and what every hierarchy operation of dendron does to  *)
(* them.  This is the single source of truth that all the other modules    *)
(* (exhaustive models, cursors, builders, trace validation) reuse.         *)
(*                                                                         *)
(* A forest is a record                                                    *)
(*    kids : node -> sequence of nodes     (children, in order)            *)
(*    par  : node -> node, or 0 for a root (parent)                        *)
(*    tr   : node -> tree identifier       (tree membership)               *)
(* over an arbitrary finite domain of nodes (positive naturals).  A tree   *)
(* identifier names the identity of a tree as users see it through Tree    *)
(* handles and tokens: it survives replacement of the root.                *)
(*                                                                         *)
(* Operations are functions from forests to records                        *)
(*    [f |-> new forest, r |-> result, born |-> sequence of new nodes]     *)
(* where r is "ok" or the error the operation must be refused with, and a  *)
(* refused operation returns the forest it was given.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

EmptyForest == [kids |-> <<>>, par |-> <<>>, tr |-> <<>>]

Nodes(f) == DOMAIN f.kids
Trees(f) == { f.tr[x] : x \in Nodes(f) }
Roots(f) == { x \in Nodes(f) : f.par[x] = 0 }
TreeNodes(f, t) == { x \in Nodes(f) : f.tr[x] = t }

(* Smallest identifiers not in use. *)
FreshNode(f) == CHOOSE i \in 1..(Cardinality(Nodes(f)) + 1) :
                   /\ i \notin Nodes(f)
                   /\ \A j \in 1..(i - 1) : j \in Nodes(f)
FreshTree(used) == CHOOSE i \in 1..(Cardinality(used) + 1) :
                   /\ i \notin used
                   /\ \A j \in 1..(i - 1) : j \in used

RECURSIVE Preorder(_, _)
(* Preorder of the subtree of x. *)
Preorder(f, x) == <<x>> \o FlattenSeq([i \in 1..Len(f.kids[x]) |-> Preorder(f, f.kids[x][i])])
Subtree(f, x) == Range(Preorder(f, x))

RECURSIVE AncestorsSeq(_, _)
(* Proper ancestors, nearest first. *)
AncestorsSeq(f, x) == IF f.par[x] = 0 THEN <<>> ELSE <<f.par[x]>> \o AncestorsSeq(f, f.par[x])
IsAncestorOrSelf(f, a, x) == a = x \/ a \in Range(AncestorsSeq(f, x))
RootOf(f, x) == LET a == AncestorsSeq(f, x) IN IF a = <<>> THEN x ELSE Last(a)

(* All siblings of x including x, in order; a root is its only sibling. *)
SiblingsSeq(f, x) == IF f.par[x] = 0 THEN <<x>> ELSE f.kids[f.par[x]]
IndexIn(s, v) == CHOOSE i \in 1..Len(s) : s[i] = v

-----------------------------------------------------------------------------
(* Navigation: what every query must answer.  0 stands for "none". *)

Parent(f, x) == f.par[x]
PrevSib(f, x) == LET s == SiblingsSeq(f, x) i == IndexIn(s, x) IN IF i = 1 THEN 0 ELSE s[i - 1]
NextSib(f, x) == LET s == SiblingsSeq(f, x) i == IndexIn(s, x) IN IF i = Len(s) THEN 0 ELSE s[i + 1]
FirstChild(f, x) == IF f.kids[x] = <<>> THEN 0 ELSE Head(f.kids[x])
LastChild(f, x) == IF f.kids[x] = <<>> THEN 0 ELSE Last(f.kids[x])
Preceding(f, x) == LET s == SiblingsSeq(f, x) IN SubSeq(s, 1, IndexIn(s, x) - 1)
Following(f, x) == LET s == SiblingsSeq(f, x) IN SubSeq(s, IndexIn(s, x) + 1, Len(s))

NodeObs(f, x) ==
  [ tree |-> f.tr[x], root |-> RootOf(f, x), parent |-> Parent(f, x),
    prev |-> PrevSib(f, x), next |-> NextSib(f, x),
    fsib |-> Head(SiblingsSeq(f, x)), lsib |-> Last(SiblingsSeq(f, x)),
    fchild |-> FirstChild(f, x), lchild |-> LastChild(f, x),
    kids |-> f.kids[x], anc |-> AncestorsSeq(f, x),
    prec |-> Preceding(f, x), foll |-> Following(f, x),
    pre |-> Preorder(f, x) ]

-----------------------------------------------------------------------------
(* Well-formedness: the invariant behind properties C01 and C06. *)

WellFormed(f) ==
  /\ DOMAIN f.par = Nodes(f) /\ DOMAIN f.tr = Nodes(f)
  \* parent and children relations are converses, and no node occurs twice
  /\ \A x \in Nodes(f) : \A i \in 1..Len(f.kids[x]) :
        /\ f.kids[x][i] \in Nodes(f)
        /\ f.par[f.kids[x][i]] = x
        /\ \A j \in 1..Len(f.kids[x]) : f.kids[x][i] = f.kids[x][j] => i = j
  /\ \A x \in Nodes(f) : f.par[x] # 0 => f.par[x] \in Nodes(f) /\ x \in Range(f.kids[f.par[x]])
  \* no cycles: every node is below exactly one root
  /\ \A x \in Nodes(f) : \E r \in Roots(f) : x \in Subtree(f, r)
  \* every tree has exactly one root, and membership is constant along edges
  /\ \A x \in Nodes(f) : f.par[x] # 0 => f.tr[x] = f.tr[f.par[x]]
  /\ \A x, y \in Roots(f) : f.tr[x] = f.tr[y] => x = y

-----------------------------------------------------------------------------
(* Elementary edits. *)

InsertAtPos(s, i, v) == SubSeq(s, 1, i - 1) \o <<v>> \o SubSeq(s, i, Len(s))
Without(s, v) == SelectSeq(s, LAMBDA w : w # v)
SetTree(f, S, t) == [f EXCEPT !.tr = [x \in DOMAIN f.tr |-> IF x \in S THEN t ELSE f.tr[x]]]

(* Take x out of its parent's children. *)
Unlink(f, x) == IF f.par[x] = 0 THEN f
  ELSE [f EXCEPT !.kids[f.par[x]] = Without(@, x), !.par[x] = 0]

(* The parent and the index at which "where" of anchor a inserts; the anchor
   is looked up in the forest from which the inserted node is already gone. *)
Places == {"first", "last", "prev", "next"}
DestParent(f, a, where) == IF where \in {"first", "last"} THEN a ELSE f.par[a]
DestIndex(f, a, where) ==
  CASE where = "first" -> 1
    [] where = "last" -> Len(f.kids[a]) + 1
    [] where = "prev" -> IndexIn(f.kids[f.par[a]], a)
    [] where = "next" -> IndexIn(f.kids[f.par[a]], a) + 1

(* Put the root x at the place. *)
Link(f, x, a, where) ==
  LET p == DestParent(f, a, where)
      i == DestIndex(f, a, where)
  IN [f EXCEPT !.kids[p] = InsertAtPos(@, i, x), !.par[x] = p]

AddNode(f, x, t) ==
  [kids |-> (x :> <<>>) @@ f.kids, par |-> (x :> 0) @@ f.par, tr |-> (x :> t) @@ f.tr]

RemoveNodes(f, S) ==
  [kids |-> [x \in Nodes(f) \ S |-> f.kids[x]],
   par  |-> [x \in Nodes(f) \ S |-> f.par[x]],
   tr   |-> [x \in Nodes(f) \ S |-> f.tr[x]]]

Refuse(f, why) == [f |-> f, r |-> why, born |-> <<>>]
Done(f, born) == [f |-> f, r |-> "ok", born |-> born]

-----------------------------------------------------------------------------
(* The operations.  "used" is the set of tree identifiers in use (living    *)
(* trees may be referenced although all their nodes have gone elsewhere).   *)

OpNew(f, used) == LET x == FreshNode(f) IN Done(AddNode(f, x, FreshTree(used)), <<x>>)

(* create_as_{first,last}_child, create_as_{prev,next}_sibling, try_ variants *)
OpCreate(f, a, where) ==
  IF where \in {"prev", "next"} /\ f.par[a] = 0 THEN Refuse(f, "nosib")
  ELSE LET x == FreshNode(f) IN Done(Link(AddNode(f, x, f.tr[a]), x, a, where), <<x>>)

(* detach_subtree *)
OpDetach(f, x, used) ==
  IF f.par[x] = 0 THEN Done(f, <<>>)
  ELSE Done(SetTree(Unlink(f, x), Subtree(f, x), FreshTree(used)), <<>>)

(* try_detach_insert_subtree *)
OpMove(f, x, a, where) ==
  IF where \in {"prev", "next"} /\ f.par[a] = 0 THEN Refuse(f, "nosib")
  ELSE IF IsAncestorOrSelf(f, x, DestParent(f, a, where)) THEN Refuse(f, "loop")
  ELSE IF a = x THEN Done(f, <<>>)
  ELSE Done(Link(SetTree(Unlink(f, x), Subtree(f, x), f.tr[a]), x, a, where), <<>>)

(* create_as_interrupting_parent *)
OpInterruptParent(f, x) ==
  LET y == FreshNode(f)
      g == AddNode(f, y, f.tr[x])
      p == f.par[x]
  IN IF p = 0 THEN Done([g EXCEPT !.kids[y] = <<x>>, !.par[x] = y], <<y>>)
     ELSE Done([g EXCEPT !.kids[p] = [i \in 1..Len(f.kids[p]) |-> IF f.kids[p][i] = x THEN y ELSE f.kids[p][i]],
                         !.par[y] = p, !.kids[y] = <<x>>, !.par[x] = y], <<y>>)

(* create_as_interrupting_child *)
OpInterruptChild(f, x) ==
  LET y == FreshNode(f)
      g == AddNode(f, y, f.tr[x])
      S == Range(f.kids[x])
  IN Done([g EXCEPT !.kids[x] = <<y>>, !.kids[y] = f.kids[x],
                    !.par = [z \in DOMAIN g.par |-> IF z \in S THEN y ELSE IF z = y THEN x ELSE g.par[z]]], <<y>>)

(* try_replace_with_children *)
OpReplace(f, x, used) ==
  LET k == f.kids[x]
      p == f.par[x]
      t == FreshTree(used)
  IN IF p = 0 THEN
       CASE Len(k) = 0 -> Refuse(f, "empty")
         [] Len(k) > 1 -> Refuse(f, "nosib")
         [] OTHER -> Done(SetTree([f EXCEPT !.kids[x] = <<>>, !.par[k[1]] = 0], {x}, t), <<>>)
     ELSE LET i == IndexIn(f.kids[p], x)
              s == f.kids[p]
              g == [f EXCEPT !.kids[p] = SubSeq(s, 1, i - 1) \o k \o SubSeq(s, i + 1, Len(s)),
                             !.kids[x] = <<>>,
                             !.par = [z \in DOMAIN f.par |-> IF z \in Range(k) THEN p ELSE IF z = x THEN 0 ELSE f.par[z]]]
          IN Done(SetTree(g, {x}, t), <<>>)

(* A copy of the subtree of x as an additional tree t: node i of the       *)
(* preorder of x is copied to new[i].                                       *)
RECURSIVE FreshNodes(_, _, _)
FreshNodes(used, n, acc) == IF n = 0 THEN acc
  ELSE LET i == CHOOSE i \in 1..(Cardinality(used) + 1) : i \notin used /\ \A j \in 1..(i - 1) : j \in used
       IN FreshNodes(used \cup {i}, n - 1, Append(acc, i))

CopySubtree(f, x, t) ==
  LET pre == Preorder(f, x)
      new == FreshNodes(Nodes(f), Len(pre), <<>>)
      image(y) == new[IndexIn(pre, y)]
      S == Range(new)
      orig(z) == pre[IndexIn(new, z)]
  IN [born |-> new,
      f |-> [kids |-> [z \in Nodes(f) \cup S |-> IF z \in S
                          THEN [i \in 1..Len(f.kids[orig(z)]) |-> image(f.kids[orig(z)][i])] ELSE f.kids[z]],
             par  |-> [z \in Nodes(f) \cup S |-> IF z \in S
                          THEN (IF orig(z) = x THEN 0 ELSE image(f.par[orig(z)])) ELSE f.par[z]],
             tr   |-> [z \in Nodes(f) \cup S |-> IF z \in S THEN t ELSE f.tr[z]]]]

(* clone_subtree, Tree::clone_tree (with x the root), and building from events *)
OpClone(f, x, used) == LET c == CopySubtree(f, x, FreshTree(used)) IN Done(c.f, c.born)

(* clone_insert_subtree: the copy is taken of the subtree as it is before the insertion. *)
OpCloneInsert(f, x, a, where) ==
  IF where \in {"prev", "next"} /\ f.par[a] = 0 THEN Refuse(f, "nosib")
  ELSE LET c == CopySubtree(f, x, f.tr[a]) IN Done(Link(c.f, c.born[1], a, where), c.born)

(* Every handle into tree t goes away, and with them the tree. *)
OpDropTree(f, t) == Done(RemoveNodes(f, TreeNodes(f, t)), <<>>)

-----------------------------------------------------------------------------
(* One entry point for structural operations given as tuples. *)

ApplyStruct(f, op, used) ==
  CASE op[1] = "new"      -> OpNew(f, used)
    [] op[1] = "create"   -> OpCreate(f, op[2], op[3])
    [] op[1] = "detach"   -> OpDetach(f, op[2], used)
    [] op[1] = "move"     -> OpMove(f, op[2], op[3], op[4])
    [] op[1] = "iparent"  -> OpInterruptParent(f, op[2])
    [] op[1] = "ichild"   -> OpInterruptChild(f, op[2])
    [] op[1] = "replace"  -> OpReplace(f, op[2], used)
    [] op[1] = "clone"    -> OpClone(f, op[2], used)
    [] op[1] = "cloneins" -> OpCloneInsert(f, op[2], op[3], op[4])
    [] op[1] = "droptree" -> OpDropTree(f, op[2])

StructOps(f) ==
  {<<"new">>}
  \cup { <<"droptree", t>> : t \in Trees(f) }
  \cup { <<"create", a, w>> : a \in Nodes(f), w \in Places }
  \cup { <<o, x>> : o \in {"detach", "iparent", "ichild", "replace", "clone"}, x \in Nodes(f) }
  \cup { <<"move", x, a, w>> : x \in Nodes(f), a \in Nodes(f), w \in Places }
  \cup { <<"cloneins", x, a, w>> : x \in Nodes(f), a \in Nodes(f), w \in Places }

-----------------------------------------------------------------------------
(* Canonical labelling: trees in the order of their identifiers, nodes in   *)
(* preorder.  CanonOrder lists the old names in the order of the new ones.  *)

SortedTrees(f) == SetToSortSeq(Trees(f), LAMBDA a, b : a < b)
RootOfTree(f, t) == CHOOSE x \in Roots(f) : f.tr[x] = t
CanonOrder(f) ==
  LET ts == SortedTrees(f) IN FlattenSeq([i \in 1..Len(ts) |-> Preorder(f, RootOfTree(f, ts[i]))])

Relabel(f, order, ts) ==
  LET new(y) == IF y = 0 THEN 0 ELSE IndexIn(order, y)
      n == Len(order)
  IN [kids |-> [i \in 1..n |-> LET k == f.kids[order[i]] IN [j \in 1..Len(k) |-> new(k[j])]],
      par  |-> [i \in 1..n |-> new(f.par[order[i]])],
      tr   |-> [i \in 1..n |-> IndexIn(ts, f.tr[order[i]])]]
Canon(f) == Relabel(f, CanonOrder(f), SortedTrees(f))
=============================================================================
