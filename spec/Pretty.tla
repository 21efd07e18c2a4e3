------------------------------- MODULE Pretty -------------------------------
(***************************************************************************)
(* Pretty printing (property C20).  The picture of a subtree is a sequence   *)
(* of lines: the lines of its root's text, then the pictures of the          *)
(* children, each behind a branch mark that tells whether it is the last.    *)
(*                                                                         *)
(* The text of a node is a sequence of tokens, of which NL ends a line; it   *)
(* has at least one line, and an NL at its very end begins no further line.  *)
(***************************************************************************)
EXTENDS Traversal

NL == "\n"
RECURSIVE LinesFrom(_, _)
LinesFrom(t, acc) ==
  IF t = <<>> THEN <<acc>>
  ELSE IF Head(t) = NL THEN (IF Len(t) = 1 THEN <<acc>> ELSE <<acc>> \o LinesFrom(Tail(t), ""))
  ELSE LinesFrom(Tail(t), acc \o Head(t))
Lines(t) == LinesFrom(t, "")

FirstMark(last) == IF last THEN "`-- " ELSE "|-- "
NextMark(last) == IF last THEN "    " ELSE "|   "
Behind(lines, last) == [i \in 1..Len(lines) |-> (IF i = 1 THEN FirstMark(last) ELSE NextMark(last)) \o lines[i]]

RECURSIVE Picture(_, _, _)
Picture(f, text, x) ==
  Lines(text[x])
  \o FlattenSeq([i \in 1..Len(f.kids[x]) |-> Behind(Picture(f, text, f.kids[x][i]), i = Len(f.kids[x]))])

(* The same, node by node: what stands before the first and before the other lines of node y,
   when the subtree of x is printed. *)
IsLast(f, y) == NextSib(f, y) = 0
RECURSIVE Column(_, _, _)
Column(f, x, y) == IF x = y THEN "" ELSE Column(f, x, f.par[y]) \o NextMark(IsLast(f, y))
MarkOf(f, x, y) == IF x = y THEN "" ELSE Column(f, x, f.par[y]) \o FirstMark(IsLast(f, y))
ByNode(f, text, x) ==
  FlattenSeq([i \in 1..Len(Preorder(f, x)) |->
    LET y == Preorder(f, x)[i]
        ls == Lines(text[y])
    IN [k \in 1..Len(ls) |-> (IF k = 1 THEN MarkOf(f, x, y) ELSE Column(f, x, y)) \o ls[k]]])
=============================================================================
