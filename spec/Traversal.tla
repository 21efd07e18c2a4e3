------------------------------ MODULE Traversal ------------------------------
(***************************************************************************)
(* Traversals as sequences (what must be delivered) and as windows on these *)
(* sequences (what is left after any interleaving of calls from both ends). *)
(* Properties C11 - C14.                                                    *)
(*                                                                         *)
(* Items are <<kind, node, depth>>: kind "o" (opening), "c" (closing) or    *)
(* "n" (plain item); depth is relative to the start node where the          *)
(* traversal reports it, otherwise 0.                                       *)
(***************************************************************************)
EXTENDS Forest, Integers

-----------------------------------------------------------------------------
(* All ordered trees of n nodes as forests labelled in preorder. *)

RECURSIVE Chain(_, _)
Chain(par, x) == IF x = 0 THEN {} ELSE {x} \cup Chain(par, par[x])
RECURSIVE ParVectors(_)
ParVectors(n) == IF n = 1 THEN {<<0>>}
  ELSE UNION { { Append(p, q) : q \in Chain(p, n - 1) } : p \in ParVectors(n - 1) }
ForestOf(par) ==
  LET n == Len(par) IN
  [kids |-> [x \in 1..n |-> SelectSeq([i \in 1..n |-> i], LAMBDA k : par[k] = x)],
   par |-> par,
   tr |-> [x \in 1..n |-> 1]]

-----------------------------------------------------------------------------
(* The sequences, by structural recursion. *)

(* Depth-first, nodes deeper than max omitted. *)
RECURSIVE Dfs(_, _, _, _)
Dfs(f, x, d, max) ==
  <<<<"o", x, d>>>>
  \o (IF d = max THEN <<>> ELSE FlattenSeq([i \in 1..Len(f.kids[x]) |-> Dfs(f, f.kids[x][i], d + 1, max)]))
  \o <<<<"c", x, d>>>>
Huge == 1000000 \* stands for usize::MAX
NoDepth(s) == [i \in 1..Len(s) |-> <<s[i][1], s[i][2], 0>>]
Dft(f, x) == NoDepth(Dfs(f, x, 0, Huge))

Level(f, x, d) ==  \* nodes at depth d below x, in document order
  LET a == Len(AncestorsSeq(f, x))
  IN SelectSeq(Preorder(f, x), LAMBDA y : Len(AncestorsSeq(f, y)) = a + d)
Height(f, x) == Max({ Len(AncestorsSeq(f, y)) : y \in Subtree(f, x) }) - Len(AncestorsSeq(f, x))
Bfs(f, x, start) ==
  IF start > Height(f, x) THEN <<>>
  ELSE FlattenSeq([k \in 1..(Height(f, x) - start + 1) |->
         LET l == Level(f, x, start + k - 1) IN [i \in 1..Len(l) |-> <<"n", l[i], start + k - 1>>]])

Plain(s) == [i \in 1..Len(s) |-> <<"n", s[i], 0>>]

SequenceOf(f, kind, x, arg) ==
  CASE kind = "dft" -> Dft(f, x)
    [] kind = "rdft" -> Reverse(Dft(f, x))
    [] kind = "sdft" -> Dft(f, x)
    [] kind = "shallow" -> Dfs(f, x, 0, IF arg < 0 THEN Huge ELSE arg)
    [] kind \in {"children", "s_children"} -> Plain(f.kids[x])
    [] kind = "children_rev" -> Plain(Reverse(f.kids[x]))
    [] kind \in {"siblings", "s_siblings"} -> Plain(SiblingsSeq(f, x))
    [] kind = "siblings_rev" -> Plain(Reverse(SiblingsSeq(f, x)))
    [] kind = "s_prec" -> Plain(Preceding(f, x))
    [] kind = "s_precself" -> Plain(Append(Preceding(f, x), x))
    [] kind = "prec_rev" -> Plain(Reverse(Preceding(f, x)))
    [] kind = "precself_rev" -> Plain(Reverse(Append(Preceding(f, x), x)))
    [] kind \in {"foll", "s_foll"} -> Plain(Following(f, x))
    [] kind \in {"follself", "s_follself"} -> Plain(<<x>> \o Following(f, x))
    [] kind = "anc" -> Plain(AncestorsSeq(f, x))
    [] kind = "ancself" -> Plain(<<x>> \o AncestorsSeq(f, x))
    [] kind \in {"bfs_a", "bfs_n"} -> Bfs(f, x, arg)

DoubleEnded == {"sdft", "shallow", "s_children", "s_siblings", "s_prec", "s_precself", "s_foll", "s_follself"}
Closable == {"dft", "sdft", "shallow"}
NoArg == {"dft", "rdft", "sdft", "children", "s_children", "children_rev", "siblings", "s_siblings", "siblings_rev",
          "s_prec", "s_precself", "prec_rev", "precself_rev", "foll", "s_foll", "follself", "s_follself", "anc", "ancself"}

-----------------------------------------------------------------------------
(* The same by local steps: what an iterator that only sees the neighbours  *)
(* of its current item does.  Checked to agree with the recursion (LocalOK).*)

Succ(f, e) ==  \* next event of the whole tree's depth-first traversal, or <<>>
  LET x == e[2] IN
  IF e[1] = "o"
  THEN IF f.kids[x] # <<>> THEN <<"o", Head(f.kids[x]), 0>> ELSE <<"c", x, 0>>
  ELSE IF NextSib(f, x) # 0 THEN <<"o", NextSib(f, x), 0>>
       ELSE IF f.par[x] # 0 THEN <<"c", f.par[x], 0>> ELSE <<>>
Pred(f, e) ==
  LET x == e[2] IN
  IF e[1] = "c"
  THEN IF f.kids[x] # <<>> THEN <<"c", Last(f.kids[x]), 0>> ELSE <<"o", x, 0>>
  ELSE IF PrevSib(f, x) # 0 THEN <<"c", PrevSib(f, x), 0>>
       ELSE IF f.par[x] # 0 THEN <<"o", f.par[x], 0>> ELSE <<>>

RECURSIVE BfsByQueue(_, _, _)
BfsByQueue(f, level, d) ==
  IF level = <<>> THEN <<>>
  ELSE [i \in 1..Len(level) |-> <<"n", level[i], d>>]
       \o BfsByQueue(f, FlattenSeq([i \in 1..Len(level) |-> f.kids[level[i]]]), d + 1)

(* The closing that matches what is open before position i: the first       *)
(* closing from i on whose opening is not from i on.  0 if there is none up  *)
(* to j.                                                                     *)
MatchClose(seq, i, j) ==
  LET Opens(k) == Cardinality({ m \in i..k : seq[m][1] = "o" })
      Closes(k) == Cardinality({ m \in i..k : seq[m][1] = "c" })
      C == { k \in i..j : Closes(k) > Opens(k) }
  IN IF C = {} THEN 0 ELSE Min(C)

LocalOK(f, x) ==
  LET s == Dft(f, x) IN
  /\ \A i \in 1..(Len(s) - 1) : Succ(f, s[i]) = s[i + 1] /\ Pred(f, s[i + 1]) = s[i]
  /\ Len(s) = 2 * Cardinality(Subtree(f, x))
  \* each node opens once and closes once, after it
  /\ \A y \in Subtree(f, x) : \E i, j \in 1..Len(s) :
        /\ i < j /\ s[i] = <<"o", y, 0>> /\ s[j] = <<"c", y, 0>>
        /\ \A k \in 1..Len(s) : s[k][2] = y => k \in {i, j}
        /\ { s[k][2] : k \in i..j } = Subtree(f, y)
        /\ (i = 1 \/ j = Len(s) \/ MatchClose(s, i + 1, Len(s)) = j)
  /\ Bfs(f, x, 0) = BfsByQueue(f, <<x>>, 0)
  /\ \A d \in 0..(Height(f, x) + 1) :
       /\ Bfs(f, x, d) = SelectSeq(Bfs(f, x, 0), LAMBDA e : e[3] >= d)
       /\ Dfs(f, x, 0, d) = SelectSeq(Dfs(f, x, 0, Huge), LAMBDA e : e[3] <= d)
       \* openings at depth d, in order, are the level
       /\ [i \in 1..Len(Level(f, x, d)) |-> Level(f, x, d)[i]] =
            LET o == SelectSeq(Dfs(f, x, 0, Huge), LAMBDA e : e[3] = d /\ e[1] = "o")
            IN [i \in 1..Len(o) |-> o[i][2]]
=============================================================================
