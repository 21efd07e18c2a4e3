------------------------------ MODULE MCTraverse ------------------------------
(***************************************************************************)
(* Every traversal of every subtree of every tree of at most MaxN nodes, as  *)
(* a window (i, j) on its sequence under all interleavings of calls.         *)
(***************************************************************************)
EXTENDS Traversal, Json, IOUtils

CONSTANTS MaxN, Emit
(* Further trees: a file with one JSON array of parent vectors (sampled, larger trees). *)
Extra == IF "PARS" \in DOMAIN IOEnv THEN Range(JsonDeserialize(IOEnv.PARS)) ELSE {}
VARIABLES c, i, j

DepthArgs(f, x) == 0..(Height(f, x) + 1)
Cases ==
  UNION { UNION { { [par |-> p, kind |-> k, x |-> x, arg |-> 0] : k \in NoArg }
                  \cup { [par |-> p, kind |-> "shallow", x |-> x, arg |-> a]
                         : a \in {-1, Huge, Huge - 1} \cup DepthArgs(ForestOf(p), x) }
                  \cup { [par |-> p, kind |-> k, x |-> x, arg |-> a]
                         : k \in {"bfs_a", "bfs_n"}, a \in {Huge - 1, Huge, 40} \cup DepthArgs(ForestOf(p), x) }
                : x \in 1..Len(p) }
        : p \in UNION { ParVectors(n) : n \in 1..MaxN } \cup Extra }

Seq0(cc) == SequenceOf(ForestOf(cc.par), cc.kind, cc.x, cc.arg)
S == Seq0(c)

Init == \E cc \in Cases : c = cc /\ i = 1 /\ j = Len(Seq0(cc))

Key(ii, jj) == ToString(<<c.par, c.kind, c.x, c.arg, ii, jj>>)
Trans(op, r, ii, jj) ==
  /\ IF Emit THEN PrintT(ToJson([k |-> "E", src |-> Key(i, j), op |-> <<op>>, r |-> "ok", x |-> r,
                                 dst |-> Key(ii, jj)])) ELSE TRUE
  /\ i' = ii /\ j' = jj /\ UNCHANGED c

Nothing == <<"-", 0, 0>>
(* An exhausted traversal stays exhausted: there, the window is kept as is. *)
NextFront == IF i <= j THEN Trans("next", S[i], i + 1, j) ELSE Trans("next", Nothing, i, j)
NextBack == c.kind \in DoubleEnded /\
            (IF i <= j THEN Trans("next_back", S[j], i, j - 1) ELSE Trans("next_back", Nothing, i, j))
Close == c.kind \in Closable /\
         LET m == MatchClose(S, i, j) IN
         IF m = 0 THEN Trans("close", Nothing, j + 1, j) ELSE Trans("close", S[m], m + 1, j)
(* Skipping items. *)
Nth == \E n \in {1, 2} :
         IF i + n <= j THEN Trans("nth" \o ToString(n), S[i + n], i + n + 1, j)
         ELSE Trans("nth" \o ToString(n), Nothing, j + 1, j)
Next == NextFront \/ NextBack \/ Close \/ Nth
Spec == Init /\ [][Next]_<<c, i, j>>

Peek == IF i <= j THEN S[i] ELSE Nothing
PeekBack == IF i <= j THEN S[j] ELSE Nothing
Rest == IF i <= j THEN SubSeq(S, i, j) ELSE <<>>

(* Consistency of the definitions; evaluated once per subtree. *)
Inv == /\ (c.kind = "dft" /\ i = 1 /\ j = Len(S)) => LocalOK(ForestOf(c.par), c.x)
       /\ 1 <= i /\ i <= j + 1 /\ j <= Len(S)
EmitInv == IF Emit THEN PrintT(ToJson([k |-> "S", key |-> Key(i, j),
                     obs |-> [par |-> c.par, kind |-> c.kind, x |-> c.x, arg |-> c.arg,
                              first |-> (i = 1 /\ j = Len(S)), toend |-> (j = Len(S)),
                              peek |-> Peek, back |-> PeekBack, rest |-> Rest]]))
           ELSE TRUE
=============================================================================
