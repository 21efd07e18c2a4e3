------------------------------ MODULE MCHandles ------------------------------
(***************************************************************************)
(* Exhaustive model of handles, tokens, locks and lifetimes over all        *)
(* forests of at most MaxN nodes and bounded numbers of handles.  Every     *)
(* transition is printed and replayed on the real library.                  *)
(***************************************************************************)
EXTENDS Dendron, Json

CONSTANTS MaxN, MaxOut,       \* nodes in explored states / in their successors
          MaxP, MaxH, MaxF,   \* handles of each kind per node
          MaxTh, MaxTok,      \* Tree handles per tree, tokens per kind and tree
          MaxDead, MaxHol,    \* dangling tokens per kind, hollow Tree handles
          MaxTotal,           \* handles and tokens in total
          Emit

VARIABLE s

Sum(h) == FoldFunction(LAMBDA x, acc : x + acc, 0, h)

(* A total order on the trees of a state that does not depend on labels     *)
(* (ties are between trees that look exactly alike).                         *)
RECURSIVE CodeOf(_, _, _)
CodeOf(u, seq, acc) ==
  IF seq = <<>> THEN acc
  ELSE LET x == Head(seq) IN
       CodeOf(u, Tail(seq), ((((acc * 4) + Len(AncestorsSeq(u.f, x)) + 1) * 3 + u.hp[x]) * 3 + u.hh[x]) * 3 + u.hf[x])
TreeCode(u, t) == ((CodeOf(u, Preorder(u.f, RootOfTree(u.f, t)), 0) * 3 + u.th[t]) * 3 + u.gt[t]) * 3 + u.pt[t]
TreeOrder(u) == LET code == [t \in TreesOf(u) |-> TreeCode(u, t)]
                IN SetToSortSeq(TreesOf(u), LAMBDA a, b : code[a] < code[b] \/ (code[a] = code[b] /\ a < b))
NodeOrder(u, ts) == FlattenSeq([i \in 1..Len(ts) |-> Preorder(u.f, RootOfTree(u.f, ts[i]))])
RelabelState(u, order, ts) ==
  [f |-> Relabel(u.f, order, ts),
   hp |-> [i \in 1..Len(order) |-> u.hp[order[i]]],
   hh |-> [i \in 1..Len(order) |-> u.hh[order[i]]],
   hf |-> [i \in 1..Len(order) |-> u.hf[order[i]]],
   th |-> [i \in 1..Len(ts) |-> u.th[ts[i]]],
   gt |-> [i \in 1..Len(ts) |-> u.gt[ts[i]]],
   pt |-> [i \in 1..Len(ts) |-> u.pt[ts[i]]],
   dg |-> u.dg, dp |-> u.dp, hol |-> u.hol]

Key(u) == ToString(<<u.f.par, u.hp, u.hh, u.hf, u.th, u.gt, u.pt, u.dg, u.dp, u.hol>>)

Bounded(u, n) ==
  /\ Cardinality(NodesOf(u)) <= n
  /\ \A x \in NodesOf(u) : u.hp[x] <= MaxP /\ u.hh[x] <= MaxH /\ u.hf[x] <= MaxF
  /\ \A t \in TreesOf(u) : u.th[t] <= MaxTh /\ u.gt[t] <= MaxTok /\ u.pt[t] <= MaxTok
  /\ u.dg <= MaxDead /\ u.dp <= MaxDead /\ u.hol <= MaxHol
  /\ Sum(u.hp) + Sum(u.hh) + Sum(u.hf) + Sum(u.th) + Sum(u.gt) + Sum(u.pt) + u.dg + u.dp + u.hol <= MaxTotal

Init == s = EmptyState

Step(op) ==
  LET a == Apply(s, op)
      u == a.s
  IN /\ Bounded(u, MaxOut)
     /\ LET ts == TreeOrder(u)
            order == NodeOrder(u, ts)
            v == RelabelState(u, order, ts)
        IN /\ IF Emit THEN PrintT(ToJson([k |-> "E", src |-> Key(s), op |-> op, r |-> a.r, born |-> a.born,
                                          dst |-> Key(v), order |-> order, torder |-> ts])) ELSE TRUE
           /\ s' = v

Next == \E op \in Ops(s) : Step(op)
Spec == Init /\ [][Next]_s

SmallEnough == Bounded(s, MaxN)
Inv == StateInv(s)
EmitInv == IF Emit THEN PrintT(ToJson([k |-> "S", key |-> Key(s), obs |-> StateObs(s)])) ELSE TRUE
=============================================================================
