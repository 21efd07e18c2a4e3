------------------------------- MODULE MCScale -------------------------------
(***************************************************************************)
(* All forests of at most MaxN gadgets, at most MaxG of them not of a single *)
(* node, with every operation: Scale is right about sizes Ks.                *)
(***************************************************************************)
EXTENDS Scale, Json
CONSTANTS MaxN, MaxG, MaxOut, MaxK, Emit
VARIABLES s, last

T == INSTANCE Traversal

(* All canonically labelled forests of n nodes. *)
RECURSIVE Vectors(_)
Vectors(n) == IF n = 0 THEN {<<>>}
  ELSE UNION { { Append(p, q) : q \in {0} \cup (IF n = 1 THEN {} ELSE T!Chain(p, n - 1)) } : p \in Vectors(n - 1) }
RECURSIVE TreeNo(_, _)
TreeNo(p, x) == IF p[x] # 0 THEN TreeNo(p, p[x]) ELSE Cardinality({ y \in 1..x : p[y] = 0 })
ForestOfVector(p) ==
  [kids |-> [x \in 1..Len(p) |-> SelectSeq([i \in 1..Len(p) |-> i], LAMBDA k : p[k] = x)],
   par |-> p, tr |-> [x \in 1..Len(p) |-> TreeNo(p, x)]]

Gadgeted(g) == Cardinality({ x \in DOMAIN g : g[x] # "one" })
Allowed(f, g) == Gadgeted(g) <= (IF Cardinality(Nodes(f)) < MaxN THEN MaxG ELSE MaxG - 1)
States == UNION { UNION { { [f |-> ForestOfVector(p), g |-> g] : g \in { h \in [1..n -> Gadgets] : Allowed(ForestOfVector(p), h) } }
                          : p \in Vectors(n) } : n \in 1..MaxN }

Key(w) == ToString(<<w.f.par, [x \in Nodes(w.f) |-> w.g[x]]>>)
Init == s \in States /\ last = <<>>

Step(op) ==
  LET a == ApplyScale(s, op)
      order == CanonOrder(a.s.f)
      ts == SortedTrees(a.s.f)
      w == [f |-> Relabel(a.s.f, order, ts), g |-> [i \in 1..Len(order) |-> a.s.g[order[i]]]]
  IN /\ Cardinality(Nodes(w.f)) <= MaxOut
     /\ IF Emit THEN PrintT(ToJson([k |-> "E", src |-> Key(s), op |-> op, r |-> a.r, born |-> a.born,
                                    dst |-> Key(w), order |-> order, torder |-> ts,
                                    x |-> [op |-> Lift(s, op), leaves |-> a.leaves]])) ELSE TRUE
     /\ s' = w
     /\ last' = [op |-> op, before |-> s]
Next == \E op \in ScaleOps(s) : Step(op)
Spec == Init /\ [][Next]_<<s, last>>
View == s
SmallEnough == /\ Cardinality(Nodes(s.f)) <= MaxN
               /\ Allowed(s.f, s.g)

Inv ==
  \A K \in 2..MaxK :
    LET big == Blow(s, K) IN
    /\ WellFormed(big)
    /\ \A x \in Nodes(s.f) :
         LET d == T!Dft(big, CodeOf(Top(x), K)) IN
         /\ [i \in 1..Len(d) |-> <<d[i][1], d[i][2]>>] = Expand(Runs(s, x), K)
         \* breadth-first is depth-first sorted by depth
         /\ T!Bfs(big, CodeOf(Top(x), K), 0) =
              LET o == SelectSeq(T!Dfs(big, CodeOf(Top(x), K), 0, T!Huge), LAMBDA e : e[1] = "o")
              IN FlattenSeq([k \in 1..Len(o) |-> LET l == SelectSeq(o, LAMBDA e : e[3] = k - 1)
                                                 IN [i \in 1..Len(l) |-> <<"n", l[i][2], l[i][3]>>]])
StepOK == [][\A K \in 2..MaxK : Commutes(last'.before, last'.op, K)]_<<s, last>>
EmitInv == IF Emit THEN PrintT(ToJson([k |-> "S", key |-> Key(s),
             obs |-> [nodes |-> [x \in Nodes(s.f) |-> NodeObs(s.f, x)], g |-> s.g,
                      runs |-> [x \in Nodes(s.f) |-> Runs(s, x)]]]))
           ELSE TRUE
=============================================================================
