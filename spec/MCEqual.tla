------------------------------- MODULE MCEqual -------------------------------
(***************************************************************************)
(* The stepwise comparison decides equality, for every pair of subtrees of   *)
(* labelled trees of at most MaxN nodes, and (up to MaxZ nodes) for every    *)
(* set of unreadable nodes.  Emits the code of every subtree of every        *)
(* labelled tree of at most MaxT nodes.                                      *)
(***************************************************************************)
EXTENDS Equality, Json

CONSTANTS MaxN, MaxZ, MaxT, Emit
VARIABLES a, b, i, out
vars == <<a, b, i, out>>

Labels == {0, 1, Odd}
Labelled(n) == UNION { { [par |-> p, lab |-> l] : l \in [1..n -> Labels] } : p \in ParVectors(n) }
Sides(n, zs) == UNION { { [par |-> t.par, lab |-> t.lab, x |-> x, z |-> z] : x \in 1..Len(t.par), z \in zs[Len(t.par)] }
                      : t \in UNION { Labelled(k) : k \in 1..n } }

Cmp(aa, bb, k) == Compare(ForestOf(aa.par), aa.lab, aa.x, aa.z, ForestOf(bb.par), bb.lab, bb.x, bb.z, k)
Init == /\ i = 1 /\ out = "more"
        /\ \/ a \in Sides(MaxN, [k \in 1..MaxN |-> {{}}]) /\ b \in Sides(MaxN, [k \in 1..MaxN |-> {{}}])
           \/ a \in Sides(MaxZ, [k \in 1..MaxZ |-> SUBSET (1..k)]) /\ b \in Sides(MaxZ, [k \in 1..MaxZ |-> SUBSET (1..k)])
Next == out = "more" /\ out' = Cmp(a, b, i) /\ i' = i + 1 /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Inv == LET f == ForestOf(a.par)
           g == ForestOf(b.par) IN
  /\ i <= 2 * Len(a.par) + 2
  /\ out # "more" => out \in Allowed(f, a.lab, a.x, a.z, g, b.lab, b.x, b.z)
  /\ i = 1 =>
       /\ Equal(f, a.lab, a.x, g, b.lab, b.x) <=> Equal(g, b.lab, b.x, f, a.lab, a.x)
       /\ Equal(f, a.lab, a.x, g, b.lab, b.x)
            <=> Code(f, a.lab, a.x) = Code(g, b.lab, b.x) /\ ~HasOdd(f, a.lab, a.x)
Terminates == <>(out # "more")

ASSUME \A n \in 1..MaxT : \A t \in Labelled(n) : LET f == ForestOf(t.par) IN
  IF Emit THEN PrintT(ToJson([k |-> "L", par |-> t.par, lab |-> t.lab,
                              code |-> [x \in 1..n |-> Code(f, t.lab, x)],
                              odd |-> [x \in 1..n |-> HasOdd(f, t.lab, x)]])) ELSE TRUE
=============================================================================
