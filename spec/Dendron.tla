------------------------------- MODULE Dendron -------------------------------
(***************************************************************************)
(* The whole observable state of the library: the forest, every outstanding *)
(* handle and token, and the operations on them.  Properties C05 - C10.     *)
(*                                                                         *)
(* A state is a record                                                      *)
(*   f          the forest of living nodes (module Forest)                  *)
(*   hp, hh, hf number of plain, hot and frozen handles of each node        *)
(*   th         number of Tree handles of each tree                         *)
(*   gt, pt     number of edit grant / edit prohibition tokens per tree     *)
(*   dg, dp     number of tokens whose tree is gone                         *)
(*   hol        number of Tree handles whose tree has lost all of its nodes *)
(*              by being joined into another tree (see DESIGN.md: known     *)
(*              finding; such handles must be harmless when dropped, and    *)
(*              nothing else is specified about them)                       *)
(*                                                                         *)
(* Lock states are not variables: which locks a tree is under is DEFINED by *)
(* the holders that exist (Grants, Prohibitions below).  The implementation *)
(* keeps counters instead, which must stay in step through cloning,         *)
(* dropping, splitting and joining; conformance decides whether they do.    *)
(* Likewise liveness: a tree is alive iff somebody holds a handle into it.  *)
(*                                                                         *)
(* Apply(s, op) is the transition function: [s, r, born].                   *)
(***************************************************************************)
EXTENDS Forest

EmptyState == [f |-> EmptyForest, hp |-> <<>>, hh |-> <<>>, hf |-> <<>>,
               th |-> <<>>, gt |-> <<>>, pt |-> <<>>, dg |-> 0, dp |-> 0, hol |-> 0]

NodesOf(s) == Nodes(s.f)
TreesOf(s) == DOMAIN s.th
HotIn(s, t) == { x \in NodesOf(s) : s.f.tr[x] = t /\ s.hh[x] > 0 }
FrozenIn(s, t) == { x \in NodesOf(s) : s.f.tr[x] = t /\ s.hf[x] > 0 }
Grants(s, t) == s.gt[t] + Cardinality(HotIn(s, t))
Prohibitions(s, t) == s.pt[t] + Cardinality(FrozenIn(s, t))
HandlesInto(s, t) == s.th[t] + LET S == TreeNodes(s.f, t)
                     IN FoldSet(LAMBDA x, acc : acc + s.hp[x] + s.hh[x] + s.hf[x], 0, S)
Grantable(s, t) == Prohibitions(s, t) = 0
Prohibitable(s, t) == Grants(s, t) = 0

-----------------------------------------------------------------------------
(* Invariants: C06, C07, C10. *)

TypeInv(s) ==
  /\ DOMAIN s.hp = NodesOf(s) /\ DOMAIN s.hh = NodesOf(s) /\ DOMAIN s.hf = NodesOf(s)
  /\ DOMAIN s.th = Trees(s.f) /\ DOMAIN s.gt = Trees(s.f) /\ DOMAIN s.pt = Trees(s.f)
MutualExclusion(s) == \A t \in TreesOf(s) : ~(Grants(s, t) > 0 /\ Prohibitions(s, t) > 0)
AliveIffHeld(s) == \A t \in TreesOf(s) : HandlesInto(s, t) > 0
StateInv(s) == WellFormed(s.f) /\ TypeInv(s) /\ MutualExclusion(s) /\ AliveIffHeld(s)

-----------------------------------------------------------------------------
(* Lifetime: trees nobody refers to disappear; their tokens become dangling. *)

Reap(s) ==
  LET dead == { t \in TreesOf(s) : HandlesInto(s, t) = 0 }
      gone == { x \in NodesOf(s) : s.f.tr[x] \in dead }
      keepN == NodesOf(s) \ gone
      keepT == TreesOf(s) \ dead
      Tokens(g) == FoldSet(LAMBDA t, acc : acc + g[t], 0, dead)
  IN IF dead = {} THEN s
     ELSE [f |-> RemoveNodes(s.f, gone),
           hp |-> Restrict(s.hp, keepN), hh |-> Restrict(s.hh, keepN), hf |-> Restrict(s.hf, keepN),
           th |-> Restrict(s.th, keepT), gt |-> Restrict(s.gt, keepT), pt |-> Restrict(s.pt, keepT),
           dg |-> s.dg + Tokens(s.gt), dp |-> s.dp + Tokens(s.pt), hol |-> s.hol]

(* Replace the forest by a.f: new nodes and trees start without handles; a  *)
(* tree all of whose nodes have moved elsewhere is gone.                     *)
WithForest(s, g) ==
  LET N == Nodes(g)
      T == Trees(g)
      lost == TreesOf(s) \ T
      Get(h, x) == IF x \in DOMAIN h THEN h[x] ELSE 0
      Sum(h) == FoldSet(LAMBDA t, acc : acc + h[t], 0, lost)
  IN [f |-> g,
      hp |-> [x \in N |-> Get(s.hp, x)], hh |-> [x \in N |-> Get(s.hh, x)], hf |-> [x \in N |-> Get(s.hf, x)],
      th |-> [t \in T |-> Get(s.th, t)], gt |-> [t \in T |-> Get(s.gt, t)], pt |-> [t \in T |-> Get(s.pt, t)],
      dg |-> s.dg + Sum(s.gt), dp |-> s.dp + Sum(s.pt), hol |-> s.hol + Sum(s.th)]

Add(h, x, d) == [h EXCEPT ![x] = @ + d]
Sub(h, x, d) == [h EXCEPT ![x] = @ - d]
AddHandle(s, kind, x) ==
  CASE kind = "p" -> [s EXCEPT !.hp = Add(@, x, 1)]
    [] kind = "h" -> [s EXCEPT !.hh = Add(@, x, 1)]
    [] kind = "f" -> [s EXCEPT !.hf = Add(@, x, 1)]
SubHandle(s, kind, x) ==
  CASE kind = "p" -> [s EXCEPT !.hp = Sub(@, x, 1)]
    [] kind = "h" -> [s EXCEPT !.hh = Sub(@, x, 1)]
    [] kind = "f" -> [s EXCEPT !.hf = Sub(@, x, 1)]
Held(s, kind, x) ==
  CASE kind = "p" -> s.hp[x]
    [] kind = "h" -> s.hh[x]
    [] kind = "f" -> s.hf[x]
Kinds == {"p", "h", "f"}

Res(s, r, born) == [s |-> Reap(s), r |-> r, born |-> born]
Ok(s) == Res(s, "ok", <<>>)
Panic(s) == [s |-> s, r |-> "panic", born |-> <<>>]

(* A structural operation that leaves the caller a handle of the given kind *)
(* to the first new node (if any).                                           *)
Structural(s, op, kind) ==
  LET a == ApplyStruct(s.f, op, TreesOf(s))
  IN IF a.r # "ok" THEN [s |-> s, r |-> a.r, born |-> <<>>]
     ELSE LET s1 == WithForest(s, a.f)
              s2 == IF a.born = <<>> THEN s1 ELSE AddHandle(s1, kind, a.born[1])
          IN Res(s2, "ok", a.born)

(* Token of tree t; t = 0 stands for a token whose tree is gone. *)
HasGrant(s, t) == IF t = 0 THEN s.dg > 0 ELSE s.gt[t] > 0
HasProhibition(s, t) == IF t = 0 THEN s.dp > 0 ELSE s.pt[t] > 0
Related(s, x, rel) ==
  CASE rel = "parent" -> Parent(s.f, x)
    [] rel = "fchild" -> FirstChild(s.f, x)
    [] rel = "lchild" -> LastChild(s.f, x)
    [] rel = "next" -> NextSib(s.f, x)
    [] rel = "prev" -> PrevSib(s.f, x)
    [] rel = "root" -> RootOf(s.f, x)

-----------------------------------------------------------------------------
(* Edits are authorised either by a hot handle of the subject (<<"hot">>) or *)
(* by a plain handle and a grant token of tree t (<<"tok", t>>).             *)

Authorised(s, auth, x) == auth[1] = "hot" \/ auth[2] = s.f.tr[x]
Edit(s, auth, op) ==
  IF Authorised(s, auth, op[2])
  THEN Structural(s, op, IF auth[1] = "hot" THEN "h" ELSE "p")
  ELSE Panic(s)

Apply(s, op) ==
  CASE op[1] = "new" ->
         LET kind == op[2] IN Structural(s, <<"new">>, kind)
    [] op[1] = "edit" ->     \* <<"edit", auth, struct-op>>
         Edit(s, op[2], op[3])
    [] op[1] = "clone" ->    \* clone_subtree of x through a handle of some kind
         Structural(s, <<"clone", op[3]>>, "p")
    [] op[1] = "cloneins" -> \* <<"cloneins", kind, x, a, where>>
         Structural(s, <<"cloneins", op[3], op[4], op[5]>>, "h")
    [] op[1] = "dup" -> Ok(AddHandle(s, op[2], op[3]))
    [] op[1] = "drop" -> Ok(SubHandle(s, op[2], op[3]))
    [] op[1] = "nav" ->      \* <<"nav", kind, x, rel>>: keep the handle of the relative
         LET y == Related(s, op[3], op[4])
         IN IF y = 0 THEN [s |-> s, r |-> "none", born |-> <<>>] ELSE Ok(AddHandle(s, op[2], y))
    [] op[1] = "upgrade" -> Ok(AddHandle(s, "p", op[2]))
    [] op[1] = "plain" -> Ok(AddHandle(s, "p", op[3]))
    [] op[1] = "unbundle" -> Ok(AddHandle(SubHandle(s, op[2], op[3]), "p", op[3]))
    \* the plain handle is consumed even if the request is refused
    [] op[1] = "bundle_new_g" ->
         LET x == op[2] s1 == SubHandle(s, "p", x) IN
         IF Grantable(s, s.f.tr[x]) THEN Ok(AddHandle(s1, "h", x)) ELSE Res(s1, "err", <<>>)
    [] op[1] = "bundle_new_p" ->
         LET x == op[2] s1 == SubHandle(s, "p", x) IN
         IF Prohibitable(s, s.f.tr[x]) THEN Ok(AddHandle(s1, "f", x)) ELSE Res(s1, "err", <<>>)
    [] op[1] = "bundle_g" ->
         LET x == op[2] s1 == SubHandle(s, "p", x) IN
         IF op[3] = s.f.tr[x] THEN Ok(AddHandle(s1, "h", x)) ELSE Res(s1, "panic", <<>>)
    [] op[1] = "bundle_p" ->
         LET x == op[2] s1 == SubHandle(s, "p", x) IN
         IF op[3] = s.f.tr[x] THEN Ok(AddHandle(s1, "f", x)) ELSE Res(s1, "panic", <<>>)
    [] op[1] = "extract_g" -> Ok([s EXCEPT !.gt = Add(@, s.f.tr[op[2]], 1)])
    [] op[1] = "extract_p" -> Ok([s EXCEPT !.pt = Add(@, s.f.tr[op[2]], 1)])
    [] op[1] = "tree" -> Ok([s EXCEPT !.th = Add(@, s.f.tr[op[3]], 1)])
    [] op[1] = "tree_dup" -> Ok([s EXCEPT !.th = Add(@, op[2], 1)])
    [] op[1] = "tree_drop" -> Ok([s EXCEPT !.th = Sub(@, op[2], 1)])
    [] op[1] = "tree_root" -> Ok(AddHandle(s, "p", RootOfTree(s.f, op[2])))
    [] op[1] = "tree_grant" ->
         IF Grantable(s, op[2]) THEN Ok([s EXCEPT !.gt = Add(@, op[2], 1)]) ELSE [s |-> s, r |-> "err", born |-> <<>>]
    [] op[1] = "tree_prohibit" ->
         IF Prohibitable(s, op[2]) THEN Ok([s EXCEPT !.pt = Add(@, op[2], 1)]) ELSE [s |-> s, r |-> "err", born |-> <<>>]
    [] op[1] = "tok_dup" ->
        (CASE op[2] = "g" /\ op[3] = 0 -> Ok([s EXCEPT !.dg = @ + 1])
           [] op[2] = "p" /\ op[3] = 0 -> Ok([s EXCEPT !.dp = @ + 1])
           [] op[2] = "g" /\ op[3] # 0 -> Ok([s EXCEPT !.gt = Add(@, op[3], 1)])
           [] op[2] = "p" /\ op[3] # 0 -> Ok([s EXCEPT !.pt = Add(@, op[3], 1)]))
    [] op[1] = "tok_drop" ->
        (CASE op[2] = "g" /\ op[3] = 0 -> Ok([s EXCEPT !.dg = @ - 1])
           [] op[2] = "p" /\ op[3] = 0 -> Ok([s EXCEPT !.dp = @ - 1])
           [] op[2] = "g" /\ op[3] # 0 -> Ok([s EXCEPT !.gt = Sub(@, op[3], 1)])
           [] op[2] = "p" /\ op[3] # 0 ->  Ok([s EXCEPT !.pt = Sub(@, op[3], 1)]))
    [] op[1] = "hollow_drop" -> Ok([s EXCEPT !.hol = @ - 1])

-----------------------------------------------------------------------------
(* The operations the holder of all handles can call in state s. *)

GrantTrees(s) == { t \in TreesOf(s) : s.gt[t] > 0 } \cup (IF s.dg > 0 THEN {0} ELSE {})
ProhibitionTrees(s) == { t \in TreesOf(s) : s.pt[t] > 0 } \cup (IF s.dp > 0 THEN {0} ELSE {})
Auths(s, x) == (IF s.hh[x] > 0 THEN {<<"hot">>} ELSE {})
               \cup (IF s.hp[x] > 0 THEN { <<"tok", t>> : t \in GrantTrees(s) } ELSE {})
HotNodes(s) == { x \in NodesOf(s) : s.hh[x] > 0 }
KindsHeld(s, x) == { k \in Kinds : Held(s, k, x) > 0 }

EditOps(s) ==
  UNION { { <<"edit", au, <<o, x>> >> : au \in Auths(s, x), o \in {"detach", "iparent", "ichild", "replace"} }
          \cup { <<"edit", au, <<"create", x, w>> >> : au \in Auths(s, x), w \in Places }
          \cup { <<"edit", au, <<"move", x, a, w>> >> : au \in Auths(s, x), a \in HotNodes(s), w \in Places }
        : x \in NodesOf(s) }
CloneOps(s) ==
  UNION { { <<"clone", k, x>> : k \in KindsHeld(s, x) }
          \cup { <<"cloneins", k, x, a, w>> : k \in KindsHeld(s, x), a \in HotNodes(s), w \in Places }
        : x \in NodesOf(s) }
HandleOps(s) ==
  UNION { { <<o, k, x>> : o \in {"dup", "drop", "tree"}, k \in KindsHeld(s, x) }
          \cup { <<"nav", k, x, rel>> : k \in KindsHeld(s, x), rel \in {"parent", "fchild", "next"} }
          \cup (IF s.hp[x] > 0 THEN { <<o, x>> : o \in {"bundle_new_g", "bundle_new_p"} }
                                    \cup { <<"bundle_g", x, t>> : t \in GrantTrees(s) }
                                    \cup { <<"bundle_p", x, t>> : t \in ProhibitionTrees(s) }
                ELSE {})
          \cup { <<o, k, x>> : o \in {"plain", "unbundle"}, k \in KindsHeld(s, x) \ {"p"} }
          \cup (IF s.hh[x] > 0 THEN { <<"extract_g", x>> } ELSE {})
          \cup (IF s.hf[x] > 0 THEN { <<"extract_p", x>> } ELSE {})
          \cup { <<"upgrade", x>> }
        : x \in NodesOf(s) }
TreeOps(s) ==
  { <<o, t>> : o \in {"tree_dup", "tree_drop", "tree_root", "tree_grant", "tree_prohibit"},
               t \in { t \in TreesOf(s) : s.th[t] > 0 } }
  \cup { <<o, "g", t>> : o \in {"tok_dup", "tok_drop"}, t \in GrantTrees(s) }
  \cup { <<o, "p", t>> : o \in {"tok_dup", "tok_drop"}, t \in ProhibitionTrees(s) }
  \cup (IF s.hol > 0 THEN { <<"hollow_drop">> } ELSE {})
NewOps(s) == { <<"new", k>> : k \in {"p", "h"} }
Ops(s) == NewOps(s) \cup EditOps(s) \cup CloneOps(s) \cup HandleOps(s) \cup TreeOps(s)

-----------------------------------------------------------------------------
(* What can be observed of a state besides navigation: for each tree whether *)
(* a grant and a prohibition could be acquired now, and who belongs to whom. *)

StateObs(s) ==
  [ nodes |-> [x \in NodesOf(s) |-> NodeObs(s.f, x)],
    grantable |-> [t \in TreesOf(s) |-> Grantable(s, t)],
    prohibitable |-> [t \in TreesOf(s) |-> Prohibitable(s, t)] ]
=============================================================================
