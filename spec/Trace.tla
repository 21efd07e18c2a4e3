-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Decides whether histories recorded from the real library are behaviours  *)
(* of the specification: handles, tokens, locks, lifetimes, hierarchy        *)
(* (Dendron), data and borrows (Data), traversals that survive edits         *)
(* (Cursors), builders (Builder), and answers to queries (Traversal,         *)
(* Equality, Pretty).  There is no bound on sizes: the histories determine   *)
(* everything, and TLC only computes what the specification says of them.    *)
(*                                                                         *)
(* A history is a sequence of steps                                         *)
(*   op    the operation          v    data given to nodes it created       *)
(*   r     its outcome            pan  whether refusals show as panics      *)
(*   ret   what the returned handle denotes                                 *)
(*   born  the new nodes          x    the item a traversal delivered       *)
(*   bad   what no specification allows (e.g. data dropped twice)           *)
(*   al    <<node, tree>> of all living nodes                               *)
(*   o     an observation of everything, or nothing                         *)
(*   q     queries and their answers                                        *)
(*                                                                         *)
(* A state w is [s, v, b, c]: a state of Dendron, the data and the borrows   *)
(* of each node, and the traversals the user keeps.                          *)
(***************************************************************************)
EXTENDS Dendron, Integers, Json, IOUtils

T == INSTANCE Traversal
C == INSTANCE Cursors
B == INSTANCE Builder
E == INSTANCE Equality
P == INSTANCE Pretty

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, i, w

Start == [s |-> EmptyState, v |-> <<>>, b |-> <<>>, c |-> <<>>]
Fun(dom, F(_)) == [x \in dom |-> F(x)]
Bit(p) == IF p THEN 1 ELSE 0

-----------------------------------------------------------------------------
(* Steps. *)

Put(s2, born, vals) ==
  [w EXCEPT !.s = s2,
     !.v = [x \in NodesOf(s2) |-> IF x \in Range(born) THEN vals[IndexIn(born, x)] ELSE w.v[x]],
     !.b = [x \in NodesOf(s2) |-> IF x \in Range(born) THEN 0 ELSE w.b[x]]]
Result(w2, r, born, ret, x) == [w |-> w2, r |-> r, born |-> born, ret |-> ret, x |-> x]
Same(r) == Result(w, r, <<>>, 0, <<>>)
Change(s2) == Result(Put(s2, <<>>, <<>>), "ok", <<>>, 0, <<>>)

Blocked(x) == \E y \in Subtree(w.s.f, x) : w.b[y] = -1
ValuesBelow(x) == LET p == Preorder(w.s.f, x) IN [k \in 1..Len(p) |-> w.v[p[k]]]

(* What the returned handle denotes. *)
Returned(op, r) ==
  IF r # "ok" THEN 0
  ELSE CASE op[1] = "nav" -> Related(w.s, op[3], op[4])
         [] op[1] \in {"upgrade", "bundle_new_g", "bundle_new_p", "bundle_g", "bundle_p", "tree_dup"} -> op[2]
         [] op[1] \in {"plain", "unbundle", "dup"} -> op[3]
         [] op[1] = "tree_root" -> RootOfTree(w.s.f, op[2])
         [] op[1] = "tree" -> w.s.f.tr[op[3]]
         [] OTHER -> 0

Plain(e) ==
  LET op == e.op
      a == Apply(w.s, op)
  IN IF op[1] \in {"clone", "cloneins"}
     THEN IF Blocked(op[3]) THEN Same(IF a.r = "ok" THEN "borrow" ELSE "refused")
          ELSE Result(Put(a.s, a.born, ValuesBelow(op[3])), a.r, a.born, 0, <<>>)
     ELSE Result(Put(a.s, a.born, e.v), a.r, a.born, Returned(op, a.r), <<>>)

(* Many at once. *)
Many(op) ==
  LET s == w.s IN
  CASE op[1] = "dups" ->
        (CASE op[2] = "p" -> Change([s EXCEPT !.hp[op[3]] = @ + op[4]])
           [] op[2] = "h" -> Change([s EXCEPT !.hh[op[3]] = @ + op[4]])
           [] op[2] = "f" -> Change([s EXCEPT !.hf[op[3]] = @ + op[4]])
           [] op[2] = "t" -> Change([s EXCEPT !.th[op[3]] = @ + op[4]])
           [] op[2] = "tg" -> Change([s EXCEPT !.gt[op[3]] = @ + op[4]])
           [] op[2] = "tp" -> Change([s EXCEPT !.pt[op[3]] = @ + op[4]]))
    [] op[1] = "drops" ->
        (CASE op[2] = "p" -> Change(Reap([s EXCEPT !.hp[op[3]] = @ - op[4]]))
           [] op[2] = "h" -> Change(Reap([s EXCEPT !.hh[op[3]] = @ - op[4]]))
           [] op[2] = "f" -> Change(Reap([s EXCEPT !.hf[op[3]] = @ - op[4]]))
           [] op[2] = "t" -> Change(Reap([s EXCEPT !.th[op[3]] = @ - op[4]]))
           [] op[2] = "tg" -> Change(Reap([s EXCEPT !.gt[op[3]] = @ - op[4]]))
           [] op[2] = "tp" -> Change(Reap([s EXCEPT !.pt[op[3]] = @ - op[4]]))
           \* of trees that have lost all of their nodes
           [] op[2] = "hollow" -> Change([s EXCEPT !.hol = @ - op[4]]))

(* Borrowing data: a borrow holds a plain handle of its node. *)
Data(op) ==
  LET x == op[2]
      s == w.s
      more == [s EXCEPT !.hp[x] = @ + 1]
      less == Reap([s EXCEPT !.hp[x] = @ - 1])
      Set(s2, n) == [Put(s2, <<>>, <<>>) EXCEPT !.b = [y \in NodesOf(s2) |-> IF y = x THEN n ELSE w.b[y]]]
  IN CASE op[1] = "read" -> IF w.b[x] = -1 THEN Same("busy") ELSE Result(Set(more, w.b[x] + 1), "ok", <<>>, 0, <<>>)
       [] op[1] = "write" -> IF w.b[x] # 0 THEN Same("busy")
                             ELSE Result([Set(more, -1) EXCEPT !.v[x] = op[3]], "ok", <<>>, 0, <<>>)
       [] op[1] = "unread" -> Result(Set(less, w.b[x] - 1), "ok", <<>>, 0, <<>>)
       [] op[1] = "unwrite" -> Result(Set(less, 0), "ok", <<>>, 0, <<>>)

(* Traversals kept by the user: they hold their start and the item announced. *)
Bag(s, S, d) == [s EXCEPT !.hp = [y \in DOMAIN s.hp |-> IF y \in S THEN s.hp[y] + d ELSE s.hp[y]]]
NewCursor(id, c) ==
  Result([Put(Bag(w.s, C!HeldByCursor(c), 1), <<>>, <<>>) EXCEPT !.c = (id :> c) @@ w.c], "ok", <<>>, 0, <<>>)
EndCursor(id) ==
  Result([Put(Reap(Bag(w.s, C!HeldByCursor(w.c[id]), -1)), <<>>, <<>>) EXCEPT !.c = Restrict(w.c, DOMAIN w.c \ {id})],
         "ok", <<>>, 0, <<>>)
StepCursor(id, a, keep) ==
  LET s1 == Bag(w.s, C!HeldByCursor(a.c), 1)
      s2 == IF keep /\ a.x # <<>> THEN AddHandle(s1, "p", a.x[2]) ELSE s1
      s3 == Reap(Bag(s2, C!HeldByCursor(w.c[id]), -1))
  IN Result([Put(s3, <<>>, <<>>) EXCEPT !.c[id] = a.c], "ok", <<>>, 0, a.x)
Cursor(op) ==
  CASE op[1] = "cur" -> NewCursor(op[2], op[3])
    [] op[1] = "cur_end" -> EndCursor(op[2])
    [] op[1] = "cur_next" -> StepCursor(op[2], C!Advance(w.s.f, w.c[op[2]]), op[3])
    [] op[1] = "cur_close" -> StepCursor(op[2], C!CloseFrom(w.s.f, w.c[op[2]], 0), op[3])

(* Building below an existing node, up to the first event that is refused. *)
RECURSIVE Feed(_, _, _)
Feed(b, evs, born) ==
  IF evs = <<>> THEN [b |-> b, r |-> "ok", born |-> born]
  ELSE LET a == B!Apply(b, Head(evs)) IN
       IF a.r # "ok" THEN [b |-> b, r |-> a.r, born |-> born] ELSE Feed(a.b, Tail(evs), born \o a.born)
Build(e) ==
  LET op == e.op IN
  IF ~Authorised(w.s, op[2], op[3]) THEN Same("panic")
  ELSE LET a == Feed(B!WithRoot(w.s.f, op[3]), op[4], <<>>)
       IN Result(Put(WithForest(w.s, a.b.f), a.born, e.v), a.r, a.born, 0, <<>>)
BuildNew(e) ==
  LET op == e.op
      a == Feed([f |-> w.s.f, root |-> 0, cur |-> 0], op[2], <<>>)
      r == IF a.r = "ok" /\ a.b.root = 0 THEN "notopened" ELSE a.r
  IN IF r # "ok" THEN Same(r)
     ELSE Result(Put(AddHandle(WithForest(w.s, a.b.f), "p", a.b.root), a.born, e.v), "ok", a.born, 0, <<>>)

Perform(e) ==
  LET o == e.op[1] IN
  CASE o \in {"dups", "drops"} -> Many(e.op)
    [] o \in {"read", "write", "unread", "unwrite"} -> Data(e.op)
    [] o \in {"cur", "cur_end", "cur_next", "cur_close"} -> Cursor(e.op)
    [] o = "build" -> Build(e)
    [] o = "buildnew" -> BuildNew(e)
    \* the k-th copy of data made on the way fails
    [] o = "fault" -> Same("panic")
    [] OTHER -> Plain(e)

(* Does the outcome match?  A refusal shows as an error in the fallible     *)
(* variants ("pre": as a panic naming the precondition, in the others).      *)
Matches(want, got, pan) ==
  CASE want = "panic" -> got \in {"pre", "panic"}
    [] want = "borrow" -> got \in {"borrow", "pre"}
    [] want = "refused" -> got \in {"borrow", "nosib", "pre"}
    [] want \in {"ok", "none", "err", "busy", "notopened", "closed"} -> got = want
    [] OTHER -> got = (IF pan THEN "pre" ELSE want)

-----------------------------------------------------------------------------
(* Observations, of the state u after the step.  A problem is a record       *)
(* [cat, what, want, got]; <<>> is none.                                     *)

(* Evaluates x once (TLC evaluates definitions inside actions again at each use). *)
With(x, F(_)) == CHOOSE r \in { F(y) : y \in {x} } : TRUE
Problem(cat, what, want, got) == <<[cat |-> cat, what |-> what, want |-> ToString(want), got |-> ToString(got)]>>
Check(cat, what, want, got) == IF want = got THEN <<>> ELSE Problem(cat, what, want, got)
First(F(_), S) ==  \* the first problem along a sequence
  With({ k \in 1..Len(S) : F(S[k]) # <<>> }, LAMBDA bad : IF bad = {} THEN <<>> ELSE F(S[Min(bad)]))

Alive(u) == { <<x, u.s.f.tr[x]>> : x \in NodesOf(u.s) }
NodeWant(u, x) ==
  LET f == u.s.f
      k == f.kids[x]
      sib == SiblingsSeq(f, x)
      n == IndexIn(sib, x)
      anc == AncestorsSeq(f, x)
  IN <<x, IF u.b[x] = -1 THEN -1 ELSE u.v[x], Bit(u.b[x] = 0), f.tr[x],
       IF anc = <<>> THEN x ELSE Last(anc), f.par[x],
       IF n = 1 THEN 0 ELSE sib[n - 1], IF n = Len(sib) THEN 0 ELSE sib[n + 1], Head(sib), Last(sib),
       FirstChild(f, x), LastChild(f, x),
       Len(k), n - 1, Len(sib) - n, Len(anc),
       Bit(f.par[x] = 0), Bit(n > 1), Bit(n < Len(sib)), Bit(k # <<>>), Bit(Len(k) = 1), Bit(Len(k) > 1)>> \o k
Fields == <<"node", "data", "writable", "tree", "root", "parent", "prev_sibling", "next_sibling", "first_sibling",
            "last_sibling", "first_child", "last_child", "num_children", "count_preceding_siblings",
            "count_following_siblings", "count_ancestors", "is_root", "has_prev_sibling", "has_next_sibling",
            "has_children", "has_one_child", "has_multiple_children">>
CategoryOf(k) == IF k \in {2, 3} THEN "data" ELSE IF k = 4 THEN "member" ELSE "nav"
CheckNode(u, e) ==  \* e = <<view, answers>>
  LET got == e[2]
      want == NodeWant(u, got[1])
      n == Len(Fields)
      bad == { k \in 1..n : want[k] # got[k] }
  IN IF want = got THEN <<>>
     ELSE IF bad = {} THEN Problem("nav", e[1] \o " view of " \o ToString(got[1]) \o ": children", SubSeq(want, n + 1, Len(want)), SubSeq(got, n + 1, Len(got)))
     ELSE LET k == Min(bad)
              others == { l \in bad : CategoryOf(l) # CategoryOf(k) }
              About(l) == Problem(CategoryOf(l), e[1] \o " view of " \o ToString(got[1]) \o ": " \o Fields[l], want[l], got[l])
          IN About(k) \o IF others = {} THEN <<>> ELSE About(Min(others))
CheckTree(u, e) ==  \* e = <<tree, root, grantable, prohibitable>>
  IF e[2] # RootOfTree(u.s.f, e[1]) THEN Problem("member", "root of tree " \o ToString(e[1]), RootOfTree(u.s.f, e[1]), e[2])
  ELSE Check("lock", "(grantable, prohibitable) of tree " \o ToString(e[1]),
             <<Bit(Grantable(u.s, e[1])), Bit(Prohibitable(u.s, e[1]))>>, <<e[3], e[4]>>)
CheckToken(u, e) == \* e = <<kind, tree, nodes for which it is valid>>
  Check("token", e[1] \o " token of tree " \o ToString(e[2]) \o " valid for",
        { x \in NodesOf(u.s) : u.s.f.tr[x] = e[2] }, Range(e[3]))
CheckCursor(u, e) == \* e = <<id, announced, least, most or -1, rest>>
  LET c == u.c[e[1]]
      rest == C!Remaining(u.s.f, c)
      what == c.kind \o " traversal " \o ToString(e[1]) \o ": "
  IN IF c.pend # e[2] THEN Problem("cursor", what \o "announced", c.pend, e[2])
     ELSE IF rest # e[5] THEN Problem("cursor", what \o "rest", rest, e[5])
     ELSE IF e[3] > Len(rest) \/ (e[4] # -1 /\ e[4] < Len(rest))
          THEN Problem("cursor", what \o "size_hint", Len(rest), <<e[3], e[4]>>) ELSE <<>>

CheckAll(u, o) ==
  With(First(LAMBDA e : CheckNode(u, e), o.n), LAMBDA a : IF a # <<>> THEN a ELSE
  With(First(LAMBDA e : CheckTree(u, e), o.t), LAMBDA b : IF b # <<>> THEN b ELSE
  With(First(LAMBDA e : CheckToken(u, e), o.k), LAMBDA c : IF c # <<>> THEN c ELSE
  First(LAMBDA e : CheckCursor(u, e), o.c))))
Each(What(_), list) == FlattenSeq([k \in DOMAIN list |-> What(list[k])])
AllOf(u, o) ==
  Each(LAMBDA e : CheckNode(u, e), o.n) \o Each(LAMBDA e : CheckTree(u, e), o.t)
    \o Each(LAMBDA e : CheckToken(u, e), o.k) \o Each(LAMBDA e : CheckCursor(u, e), o.c)

-----------------------------------------------------------------------------
(* Queries. *)

Nothing == <<"-", 0, 0>>
RECURSIVE Calls(_, _, _, _, _, _)
(* Calls of one traversal: seq is what it delivers, l..h is what is left. *)
Calls(arg, seq, l, h, calls, n) ==
  IF n > Len(calls) THEN <<>>
  ELSE
  LET c == calls[n]
      Go(want, got, l2, h2) ==
        IF want # got THEN Problem("trav", "call " \o ToString(n) \o ", " \o c[1], want, got)
        ELSE With(<<l2, h2>>, LAMBDA lh : Calls(arg, seq, lh[1], lh[2], calls, n + 1))
      item == IF Len(c) = 4 THEN <<c[2], c[3], c[4]>> ELSE <<>>
      Skip(k) == IF l + k <= h THEN Go(seq[l + k], item, l + k + 1, h) ELSE Go(Nothing, item, h + 1, h)
  IN CASE c[1] = "next" -> IF l <= h THEN Go(seq[l], item, l + 1, h) ELSE Go(Nothing, item, l, h)
       [] c[1] = "next_back" -> IF l <= h THEN Go(seq[h], item, l, h - 1) ELSE Go(Nothing, item, l, h)
       [] c[1] = "peek" -> Go(IF l <= h THEN seq[l] ELSE Nothing, item, l, h)
       [] c[1] = "peek_back" -> Go(IF l <= h THEN seq[h] ELSE Nothing, item, l, h)
       [] c[1] = "nth1" -> Skip(1)
       [] c[1] = "nth2" -> Skip(2)
       [] c[1] = "close" -> With(T!MatchClose(seq, l, h), LAMBDA m :
                            IF m = 0 THEN Go(Nothing, item, h + 1, h) ELSE Go(seq[m], item, m + 1, h))
       [] c[1] = "rest" -> Go(IF l <= h THEN SubSeq(seq, l, h) ELSE <<>>, c[2], l, h)
       [] c[1] = "hint" -> \* <<"hint", least, most or -1>>
            LET left == h - l + 1 IN
            IF c[2] > left \/ (c[3] # -1 /\ c[3] < left)
            THEN Problem("trav", "call " \o ToString(n) \o ", size_hint", left, <<c[2], c[3]>>)
            ELSE Calls(arg, seq, l, h, calls, n + 1)
       [] c[1] = "limit" -> Go(IF arg < 0 THEN T!Huge ELSE arg, c[2], l, h)

RECURSIVE UpToBlocked(_, _)
(* The serialization, up to the first data that cannot be read. *)
UpToBlocked(u, evs) ==
  IF evs = <<>> THEN <<>>
  ELSE LET e == Head(evs) IN
       IF e[1] = "open" /\ u.b[e[2]] = -1 THEN <<<<"err", 0>>>>
       ELSE <<IF e[1] = "open" THEN <<"open", u.v[e[2]]>> ELSE e>> \o UpToBlocked(u, Tail(evs))
Texts(u) == [x \in NodesOf(u.s) |-> <<ToString(u.v[x])>>]

Query(u, q) ==
  LET f == u.s.f
      x == q[2]
  IN CASE q[1] = "trav" -> \* <<"trav", x, kind, arg, calls>>
            With(T!SequenceOf(f, q[3], x, q[4]), LAMBDA seq :
            With(Calls(q[4], seq, 1, Len(seq), q[5], 1), LAMBDA p :
              IF p = <<>> THEN <<>> ELSE <<[p[1] EXCEPT !.what = q[3] \o " from " \o ToString(x) \o ": " \o @]>>))
       [] q[1] = "eq" -> \* <<"eq", x, y, answer>>
            LET z == { y \in NodesOf(u.s) : u.b[y] = -1 }
                may == E!Allowed(f, u.v, x, z, f, u.v, q[3], z) \cup (IF x = q[3] THEN {"true"} ELSE {})
            IN IF q[4] \in may THEN <<>> ELSE Problem("eq", "comparing " \o ToString(x) \o " and " \o ToString(q[3]), may, q[4])
       [] q[1] = "same" -> \* <<"same", x, y, same tree, same node>>
            Check("member", "belongs_to_same_tree and ptr_eq of " \o ToString(x) \o " and " \o ToString(q[3]),
                  <<Bit(f.tr[x] = f.tr[q[3]]), Bit(x = q[3])>>, <<q[4], q[5]>>)
       [] q[1] = "events" -> Check("build", "events of " \o ToString(x), UpToBlocked(u, B!Serial(f, x)), q[3])
       [] q[1] = "rebuild" -> \* <<"rebuild", x, how, parents, data>>
            LET pre == Preorder(f, x) IN
            Check("build", q[3] \o " of " \o ToString(x),
                  << [k \in 1..Len(pre) |-> IF k = 1 THEN 0 ELSE IndexIn(pre, f.par[pre[k]])],
                     [k \in 1..Len(pre) |-> u.v[pre[k]]] >>, <<q[4], q[5]>>)
       [] q[1] = "pretty" -> Check("pretty", "printing " \o ToString(x), P!Picture(f, Texts(u), x), q[3])
       [] q[1] = "descend" -> \* <<"descend", x, y, is y below x or x itself>>
            Check("nav", "ancestors of " \o ToString(q[3]) \o " include " \o ToString(x), Bit(IsAncestorOrSelf(f, x, q[3])), q[4])

-----------------------------------------------------------------------------
Judge(e, a) ==
  LET u == a.w IN
  IF e.bad # <<>> THEN Problem(e.bad[1], e.bad[2], "nothing of the kind", "")
  ELSE IF ~Matches(a.r, e.r, e.pan) THEN Problem("result", "outcome", a.r, e.r)
  ELSE IF a.born # e.born THEN Problem("born", "new nodes", a.born, e.born)
  ELSE IF a.ret # e.ret THEN Problem(IF e.op[1] \in {"tree", "tree_dup", "tree_root"} THEN "member" ELSE "nav",
                                     "the handle returned denotes", a.ret, e.ret)
  ELSE IF a.x # e.x THEN Problem("cursor", "item delivered", a.x, e.x)
  ELSE IF { al[1] : al \in Range(e.al) } # NodesOf(u.s)
       THEN Problem("life", "living nodes", NodesOf(u.s), { al[1] : al \in Range(e.al) })
  ELSE IF Range(e.al) # Alive(u) THEN Problem("member", "trees of the nodes", Alive(u), Range(e.al))
  ELSE With(IF e.o = <<>> THEN <<>> ELSE CheckAll(u, e.o[1]), LAMBDA p :
       IF p # <<>> THEN p ELSE First(LAMBDA q : Query(u, q), e.q))

(* Everything that is wrong, as far as it can be told. *)
Problems(e, a) ==
  Judge(e, a) \o
    IF e.bad = <<>> /\ Matches(a.r, e.r, e.pan) /\ a.born = e.born /\ a.ret = e.ret /\ { al[1] : al \in Range(e.al) } = NodesOf(a.w.s)
    THEN (IF e.o = <<>> THEN <<>> ELSE AllOf(a.w, e.o[1])) \o Each(LAMBDA q : Query(a.w, q), e.q)
    ELSE <<>>

Init == tr \in 1..Len(Log) /\ i = 0 /\ w = Start

Step ==
  LET steps == Log[tr].steps IN
  /\ i < Len(steps)
  /\ \E e \in {steps[i + 1]} : \E a \in {Perform(e)} : \E p \in {Judge(e, a)} :
        IF p = <<>>
        THEN /\ w' = a.w /\ i' = i + 1 /\ UNCHANGED tr
             /\ IF i' = Len(steps) THEN PrintT(ToJson([k |-> "A", id |-> Log[tr].id, steps |-> Len(steps)])) ELSE TRUE
        ELSE /\ PrintT(ToJson([k |-> "R", id |-> Log[tr].id, step |-> i + 1, op |-> e.op, problems |-> Problems(e, a)]))
             /\ w' = Start /\ i' = Len(steps) + 1 /\ UNCHANGED tr
Spec == Init /\ [][Step]_<<tr, i, w>>
View == <<tr, i>>
(* The invariants of the specification hold along recorded histories, too. *)
Inv == StateInv(w.s)
=============================================================================
