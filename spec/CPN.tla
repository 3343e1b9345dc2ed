--------------------------------- MODULE CPN ---------------------------------
(***************************************************************************)
(* Coloured Petri nets (symmetric nets with inhibitor arcs): colours,      *)
(* bindings, guards, multiset expressions, the coloured token game and the *)
(* unfolding into an ordinary net.                                         *)
(*                                                                         *)
(* A coloured net C is a record                                            *)
(*   types  sequence of [k |-> "s", n |-> size] (dot, enumerations, integer*)
(*          ranges; colours <<0>>..<<n-1>>, cyclically ordered) or         *)
(*          [k |-> "p", c |-> <<type indexes>>] (products; colours are     *)
(*          tuples of the component indexes)                               *)
(*   vars   vars[v] = type of variable v                                   *)
(*   places places[p] = type of place p                                    *)
(*   m0     m0[p] = arc expression without variables, or <<>> for empty    *)
(*   trans  [vs |-> variables in scope, g |-> guard,                       *)
(*           pre, post |-> << [p, e] >>, inh |-> << <<place, weight>> >>]  *)
(* An inhibitor arc looks at the total number of tokens of its place.      *)
(***************************************************************************)
EXTENDS Logic, SequencesExt

ColorsOf(C, t) ==
  LET T == C.types[t] IN
  IF T.k = "s" THEN {<<i>> : i \in 0..(T.n - 1)}
  ELSE LET RECURSIVE Prod(_)
           Prod(i) == IF i = 0 THEN {<< >>}
                      ELSE {Append(x, y) : x \in Prod(i - 1), y \in 0..(C.types[T.c[i]].n - 1)}
       IN Prod(Len(T.c))
\* the colours of every type, computed once
WithColors(C) == [D |-> TLCEval([t \in 1..Len(C.types) |-> TLCEval(ColorsOf(C, t))])] @@ C
Colors(C, t) == C.D[t]

\* colour expressions under a binding b (a function from variables to colours)
RECURSIVE CVal(_, _, _)
CVal(C, e, b) ==
  CASE e.o = "var"  -> b[e.v]
    [] e.o = "con"  -> e.c
    [] e.o = "succ" -> << (CVal(C, e.a, b)[1] + 1) % C.types[e.t].n >>
    [] e.o = "pred" -> << (CVal(C, e.a, b)[1] + C.types[e.t].n - 1) % C.types[e.t].n >>
    [] e.o = "tup"  -> [i \in 1..Len(e.a) |-> CVal(C, e.a[i], b)[1]]

\* guards; colours of a simple type are ordered by their index
RECURSIVE Guard(_, _, _)
Guard(C, g, b) ==
  CASE g.o = "true" -> TRUE
    [] g.o = "and" -> \A i \in 1..Len(g.a) : Guard(C, g.a[i], b)
    [] g.o = "or"  -> \E i \in 1..Len(g.a) : Guard(C, g.a[i], b)
    [] g.o = "not" -> ~Guard(C, g.a[1], b)
    [] g.o = "eq"  -> CVal(C, g.l, b) = CVal(C, g.r, b)
    [] g.o = "ne"  -> CVal(C, g.l, b) # CVal(C, g.r, b)
    [] g.o = "lt"  -> CVal(C, g.l, b)[1] < CVal(C, g.r, b)[1]
    [] g.o = "le"  -> CVal(C, g.l, b)[1] <= CVal(C, g.r, b)[1]
    [] g.o = "gt"  -> CVal(C, g.l, b)[1] > CVal(C, g.r, b)[1]
    [] g.o = "ge"  -> CVal(C, g.l, b)[1] >= CVal(C, g.r, b)[1]

\* multiset expressions: functions from the colours D of the place to naturals
NoTokens(D) == [c \in D |-> 0]
\* a tuple whose components are colour expressions, or all the colours of a
\* component type: one token for every choice
TupleChoices(C, comps, b) ==
  LET RECURSIVE Ch(_)
      Ch(i) == IF i = 0 THEN {<< >>}
               ELSE LET e == comps[i]
                        S == IF e.o = "all" THEN {c[1] : c \in Colors(C, e.t)} ELSE {CVal(C, e, b)[1]}
                    IN {Append(x, y) : x \in Ch(i - 1), y \in S}
  IN Ch(Len(comps))

RECURSIVE MVal(_, _, _, _)
MVal(C, e, b, D) ==
  CASE e.o = "none" -> NoTokens(D)
    [] e.o = "num"  -> LET c == CVal(C, e.c, b) IN [x \in D |-> IF x = c THEN e.k ELSE 0]
    [] e.o = "all"  -> [x \in D |-> e.k]
    [] e.o = "tall" -> LET S == TLCEval(TupleChoices(C, e.a, b)) IN [x \in D |-> IF x \in S THEN e.k ELSE 0]
    [] e.o = "add"  -> LET RECURSIVE Add(_)
                           Add(i) == IF i = 0 THEN NoTokens(D)
                                     ELSE LET f == TLCEval(MVal(C, e.a[i], b, D))
                                              h == TLCEval(Add(i - 1)) IN [x \in D |-> f[x] + h[x]]
                       IN TLCEval(Add(Len(e.a)))
    [] e.o = "sub"  -> LET f == TLCEval(MVal(C, e.a[1], b, D))
                           h == TLCEval(MVal(C, e.a[2], b, D))
                       IN [x \in D |-> IF f[x] >= h[x] THEN f[x] - h[x] ELSE 0]
    [] e.o = "scal" -> LET f == TLCEval(MVal(C, e.a[1], b, D)) IN [x \in D |-> e.k * f[x]]

\* every assignment of colours to the variables vs (a sequence)
Bindings(C, vs) ==
  LET RECURSIVE B(_)
      B(i) == IF i = 0 THEN {[v \in {} |-> << >>]}
              ELSE {(vs[i] :> c) @@ f : c \in Colors(C, C.vars[vs[i]]), f \in B(i - 1)}
  IN B(Len(vs))
Modes(C, t) == {b \in Bindings(C, C.trans[t].vs) : Guard(C, C.trans[t].g, b)}

-----------------------------------------------------------------------------
\* The coloured token game
CM0(C) == [p \in 1..Len(C.places) |-> MVal(C, C.m0[p], << >>, Colors(C, C.places[p]))]
Total(f) == LET RECURSIVE S(_)
                S(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE y \in X : TRUE IN f[x] + S(X \ {x})
            IN S(DOMAIN f)
Flow(C, arcs, b, p) ==      \* tokens moved between place p and a transition
  LET D == Colors(C, C.places[p])
      RECURSIVE A(_)
      A(i) == IF i = 0 THEN NoTokens(D)
              ELSE IF arcs[i].p # p THEN A(i - 1)
              ELSE LET f == TLCEval(MVal(C, arcs[i].e, b, D))
                       h == TLCEval(A(i - 1)) IN [x \in D |-> f[x] + h[x]]
  IN TLCEval(A(Len(arcs)))
CEnabled(C, m, t, b) ==
  /\ \A p \in 1..Len(C.places) : LET f == Flow(C, C.trans[t].pre, b, p) IN \A c \in DOMAIN f : m[p][c] >= f[c]
  /\ \A i \in 1..Len(C.trans[t].inh) : Total(m[C.trans[t].inh[i][1]]) < C.trans[t].inh[i][2]
CFire(C, m, t, b) ==
  [p \in 1..Len(C.places) |->
     LET f == Flow(C, C.trans[t].pre, b, p)
         h == Flow(C, C.trans[t].post, b, p) IN [c \in DOMAIN f |-> m[p][c] - f[c] + h[c]]]
CSuccessors(C, m) ==
  UNION {{CFire(C, m, t, b) : b \in {x \in Modes(C, t) : CEnabled(C, m, t, x)}} : t \in 1..Len(C.trans)}
RECURSIVE CReach(_, _, _)
CReach(C, seen, frontier) ==
  IF frontier = {} THEN seen
  ELSE LET new == TLCEval((UNION {CSuccessors(C, m) : m \in frontier}) \ seen)
       IN CReach(C, TLCEval(seen \cup new), new)
CReachable(C) == CReach(C, {CM0(C)}, {CM0(C)})

-----------------------------------------------------------------------------
\* Unfolding: one place per place and colour, one transition per mode.  To
\* keep inhibitor arcs ordinary, a place with inhibitor arcs gets one extra
\* place holding its total.
RECURSIVE Concat(_, _)
Concat(f, n) == IF n = 0 THEN << >> ELSE Concat(f, n - 1) \o f[n]

HasInh(C, p) == \E t \in 1..Len(C.trans) : \E i \in 1..Len(C.trans[t].inh) : C.trans[t].inh[i][1] = p

Unfold(C0) ==
  LET C    == TLCEval(WithColors(C0))
      np   == Len(C.places)
      PS   == TLCEval(Concat([p \in 1..np |->
                 LET s == TLCEval(SetToSeq(Colors(C, C.places[p]))) IN [i \in 1..Len(s) |-> <<p, s[i]>>]
                 \o (IF HasInh(C, p) THEN << <<p, << >> >> >> ELSE << >>)], np))
      ix   == TLCEval([pc \in {PS[i] : i \in 1..Len(PS)} |-> CHOOSE i \in 1..Len(PS) : PS[i] = pc])
      TM   == TLCEval(Concat([t \in 1..Len(C.trans) |->
                 LET s == SetToSeq(Modes(C, t)) IN [i \in 1..Len(s) |-> <<t, s[i]>>]], Len(C.trans)))
      m0   == TLCEval(CM0(C))
      \* the arcs as a sequence of <<place, weight>>, without zero weights
      Arcs(arcs, b) ==
         LET P == {arcs[i].p : i \in 1..Len(arcs)}
             F == TLCEval([p \in P |-> Flow(C, arcs, b, p)])
             W(i) == IF PS[i][1] \notin P THEN 0 ELSE IF PS[i][2] = << >> THEN Total(F[PS[i][1]]) ELSE F[PS[i][1]][PS[i][2]]
         IN TLCEval(SelectSeq([i \in 1..Len(PS) |-> <<i, W(i)>>], LAMBDA a : a[2] > 0))
  IN [net |-> [np |-> Len(PS), nt |-> Len(TM),
               m0 |-> [i \in 1..Len(PS) |-> IF PS[i][2] = << >> THEN Total(m0[PS[i][1]]) ELSE m0[PS[i][1]][PS[i][2]]],
               pre  |-> [i \in 1..Len(TM) |-> Arcs(C.trans[TM[i][1]].pre, TM[i][2])],
               post |-> [i \in 1..Len(TM) |-> Arcs(C.trans[TM[i][1]].post, TM[i][2])],
               inh  |-> [i \in 1..Len(TM) |-> [j \in 1..Len(C.trans[TM[i][1]].inh) |->
                            <<ix[<<C.trans[TM[i][1]].inh[j][1], << >> >>], C.trans[TM[i][1]].inh[j][2]>>]]],
      PS |-> PS, TM |-> TM,
      ps |-> [p \in 1..np |-> SelectSeq([i \in 1..Len(PS) |-> i], LAMBDA i : PS[i][1] = p /\ PS[i][2] # << >>)],
      ts |-> [t \in 1..Len(C.trans) |-> SelectSeq([i \in 1..Len(TM) |-> i], LAMBDA i : TM[i][1] = t)]]

\* Queries speak of coloured places (their total) and coloured transitions
\* (some mode); in terms of the unfolded net U:
RECURSIVE UExpr(_, _), UForm(_, _)
UExpr(U, e) ==
  CASE e.o = "c" -> e
    [] e.o = "p" -> [o |-> "+", a |-> [i \in 1..Len(U.ps[e.p]) |-> [o |-> "p", p |-> U.ps[e.p][i]]]]
    [] OTHER -> [o |-> e.o, a |-> [i \in 1..Len(e.a) |-> UExpr(U, e.a[i])]]
UForm(U, f) ==
  CASE f.o \in {"true", "false", "dead"} -> f
    [] f.o \in CmpOps -> [o |-> f.o, l |-> UExpr(U, f.l), r |-> UExpr(U, f.r)]
    [] f.o = "fire" -> [o |-> "fire", t |-> Concat([i \in 1..Len(f.t) |-> U.ts[f.t[i]]], Len(f.t))]
    [] OTHER -> LET a == [i \in 1..Len(f.a) |-> UForm(U, f.a[i])]
                IN IF "k" \in DOMAIN f THEN [o |-> f.o, k |-> f.k, a |-> a] ELSE [o |-> f.o, a |-> a]

-----------------------------------------------------------------------------
\* Theorem (checked by TLC on the nets of CPNCheck): the coloured token game
\* and the token game of the unfolding are the same, marking by marking.
Image(U, m) == [i \in 1..Len(U.PS) |-> IF U.PS[i][2] = << >> THEN Total(m[U.PS[i][1]]) ELSE m[U.PS[i][1]][U.PS[i][2]]]
UnfoldingIsExact(C0) ==
  LET C == WithColors(C0)
      U == Unfold(C)
      N == Normal(U.net)
      R == CReachable(C)
  IN /\ {Image(U, m) : m \in R} = Reachable(N)
     /\ \A m \in R : {Image(U, x) : x \in CSuccessors(C, m)} = Successors(N, Image(U, m))
==============================================================================
