--------------------------------- MODULE LTL ---------------------------------
(***************************************************************************)
(* LTL over the maximal runs of a marking graph, deadlocks stuttering.     *)
(* Decided by the explicit tableau: a node <<s, e>> pairs a state with the *)
(* set e of temporal subformulas (numbered by field k, 1..K) whose         *)
(* next-step obligation is promised; fairness discharges eventualities.    *)
(***************************************************************************)
EXTENDS Logic

Temporal == {"X", "F", "G", "U"}

RECURSIVE NSat(_, _, _, _)
NSat(G, s, e, f) ==
  CASE f.o = "X" -> f.k \in e
    [] f.o = "F" -> NSat(G, s, e, f.a[1]) \/ f.k \in e
    [] f.o = "G" -> NSat(G, s, e, f.a[1]) /\ f.k \in e
    [] f.o = "U" -> NSat(G, s, e, f.a[2]) \/ (NSat(G, s, e, f.a[1]) /\ f.k \in e)
    [] f.o = "not" -> ~NSat(G, s, e, f.a[1])
    [] f.o = "and" -> \A i \in 1..Len(f.a) : NSat(G, s, e, f.a[i])
    [] f.o = "or"  -> \E i \in 1..Len(f.a) : NSat(G, s, e, f.a[i])
    [] f.o = "xor" -> NSat(G, s, e, f.a[1]) # NSat(G, s, e, f.a[2])
    [] f.o = "iff" -> NSat(G, s, e, f.a[1]) = NSat(G, s, e, f.a[2])
    [] f.o = "imp" -> NSat(G, s, e, f.a[1]) => NSat(G, s, e, f.a[2])
    [] OTHER -> Holds(G.net, G.S[s], f)

RECURSIVE TempSubs(_)
TempSubs(f) ==
  LET kids == IF "a" \in DOMAIN f THEN UNION {TempSubs(f.a[i]) : i \in 1..Len(f.a)} ELSE {}
  IN (IF f.o \in Temporal THEN {f} ELSE {}) \cup kids

\* what the promise number k of subformula f talks about at the next state
Promise(f) == IF f.o = "X" THEN f.a[1] ELSE f

StutSucc(G, s) == IF G.succ[s] = {} THEN {s} ELSE G.succ[s]

FairSet(G, Nodes, f) ==
  CASE f.o = "F" -> {x \in Nodes : ~NSat(G, x[1], x[2], f) \/ NSat(G, x[1], x[2], f.a[1])}
    [] f.o = "U" -> {x \in Nodes : ~NSat(G, x[1], x[2], f) \/ NSat(G, x[1], x[2], f.a[2])}
    [] f.o = "G" -> {x \in Nodes : NSat(G, x[1], x[2], f) \/ ~NSat(G, x[1], x[2], f.a[1])}

RECURSIVE BackReach(_, _, _)
BackReach(pred, Z, X) ==   \* all nodes of Z that reach X inside Z
  LET Y == TLCEval(X \cup ((UNION {pred[x] : x \in X}) \cap Z))
  IN IF Y = X THEN X ELSE BackReach(pred, Z, Y)

RECURSIVE FairHull(_, _, _)
FairHull(pred, fair, Z) ==
  LET RECURSIVE Step(_, _)
      Step(i, Y) == IF i > Len(fair) THEN Y
                    ELSE LET B == BackReach(pred, Y, Y \cap fair[i])
                         IN Step(i + 1, TLCEval(Y \cap UNION {pred[x] : x \in B}))
      Z1 == Step(1, Z)
  IN IF Z1 = Z THEN Z ELSE FairHull(pred, fair, Z1)

\* some maximal run from the initial state satisfies f
ExistsRun(G, f) ==
  LET Ts    == TempSubs(f)
      K     == {g.k : g \in Ts}
      Es    == SUBSET K
      Nodes == TLCEval((1..G.n) \X Es)
      nx    == TLCEval([x \in Nodes |-> {g.k : g \in {h \in Ts : NSat(G, x[1], x[2], Promise(h))}}])
      spred == TLCEval([s \in 1..G.n |-> {r \in 1..G.n : s \in StutSucc(G, r)}])
      pred  == TLCEval([x \in Nodes |-> {<<r, nx[x]>> : r \in spred[x[1]]}])
      Ev    == {g \in Ts : g.o # "X"}
      fairS == TLCEval({FairSet(G, Nodes, g) : g \in Ev} \cup {Nodes})
      fair  == LET RECURSIVE ToSeq(_)
                   ToSeq(X) == IF X = {} THEN << >>
                               ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o ToSeq(X \ {x})
               IN ToSeq(fairS)
      Z     == FairHull(pred, fair, Nodes)
  IN \E x \in Z : x[1] = G.init /\ NSat(G, x[1], x[2], f)

AllRuns(G, f) == ~ExistsRun(G, [o |-> "not", a |-> <<f>>])

-----------------------------------------------------------------------------
\* An ultimately periodic word of states u v^omega (v nonempty): the truth
\* value of f at its first position.  Used to judge reported lassos.
LassoNext(len, loop, i) == IF i = len THEN loop ELSE i + 1
RECURSIVE LassoSat(_, _, _, _, _)
LassoSat(N, w, loop, i, f) ==
  LET len == Len(w)
      RECURSIVE Fwd(_, _)
      Fwd(j, S) == IF j \in S THEN S ELSE Fwd(LassoNext(len, loop, j), S \cup {j})
      fut == Fwd(i, {})
      RECURSIVE UntilFrom(_, _)
      UntilFrom(j, S) == IF j \in S THEN FALSE
                         ELSE \/ LassoSat(N, w, loop, j, f.a[2])
                              \/ /\ LassoSat(N, w, loop, j, f.a[1])
                                 /\ UntilFrom(LassoNext(len, loop, j), S \cup {j})
  IN CASE f.o = "X" -> LassoSat(N, w, loop, LassoNext(len, loop, i), f.a[1])
       [] f.o = "F" -> \E j \in fut : LassoSat(N, w, loop, j, f.a[1])
       [] f.o = "G" -> \A j \in fut : LassoSat(N, w, loop, j, f.a[1])
       [] f.o = "U" -> UntilFrom(i, {})
       [] f.o = "not" -> ~LassoSat(N, w, loop, i, f.a[1])
       [] f.o = "and" -> \A k \in 1..Len(f.a) : LassoSat(N, w, loop, i, f.a[k])
       [] f.o = "or"  -> \E k \in 1..Len(f.a) : LassoSat(N, w, loop, i, f.a[k])
       [] OTHER -> Holds(N, w[i], f)
==============================================================================
