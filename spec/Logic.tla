-------------------------------- MODULE Logic --------------------------------
(***************************************************************************)
(* The meaning of queries over a marking graph G (see PTNet!Graph).        *)
(*                                                                         *)
(* State expressions and predicates are evaluated in a marking; CTL is     *)
(* interpreted over maximal paths (a deadlocked marking ends the path);    *)
(* LTL is interpreted over maximal runs where a deadlocked marking repeats *)
(* forever.  Formulas are records [o |-> operator, ...].                   *)
(***************************************************************************)
EXTENDS PTNet

RECURSIVE Val(_, _), SumVal(_, _, _), MulVal(_, _, _), SubVal(_, _, _)
SumVal(a, m, i) == IF i > Len(a) THEN 0 ELSE Val(a[i], m) + SumVal(a, m, i + 1)
MulVal(a, m, i) == IF i > Len(a) THEN 1 ELSE Val(a[i], m) * MulVal(a, m, i + 1)
SubVal(a, m, i) == IF i > Len(a) THEN 0 ELSE Val(a[i], m) + SubVal(a, m, i + 1)
Val(e, m) ==
  CASE e.o = "c" -> e.v
    [] e.o = "p" -> m[e.p]
    [] e.o = "+" -> SumVal(e.a, m, 1)
    [] e.o = "*" -> MulVal(e.a, m, 1)
    [] e.o = "-" -> Val(e.a[1], m) - SubVal(e.a, m, 2)

Cmp(op, l, r) ==
  CASE op = "<=" -> l <= r
    [] op = "<"  -> l < r
    [] op = ">=" -> l >= r
    [] op = ">"  -> l > r
    [] op = "="  -> l = r
    [] op = "!=" -> l # r

CmpOps == {"<=", "<", ">=", ">", "=", "!="}

\* A state predicate in marking m of net N (normalised)
RECURSIVE Holds(_, _, _)
Holds(N, m, f) ==
  CASE f.o = "true"  -> TRUE
    [] f.o = "false" -> FALSE
    [] f.o \in CmpOps -> Cmp(f.o, Val(f.l, m), Val(f.r, m))
    [] f.o = "fire"  -> \E i \in 1..Len(f.t) : Enabled(N, m, f.t[i])
    [] f.o = "dead"  -> IsDeadlock(N, m)
    [] f.o = "not"   -> ~Holds(N, m, f.a[1])
    [] f.o = "and"   -> \A i \in 1..Len(f.a) : Holds(N, m, f.a[i])
    [] f.o = "or"    -> \E i \in 1..Len(f.a) : Holds(N, m, f.a[i])
    [] f.o = "xor"   -> Holds(N, m, f.a[1]) # Holds(N, m, f.a[2])
    [] f.o = "iff"   -> Holds(N, m, f.a[1]) = Holds(N, m, f.a[2])
    [] f.o = "imp"   -> Holds(N, m, f.a[1]) => Holds(N, m, f.a[2])

-----------------------------------------------------------------------------
\* CTL: the set of states of G satisfying f, by fixed points

Pre1(G, X) == {i \in 1..G.n : G.succ[i] \cap X # {}}

RECURSIVE EUfix(_, _, _)
EUfix(G, A, X) ==       \* least X' >= X closed under  A /\ EX X'
  LET Y == TLCEval(X \cup {i \in A : G.succ[i] \cap X # {}})
  IN IF Y = X THEN X ELSE EUfix(G, A, Y)

RECURSIVE AUfix(_, _, _)
AUfix(G, A, X) ==
  LET Y == TLCEval(X \cup {i \in A : G.succ[i] # {} /\ G.succ[i] \subseteq X})
  IN IF Y = X THEN X ELSE AUfix(G, A, Y)

RECURSIVE Sat(_, _)
Sat(G, f) ==
  LET All == 1..G.n IN
  CASE f.o \in CmpOps \cup {"true", "false", "fire", "dead"} ->
         TLCEval({i \in All : Holds(G.net, G.S[i], f)})
    [] f.o = "not" -> TLCEval(All \ Sat(G, f.a[1]))
    [] f.o = "and" -> LET RECURSIVE C(_)
                          C(k) == IF k = 0 THEN All ELSE Sat(G, f.a[k]) \cap C(k - 1)
                      IN TLCEval(C(Len(f.a)))
    [] f.o = "or"  -> LET RECURSIVE D(_)
                          D(k) == IF k = 0 THEN {} ELSE Sat(G, f.a[k]) \cup D(k - 1)
                      IN TLCEval(D(Len(f.a)))
    [] f.o = "xor" -> LET a == Sat(G, f.a[1])
                          b == Sat(G, f.a[2]) IN (a \ b) \cup (b \ a)
    [] f.o = "iff" -> LET a == Sat(G, f.a[1])
                          b == Sat(G, f.a[2]) IN All \ ((a \ b) \cup (b \ a))
    [] f.o = "imp" -> (All \ Sat(G, f.a[1])) \cup Sat(G, f.a[2])
    [] f.o = "EX"  -> LET X == Sat(G, f.a[1]) IN {i \in All : G.succ[i] \cap X # {}}
    [] f.o = "AX"  -> LET X == Sat(G, f.a[1]) IN {i \in All : G.succ[i] \subseteq X}
    [] f.o = "EF"  -> EUfix(G, All, Sat(G, f.a[1]))
    [] f.o = "AF"  -> AUfix(G, All, Sat(G, f.a[1]))
    [] f.o = "EG"  -> All \ AUfix(G, All, All \ Sat(G, f.a[1]))
    [] f.o = "AG"  -> All \ EUfix(G, All, All \ Sat(G, f.a[1]))
    [] f.o = "EU"  -> LET A == Sat(G, f.a[1]) IN EUfix(G, A, Sat(G, f.a[2]))
    [] f.o = "AU"  -> LET A == Sat(G, f.a[1]) IN AUfix(G, A, Sat(G, f.a[2]))

CTLHolds(G, f) == G.init \in Sat(G, f)

-----------------------------------------------------------------------------
\* Upper bound of a set of places over the reachable markings
RECURSIVE PlaceSum(_, _, _)
PlaceSum(m, ps, i) == IF i > Len(ps) THEN 0 ELSE m[ps[i]] + PlaceSum(m, ps, i + 1)
MaxOf(X) == CHOOSE x \in X : \A y \in X : y <= x
UpperBound(G, ps) == MaxOf({PlaceSum(G.S[i], ps, 1) : i \in 1..G.n})
==============================================================================
