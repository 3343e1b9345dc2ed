-------------------------------- MODULE PTNet --------------------------------
(***************************************************************************)
(* Weighted place/transition nets with inhibitor arcs: the token game that *)
(* every engine of verifypn must agree with.                               *)
(*                                                                         *)
(* A net N is a record                                                     *)
(*   np   number of places (1..np)                                         *)
(*   nt   number of transitions (1..nt)                                    *)
(*   m0   initial marking, a sequence of np naturals                       *)
(*   pre  pre[t]  = sequence of <<place, weight>> (input arcs)             *)
(*   post post[t] = sequence of <<place, weight>> (output arcs)            *)
(*   inh  inh[t]  = sequence of <<place, weight>> (inhibitor arcs: the     *)
(*        transition is disabled when the place holds >= weight tokens)    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE SumArcs(_, _, _)
SumArcs(arcs, p, i) ==
  IF i > Len(arcs) THEN 0
  ELSE (IF arcs[i][1] = p THEN arcs[i][2] ELSE 0) + SumArcs(arcs, p, i + 1)

\* total weight between place p and transition t
Pre(N, t, p)  == SumArcs(N.pre[t], p, 1)
Post(N, t, p) == SumArcs(N.post[t], p, 1)

\* Arc lists are normalised (at most one entry per place) by Normal(N) below,
\* so enabledness can be read off the arc list.
Enabled(N, m, t) ==
  /\ \A i \in 1..Len(N.pre[t]) : m[N.pre[t][i][1]] >= N.pre[t][i][2]
  /\ \A i \in 1..Len(N.inh[t]) : m[N.inh[t][i][1]] < N.inh[t][i][2]

Fire(N, m, t) ==
  [p \in 1..N.np |-> m[p] + N.d[t][p]]

EnabledSet(N, m) == {t \in 1..N.nt : Enabled(N, m, t)}
IsDeadlock(N, m) == \A t \in 1..N.nt : ~Enabled(N, m, t)
Successors(N, m) == {Fire(N, m, t) : t \in EnabledSet(N, m)}

RECURSIVE MergeArcs(_, _, _)
MergeArcs(arcs, np, p) ==
  IF p > np THEN << >>
  ELSE LET w == SumArcs(arcs, p, 1)
       IN (IF w > 0 THEN << <<p, w>> >> ELSE << >>) \o MergeArcs(arcs, np, p + 1)

\* Several arcs between the same pair add up; d is the token-change vector.
Normal(N) ==
  [np |-> N.np, nt |-> N.nt, m0 |-> N.m0,
   pre  |-> [t \in 1..N.nt |-> MergeArcs(N.pre[t], N.np, 1)],
   post |-> [t \in 1..N.nt |-> MergeArcs(N.post[t], N.np, 1)],
   inh  |-> N.inh,
   d    |-> [t \in 1..N.nt |-> [p \in 1..N.np |-> Post(N, t, p) - Pre(N, t, p)]]]

RECURSIVE Reach(_, _, _)
Reach(N, seen, frontier) ==
  IF frontier = {} THEN seen
  ELSE LET nxt == UNION {Successors(N, m) : m \in frontier}
           new == TLCEval(nxt \ seen)
       IN Reach(N, TLCEval(seen \cup new), new)

Reachable(N) == Reach(N, {N.m0}, {N.m0})

\* markings reached without ever passing through a marking with more than k tokens
RECURSIVE ReachK(_, _, _, _)
Tokens(N, m) == LET RECURSIVE S(_)
                    S(p) == IF p = 0 THEN 0 ELSE m[p] + S(p - 1)
                IN S(N.np)
ReachK(N, k, seen, frontier) ==
  IF frontier = {} THEN seen
  ELSE LET nxt == UNION {Successors(N, m) : m \in frontier}
           new == TLCEval({m \in nxt : Tokens(N, m) <= k} \ seen)
       IN ReachK(N, k, TLCEval(seen \cup new), new)

\* The marking graph with integer-named states over a set R of markings; state
\* 1.. are in an arbitrary but fixed order, init is the index of the initial
\* marking.  Steps that leave R are cut.
GraphOver(N, R) ==
  LET n   == Cardinality(R)
      S   == TLCEval(LET RECURSIVE ToSeq(_)
                 ToSeq(X) == IF X = {} THEN << >>
                             ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o ToSeq(X \ {x})
             IN ToSeq(R))
      ix  == TLCEval([m \in R |-> CHOOSE i \in 1..n : S[i] = m])
      suc == TLCEval([i \in 1..n |-> {ix[x] : x \in Successors(N, S[i]) \cap R}])
  IN [net |-> N, n |-> n, S |-> S, init |-> ix[N.m0], succ |-> suc,
      dead |-> TLCEval({i \in 1..n : suc[i] = {}})]

Graph(N0) == LET N == TLCEval(Normal(N0)) IN GraphOver(N, TLCEval(Reachable(N)))

\* what is left of the graph when no marking with more than k tokens is entered
GraphK(N0, k) == LET N == TLCEval(Normal(N0)) IN GraphOver(N, TLCEval(ReachK(N, k, {N.m0}, {N.m0})))
==============================================================================
