-------------------------------- MODULE Hyper --------------------------------
(***************************************************************************)
(* HyperLTL with one block of like quantifiers over k path variables: the  *)
(* runs of k copies of the net move in lockstep, a copy that cannot move   *)
(* stutters.  A k-tuple of runs is a run of the synchronous product below, *)
(* so LTL over the product graph decides the formula.  Place p of path j   *)
(* is place (j-1)*np + p of the product, likewise for transitions.         *)
(***************************************************************************)
EXTENDS LTL

ShiftArcs(arcs, by) == [i \in 1..Len(arcs) |-> <<arcs[i][1] + by, arcs[i][2]>>]

\* k disjoint copies side by side (only used to evaluate state predicates)
Copies(N, k) ==
  LET cp(x, n) == (x - 1) \div n
      ix(x, n) == ((x - 1) % n) + 1
      arcs(A)  == [t \in 1..(k * N.nt) |-> ShiftArcs(A[ix(t, N.nt)], cp(t, N.nt) * N.np)]
  IN [np |-> k * N.np, nt |-> k * N.nt,
      m0 |-> [p \in 1..(k * N.np) |-> N.m0[ix(p, N.np)]],
      pre |-> arcs(N.pre), post |-> arcs(N.post), inh |-> arcs(N.inh)]

RECURSIVE Pow(_, _)
Pow(n, k) == IF k = 0 THEN 1 ELSE n * Pow(n, k - 1)

\* synchronous k-fold product of the graph G; state number <-> tuple of states
Lockstep(G, k) ==
  LET n      == Pow(G.n, k)
      el(s, j) == (((s - 1) \div Pow(G.n, j - 1)) % G.n) + 1
      RECURSIVE num(_, _)
      num(t, j) == IF j > k THEN 0 ELSE (t[j] - 1) * Pow(G.n, j - 1) + num(t, j + 1)
      RECURSIVE steps(_, _)
      steps(s, j) == IF j = 0 THEN {<< >>}
                     ELSE {Append(t, x) : t \in steps(s, j - 1), x \in StutSucc(G, el(s, j))}
      mark(s) == [p \in 1..(k * G.net.np) |-> G.S[el(s, ((p - 1) \div G.net.np) + 1)][((p - 1) % G.net.np) + 1]]
  IN [net |-> TLCEval(Copies(G.net, k)), n |-> n,
      S |-> TLCEval([s \in 1..n |-> mark(s)]),
      init |-> num([j \in 1..k |-> G.init], 1) + 1,
      succ |-> TLCEval([s \in 1..n |-> {num(t, 1) + 1 : t \in steps(s, k)}]),
      dead |-> {s \in 1..n : \A j \in 1..k : el(s, j) \in G.dead}]
==============================================================================
