-------------------------------- MODULE Game ---------------------------------
(***************************************************************************)
(* Two-player games on nets.  Every transition belongs to the controller   *)
(* (c.ctrl lists those) or to the environment.  In every marking the       *)
(* environment may fire any of its enabled transitions; the controller has *)
(* chosen one of its own, if any is enabled, and it may be that one which  *)
(* fires.  A play is a maximal firing sequence.                            *)
(*                                                                         *)
(* AG phi: the controller keeps phi true forever.                          *)
(* AF phi: the controller makes every play reach phi.                      *)
(***************************************************************************)
EXTENDS Logic

Arena(G, ctrl) ==
  LET N == G.net
      C == {ctrl[i] : i \in 1..Len(ctrl)}
      ix == TLCEval([m \in {G.S[i] : i \in 1..G.n} |-> CHOOSE i \in 1..G.n : G.S[i] = m])
      Suc(i, T) == {ix[Fire(N, G.S[i], t)] : t \in {u \in T : Enabled(N, G.S[i], u)}}
  IN [n |-> G.n, init |-> G.init, ix |-> ix, C |-> C,
      c |-> TLCEval([i \in 1..G.n |-> Suc(i, C)]),
      e |-> TLCEval([i \in 1..G.n |-> Suc(i, (1..N.nt) \ C)])]

\* markings from which the controller can make sure that the next one is in X
Cpre(A, X) == {i \in 1..A.n : A.e[i] \subseteq X /\ (A.c[i] # {} => A.c[i] \cap X # {})}
Stuck(A)   == {i \in 1..A.n : A.e[i] = {} /\ A.c[i] = {}}

RECURSIVE Lfp(_, _)
Lfp(A, X) == LET Y == TLCEval(X \cup (Cpre(A, X) \ Stuck(A))) IN IF Y = X THEN X ELSE Lfp(A, Y)
RECURSIVE Gfp(_, _)
Gfp(A, X) == LET Y == TLCEval(X \cap Cpre(A, X)) IN IF Y = X THEN X ELSE Gfp(A, Y)

\* f.o = "AG" or "AF", f.a[1] a state predicate
Winning(G, A, f) == IF f.o = "AG" THEN Gfp(A, Sat(G, f.a[1])) ELSE Lfp(A, Sat(G, f.a[1]))
CtrlWins(G, A, f) == A.init \in Winning(G, A, f)

(* A strategy as printed: s[i] = [m |-> marking, ts |-> controllable        *)
(* transitions it allows there].  It is followed from the initial marking; *)
(* for AF, up to markings that satisfy phi.  It lists every choice that     *)
(* keeps the controller winning, so for AF progress is not part of it.      *)
Verdict(G, A, f, s) ==
  LET N   == G.net
      W   == Winning(G, A, f)
      Phi == Sat(G, f.a[1])
      All(i) == {k \in 1..Len(s) : s[k].m = G.S[i]}
      Ts(i)  == UNION {{s[k].ts[j] : j \in 1..Len(s[k].ts)} : k \in All(i)}
      Stop(i) == f.o = "AF" /\ i \in Phi
      Nx(i) == IF Stop(i) THEN {} ELSE A.e[i] \cup {A.ix[Fire(N, G.S[i], t)] : t \in {u \in Ts(i) : Enabled(N, G.S[i], u)}}
      RECURSIVE Follow(_, _)
      Follow(seen, fr) == IF fr = {} THEN seen
                          ELSE LET new == TLCEval(UNION {Nx(i) : i \in fr} \ seen) IN Follow(TLCEval(seen \cup new), new)
      R == TLCEval(Follow({A.init}, {A.init}))
      Live == {i \in R : ~Stop(i)}
  IN IF \E i \in Live : \E t \in Ts(i) : t \notin A.C \/ ~Enabled(N, G.S[i], t) THEN "the strategy allows a transition that is not enabled or not controllable"
     ELSE IF \E i \in Live : A.c[i] # {} /\ Ts(i) = {} THEN "the strategy says nothing about a marking it leads to"
     ELSE IF ~(R \subseteq W) THEN "the strategy leads to a marking from which the controller does not win"
     ELSE IF Cardinality({s[k].m : k \in 1..Len(s)}) # Len(s) THEN "the strategy lists a marking twice"
     ELSE ""
==============================================================================
