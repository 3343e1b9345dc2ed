-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* What a reported trace has to be.                                        *)
(*                                                                         *)
(* A trace is [steps, loop, dead]: steps a sequence of                     *)
(*   [t    transition of the (possibly coloured) net,                      *)
(*    use  (optional) the tokens said to be consumed, <<place, number>>,   *)
(*    b    (optional) the binding, <<variable, colour>> pairs,             *)
(*    m    (optional) the marking said to be reached,                      *)
(*         m[p] = sequence of <<colour, number>>]                          *)
(* loop > 0: from the marking before step `loop' the rest repeats forever; *)
(* dead: the trace says that it ends in a deadlock.                        *)
(*                                                                         *)
(* A trace witnesses EF g when it can be fired from the initial marking    *)
(* and ends in a marking satisfying g, and refutes AG g when it ends in    *)
(* one violating g.  For LTL the run it describes has to satisfy (E) or    *)
(* violate (A) the formula; a trace that names only a prefix must have     *)
(* such an extension.                                                      *)
(***************************************************************************)
EXTENDS LTL, CPN

Neg(f) == [o |-> "not", a |-> <<f>>]
RECURSIVE Goal(_)       \* the state predicate or path formula a trace must show
Goal(f) ==
  CASE f.o \in {"EF", "E"} -> f.a[1]
    [] f.o \in {"AG", "A"} -> Neg(f.a[1])
    [] f.o = "not" -> LET g == f.a[1] IN
         CASE g.o \in {"EF", "E"} -> g.a[1]
           [] g.o \in {"AG", "A"} -> Neg(g.a[1])
           [] g.o = "not" -> Goal(g.a[1])

\* firing with choice: each step names a set of transitions of the plain net
\* (the modes it may stand for) and possibly the marking reached
RECURSIVE After(_, _, _, _)
After(N, X, cand, at) ==    \* markings that remain possible after all steps
  IF cand = << >> THEN X
  ELSE LET t1 == Head(cand)
           Y  == UNION {{Fire(N, m, t) : t \in {u \in t1 : Enabled(N, m, u)}} : m \in X}
           Z  == IF Head(at) = << >> THEN Y ELSE {m \in Y : m = Head(at)[1]}
       IN After(N, TLCEval(Z), Tail(cand), Tail(at))

RECURSIVE Word(_, _, _)     \* the markings passed; ends early where a step is not enabled
Word(N, m, ts) == IF ts = << >> \/ ~Enabled(N, m, Head(ts)) THEN <<m>>
                  ELSE <<m>> \o Word(N, Fire(N, m, Head(ts)), Tail(ts))

UseOK(N, s) ==
  "use" \notin DOMAIN s \/
    /\ \A i \in 1..Len(s.use) : \E j \in 1..Len(N.pre[s.t]) : N.pre[s.t][j] = s.use[i]
    /\ Len(s.use) = Len(N.pre[s.t])

\* the part of the marking graph after marking m, behind the path w
RunAfter(N, w, f) ==
  LET M  == [N EXCEPT !.m0 = w[Len(w)]]
      G  == TLCEval(Graph(M))
      k  == Len(w) - 1
      H  == [net |-> G.net, n |-> G.n + k, init |-> IF k = 0 THEN G.init ELSE 1,
             S |-> [i \in 1..(G.n + k) |-> IF i <= k THEN w[i] ELSE G.S[i - k]],
             succ |-> [i \in 1..(G.n + k) |-> IF i < k THEN {i + 1} ELSE IF i = k THEN {G.init + k} ELSE {j + k : j \in G.succ[i - k]}],
             dead |-> {j + k : j \in G.dead}]
  IN ExistsRun(H, f)

\* P/T traces: "" when fine, otherwise what is wrong
PlainVerdict(N, f, tr) ==
  LET ts   == [i \in 1..Len(tr.steps) |-> tr.steps[i].t]
      w    == TLCEval(Word(N, N.m0, ts))
      last == w[Len(w)]
      g    == Goal(f)
      ltl  == f.o \in {"A", "E"}
  IN IF Len(w) <= Len(ts) THEN "step " \o ToString(Len(w)) \o " is not enabled"
     ELSE IF \E i \in 1..Len(tr.steps) : ~UseOK(N, tr.steps[i]) THEN "wrong tokens reported as consumed"
     ELSE IF ~ltl THEN (IF Holds(N, last, g) THEN "" ELSE "the last marking does not decide the query")
     ELSE IF tr.dead THEN
       (IF ~IsDeadlock(N, last) THEN "does not end in a deadlock"
        ELSE IF LassoSat(N, w, Len(w), 1, g) THEN "" ELSE "the run does not decide the query")
     ELSE IF tr.loop > 0 THEN
       (IF last # w[tr.loop] THEN "the loop does not close"
        ELSE IF tr.loop = Len(w) THEN "the loop is empty"
        ELSE IF LassoSat(N, SubSeq(w, 1, Len(w) - 1), tr.loop, 1, g) THEN "" ELSE "the run does not decide the query")
     ELSE IF RunAfter(N, w, g) THEN "" ELSE "no run with this prefix decides the query"

\* Coloured traces
ColourImage(U, m) ==      \* a claimed coloured marking as a marking of the unfolding
  [i \in 1..Len(U.PS) |->
     LET q == m[U.PS[i][1]]
         RECURSIVE S(_)
         S(j) == IF j = 0 THEN 0 ELSE (IF U.PS[i][2] = << >> \/ q[j][1] = U.PS[i][2] THEN q[j][2] ELSE 0) + S(j - 1)
     IN S(Len(q))]
ColourVerdict(U, N, f, tr) ==
  LET Cand(s) == {i \in 1..N.nt : U.TM[i][1] = s.t /\
                    ("b" \notin DOMAIN s \/ \A j \in 1..Len(s.b) : s.b[j][1] \in DOMAIN U.TM[i][2] => U.TM[i][2][s.b[j][1]] = s.b[j][2])}
      At(s)   == IF "m" \in DOMAIN s THEN << TLCEval(ColourImage(U, s.m)) >> ELSE << >>
      n       == Len(tr.steps)
      Z       == After(N, {N.m0}, [i \in 1..n |-> Cand(tr.steps[i])], [i \in 1..n |-> At(tr.steps[i])])
      g       == UForm(U, Goal(f))
  IN IF Z = {} THEN "cannot be fired as reported"
     ELSE IF \E m \in Z : Holds(N, m, g) THEN "" ELSE "the last marking does not decide the query"
==============================================================================
