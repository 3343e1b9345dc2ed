------------------------------- MODULE Conform -------------------------------
(***************************************************************************)
(* Conformance of recorded verifypn behaviour with the specification.      *)
(*                                                                         *)
(* cases.json holds a sequence of cases; each was recorded from the real   *)
(* program.  One TLC step judges one case: `judged' advances through the   *)
(* file and every judgement is printed as JSON for the driver.  A case is  *)
(* accepted exactly when Judge(case).bad is empty.                         *)
(***************************************************************************)
EXTENDS Trace, Game, Hyper, Json, IOUtils

Cases == JsonDeserialize(IOEnv.VP_CASES)

-----------------------------------------------------------------------------
\* Coloured nets are judged through their unfolding (see CPN): the same
\* judgements on the unfolded net with the queries rewritten.
Plain(c) ==
  IF "cpn" \notin DOMAIN c THEN c
  ELSE LET U == TLCEval(Unfold(c.cpn))
       IN [kind |-> c.kind, net |-> U.net, logic |-> IF "logic" \in DOMAIN c THEN c.logic ELSE c.kind,
           qs |-> [i \in 1..Len(c.qs) |->
                     IF c.kind = "space" THEN c.qs[i]
                     ELSE IF "ps" \in DOMAIN c.qs[i]
                     THEN [ps |-> Concat([j \in 1..Len(c.qs[i].ps) |-> U.ps[c.qs[i].ps[j]]], Len(c.qs[i].ps)), obs |-> c.qs[i].obs]
                     ELSE [f |-> UForm(U, c.qs[i].f), obs |-> c.qs[i].obs]]]

\* the graph a case speaks about: cut at field k (a token bound) when it has one
GraphOf(c) == IF "k" \in DOMAIN c THEN GraphK(c.net, c.k) ELSE Graph(c.net)

\* kind "ctl": c.net, c.qs[i] = [f, obs]; obs = sequence of observed answers
JudgeCTL(c) ==
  LET G  == GraphOf(c)
      ex == [i \in 1..Len(c.qs) |-> CTLHolds(G, c.qs[i].f)]
  IN [n |-> G.n, exp |-> ex,
      bad |-> {i \in 1..Len(c.qs) : \E j \in 1..Len(c.qs[i].obs) : c.qs[i].obs[j] # ex[i]}]

\* kind "ltl": c.qs[i].f = [o |-> "A" or "E", a |-> <<body>>]
JudgeLTL(c) ==
  LET G  == Graph(c.net)
      ex == [i \in 1..Len(c.qs) |->
               IF c.qs[i].f.o = "A" THEN AllRuns(G, c.qs[i].f.a[1])
               ELSE ExistsRun(G, c.qs[i].f.a[1])]
  IN [n |-> G.n, exp |-> ex,
      bad |-> {i \in 1..Len(c.qs) : \E j \in 1..Len(c.qs[i].obs) : c.qs[i].obs[j] # ex[i]}]

\* kind "hyper": c.paths copies; c.qs[i].f = [o |-> "A" or "E", a |-> <<body over the copies>>]
JudgeHyper(c) ==
  LET G  == TLCEval(Lockstep(Graph(c.net), c.paths))
      ex == [i \in 1..Len(c.qs) |->
               IF c.qs[i].f.o = "A" THEN AllRuns(G, c.qs[i].f.a[1])
               ELSE ExistsRun(G, c.qs[i].f.a[1])]
  IN [n |-> G.n, exp |-> ex,
      bad |-> {i \in 1..Len(c.qs) : \E j \in 1..Len(c.qs[i].obs) : c.qs[i].obs[j] # ex[i]}]

\* kind "bounds": c.qs[i] = [ps, obs]; observed numbers
JudgeBounds(c) ==
  LET G  == GraphOf(c)
      ex == [i \in 1..Len(c.qs) |-> UpperBound(G, c.qs[i].ps)]
  IN [n |-> G.n, exp |-> ex,
      bad |-> {i \in 1..Len(c.qs) : \E j \in 1..Len(c.qs[i].obs) : c.qs[i].obs[j] # ex[i]}]

\* kind "space": what state-space exploration reports.  Each claim of c.qs[i].obs
\* is a record; which fields it has depends on what the program printed:
\*   states, tokens (most in one marking), place (most in one place),
\*   bound (per place), enabled (number of markings enabling each transition)
SpaceOf(G) ==
  LET N == G.net IN
  [states  |-> G.n,
   tokens  |-> MaxOf({Tokens(N, G.S[i]) : i \in 1..G.n}),
   place   |-> MaxOf({0} \cup {G.S[i][p] : i \in 1..G.n, p \in 1..N.np}),
   bound   |-> [p \in 1..N.np |-> MaxOf({G.S[i][p] : i \in 1..G.n})],
   enabled |-> [t \in 1..N.nt |-> Cardinality({i \in 1..G.n : Enabled(N, G.S[i], t)})]]
JudgeSpace(c) ==
  LET G  == GraphOf(c)
      sp == TLCEval(SpaceOf(G))
  IN [n |-> G.n, exp |-> [i \in 1..Len(c.qs) |-> sp],
      bad |-> {i \in 1..Len(c.qs) : \E j \in 1..Len(c.qs[i].obs) :
                 \E k \in DOMAIN c.qs[i].obs[j] : c.qs[i].obs[j][k] # sp[k]}]

\* kind "trace": c.qs[i] = [f, obs], obs a sequence of traces (see Trace)
JudgeTrace(c) ==
  LET col == "cpn" \in DOMAIN c
      U   == IF col THEN TLCEval(Unfold(c.cpn)) ELSE [net |-> c.net]
      N   == TLCEval(Normal(U.net))
      V(i, j) == IF col THEN ColourVerdict(U, N, c.qs[i].f, c.qs[i].obs[j]) ELSE PlainVerdict(N, c.qs[i].f, c.qs[i].obs[j])
      v   == TLCEval([i \in 1..Len(c.qs) |-> [j \in 1..Len(c.qs[i].obs) |-> V(i, j)]])
  IN [n |-> 1, exp |-> v, bad |-> {i \in 1..Len(c.qs) : \E j \in 1..Len(v[i]) : v[i][j] # ""}]

\* kind "written": c.qs[i] = [f (ps for bounds), obs], obs a sequence of queries that
\* verifypn wrote, each on the net it wrote (or, without field net, on the original).
\* c.logic is the kind of query.  What was written has to have the value of the original.
Value(G, logic, q) ==
  CASE logic = "ctl" -> CTLHolds(G, q.f)
    [] logic = "ltl" -> IF q.f.o = "A" THEN AllRuns(G, q.f.a[1])
                        ELSE IF q.f.o = "E" THEN ExistsRun(G, q.f.a[1])
                        ELSE CTLHolds(G, q.f)
    [] logic = "bounds" -> UpperBound(G, q.ps)
JudgeWritten(c) ==
  LET G  == TLCEval(Graph(c.net))
      ex == TLCEval([i \in 1..Len(c.qs) |-> Value(G, c.logic, c.qs[i])])
      GW(q) == IF "net" \in DOMAIN q THEN Graph(q.net) ELSE G
      Differs(i, q) == IF "value" \in DOMAIN q THEN q.value # ex[i] ELSE Value(GW(q), c.logic, q) # ex[i]
      b  == TLCEval([i \in 1..Len(c.qs) |-> {j \in 1..Len(c.qs[i].obs) : Differs(i, c.qs[i].obs[j])}])
  IN [n |-> G.n, exp |-> ex, wrong |-> b, bad |-> {i \in 1..Len(c.qs) : b[i] # {}}]

\* kind "game": c.ctrl, c.qs[i] = [f, obs, strat]; strat a sequence of printed strategies
JudgeGame(c) ==
  LET G  == TLCEval(Graph(c.net))
      A  == TLCEval(Arena(G, c.ctrl))
      ex == TLCEval([i \in 1..Len(c.qs) |-> CtrlWins(G, A, c.qs[i].f)])
      sv == TLCEval([i \in 1..Len(c.qs) |-> [j \in 1..Len(c.qs[i].strat) |-> Verdict(G, A, c.qs[i].f, c.qs[i].strat[j])]])
  IN [n |-> G.n, exp |-> ex, strat |-> sv,
      bad |-> {i \in 1..Len(c.qs) : (\E j \in 1..Len(c.qs[i].obs) : c.qs[i].obs[j] # ex[i]) \/ (\E j \in 1..Len(sv[i]) : sv[i][j] # "")}]

Judge(c0) ==
  IF c0.kind = "game" THEN JudgeGame(c0) ELSE
  IF c0.kind = "hyper" THEN JudgeHyper(c0) ELSE
  IF c0.kind = "trace" THEN JudgeTrace(c0) ELSE
  LET c == TLCEval(Plain(c0)) IN
  CASE c.kind = "ctl" -> JudgeCTL(c)
    [] c.kind = "ltl" -> JudgeLTL(c)
    [] c.kind = "bounds" -> JudgeBounds(c)
    [] c.kind = "space" -> JudgeSpace(c)
    [] c.kind = "written" -> JudgeWritten(c)

VARIABLE judged
Init == judged = 0
Next == /\ judged < Len(Cases)
        /\ LET r == Judge(Cases[judged + 1])
           IN PrintT("@J" \o ToJson([case |-> judged + 1, r |-> r]))
        /\ judged' = judged + 1
Spec == Init /\ [][Next]_judged
==============================================================================
