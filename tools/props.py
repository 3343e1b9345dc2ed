NOTE = ("The meaning of nets and formulas is written down in TLA+ (spec/), evaluated by TLC over the complete state space of each "
        "generated net, and compared with every answer the program gives. Bounded: random and structured nets of up to ~17 places "
        "and 20 transitions with at most a few hundred reachable markings. Trusted: the TLA+ semantics, TLC, and the stand-ins for ptrie and spot.")
WHY = "The unit tests fix a handful of nets and answers (and, in this build, only library-level cases run): a wrong answer on another net, query or option combination passes them."

P("C01", "Reachability and safety answers are correct",
  "For every bounded Petri net (weighted and inhibitor arcs included) and every EF or AG query over place counts, fireability, deadlock and their boolean combinations, the answer printed is the one given by the token game: EF is satisfied exactly when some reachable marking satisfies the proposition, AG exactly when every one does. The answer is the same for every search strategy, random seed, partial-order reduction and structural reduction setting.",
  ["inputs", "configurations"], "all bounded nets, all EF/AG queries, all search options", WHY,
  ["src/PetriEngine/Reachability/ReachabilitySearch.cpp", "include/PetriEngine/Reachability/ReachabilitySearch.h", "src/PetriEngine/SuccessorGenerator.cpp", "src/PetriEngine/ReducingSuccessorGenerator.cpp", "src/PetriEngine/Stubborn/", "src/PetriEngine/PQL/Evaluation.cpp", "src/PetriEngine/Structures/Queue.cpp", "src/main.cpp"],
  [("explicit search over encoded markings", "ReachabilitySearch.cpp"), ("stubborn sets", "Stubborn/ReachabilityStubbornSet.cpp"), ("query evaluation", "PQL/Evaluation.cpp")], NOTE)

P("C02", "State-space exploration visits exactly the reachable markings",
  "For every bounded Petri net, coloured ones included, full exploration (-e) reports exactly the number of reachable markings and arcs that the token game gives, the largest number of tokens any marking holds, the transitions that can fire at some point and the exact bound of every place, whichever search strategy is used. Markings are stored and compressed without loss: distinct markings are never confused and no marking is counted twice.",
  ["inputs", "configurations"], "all bounded nets, all search orders", WHY,
  ["src/PetriEngine/Structures/AlignedEncoder.cpp", "include/PetriEngine/Structures/StateSet.h", "src/PetriEngine/SuccessorGenerator.cpp", "src/PetriEngine/PetriNet.cpp", "src/PetriEngine/PetriNetBuilder.cpp", "src/PetriEngine/Structures/Queue.cpp", "src/PetriEngine/Structures/SearchStrategy.cpp"],
  [("token game on vectors", "SuccessorGenerator.cpp"), ("marking compression", "Structures/AlignedEncoder.cpp"), ("statistics of the state set", "Structures/StateSet.h")], NOTE)

P("C03", "CTL answers are correct",
  "For every bounded Petri net and every CTL query (EX, AX, EF, AF, EG, AG, EU, AU nested arbitrarily over place counts, fireability and deadlock), the answer printed is the one of standard CTL semantics over maximal paths of the reachability graph. It does not depend on the algorithm (local or certain-zero), the search strategy or the reduction settings.",
  ["inputs", "configurations"], "all bounded nets, all CTL formulas, all engine options", WHY,
  ["src/CTL/", "include/CTL/", "src/PetriEngine/PQL/CTLVisitor.cpp", "src/PetriEngine/PQL/PushNegation.cpp"],
  [("on-the-fly dependency graph", "src/CTL/PetriNets/OnTheFlyDG.cpp"), ("fixed-point algorithms", "src/CTL/Algorithm/")], NOTE,
  state=[("assignment of configurations", "ONE / ZERO / CZERO / UNKNOWN per (marking, subformula)", "include/CTL/DependencyGraph/Configuration.h")])

P("C04", "LTL answers are correct",
  "For every bounded Petri net and every LTL query (X, F, G, U nested arbitrarily, under A or E), the answer printed is the one of LTL semantics over maximal runs, where a run that ends in a deadlock repeats its last marking forever. It does not depend on the algorithm (nested depth-first search or Tarjan), partial-order reduction, automaton options, heuristics or structural reductions.",
  ["inputs", "configurations"], "all bounded nets, all LTL formulas, all engine options", WHY,
  ["src/LTL/", "include/LTL/", "src/PetriEngine/Stubborn/"],
  [("product construction and accepting-cycle search", "src/LTL/Algorithm/"), ("automaton-guided stubborn sets", "src/LTL/Stubborn/")], NOTE + " Spot is replaced by a stand-in translation from LTL to Buechi automata: Spot itself is not examined.")

P("C05", "Upper-bound answers are exact",
  "For every bounded Petri net and every set of places, the bound reported by an upper-bounds query is exactly the largest total number of tokens those places hold together in any reachable marking: never smaller, never larger. It does not depend on the search strategy, partial-order reduction, linear programming or structural reductions.",
  ["inputs", "configurations"], "all bounded nets, all place sets, all options", WHY,
  ["src/PetriEngine/PQL/Evaluation.cpp", "src/PetriEngine/Simplification/LinearPrograms.cpp", "src/PetriEngine/Reachability/ReachabilitySearch.cpp", "src/PetriEngine/Reachability/ResultPrinter.cpp"],
  [("running maximum over visited markings", "UnfoldedUpperBoundsCondition"), ("state-equation limit to stop early", "LinearPrograms.cpp")], NOTE)

P("C06", "Structural reductions never change an answer",
  "For every bounded Petri net and every query (reachability, deadlock, CTL, LTL, upper bounds), answering on the structurally reduced net gives the answer of the original net: for the default rules, for the boundedness-preserving rules and for every list of rules the user chooses (the unproved rule K excepted).",
  ["inputs", "configurations"], "all nets, queries and reduction rule lists", WHY,
  ["src/PetriEngine/Reducer.cpp", "include/PetriEngine/Reducer.h", "src/PetriEngine/PetriNetBuilder.cpp"],
  [("rules A to S with side conditions on the query", "Reducer.cpp"), ("query place analysis", "PQL/PlaceUseVisitor.cpp, PQL/PredicateCheckers.cpp")], NOTE)

P("C07", "Traces are genuine witnesses",
  "Whenever the program prints a trace (-t) for a reachability, safety or LTL answer, the trace is a genuine run: firing the listed transitions from the initial marking of the ORIGINAL net (with whatever was removed by structural reductions put back) is possible at every step with exactly the tokens the trace claims, and it ends in a marking that witnesses the answer; for LTL the marked loop closes (or the marked deadlock is one) and the infinite run it describes violates or satisfies the formula as claimed. Bindings and markings in traces of the explicit coloured engine, and unfolded transition names of coloured nets, are equally genuine.",
  ["inputs", "configurations", "histories"], "all bounded nets, all reachability and LTL queries with a witness, all reductions and engines", WHY,
  ["src/PetriEngine/Reducer.cpp", "src/PetriEngine/Reachability/ResultPrinter.cpp", "src/LTL/Algorithm/", "src/PetriEngine/TAR/TARReachability.cpp", "src/PetriEngine/ExplicitColored/Algorithms/", "include/PetriEngine/Structures/Queue.h"],
  [("parent pointers of the search", "Structures/StateSet.h"), ("re-insertion of agglomerated transitions", "Reducer.cpp postFire/extraConsume/initFire"), ("lasso reconstruction", "LTL/Algorithm/")], NOTE)

P("C10", "Trace abstraction refinement is sound",
  "For every Petri net without inhibitor arcs and every EF or AG query, when trace abstraction refinement (-tar) terminates with an answer, it is the answer of the token game, with and without structural reductions, query reduction and partial-order options; queries or nets it cannot handle are refused, not answered.",
  ["inputs", "configurations"], "all bounded nets without inhibitor arcs, all EF/AG queries", WHY,
  ["src/PetriEngine/TAR/", "include/PetriEngine/TAR/"],
  [("spurious-trace interpolants", "TAR/Solver.cpp, TAR/RangeContext.cpp, TAR/RangeEvalContext.cpp"), ("interpolant automata", "TAR/TraceSet.cpp"), ("refinement loop", "TAR/TARReachability.cpp")], NOTE + " Runs that do not terminate within 1.5 s give no observation.")

CNOTE = ("The coloured token game (sorts, variables, guards, arc expressions) is written down in TLA+ (spec/CPN.tla), evaluated by TLC over the "
         "complete state space of each generated coloured net, and compared with every answer the program gives. Bounded: random nets of up to "
         "~6 places and 5 transitions over small sorts with at most ~90 reachable markings. Trusted: the TLA+ semantics, TLC, and the stand-ins for ptrie and spot.")

P("C11", "Coloured nets are unfolded faithfully",
  "For every bounded coloured Petri net (enumerations, integer ranges, dot and product sorts; variables; guards with comparisons, successor and predecessor; arc expressions with tuples, all, addition, subtraction and multiplicities; inhibitor arcs) and every reachability, CTL, LTL or upper-bounds query on coloured places and transitions, the answer obtained by unfolding is that of the coloured token game: a place counts all its tokens, a transition is fireable when some binding is. It does not depend on the colour fixpoint, the colour partition, symmetric variables, the coloured reductions or the interval limits.",
  ["inputs", "configurations"], "all bounded coloured nets, all queries, all unfolding options", WHY,
  ["src/PetriEngine/Colored/", "include/PetriEngine/Colored/", "src/PetriNetParse/PNMLParser.cpp"],
  [("unfolding", "Colored/Unfolder.cpp"), ("colour fixpoint over intervals", "Colored/ForwardFixedPoint.cpp"), ("colour partition", "Colored/PartitionBuilder.cpp"), ("coloured reductions", "Colored/Reduction/")], CNOTE)

P("C12", "The explicit coloured engine answers correctly",
  "For every bounded coloured Petri net and every EF or AG query it accepts (comparisons of place counts, fireability, deadlock, and/or/not), the explicit coloured engine (-C) gives the answer of the coloured token game. It does not depend on the search strategy, the successor generator, the coloured reductions or the colour-ignorant preprocessing; what it does not support it refuses instead of answering.",
  ["inputs", "configurations"], "all bounded coloured nets, all queries the engine accepts, all its options", WHY,
  ["src/PetriEngine/ExplicitColored/", "include/PetriEngine/ExplicitColored/", "src/PetriEngine/Colored/PnmlWriter.cpp"],
  [("arc and guard compilation", "ExplicitColored/ArcCompiler.cpp, ExpressionCompilers/GuardCompiler.cpp"), ("binding enumeration", "ExplicitColored/SuccessorGenerator/"), ("colour-ignorant over-approximation", "ExplicitColored/ColorIgnorantPetriNetBuilder.cpp")], CNOTE)

P("C13", "Coloured reductions never change an answer",
  "For every bounded coloured Petri net and every query, applying the coloured structural reductions before unfolding (all of them, or any list the user chooses with -R 2) gives the answer of the original net.",
  ["inputs", "configurations"], "all coloured nets, all queries, all lists of coloured rules", WHY,
  ["src/PetriEngine/Colored/Reduction/", "include/PetriEngine/Colored/Reduction/"],
  [("pre-agglomeration, relevance, preemptive firing, redundant and parallel places, dead and parallel transitions", "Colored/Reduction/RedRule*.cpp")], CNOTE)

P("C20", "Written nets and queries mean the same",
  "Whatever verifypn writes for later use means what its input means: the simplified queries (--write-simplified, XML and binary), the unfolded net and queries of a coloured net, and the structurally reduced net with its queries can be read again, name every query that was asked for and not yet answered exactly once, and every written query has, on the written net, the answer of the original query on the original net (CTL, LTL, reachability and upper bounds). Asking the program itself about what it wrote gives the same answer.",
  ["inputs", "configurations", "histories"], "all bounded nets and coloured nets, all queries, all write options", WHY,
  ["src/PetriEngine/PQL/XMLPrinter.cpp", "src/PetriEngine/PQL/BinaryPrinter.cpp", "src/PetriParse/QueryBinaryParser.cpp", "src/PetriEngine/PetriNet.cpp", "src/PetriEngine/PQL/Expressions.cpp", "src/PetriEngine/PQL/Simplifier.cpp"],
  [("XML and binary query writers", "PQL/XMLPrinter.cpp, PQL/BinaryPrinter.cpp"), ("net writer", "PetriNet::toXML"), ("query reading", "QueryXMLParser.cpp, QueryBinaryParser.cpp")], NOTE + " The written XML is parsed by a parser of our own (vp/parse.py), so that a writer and a reader with the same mistake do not cancel out; the spec judges the parsed net and formula.")

P("C14", "A query means the same however it is written",
  "The formats of queries are different ways of writing the same thing: a reachability, CTL or LTL query has the same answer when written in XML with any combination of the elements that are equivalent (possibility / invariant / impossibility and EF / AG, implication, equivalence, exclusive disjunction, short and long names of the connectives, nested and flat conjunctions, comparisons turned around, integer sums, products and differences, several places in one tokens-count, white space and comments), in the text format, or in the binary format; that answer is the one of the formula's semantics on the token game.",
  ["inputs", "configurations"], "all bounded nets and coloured nets, all queries, all ways of writing them", WHY,
  ["src/PetriParse/QueryXMLParser.cpp", "src/PetriParse/QueryBinaryParser.cpp", "src/PetriEngine/PQL/PQLQueryParser.y", "src/PetriEngine/PQL/PQLQueryTokens.l", "src/PetriEngine/PQL/Expressions.cpp", "src/PetriEngine/PQL/PushNegation.cpp", "src/PetriEngine/PQL/BinaryPrinter.cpp"],
  [("XML, text and binary parsers", "QueryXMLParser.cpp, PQLQueryParser.y, QueryBinaryParser.cpp"), ("merging of comparisons, arithmetic normal form", "PQL/Expressions.cpp")], NOTE)

P("C15", "Global properties are answered correctly",
  "For every bounded net or coloured net: k-safe is answered TRUE exactly if no place ever holds more than k tokens, quasi-liveness exactly if every transition can be fired in some reachable marking, liveness exactly if every transition can become fireable again from every reachable marking, and stable-marking exactly if the number of tokens in some place never changes; for coloured nets a place counts all its tokens and a transition is fireable if one of its bindings is.",
  ["inputs", "configurations"], "all bounded nets and coloured nets", WHY,
  ["src/PetriEngine/PQL/Analyze.cpp", "src/PetriParse/QueryXMLParser.cpp", "src/PetriEngine/PQL/PushNegation.cpp"],
  [("expansion into CTL after unfolding", "PQL/Analyze.cpp")], NOTE)

P("C21", "Queries asked together are answered as if asked alone",
  "When several queries are asked in one run (in any number, equal, complementary, or of different kinds: reachability and CTL together, LTL, bounds), each gets exactly one answer, and that answer is the one of the token game, as if it had been asked alone: what the search or the reductions find out or do for one query never leaks into the answer of another.",
  ["inputs", "configurations", "histories"], "all bounded nets and coloured nets, all lists of queries", WHY,
  ["src/main.cpp", "src/VerifyPN.cpp", "src/PetriEngine/Reachability/ReachabilitySearch.cpp", "src/PetriEngine/PQL/PrepareForReachability.cpp", "src/PetriEngine/Stubborn/ReachabilityStubbornSet.cpp"],
  [("one search for all reachability queries", "Reachability/ReachabilitySearch.cpp"), ("shared condition objects", "PQL/PrepareForReachability.cpp"), ("reductions keep what any query needs", "VerifyPN.cpp")], NOTE)


P("C22", "Controller synthesis decides who wins",
  "For every bounded Petri net whose transitions belong to a controller or an environment and every objective control AG phi or control AF phi: the answer is TRUE exactly when the controller can win. In each marking the environment may fire any of its enabled transitions and the controller has to offer one of its own if it has any enabled; the controller wins AG phi if it can keep phi true forever and AF phi if it can make every play reach phi (a play that gets stuck before does not). The answer does not depend on the search strategy, partial-order reduction, query simplification or other queries in the same run. The printed strategy (--strategy-output) only names enabled transitions of the controller, says what to do in every marking it leads to where the controller has a move, lists each marking once, and never leads to a marking from which the controller does not win.",
  ["inputs", "configurations"], "all bounded game nets, all AG/AF objectives, all search options", WHY,
  ["src/PetriEngine/Synthesis/", "include/PetriEngine/Synthesis/", "src/PetriEngine/PetriNetBuilder.cpp", "src/main.cpp"],
  [("backward propagation on the explored game graph", "Synthesis/SimpleSynthesis.cpp"), ("stubborn sets for games", "Synthesis/GameStubbornSet.cpp"), ("interval analysis of the objective", "Synthesis/IntervalVisitor.h"), ("ownership of transitions", "PetriNetBuilder::makePetriNet")], NOTE + " spec/Game.tla gives the winning regions as fixed points. Printed AF strategies list every choice that keeps the controller winning; that they make progress is not claimed.")

P("C18", "A token bound limits exploration and nothing else",
  "For every Petri net, bounded or not, a search with a token bound (-k K, without reductions) terminates and answers for exactly the markings reached without ever entering one that holds more than K tokens in total: an EF query is satisfied exactly when one of them satisfies the proposition, an AG query exactly when all do, and an upper-bounds query reports the largest count among them. No marking within the bound is lost and none beyond it is counted, whichever search strategy is used.",
  ["inputs", "configurations"], "all nets (also unbounded ones), all bounds, all EF/AG and upper-bounds queries, all search orders", WHY,
  ["include/PetriEngine/Structures/StateSet.h", "src/PetriEngine/Structures/AlignedEncoder.cpp", "include/PetriEngine/Reachability/ReachabilitySearch.h", "src/PetriEngine/options.cpp"],
  [("bound test when a marking is stored", "Structures/StateSet.h"), ("encoding sized by the bound", "Structures/AlignedEncoder.cpp")], NOTE + " The specification cuts the marking graph at the bound (PTNet!GraphK).")

P("C24", "HyperLTL answers are correct",
  "For every bounded Petri net and every HyperLTL query that quantifies universally (or existentially) over one or more named paths and whose atoms are scoped to those paths (a scope may enclose an integer expression, a comparison, fireability, deadlock or a larger formula), the answer is the one of the semantics: the quantified runs move in lockstep, a run that is stuck repeats its last marking, and the formula is evaluated over the tuple of runs, each scoped atom in the marking of its own path. It does not depend on structural or query reduction or automaton options.",
  ["inputs", "configurations"], "all bounded nets, all HyperLTL formulas with one kind of quantifier, all options the engine accepts for them", WHY,
  ["src/LTL/SuccessorGeneration/CompoundGenerator.cpp", "include/LTL/SuccessorGeneration/CompoundGenerator.h", "include/LTL/Structures/CompoundStateSet.h", "src/LTL/Algorithm/NestedDepthFirstSearch.cpp", "src/PetriEngine/PQL/Evaluation.cpp", "src/PetriParse/QueryXMLParser.cpp", "src/VerifyPN.cpp", "src/main.cpp"],
  [("enumeration of joint moves", "CompoundGenerator.cpp"), ("evaluation in the marking of a path", "PQL/Evaluation.cpp")], NOTE + " spec/Hyper.tla builds the lockstep product of the marking graph with itself and reuses the LTL semantics on it. At most 3 paths.")

P("C26", "A net means the same however it is written",
  "The answers to queries and the size of the state space depend only on the net a PNML file describes, not on how it is written: the order of places, transitions and arcs, their nesting in pages, markings and weights given by attribute, text or value element or left out, the different elements for input, output, inhibitor and transport arcs, a weight spread over several arcs between the same nodes, annotations (names, graphics, tool-specific parts, comments), white space, escaped characters in identifiers, and for coloured nets the order of declarations, the short and long names of guard operators and inscriptions with or without text.",
  ["inputs"], "all bounded nets and coloured nets, all ways of writing them that the parser accepts", WHY,
  ["src/PetriParse/PNMLParser.cpp", "include/PetriParse/PNMLParser.h", "src/PetriEngine/PetriNetBuilder.cpp", "src/PetriEngine/Colored/ColoredPetriNetBuilder.cpp"],
  [("PNML parser", "PNMLParser.cpp"), ("adding arcs and places", "PetriNetBuilder.cpp")], NOTE + " The net is generated first and written in several ways by vp/writing.py; the specification judges the net itself.")
