From c399155fd8aaeaf462e5b1b13f301ac9dea74416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:01 +0000
Subject: [PATCH 01/66] fix: fire transitions in nets without places (successor
 generator skipped them all)

---
 include/PetriEngine/SuccessorGenerator.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/PetriEngine/SuccessorGenerator.h b/include/PetriEngine/SuccessorGenerator.h
index 4e8b934..763bbc3 100644
--- a/include/PetriEngine/SuccessorGenerator.h
+++ b/include/PetriEngine/SuccessorGenerator.h
@@ -85,6 +85,17 @@ protected:
 
     template<typename T>
     bool _next(Structures::State& write, T&& predicate) {
+        if (_net._nplaces == 0) {
+            // without places every transition is an orphan (and enabled)
+            if (_suc_tcounter == std::numeric_limits<uint32_t>::max())
+                _suc_tcounter = 0;
+            for (; _suc_tcounter < _net._ntransitions; ++_suc_tcounter) {
+                if (!predicate(_suc_tcounter)) continue;
+                _fire(write, _suc_tcounter); // <-- also updated _suc_tcounter
+                return true;
+            }
+            return false;
+        }
         for (; _suc_pcounter < _net._nplaces; ++_suc_pcounter) {
             // orphans are currently under "place 0" as a special case
             if (_suc_pcounter == 0 || (*_parent).marking()[_suc_pcounter] > 0) {
-- 
2.43.0


From 4c62d03894fb649b43b5c44f857ddb962b2a0e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:01 +0000
Subject: [PATCH 02/66] fix: do not assert on products over sums in commutative
 expressions

---
 src/PetriEngine/PQL/Expressions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PetriEngine/PQL/Expressions.cpp b/src/PetriEngine/PQL/Expressions.cpp
index 8611cde..234932b 100644
--- a/src/PetriEngine/PQL/Expressions.cpp
+++ b/src/PetriEngine/PQL/Expressions.cpp
@@ -642,7 +642,7 @@ namespace PetriEngine {
                     _exprs.insert(_exprs.end(), c->_exprs.begin(), c->_exprs.end());
                     _ids.insert(_ids.end(), c->_ids.begin(), c->_ids.end());
                 } else {
-                    assert(e->type() != type_id<PlusExpr>());
+                    assert(e->type() != type());
                     _exprs.emplace_back(e);
                 }
             } else {
-- 
2.43.0


From ef3707de21356d76376eea81613d8a9f9ace540e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:01 +0000
Subject: [PATCH 03/66] fix: set the satisfaction flag of shallow conditions
 when evaluating for stubborn sets

---
 src/PetriEngine/PQL/Evaluation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PetriEngine/PQL/Evaluation.cpp b/src/PetriEngine/PQL/Evaluation.cpp
index 014245f..b3467b1 100644
--- a/src/PetriEngine/PQL/Evaluation.cpp
+++ b/src/PetriEngine/PQL/Evaluation.cpp
@@ -457,6 +457,7 @@ namespace PetriEngine { namespace PQL {
 
     void EvaluateAndSetVisitor::_accept(ShallowCondition *element) {
         Visitor::visit(this, element->getCompiled());
+        element->setSatisfied(_return_value);
     }
 
     int64_t evaluate(Expr *element, const EvaluationContext &context) {
-- 
2.43.0


From 08195a54f0819dc5a61a9ad5c957d76c1c891959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:01 +0000
Subject: [PATCH 04/66] fix: automaton-guided LTL stubborn sets lost
 counter-examples with boolean guards

---
 .../Stubborn/InterestingTransitionVisitor.h   |  19 ++++
 src/LTL/Stubborn/SafeAutStubbornSet.cpp       |   5 +-
 .../Stubborn/InterestingTransitionVisitor.cpp | 106 ++++++++++--------
 3 files changed, 80 insertions(+), 50 deletions(-)

diff --git a/include/PetriEngine/Stubborn/InterestingTransitionVisitor.h b/include/PetriEngine/Stubborn/InterestingTransitionVisitor.h
index ac9c84b..9168d3d 100644
--- a/include/PetriEngine/Stubborn/InterestingTransitionVisitor.h
+++ b/include/PetriEngine/Stubborn/InterestingTransitionVisitor.h
@@ -196,6 +196,7 @@ namespace PetriEngine {
             void _accept(const PQL::SubtractExpr *element) override;
         };
 
+    protected:
         IncrVisitor incr;
         DecrVisitor decr;
     };
@@ -219,11 +220,29 @@ namespace PetriEngine {
         void negate_if_satisfied(const Condition *element);
     };
 
+    /**
+     * Marks every transition which, fired in *any* marking, may make some atom of the
+     * condition true. Transitions outside of this set preserve the negation of the condition
+     * no matter what is fired before or after them, and regardless of which sub-formulae
+     * hold in the current marking.
+     */
     class AutomatonInterestingTransitionVisitor : public InterestingTransitionVisitor {
     public:
         explicit AutomatonInterestingTransitionVisitor(StubbornSet &stubbornSet, bool closure) : InterestingTransitionVisitor(stubbornSet, closure) {}
 
     protected:
+        void _accept(const PQL::AndCondition *element) override;
+
+        void _accept(const PQL::OrCondition *element) override;
+
+        void _accept(const PQL::LessThanCondition *element) override;
+
+        void _accept(const PQL::LessThanOrEqualCondition *element) override;
+
+        void _accept(const PQL::EqualCondition *element) override;
+
+        void _accept(const PQL::NotEqualCondition *element) override;
+
         void _accept(const PQL::CompareConjunction *element) override;
     };
 }
diff --git a/src/LTL/Stubborn/SafeAutStubbornSet.cpp b/src/LTL/Stubborn/SafeAutStubbornSet.cpp
index 75cbcac..ead9d2c 100644
--- a/src/LTL/Stubborn/SafeAutStubbornSet.cpp
+++ b/src/LTL/Stubborn/SafeAutStubbornSet.cpp
@@ -37,13 +37,16 @@ namespace LTL {
             return true;
         }
 
-        InterestingLTLTransitionVisitor unsafe{*this, false};
+        AutomatonInterestingTransitionVisitor unsafe{*this, false};
         InterestingTransitionVisitor interesting{*this, false};
 
         PQL::EvaluationContext ctx((*_parent).marking(), &_net);
         PetriEngine::PQL::evaluateAndSet(_prog_cond.get(), ctx);
         PetriEngine::PQL::evaluateAndSet(_sink_cond.get(), ctx);
         PetriEngine::PQL::Visitor::visit(unsafe, _prog_cond);
+        unsafe.negate();
+        PetriEngine::PQL::Visitor::visit(unsafe, _prog_cond);
+        unsafe.negate();
         PetriEngine::PQL::Visitor::visit(unsafe, _sink_cond);
 
         //_ret_cond->evalAndSet(ctx);
diff --git a/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp b/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
index db53e6e..de54476 100644
--- a/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
+++ b/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
@@ -425,60 +425,68 @@ namespace PetriEngine {
             InterestingTransitionVisitor::_accept(element);
     }
 
+    void AutomatonInterestingTransitionVisitor::_accept(const PQL::AndCondition *element)
+    {
+        for (auto &c : *element) Visitor::visit(this, c);
+    }
+
+    void AutomatonInterestingTransitionVisitor::_accept(const PQL::OrCondition *element)
+    {
+        for (auto &c : *element) Visitor::visit(this, c);
+    }
+
+    void AutomatonInterestingTransitionVisitor::_accept(const PQL::LessThanCondition *element)
+    {
+        if (!negated) {               // less than
+            Visitor::visit(decr, element->getExpr1());
+            Visitor::visit(incr, element->getExpr2());
+        } else {                    // greater than or equal
+            Visitor::visit(incr, element->getExpr1());
+            Visitor::visit(decr, element->getExpr2());
+        }
+    }
+
+    void AutomatonInterestingTransitionVisitor::_accept(const PQL::LessThanOrEqualCondition *element)
+    {
+        if (!negated) {               // less than or equal
+            Visitor::visit(decr, element->getExpr1());
+            Visitor::visit(incr, element->getExpr2());
+        } else {                    // greater than
+            Visitor::visit(incr, element->getExpr1());
+            Visitor::visit(decr, element->getExpr2());
+        }
+    }
+
+    void AutomatonInterestingTransitionVisitor::_accept(const PQL::EqualCondition *element)
+    {
+        for (auto& e : {element->getExpr1(), element->getExpr2()}) {
+            Visitor::visit(incr, e);
+            Visitor::visit(decr, e);
+        }
+    }
+
+    void AutomatonInterestingTransitionVisitor::_accept(const PQL::NotEqualCondition *element)
+    {
+        for (auto& e : {element->getExpr1(), element->getExpr2()}) {
+            Visitor::visit(incr, e);
+            Visitor::visit(decr, e);
+        }
+    }
+
     void AutomatonInterestingTransitionVisitor::_accept(const PQL::CompareConjunction *element)
     {
         auto neg = negated != element->isNegated();
         for (auto &c : *element) {
-            int32_t cand = std::numeric_limits<int32_t>::max();
-            bool pre = false;
-            auto val = _stubborn.getParent()[c._place];
-            if (c._lower == c._upper) {
-                if (neg) {
-                    if (val != c._lower) continue;
-                    _stubborn.postsetOf(c._place, closure);
-                    _stubborn.presetOf(c._place, closure);
-                } else {
-                    if (val == c._lower) continue;
-                    if (val > c._lower) {
-                        cand = c._place;
-                        pre = false;
-                    } else {
-                        cand = c._place;
-                        pre = true;
-                    }
-                }
-            } else {
-                if (!neg) {
-                    if (val < c._lower && c._lower != 0) {
-                        assert(!neg);
-                        cand = c._place;
-                        pre = true;
-                    }
-
-                    if (val > c._upper && c._upper != std::numeric_limits<uint32_t>::max()) {
-                        assert(!neg);
-                        cand = c._place;
-                        pre = false;
-                    }
-                } else {
-                    if (val >= c._lower && c._lower != 0) {
-                        _stubborn.postsetOf(c._place, closure);
-                    }
-
-                    if (val <= c._upper && c._upper != std::numeric_limits<uint32_t>::max()) {
-                        _stubborn.presetOf(c._place, closure);
-                    }
-                }
+            if (c._lower != 0) {
+                // lower <= p becomes true by the preset of p, and false by the postset of p.
+                if (!neg) _stubborn.presetOf(c._place, closure);
+                else _stubborn.postsetOf(c._place, closure);
             }
-            if (cand != std::numeric_limits<int32_t>::max()) {
-                if (pre) {
-                    _stubborn.presetOf(cand, closure);
-                } else if (!pre) {
-                    _stubborn.postsetOf(cand, closure);
-                }
-                cand = std::numeric_limits<int32_t>::max();
+            if (c._upper != std::numeric_limits<uint32_t>::max()) {
+                // p <= upper becomes true by the postset of p, and false by the preset of p.
+                if (!neg) _stubborn.postsetOf(c._place, closure);
+                else _stubborn.presetOf(c._place, closure);
             }
         }
-
     }
-}
\ No newline at end of file
+}
-- 
2.43.0


From 9a84b01ca55c94e93c4d94a085fe216374ab8115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:01 +0000
Subject: [PATCH 05/66] fix: apply the cycle proviso of classic LTL stubborn
 sets (condition never matched)

---
 src/LTL/Algorithm/TarjanModelChecker.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LTL/Algorithm/TarjanModelChecker.cpp b/src/LTL/Algorithm/TarjanModelChecker.cpp
index dd0b1b5..50ebd0c 100644
--- a/src/LTL/Algorithm/TarjanModelChecker.cpp
+++ b/src/LTL/Algorithm/TarjanModelChecker.cpp
@@ -161,15 +161,15 @@ namespace LTL {
                 auto marking = StateSet::get_marking_id(stateid);
                 auto suc_pos = _chash[hash(marking, StateSet::get_buchi_state(stateid))];
                 while (suc_pos != std::numeric_limits<idx_t>::max() && cstack[suc_pos]._stateid != stateid) {
-                    if constexpr (std::is_same<SuccGen, SpoolingSuccessorGenerator>::value) {
+                    if constexpr (std::is_same<SuccGen, ProductSuccessorGenerator<SpoolingSuccessorGenerator>>::value) {
                         if (cstack[suc_pos]._dstack && StateSet::get_marking_id(cstack[suc_pos]._stateid) == marking) {
-                            successorGenerator->generate_all(&parent, dtop._sucinfo);
+                            successorGenerator.generate_all(&parent, dtop._sucinfo);
                         }
                     }
                     suc_pos = cstack[suc_pos]._next;
                 }
                 if (suc_pos != std::numeric_limits<idx_t>::max()) {
-                    if constexpr (std::is_same<SuccGen, SpoolingSuccessorGenerator>::value) {
+                    if constexpr (std::is_same<SuccGen, ProductSuccessorGenerator<SpoolingSuccessorGenerator>>::value) {
                         if (cstack[suc_pos]._dstack) {
                             successorGenerator.generate_all(&parent, dtop._sucinfo);
                         }
-- 
2.43.0


From a1fbe12d5d16a841ce8e6d1abe110cce98d22f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:01 +0000
Subject: [PATCH 06/66] fix: colour guards with nested not, or and with more
 than two operands

---
 src/PetriParse/PNMLParser.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/PetriParse/PNMLParser.cpp b/src/PetriParse/PNMLParser.cpp
index bc00dd6..9af4490 100644
--- a/src/PetriParse/PNMLParser.cpp
+++ b/src/PetriParse/PNMLParser.cpp
@@ -380,7 +380,7 @@ void PNMLParser::collectColorsInTuple(rapidxml::xml_node<>* element, std::vector
 
 GuardExpression_ptr PNMLParser::parseGuardExpression(rapidxml::xml_node<>* element, bool notFlag) {
     if (strcmp(element->name(), "not") == 0) {
-        return parseGuardExpression(element->first_node(), true);
+        return parseGuardExpression(element->first_node(), !notFlag);
     }
     else if (strcmp(element->name(), "subterm") == 0 || strcmp(element->name(), "structure") == 0) {
         return parseGuardExpression(element->first_node(), notFlag);
@@ -390,9 +390,17 @@ GuardExpression_ptr PNMLParser::parseGuardExpression(rapidxml::xml_node<>* eleme
         if (right == nullptr)
             return parseGuardExpression(left, notFlag);
         if (notFlag) {
-            return std::make_shared<OrExpression>(parseGuardExpression(left, true), parseGuardExpression(right, true));
+            auto parentOr = std::make_shared<OrExpression>(parseGuardExpression(left, true), parseGuardExpression(right, true));
+            for (auto it = right->next_sibling(); it; it = it->next_sibling()) {
+                parentOr = std::make_shared<OrExpression>(parentOr, parseGuardExpression(it, true));
+            }
+            return parentOr;
         } else {
-            return std::make_shared<AndExpression>(parseGuardExpression(left, false), parseGuardExpression(right, false));
+            auto parentAnd = std::make_shared<AndExpression>(parseGuardExpression(left, false), parseGuardExpression(right, false));
+            for (auto it = right->next_sibling(); it; it = it->next_sibling()) {
+                parentAnd = std::make_shared<AndExpression>(parentAnd, parseGuardExpression(it, false));
+            }
+            return parentAnd;
         }
     } else if (strcmp(element->name(), "or") == 0) {
         auto left = element->first_node();
-- 
2.43.0


From a69def96ccaafa5c775edcde1f40eae9927fa297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:48 +0000
Subject: [PATCH 07/66] fix: potency initialisation crashed on deadlock and
 trivial comparisons (null program collection)

---
 src/PetriEngine/PQL/PotencyVisitor.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PetriEngine/PQL/PotencyVisitor.cpp b/src/PetriEngine/PQL/PotencyVisitor.cpp
index 4f8cb16..ff08f49 100644
--- a/src/PetriEngine/PQL/PotencyVisitor.cpp
+++ b/src/PetriEngine/PQL/PotencyVisitor.cpp
@@ -206,7 +206,7 @@ namespace PetriEngine { namespace PQL {
         if (!_context.potencyTimeout() && m1.canAnalyze() && m2.canAnalyze())
         {
             if ((m1.isZero() && m2.isZero()) || m1.substrationIsZero(m2))
-                return;
+                RETURN(RetvalPot())
             else
             {
                 int constant = m2.constant() - m1.constant();
@@ -242,7 +242,7 @@ namespace PetriEngine { namespace PQL {
         if (!_context.potencyTimeout() && m1.canAnalyze() && m2.canAnalyze())
         {
             if ((m1.isZero() && m2.isZero()) || m1.substrationIsZero(m2))
-                return;
+                RETURN(RetvalPot())
             else
             {
                 int constant = m2.constant() - m1.constant();
@@ -273,13 +273,13 @@ namespace PetriEngine { namespace PQL {
 
     void PotencyVisitor::_accept(const DeadlockCondition *element)
     {
-        return;
+        RETURN(RetvalPot())
     }
 
     void PotencyVisitor::_accept(const CompareConjunction *element)
     {
         if (_context.potencyTimeout())
-            return;
+            RETURN(RetvalPot())
 
         std::vector<AbstractProgramCollection_ptr> lpsv;
         auto neg = _context.negated() != element->isNegated();
-- 
2.43.0


From b077f2a83e7ed518d8f80609ebd1d2fe4e000773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:31 +0000
Subject: [PATCH 08/66] fix: print upper bounds as integers (values of a
 million and more lost digits)

---
 src/PetriEngine/Reachability/ResultPrinter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PetriEngine/Reachability/ResultPrinter.cpp b/src/PetriEngine/Reachability/ResultPrinter.cpp
index 526d52b..bc4c3c8 100644
--- a/src/PetriEngine/Reachability/ResultPrinter.cpp
+++ b/src/PetriEngine/Reachability/ResultPrinter.cpp
@@ -3,6 +3,7 @@
 #include "PetriEngine/PetriNetBuilder.h"
 #include "PetriEngine/options.h"
 #include "PetriEngine/PQL/Expressions.h"
+#include <cmath>
 
 namespace PetriEngine {
     namespace Reachability {
@@ -102,7 +103,7 @@ namespace PetriEngine {
             }
             else if(bound)
             {
-                std::cout << ((PQL::UnfoldedUpperBoundsCondition*)bound)->bounds() << " " << techniques << printTechniques() << std::endl;
+                std::cout << std::llround(((PQL::UnfoldedUpperBoundsCondition*)bound)->bounds()) << " " << techniques << printTechniques() << std::endl;
                 std::cout << "Query index " << index << " was solved" << std::endl;
             }
             else if (retval == Satisfied) {
-- 
2.43.0


From 39b73c217e7dfc3cb866cf7a39ca6f3dc154a409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:24 +0000
Subject: [PATCH 09/66] fix: structural rule C treated an inhibitor arc as a
 consuming arc

---
 src/PetriEngine/Reducer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index e52c2e9..8ed2d5d 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -698,6 +698,12 @@ namespace PetriEngine {
                             const auto &p1Arc = getInArc(p1, tran);
                             const auto &p2Arc = getInArc(p2, tran);
 
+                            if (p1Arc->inhib) {
+                                // p1 does not bound how often p2t can drain p2
+                                ok = false;
+                                break;
+                            }
+
                             maxDrainRatio = std::max(maxDrainRatio, (double)p2Arc->weight / (double)p1Arc->weight);
                         }
 
-- 
2.43.0


From 003d33e83bfdfa295796f227cefc2ac2ea4c391c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:24 +0000
Subject: [PATCH 10/66] fix: classic LTL stubborn sets aborted on true/false in
 the formula

---
 include/LTL/Stubborn/VisibleTransitionVisitor.h | 2 ++
 src/LTL/Stubborn/VisibleTransitionVisitor.cpp   | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/include/LTL/Stubborn/VisibleTransitionVisitor.h b/include/LTL/Stubborn/VisibleTransitionVisitor.h
index 2929317..4f62f95 100644
--- a/include/LTL/Stubborn/VisibleTransitionVisitor.h
+++ b/include/LTL/Stubborn/VisibleTransitionVisitor.h
@@ -61,6 +61,8 @@ namespace LTL {
 
         void _accept(const PetriEngine::PQL::SubtractExpr *element) override;
 
+        void _accept(const PetriEngine::PQL::BooleanCondition *element) override;
+
         void _accept(const PetriEngine::PQL::ACondition *condition) override;
 
         void _accept(const PetriEngine::PQL::ECondition *condition) override;
diff --git a/src/LTL/Stubborn/VisibleTransitionVisitor.cpp b/src/LTL/Stubborn/VisibleTransitionVisitor.cpp
index 108669f..10e896f 100644
--- a/src/LTL/Stubborn/VisibleTransitionVisitor.cpp
+++ b/src/LTL/Stubborn/VisibleTransitionVisitor.cpp
@@ -104,6 +104,10 @@ namespace LTL {
         }
     }
 
+    void VisibleTransitionVisitor::_accept(const PetriEngine::PQL::BooleanCondition *element) {
+        // no places, thus nothing is visible
+    }
+
     void VisibleTransitionVisitor::_accept(const PetriEngine::PQL::ACondition *condition) {
         Visitor::visit(this, (*condition)[0]);
     }
-- 
2.43.0


From 29e76e33e6ef7c95ac46c6efd1b7687d9f34d98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:42 +0000
Subject: [PATCH 11/66] fix: structural rule H merged places of a loop that
 passes through a query place

---
 include/PetriEngine/Reducer.h |  2 +-
 src/PetriEngine/Reducer.cpp   | 22 +++++++++++++++++-----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/PetriEngine/Reducer.h b/include/PetriEngine/Reducer.h
index 9ab38ea..393175c 100644
--- a/include/PetriEngine/Reducer.h
+++ b/include/PetriEngine/Reducer.h
@@ -161,7 +161,7 @@ namespace PetriEngine {
         bool ReducebyRuleF(uint32_t* placeInQuery);
         bool ReducebyRuleFNO(uint32_t* placeInQuery);
         bool ReducebyRuleG(uint32_t* placeInQuery, bool remove_loops, bool remove_consumers);
-        bool ReducebyRuleH(uint32_t* placeInQuery, bool all_ltl);
+        bool ReducebyRuleH(uint32_t* placeInQuery, bool all_reach, bool all_ltl);
         bool ReducebyRuleJ(uint32_t* placeInQuery);
         bool ReducebyRuleK(uint32_t* placeInQuery, bool remove_consumers);
         bool ReducebyRuleL(uint32_t* placeInQuery);
diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index 8ed2d5d..78c44f9 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -1319,7 +1319,7 @@ namespace PetriEngine {
         return continueReductions;
     }
 
-    bool Reducer::ReducebyRuleH(uint32_t* placeInQuery, bool all_ltl)
+    bool Reducer::ReducebyRuleH(uint32_t* placeInQuery, bool all_reach, bool all_ltl)
     {
         if(reconstructTrace)
             return false; // we don't know where in the loop the tokens are needed
@@ -1356,7 +1356,7 @@ namespace PetriEngine {
             return 1;
         };
 
-        auto removeLoop = [this,placeInQuery,all_ltl](std::vector<uint32_t>& loop) -> bool {
+        auto removeLoop = [this,placeInQuery,all_reach,all_ltl](std::vector<uint32_t>& loop) -> bool {
             size_t i = 0;
             for(; i < loop.size(); ++i)
                 if(loop[i] == loop.back())
@@ -1366,6 +1366,18 @@ namespace PetriEngine {
             if(i == loop.size() - 1)
                 return false;
 
+            // two places of the loop can only be merged if a token moves between
+            // them unobserved; passing through a place of the query is visible to
+            // anything but reachability.
+            if(!all_reach)
+            {
+                for(size_t j = i; j < loop.size() - 1; ++j)
+                {
+                    if(placeInQuery[parent->_transitions[loop[j]].pre[0].place] > 0)
+                        return false;
+                }
+            }
+
             auto p1 = parent->_transitions[loop[i]].pre[0].place;
             bool removed = false;
 
@@ -2859,7 +2871,7 @@ namespace PetriEngine {
                 {
                     while(ReducebyRuleA(context.getQueryPlaceCount())) changed = true;
                     while(ReducebyRuleD(context.getQueryPlaceCount(), all_reach, false)) changed = true;
-                    while(ReducebyRuleH(context.getQueryPlaceCount(), all_ltl)) changed = true;
+                    while(ReducebyRuleH(context.getQueryPlaceCount(), all_reach, all_ltl)) changed = true;
                 }
             }
         }
@@ -2896,7 +2908,7 @@ restart:
                 if(!contains_next && !changed)
                 {
                     // Only try RuleH last. It can reduce applicability of other rules.
-                    while (ReducebyRuleH(context.getQueryPlaceCount(), all_ltl)) changed = true;
+                    while (ReducebyRuleH(context.getQueryPlaceCount(), all_reach, all_ltl)) changed = true;
                     while (ReducebyRuleS(context.getQueryPlaceCount(), all_reach, remove_loops, all_reach, explosion_limiter)) changed = true;
                     if(all_ltl && !changed) // ruleR is a last resort
                         changed = ReducebyRuleR(context.getQueryPlaceCount(), explosion_limiter);
@@ -2970,7 +2982,7 @@ restart:
                             while(ReducebyRuleG(context.getQueryPlaceCount(), remove_loops, all_reach)) changed = true;
                             break;
                         case 7:
-                            while(ReducebyRuleH(context.getQueryPlaceCount(), all_ltl)) changed = true;
+                            while(ReducebyRuleH(context.getQueryPlaceCount(), all_reach, all_ltl)) changed = true;
                             break;
                         case 8:
                             while(ReducebyRuleI(context.getQueryPlaceCount(), all_reach)) changed = true;
-- 
2.43.0


From 7d67f9a67d455dc0f0273c9a014a7c70f0058316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:32 +0000
Subject: [PATCH 12/66] fix: deadlock propositions are only stutter-insensitive
 directly below eventually (or negated below always)

---
 include/PetriEngine/PQL/PredicateCheckers.h | 27 +++++++++-
 src/PetriEngine/PQL/PredicateCheckers.cpp   | 55 +++++++++++++++++++--
 2 files changed, 77 insertions(+), 5 deletions(-)

diff --git a/include/PetriEngine/PQL/PredicateCheckers.h b/include/PetriEngine/PQL/PredicateCheckers.h
index 1935b10..e39051a 100644
--- a/include/PetriEngine/PQL/PredicateCheckers.h
+++ b/include/PetriEngine/PQL/PredicateCheckers.h
@@ -29,12 +29,37 @@ namespace PetriEngine { namespace PQL {
     bool hasNestedDeadlock(const Condition_ptr& condition);
 
 
+    // A deadlock is reached by reductions that skip invisible steps exactly when it
+    // was reachable before, so "eventually deadlock" and "always not deadlock" are
+    // fine; in all other positions (below and/or, until, "always deadlock", ...) the
+    // moment at which the deadlock becomes true matters.
     class NestedDeadlockVisitor : public AnyVisitor {
     private:
-        bool _nested_in_logical_condition = false;
+        enum class Context { Nested, Eventually, Always };
+        Context _context = Context::Nested;
+
+        void visitIn(Context context, const Condition_ptr& condition);
+
+        void _accept(const NotCondition* condition) override;
 
         void _accept(const LogicalCondition* condition) override;
 
+        void _accept(const SimpleQuantifierCondition* condition) override;
+
+        void _accept(const UntilCondition* condition) override;
+
+        void _accept(const EFCondition* condition) override;
+
+        void _accept(const AFCondition* condition) override;
+
+        void _accept(const FCondition* condition) override;
+
+        void _accept(const EGCondition* condition) override;
+
+        void _accept(const AGCondition* condition) override;
+
+        void _accept(const GCondition* condition) override;
+
         void _accept(const DeadlockCondition* condition) override;
     };
 
diff --git a/src/PetriEngine/PQL/PredicateCheckers.cpp b/src/PetriEngine/PQL/PredicateCheckers.cpp
index 6531bad..0e16734 100644
--- a/src/PetriEngine/PQL/PredicateCheckers.cpp
+++ b/src/PetriEngine/PQL/PredicateCheckers.cpp
@@ -35,15 +35,62 @@ namespace PetriEngine { namespace PQL {
         return v.getReturnValue();
     }
 
+    void NestedDeadlockVisitor::visitIn(Context context, const Condition_ptr& condition) {
+        auto outer = _context;
+        _context = context;
+        Visitor::visit(this, condition);
+        _context = outer;
+    }
+
+    void NestedDeadlockVisitor::_accept(const NotCondition *condition) {
+        auto context = _context;
+        if (_context == Context::Eventually)
+            context = Context::Always;
+        else if (_context == Context::Always)
+            context = Context::Eventually;
+        visitIn(context, condition->getCond());
+    }
+
     void NestedDeadlockVisitor::_accept(const LogicalCondition *condition) {
-        _nested_in_logical_condition = true;
         for (auto& c : condition->getOperands())
-            Visitor::visit(this, c);
-        _nested_in_logical_condition = false;
+            visitIn(Context::Nested, c);
+    }
+
+    void NestedDeadlockVisitor::_accept(const SimpleQuantifierCondition *condition) {
+        visitIn(Context::Nested, condition->getCond());
+    }
+
+    void NestedDeadlockVisitor::_accept(const UntilCondition *condition) {
+        visitIn(Context::Nested, (*condition)[0]);
+        visitIn(Context::Nested, (*condition)[1]);
+    }
+
+    void NestedDeadlockVisitor::_accept(const EFCondition *condition) {
+        visitIn(Context::Eventually, condition->getCond());
+    }
+
+    void NestedDeadlockVisitor::_accept(const AFCondition *condition) {
+        visitIn(Context::Eventually, condition->getCond());
+    }
+
+    void NestedDeadlockVisitor::_accept(const FCondition *condition) {
+        visitIn(Context::Eventually, condition->getCond());
+    }
+
+    void NestedDeadlockVisitor::_accept(const EGCondition *condition) {
+        visitIn(Context::Always, condition->getCond());
+    }
+
+    void NestedDeadlockVisitor::_accept(const AGCondition *condition) {
+        visitIn(Context::Always, condition->getCond());
+    }
+
+    void NestedDeadlockVisitor::_accept(const GCondition *condition) {
+        visitIn(Context::Always, condition->getCond());
     }
 
     void NestedDeadlockVisitor::_accept(const DeadlockCondition *condition) {
-        if (_nested_in_logical_condition)
+        if (_context != Context::Eventually)
             setConditionFound();
     }
 
-- 
2.43.0


From b4164b203b9cfac7dcdf7e0881352348f16d9b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:41 +0000
Subject: [PATCH 13/66] fix: structural rule E (user-chosen rules) removed the
 place but kept its dead transitions

---
 src/PetriEngine/Reducer.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index 78c44f9..24b0242 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -1012,12 +1012,6 @@ namespace PetriEngine {
 
             bool allArcsRemoved = initiallyDisabled.size() + inhibited.size() == place.consumers.size();
 
-            // Can the place be removed entirely?
-            if(allArcsRemoved && (placeInQuery[p] == 0)) {
-                skipPlace(p);
-                continue;
-            }
-
             for(uint32_t cons : initiallyDisabled) {
                 Transition &t = getTransition(cons);
                 const auto& in = getInArc(p, t);
@@ -1032,6 +1026,10 @@ namespace PetriEngine {
                 assert(in->weight > parent->initialMarking[p]);
                 skipInArc(p, tran);
             }
+
+            // Can the place be removed entirely?
+            if(allArcsRemoved && (placeInQuery[p] == 0))
+                skipPlace(p);
         }
         assert(consistent());
         return continueReductions;
-- 
2.43.0


From 1f246a7d6c2b8fa229632ac8b3c640da87dad791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:12 +0000
Subject: [PATCH 14/66] fix: skip all reduction rules that are unsound with
 NEXT when the user chooses the rules

---
 src/PetriEngine/Reducer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index 24b0242..88dbb9c 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -2929,7 +2929,9 @@ restart:
             const char* rnames = "ABCDEFGHIJKLMNOPQRS";
             for(int i = reduction.size() - 1; i >= 0; --i)
             {
-                if (contains_next && (reduction[i] == 2 || reduction[i] == 4 || reduction[i] == 5 || reduction[i] == 7 || reduction[i] == 8))
+                // the same rules as in the default mode are sound with NEXT: C, E, J, L, M, N, O, P
+                if (contains_next && (reduction[i] <= 1 || reduction[i] == 3 || (reduction[i] >= 5 && reduction[i] <= 8) ||
+                                      reduction[i] == 10 || reduction[i] >= 16))
                 {
                     std::cerr << "Skipping Rule" << rnames[reduction[i]] << " due to NEXT operator in proposition" << std::endl;
                     reduction.erase(reduction.begin() + i);
-- 
2.43.0


From 25b68b119703db69f57e19fa0bd477c4406dd61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:39 +0000
Subject: [PATCH 15/66] fix: structural rule S used a transition reference
 after the transition vector had grown

---
 src/PetriEngine/Reducer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index 88dbb9c..6726558 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -2721,7 +2721,7 @@ namespace PetriEngine {
 
                         uint32_t k = 1, w = 1;
                         if (!kIsAlwaysOne[n]) {
-                            w = getInArc(pid, consumer)->weight;
+                            w = getInArc(pid, getTransition(originalConsumers[n]))->weight; // earlier additions may have moved it
                             k = getOutArc(producer, pid)->weight / w;
                         }
 
-- 
2.43.0


From 11c67a3dcef97a2a708d237d9abe4ca1c7ddec01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:25 +0000
Subject: [PATCH 16/66] fix: comparisons of products cancelled common place
 factors, which is unsound when the place is empty

---
 src/PetriEngine/PQL/PushNegation.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/PetriEngine/PQL/PushNegation.cpp b/src/PetriEngine/PQL/PushNegation.cpp
index 197a4e0..ca4b20a 100644
--- a/src/PetriEngine/PQL/PushNegation.cpp
+++ b/src/PetriEngine/PQL/PushNegation.cpp
@@ -94,10 +94,6 @@ namespace PetriEngine { namespace PQL {
             if(auto p2 = std::dynamic_pointer_cast<PlusExpr>(_expr2))
                 remdup(p1, p2);
 
-        if(auto m1 = std::dynamic_pointer_cast<MultiplyExpr>(_expr1))
-            if(auto m2 = std::dynamic_pointer_cast<MultiplyExpr>(_expr2))
-                remdup(m1, m2);
-
         if(auto p1 = std::dynamic_pointer_cast<CommutativeExpr>(_expr1))
             if(auto p2 = std::dynamic_pointer_cast<CommutativeExpr>(_expr2))
                 return p1->_exprs.size() + p1->_ids.size() + p2->_exprs.size() + p2->_ids.size() == 0;
-- 
2.43.0


From dd77523692279a1adca9b8673a6712978fa60462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:17 +0000
Subject: [PATCH 17/66] fix: <all> over a product sort crashed the PNML parser

---
 src/PetriParse/PNMLParser.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/PetriParse/PNMLParser.cpp b/src/PetriParse/PNMLParser.cpp
index 9af4490..37ab854 100644
--- a/src/PetriParse/PNMLParser.cpp
+++ b/src/PetriParse/PNMLParser.cpp
@@ -528,8 +528,17 @@ std::vector<ColorExpression_ptr> PNMLParser::parseColorExpression(rapidxml::xml_
     } else if (strcmp(element->name(), "all") == 0) {
         auto* sort = parseUserSort(element);
         std::vector<ColorExpression_ptr> colors;
-        for(auto& c : *sort)
-            colors.emplace_back(std::make_shared<UserOperatorExpression>(&c));
+        for(size_t i = 0; i < sort->size(); ++i) {
+            auto& c = (*sort)[i];
+            if (c.isTuple()) { // products do not store their colors, they are computed from the index
+                std::vector<ColorExpression_ptr> constituents;
+                for(auto* tc : c.getTupleColors())
+                    constituents.emplace_back(std::make_shared<UserOperatorExpression>(tc));
+                colors.emplace_back(std::make_shared<TupleExpression>(std::move(constituents), colorTypes));
+            } else {
+                colors.emplace_back(std::make_shared<UserOperatorExpression>(&c));
+            }
+        }
         return colors;
     }
     throw base_error("Unhandled color type");
-- 
2.43.0


From 367754a6a46bed2fa22b812f3c79ed66ef42a478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:17 +0000
Subject: [PATCH 18/66] fix: unfolding lost the names of transitions without
 bindings and counted inhibited places twice in queries

---
 src/PetriEngine/Colored/Unfolder.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/PetriEngine/Colored/Unfolder.cpp b/src/PetriEngine/Colored/Unfolder.cpp
index 09e3f70..2ee0c05 100644
--- a/src/PetriEngine/Colored/Unfolder.cpp
+++ b/src/PetriEngine/Colored/Unfolder.cpp
@@ -169,6 +169,8 @@ namespace PetriEngine {
                     _pttransitionnames[transition.name] = std::vector<shared_const_string>();
                 }
             } else {
+                // transitions without valid bindings can still occur in queries
+                _pttransitionnames[transition.name] = std::vector<shared_const_string>();
                 NaiveBindingGenerator gen(transition, _builder.colors());
                 size_t i = 0;
                 for (const auto &b : gen) {
@@ -201,9 +203,6 @@ namespace PetriEngine {
                         const PetriEngine::Colored::Place& place = _builder.places()[inhibArc.place];
                         auto sumPlaceName = std::make_shared<const_string>(*place.name + "Sum");
                         ptBuilder.addPlace(sumPlaceName, place.marking.size(), place._x + 30, place._y - 30);
-                        if (_ptplacenames.count(place.name) <= 0) {
-                            _ptplacenames[place.name][place.type->size()] = sumPlaceName;
-                        }
                         placeName = _sumPlacesNames[inhibArc.place] = std::move(sumPlaceName);
                     }
                     ptBuilder.addInputArc(placeName, newname, true, inhibArc.inhib_weight);
-- 
2.43.0


From 929a47389fc24d926e1e8bcfa800f1efb37ad4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:17 +0000
Subject: [PATCH 19/66] fix: variable modifiers were attributed to the wrong
 side of sums on arcs

---
 include/PetriEngine/Colored/VariableVisitor.h | 91 ++++---------------
 1 file changed, 17 insertions(+), 74 deletions(-)

diff --git a/include/PetriEngine/Colored/VariableVisitor.h b/include/PetriEngine/Colored/VariableVisitor.h
index ec4047c..43d3422 100644
--- a/include/PetriEngine/Colored/VariableVisitor.h
+++ b/include/PetriEngine/Colored/VariableVisitor.h
@@ -29,8 +29,6 @@
 #ifndef VARIABLESVISITOR_H
 #define VARIABLESVISITOR_H
 
-#include <stack>
-
 #include "Expressions.h"
 #include "Colors.h"
 
@@ -40,6 +38,7 @@ namespace PetriEngine {
         class VariableVisitor : public ColorExpressionVisitor {
             uint32_t _index = 0;
             uint32_t _tupleIndex = 0;
+            size_t _side = 0; // the side (number-of constituent) of the arc expression we are in, see ArcIntervalVisitor
             std::set<const Colored::Variable*>& _variables;
             std::unordered_map<uint32_t, std::vector<const Colored::ColorExpression*>>& _tuples;
             PositionVariableMap& _varPositions;
@@ -65,23 +64,10 @@ namespace PetriEngine {
                 if(_tupleIndex > 0){
                     _tuples[_tupleIndex].emplace_back(e);
                 }
-                if(_varModifiers.count(e->variable()) == 0){
-                    std::vector<std::unordered_map<uint32_t, int32_t>> newVec;
-
-                    for(auto pair : _varModifiers){
-                        for(uint32_t i = 0; i < pair.second.size()-1; i++){
-                            std::unordered_map<uint32_t, int32_t> emptyMap;
-                            newVec.push_back(emptyMap);
-                        }
-                        break;
-                    }
-                    std::unordered_map<uint32_t, int32_t> newMap;
-                    newMap[_index] = 0;
-                    newVec.push_back(newMap);
-                    _varModifiers[e->variable()] = newVec;
-                } else {
-                    _varModifiers[e->variable()].back()[_index] = 0;
-                }
+                auto& modifiers = _varModifiers[e->variable()];
+                if(modifiers.size() <= _side)
+                    modifiers.resize(_side + 1);
+                modifiers[_side][_index] = 0;
             }
 
             virtual void accept(const UserOperatorExpression* e)
@@ -101,7 +87,9 @@ namespace PetriEngine {
                 auto indexBefore = _index;
                 e->child()->visit(*this);
                 for(auto& varModifierPair : _varModifiers){
-                    for(auto& idModPair : varModifierPair.second.back()){
+                    if(varModifierPair.second.size() <= _side)
+                        continue; // the variable is not on this side
+                    for(auto& idModPair : varModifierPair.second[_side]){
                         if(idModPair.first <= _index && idModPair.first >= indexBefore){
                             --idModPair.second;
                         }
@@ -119,7 +107,9 @@ namespace PetriEngine {
                 auto indexBefore = _index;
                 e->child()->visit(*this);
                 for(auto& varModifierPair : _varModifiers){
-                    for(auto& idModPair : varModifierPair.second.back()){
+                    if(varModifierPair.second.size() <= _side)
+                        continue; // the variable is not on this side
+                    for(auto& idModPair : varModifierPair.second[_side]){
                         if(idModPair.first <= _index && idModPair.first >= indexBefore){
                             ++idModPair.second;
                         }
@@ -203,52 +193,25 @@ namespace PetriEngine {
                     _index = 0;
                     e->visit(*this);
                 }
+                ++_side;
             }
 
             virtual void accept(const AddExpression* add)
             {
                 for (const auto& elem : *add) {
-                    for (auto& pair : _varModifiers) {
-                        pair.second.emplace_back();
-                    }
-                    
                     _index = 0;
                     elem->visit(*this);
                 }
-
-                if (add->back()->is_number_of()) {
-                    const auto& numberOfExpr = std::static_pointer_cast<const NumberOfExpression>(add->back());
-                    if (is_last_variable_expr(*numberOfExpr->back())) {
-                        for (auto& pair : _varModifiers) {
-                            pair.second.emplace_back();
-                        }
-                    }
-                }
             }
 
             virtual void accept(const SubtractExpression* sub)
             {
-                for (auto& pair : _varModifiers) {
-                    pair.second.emplace_back();
-                }
                 _index = 0;
                 (*sub)[0]->visit(*this);
                 //We ignore the restrictions imposed by the subtraction for now
                 if(_include_subtracts){
-                    for (auto& pair : _varModifiers) {
-                        pair.second.emplace_back();
-                    }
                     _index = 0;
                     (*sub)[1]->visit(*this);
-
-                    if ((*sub)[1]->is_number_of()) {
-                        const auto& numberOfExpr = std::static_pointer_cast<const NumberOfExpression>((*sub)[1]);
-                        if (is_last_variable_expr(*numberOfExpr->back())) {
-                            for (auto& pair : _varModifiers) {
-                                pair.second.emplace_back();
-                            }
-                        }
-                    }
                 }
             }
 
@@ -261,6 +224,11 @@ namespace PetriEngine {
             static inline void get_variables(Expression& e, std::set<const Colored::Variable*>& variables, PositionVariableMap& varPositions, VariableModifierMap& varModifierMap, std::unordered_map<uint32_t, std::vector<const Colored::ColorExpression*>>& tuples, bool includeSubtracts) {
                 VariableVisitor v(variables, varPositions, varModifierMap, tuples, includeSubtracts);
                 e.visit(v);
+                //every variable has an entry for every side
+                for (auto& pair : varModifierMap) {
+                    if (pair.second.size() < v._side)
+                        pair.second.resize(v._side);
+                }
             }
 
             static inline void get_variables(Expression& e, std::set<const Colored::Variable*>& variables, PositionVariableMap& varPositions, VariableModifierMap& varModifierMap, bool includeSubtracts) {
@@ -289,31 +257,6 @@ namespace PetriEngine {
                 get_variables(e, variables, varPositions, varModifierMap, tuples, true);
             }
 
-        private:
-            bool is_last_variable_expr(const ColorExpression& expr) const {
-                std::stack<const ColorExpression*> stack;
-                stack.push(&expr);
-
-                while (!stack.empty()) {
-                    const auto* currentExpr = stack.top();
-                    stack.pop();
-
-                    if (currentExpr->is_variable()) {
-                        return true;
-                    } else if (currentExpr->is_predecessor()) {
-                        stack.push(static_cast<const PredecessorExpression*>(currentExpr)->child().get());
-                    } else if (currentExpr->is_successor()) {
-                        stack.push(static_cast<const SuccessorExpression*>(currentExpr)->child().get());
-                    } else if (currentExpr->is_tuple()) {
-                        const auto* tupleExpr = static_cast<const TupleExpression*>(currentExpr);
-                        for (const auto& tupleElem : *tupleExpr) {
-                            stack.push(tupleElem.get());
-                        }
-                    }
-                }
-
-                return false;
-            }
         };
     }
 }
-- 
2.43.0


From a4aa2ca72d84eebb1979a995c5dd089f1064c5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:17 +0000
Subject: [PATCH 20/66] fix: constants were mapped to their equivalence class
 before successor and subtraction were applied

---
 src/PetriEngine/Colored/EvaluationVisitor.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/PetriEngine/Colored/EvaluationVisitor.cpp b/src/PetriEngine/Colored/EvaluationVisitor.cpp
index b657840..815bca1 100644
--- a/src/PetriEngine/Colored/EvaluationVisitor.cpp
+++ b/src/PetriEngine/Colored/EvaluationVisitor.cpp
@@ -17,15 +17,9 @@ namespace PetriEngine {
         }
 
         void EvaluationVisitor::accept(const UserOperatorExpression* e) {
-            if(_context.placePartition.getEquivalenceClasses().empty()){
-                _cres = e->user_operator();
-            } else {
-                std::vector<uint32_t> tupleIds;
-                e->user_operator()->getTupleId(tupleIds);
-
-                _context.placePartition.applyPartition(tupleIds);
-                _cres = e->user_operator()->getColorType()->getColor(tupleIds);
-            }
+            // the partition of the place is applied to the colors of the result (see Unfolder),
+            // the constant can be an operand of successor, predecessor, a tuple or a subtraction
+            _cres = e->user_operator();
         }
 
         void EvaluationVisitor::accept(const SuccessorExpression* e) {
-- 
2.43.0


From 4b7d4c9cf6640442be6d9c5de94e1bbbad9bf077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:17 +0000
Subject: [PATCH 21/66] fix: variables found on output arcs only were bound to
 too few colors (or aborted) with a color partition

---
 src/PetriEngine/Colored/ForwardFixedPoint.cpp | 47 ++++---------------
 1 file changed, 9 insertions(+), 38 deletions(-)

diff --git a/src/PetriEngine/Colored/ForwardFixedPoint.cpp b/src/PetriEngine/Colored/ForwardFixedPoint.cpp
index 28af9b4..0f9e031 100644
--- a/src/PetriEngine/Colored/ForwardFixedPoint.cpp
+++ b/src/PetriEngine/Colored/ForwardFixedPoint.cpp
@@ -302,44 +302,15 @@ namespace PetriEngine {
                     transitionHasVarOutArcs = true;
                 }
 
-
-
-                //Apply partitioning to unbound outgoing variables such that
-                // bindings are only created for colors used in the rest of the net
-                if (_partition.computed() && !_partition.partition()[arc.place].isDiagonal()) {
-                    int i = 0;
-                    for (auto* outVar : variables) {
-                        for (auto& varMap : _transition_variable_maps[transition_id]) {
-                            if (varMap.count(outVar) == 0) {
-                                Colored::interval_vector_t varIntervalTuple;
-                                for (const auto& EqClass : _partition.partition()[arc.place].getEquivalenceClasses()) {
-                                    interval_t ci;
-                                    // TODO: this looks odd. Why are we only using the last of the intervals?
-                                    auto canonical = EqClass.intervals().back().getCanonicalInterval();
-                                    for(size_t n = 0; n < outVar->colorType->productSize(); ++n)
-                                    {
-                                        ci.addRange(canonical[i + n]);
-                                    }
-                                    varIntervalTuple.addInterval(ci);
-                                }
-                                assert(outVar->colorType->productSize() == varIntervalTuple.size());
-                                varIntervalTuple.simplify();
-                                varMap[outVar] = std::move(varIntervalTuple);
-                            }
-                        }
-                        i += outVar->colorType->productSize();
-                    }
-                } else {
-                    // Else if partitioning was not computed or diagonal
-                    // and there is a varaible which was not found on an input arc or in the guard,
-                    // we give it the full interval
-                    for (auto* var : variables) {
-                        for (auto& varmap : _transition_variable_maps[transition_id]) {
-                            if (varmap.count(var) == 0) {
-                                Colored::interval_vector_t intervalTuple;
-                                intervalTuple.addInterval(var->colorType->getFullInterval());
-                                varmap[var] = std::move(intervalTuple);
-                            }
+                //A variable which was not found on an input arc or in the guard can take any color.
+                //(it can occur several times, modified and on several arcs, so the partition of this place
+                //alone does not tell which of its colors are interchangeable)
+                for (auto* var : variables) {
+                    for (auto& varmap : _transition_variable_maps[transition_id]) {
+                        if (varmap.count(var) == 0) {
+                            Colored::interval_vector_t intervalTuple;
+                            intervalTuple.addInterval(var->colorType->getFullInterval());
+                            varmap[var] = std::move(intervalTuple);
                         }
                     }
                 }
-- 
2.43.0


From 77525569f0f4dfffd4475b690721f30ea2e3c1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:17 +0000
Subject: [PATCH 22/66] fix: guards comparing a variable with itself, ordering
 modified variables or with != on overlapping intervals lost bindings

---
 src/PetriEngine/Colored/GuardRestrictor.cpp | 50 ++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/src/PetriEngine/Colored/GuardRestrictor.cpp b/src/PetriEngine/Colored/GuardRestrictor.cpp
index 06954fa..ef3aa8b 100644
--- a/src/PetriEngine/Colored/GuardRestrictor.cpp
+++ b/src/PetriEngine/Colored/GuardRestrictor.cpp
@@ -34,6 +34,41 @@ namespace PetriEngine{
             return modifier;
         }
 
+        //Intervals cannot express the restriction imposed by comparing a variable with itself (e.g. x != x++), nor,
+        //as successor and predecessor wrap around, by ordering a modified variable (e.g. x++ < y).
+        //In these cases no restriction is imposed, and the variables are diagonal as every color matters.
+        static bool restrictable(const VariableModifierMap &varModifierMapL,
+                        const VariableModifierMap &varModifierMapR,
+                        std::set<const Colored::Variable*> &diagonalVars, bool ordering) {
+            bool res = true;
+            for(const auto &varModifier : varModifierMapL){
+                if(varModifierMapR.count(varModifier.first) > 0){
+                    res = false;
+                }
+            }
+            if(ordering){
+                for(const auto* map : {&varModifierMapL, &varModifierMapR}){
+                    for(const auto &varModifier : *map){
+                        for(const auto &side : varModifier.second){
+                            for(const auto &positionModifier : side){
+                                if(positionModifier.second != 0){
+                                    res = false;
+                                }
+                            }
+                        }
+                    }
+                }
+            }
+            if(!res){
+                for(const auto* map : {&varModifierMapL, &varModifierMapR}){
+                    for(const auto &varModifier : *map){
+                        diagonalVars.insert(varModifier.first);
+                    }
+                }
+            }
+            return res;
+        }
+
         interval_t GuardRestrictor::getIntervalFromIds(const std::vector<uint32_t> &idVec, uint32_t ctSize, int32_t modifier) {
             interval_t interval;
             for(auto id : idVec){
@@ -315,6 +350,10 @@ namespace PetriEngine{
                             std::set<const Colored::Variable*> &diagonalVars,
                             bool lessthan, bool strict) {
 
+            if(!restrictable(varModifierMapL, varModifierMapR, diagonalVars, true)){
+                return;
+            }
+
             for(const auto &varPositionPair : varPositionsL){
                 uint32_t index = varPositionPair.first;
                 if(varPositionsR.count(index) > 0){
@@ -346,6 +385,10 @@ namespace PetriEngine{
                             const std::unordered_map<uint32_t, const Color*> &constantMapL,
                             const std::unordered_map<uint32_t, const Color*> &constantMapR,
                             std::set<const Colored::Variable*> &diagonalVars) {
+            if(!restrictable(varModifierMapL, varModifierMapR, diagonalVars, false)){
+                return;
+            }
+
             for(const auto& varPositionPair : varPositionsL){
                 uint32_t index = varPositionPair.first;
                 if(varPositionsR.count(index)){
@@ -375,6 +418,10 @@ namespace PetriEngine{
                             const std::unordered_map<uint32_t, const Color*> &constantMapL,
                             const std::unordered_map<uint32_t, const Color*> &constantMapR,
                             std::set<const Colored::Variable*> &diagonalVars) {
+            if(!restrictable(varModifierMapL, varModifierMapR, diagonalVars, false)){
+                return;
+            }
+
             auto variableMapCopy = variableMap;
             restrictEquality(variableMap, varModifierMapL, varModifierMapR, varPositionsL, varPositionsR, constantMapL, constantMapR, diagonalVars);
 
@@ -424,7 +471,8 @@ namespace PetriEngine{
             if((leftColorsBefore > 1 && rightColorsBefore > 1) || leftColorsBefore == 0 || rightColorsBefore == 0){
                 //If both variables have more than one color in their interval we cannot restrict the intervals
                 //and if either side did not have any colors the varmap is not valid.
-                return;
+                variableMap[varMapIndex][var1] = variableMapCopy[varMapIndex].find(var1)->second;
+                variableMap[varMapIndex][var2] = variableMapCopy[varMapIndex].find(var2)->second;
             } else if (leftColorsBefore == 1 && rightColorsBefore == 1){
                 //if we are comparing single colors and there is an interval after equality
                 //it means the colors were equal so no interval can be kept for inequality.
-- 
2.43.0


From b9d16901b9209c550eb37c0cd375719090680c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:17 +0000
Subject: [PATCH 23/66] fix: colored dead-transition rule removed a place that
 still had consumers

---
 src/PetriEngine/Colored/Reduction/RedRuleDeadTransitions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PetriEngine/Colored/Reduction/RedRuleDeadTransitions.cpp b/src/PetriEngine/Colored/Reduction/RedRuleDeadTransitions.cpp
index 3151304..1feed28 100644
--- a/src/PetriEngine/Colored/Reduction/RedRuleDeadTransitions.cpp
+++ b/src/PetriEngine/Colored/Reduction/RedRuleDeadTransitions.cpp
@@ -88,7 +88,7 @@ namespace PetriEngine::Colored::Reduction {
 
             if (!ok || notenabled.empty()) continue;
 
-            bool skipplace = (notenabled.size() == place._pre.size() && !inQuery.isPlaceUsed(p));
+            bool skipplace = (notenabled.size() == place._post.size() && !inQuery.isPlaceUsed(p));
 
             for (uint32_t cons: notenabled) {
                 if (inQuery.isTransitionUsed(cons))
-- 
2.43.0


From c36b34c7554185da3754729982ab11f6d390062e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:17 +0000
Subject: [PATCH 24/66] fix: color partitioning merged colors that multi-token
 arcs and shared variables distinguish, and did not terminate on cyclic nets

---
 .../PetriEngine/Colored/PartitionBuilder.h    | 12 ++--
 src/PetriEngine/Colored/PartitionBuilder.cpp  | 60 +++++++++++--------
 2 files changed, 44 insertions(+), 28 deletions(-)

diff --git a/include/PetriEngine/Colored/PartitionBuilder.h b/include/PetriEngine/Colored/PartitionBuilder.h
index c4de60d..b3db903 100644
--- a/include/PetriEngine/Colored/PartitionBuilder.h
+++ b/include/PetriEngine/Colored/PartitionBuilder.h
@@ -49,8 +49,12 @@ namespace PetriEngine {
                 double _time = 0;
                 const std::vector<Colored::ColorFixpoint> *_fixed_point = nullptr;
 
+                using VariableOccurrences = std::vector<std::pair<uint32_t, const Colored::Variable*>>;
+
                 void init();
 
+                static VariableOccurrences occurrences(const VariableModifierMap &varModifierMap);
+
                 bool splitPartition(EquivalenceVec equivalenceVec, uint32_t placeId);
 
                 void handleTransition(uint32_t transitionId, uint32_t postPlaceId);
@@ -63,16 +67,16 @@ namespace PetriEngine {
                 bool checkTupleDiagonal(uint32_t placeId);
                 bool checkDiagonal(uint32_t placeId);
 
-                void handleInArcs(const Transition &transition, std::set<const Colored::Variable*> &diagonalVars, const PositionVariableMap &varPositionMap, const std::vector<PetriEngine::Colored::VariableIntervalMap> &varMaps, uint32_t postPlaceId);
+                void handleInArcs(const Transition &transition, std::set<const Colored::Variable*> &diagonalVars, const VariableOccurrences &varPositionMap, const std::vector<PetriEngine::Colored::VariableIntervalMap> &varMaps, uint32_t postPlaceId);
 
                 void applyNewIntervals(const Arc &inArc, const std::vector<PetriEngine::Colored::VariableIntervalMap> &varMaps);
 
                 void checkVarOnArc(const VariableModifierMap &varModifierMap, std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId, bool inputArc);
 
-                void checkVarOnInputArcs(const std::unordered_map<uint32_t,PositionVariableMap> &placeVariableMap, const PositionVariableMap &preVarPositionMap, std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId);
+                void checkVarOnInputArcs(const std::unordered_map<uint32_t,VariableOccurrences> &placeVariableMap, const VariableOccurrences &preVarPositionMap, std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId);
 
-                void markSharedVars(const PositionVariableMap &preVarPositionMap, const PositionVariableMap &varPositionMap, uint32_t postPlaceId, uint32_t prePlaceId);
-                void checkVarInGuard(const PositionVariableMap &preVarPositionMap, const std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId);
+                void markSharedVars(const VariableOccurrences &preVarPositionMap, const VariableOccurrences &varPositionMap, uint32_t postPlaceId, uint32_t prePlaceId);
+                void checkVarInGuard(const VariableOccurrences &preVarPositionMap, const std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId);
 
                 std::vector<VariableIntervalMap> prepareVariables(
                             const VariableModifierMap &varModifierMap,
diff --git a/src/PetriEngine/Colored/PartitionBuilder.cpp b/src/PetriEngine/Colored/PartitionBuilder.cpp
index 06a40ab..a967c60 100644
--- a/src/PetriEngine/Colored/PartitionBuilder.cpp
+++ b/src/PetriEngine/Colored/PartitionBuilder.cpp
@@ -135,19 +135,29 @@ namespace PetriEngine {
             handleTransition(transition, postPlaceId, postArc);
         }
 
+        //All (position, variable) pairs of an arc; several variables can share a position, e.g. in 1'x + 1'y
+        PartitionBuilder::VariableOccurrences PartitionBuilder::occurrences(const VariableModifierMap &varModifierMap){
+            VariableOccurrences res;
+            for(const auto &varModMap : varModifierMap)
+                for(const auto &side : varModMap.second)
+                    for(const auto &position : side)
+                        res.emplace_back(position.first, varModMap.first);
+            return res;
+        }
+
         //Check if a variable appears more than once on the output arc
         //If the place is does not have a product colortype mark the whole place as diagonal, otherwise only the positions
         void PartitionBuilder::checkVarOnArc(const VariableModifierMap &varModifierMap, std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId, bool inputArc){
             for(const auto &varModMap : varModifierMap){
-                if(varModMap.second.size() > 1){
+                if(!varModMap.second.empty()){
                     uint32_t actualSize = 0;
                     std::vector<uint32_t> positions;
                     for(const auto &map : varModMap.second){
                         if(!map.empty()){
                             for(auto position : map){
                                 positions.push_back(position.first);
+                                actualSize++;
                             }
-                            actualSize++;
                         }
                     }
                     if(actualSize > 1) {
@@ -168,41 +178,38 @@ namespace PetriEngine {
         }
         //Check if the variales on this preArc also appear on other preArcs for the transition
         //and mark them as diagonal if they do
-        void PartitionBuilder::checkVarOnInputArcs(const std::unordered_map<uint32_t,PositionVariableMap> &placeVariableMap, const PositionVariableMap &preVarPositionMap, std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId){
+        void PartitionBuilder::checkVarOnInputArcs(const std::unordered_map<uint32_t,VariableOccurrences> &placeVariableMap, const VariableOccurrences &preVarPositionMap, std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId){
             for(const auto &placeVariables : placeVariableMap){
                 for(const auto &variable : preVarPositionMap){
                     for(const auto &varPosition : placeVariables.second){
                         if(varPosition.second == variable.second){
                             diagonalVars.insert(variable.second);
-                            if(_partition[placeId].getEquivalenceClasses().back().type()->productSize() == 1){
+                            if(_partition[placeId].isDiagonal()) {
+                                //nothing left to separate
+                            } else if(_partition[placeId].getEquivalenceClasses().back().type()->productSize() == 1){
                                 _partition[placeId].setDiagonal(true);
                             } else if(!_partition[placeId].getDiagonalTuplePositions()[variable.first]) {
                                 addToQueue(placeId);
                                 _partition[placeId].setDiagonalTuplePosition(variable.first,  true);
                             }
 
-                            if(_partition[placeVariables.first].getEquivalenceClasses().back().type()->productSize() == 1){
+                            if(_partition[placeVariables.first].isDiagonal()) {
+                                //nothing left to separate
+                            } else if(_partition[placeVariables.first].getEquivalenceClasses().back().type()->productSize() == 1){
                                 _partition[placeVariables.first].setDiagonal(true);
                                 addToQueue(placeVariables.first);
                             } else if(!_partition[placeVariables.first].getDiagonalTuplePositions()[varPosition.first]) {
                                 addToQueue(placeVariables.first);
                                 _partition[placeVariables.first].setDiagonalTuplePosition(varPosition.first, true);
                             }
-                            break;
                         }
                     }
-                    if(_partition[placeId].isDiagonal()){
-                        break;
-                    }
-                }
-                if(_partition[placeId].isDiagonal()){
-                    break;
                 }
             }
         }
         //Check if the preArc share variables with the postArc and mark diagonal if the
         //variable positions are diagonal in the post place
-        void PartitionBuilder::markSharedVars(const PositionVariableMap &preVarPositionMap, const PositionVariableMap &varPositionMap, uint32_t postPlaceId, uint32_t prePlaceId){
+        void PartitionBuilder::markSharedVars(const VariableOccurrences &preVarPositionMap, const VariableOccurrences &varPositionMap, uint32_t postPlaceId, uint32_t prePlaceId){
             for(const auto &preVar : preVarPositionMap){
                 for(const auto &postVar : varPositionMap){
                     if(preVar.second == postVar.second){
@@ -219,7 +226,7 @@ namespace PetriEngine {
             }
         }
         //Check if any of the variables on the preArc was part of a diagonal constraint in the gaurd
-        void PartitionBuilder::checkVarInGuard(const PositionVariableMap &preVarPositionMap, const std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId){
+        void PartitionBuilder::checkVarInGuard(const VariableOccurrences &preVarPositionMap, const std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId){
             for(const auto &preVar : preVarPositionMap){
                 if(diagonalVars.count(preVar.second)){
                     if(_partition[placeId].getEquivalenceClasses().back().type()->productSize() == 1){
@@ -281,12 +288,13 @@ namespace PetriEngine {
 
         void PartitionBuilder::handleTransition(const Transition &transition, const uint32_t postPlaceId, const Arc *postArc) {
             VariableModifierMap varModifierMap;
-            PositionVariableMap varPositionMap;
+            PositionVariableMap lastVarPositionMap;
             std::set<const PetriEngine::Colored::Variable *> postArcVars;
             std::set<const PetriEngine::Colored::Variable *> guardVars;
             std::set<const Colored::Variable*> diagonalVars;
 
-            Colored::VariableVisitor::get_variables(*postArc->expr, postArcVars, varPositionMap, varModifierMap, true);
+            Colored::VariableVisitor::get_variables(*postArc->expr, postArcVars, lastVarPositionMap, varModifierMap, true);
+            const auto varPositionMap = occurrences(varModifierMap);
 
             checkVarOnArc(varModifierMap, diagonalVars, postPlaceId, false);
 
@@ -317,23 +325,28 @@ namespace PetriEngine {
             }
         }
 
-        void PartitionBuilder::handleInArcs(const Transition &transition, std::set<const Colored::Variable*> &diagonalVars, const PositionVariableMap &varPositionMap, const std::vector<PetriEngine::Colored::VariableIntervalMap> &varMaps, uint32_t postPlaceId){
-            std::unordered_map<uint32_t,PositionVariableMap> placeVariableMap;
+        void PartitionBuilder::handleInArcs(const Transition &transition, std::set<const Colored::Variable*> &diagonalVars, const VariableOccurrences &varPositionMap, const std::vector<PetriEngine::Colored::VariableIntervalMap> &varMaps, uint32_t postPlaceId){
+            std::unordered_map<uint32_t,VariableOccurrences> placeVariableMap;
             for(const auto &inArc : transition.input_arcs){
                 //Hack to avoid considering dot places
                 if(_places[inArc.place].type == ColorType::dotInstance()){
                     _partition[inArc.place].setDiagonal(true);
                 }
 
-                if(_partition[inArc.place].isDiagonal()){
-                    continue;
-                }
+                const bool wasDiagonal = _partition[inArc.place].isDiagonal();
                 VariableModifierMap preVarModifierMap;
-                PositionVariableMap preVarPositionMap;
+                PositionVariableMap lastVarPositionMap;
                 std::set<const PetriEngine::Colored::Variable *> preArcVars;
-                Colored::VariableVisitor::get_variables(*inArc.expr, preArcVars, preVarPositionMap, preVarModifierMap, true);
+                Colored::VariableVisitor::get_variables(*inArc.expr, preArcVars, lastVarPositionMap, preVarModifierMap, true);
+                const auto preVarPositionMap = occurrences(preVarModifierMap);
+                //also when this place is diagonal already, the places it shares variables with have to become so
                 checkVarOnInputArcs(placeVariableMap, preVarPositionMap, diagonalVars, inArc.place);
                 placeVariableMap[inArc.place] = preVarPositionMap;
+                if(wasDiagonal) continue;
+                //an arc consuming several tokens cares about how these are distributed over the colors
+                if(!inArc.expr->is_number_of() || inArc.expr->weight() != 1){
+                    _partition[inArc.place].setDiagonal(true);
+                }
                 if(checkDiagonal(inArc.place)) continue;
 
                 markSharedVars(preVarPositionMap, varPositionMap, postPlaceId, inArc.place);
@@ -385,7 +398,6 @@ namespace PetriEngine {
                     if(!intersection.isEmpty()){
                         _partition[placeId].push_back_Eqclass(intersection);
                         intersection.clear();
-                        split = true;
                     }
                     if(!leftSubtractEc.isEmpty()){
                         _partition[placeId].push_back_Eqclass(leftSubtractEc);
-- 
2.43.0


From 6e33cff736244adcd94f5bef9c9a9fb956730b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:47 +0000
Subject: [PATCH 25/66] fix: color fixpoint skipped transitions whose input
 arcs gained colors

---
 src/PetriEngine/Colored/ForwardFixedPoint.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/Colored/ForwardFixedPoint.cpp b/src/PetriEngine/Colored/ForwardFixedPoint.cpp
index 0f9e031..6c5ab47 100644
--- a/src/PetriEngine/Colored/ForwardFixedPoint.cpp
+++ b/src/PetriEngine/Colored/ForwardFixedPoint.cpp
@@ -335,10 +335,15 @@ namespace PetriEngine {
                     }
                 }
             }
-            //If there are no variables among the out arcs of a transition
+            //If there are no variables among the arcs of a transition
             // and it has been activated, there is no reason to cosider it again
+            // (with variables on input arcs only, new colors still add bindings)
             if (!transitionHasVarOutArcs) {
-                _considered[transition_id] = true;
+                std::set<const Colored::Variable *> inVariables;
+                for (const auto& arc : transition.input_arcs) {
+                    Colored::VariableVisitor::get_variables(*arc.expr, inVariables);
+                }
+                _considered[transition_id] = inVariables.empty();
             }
         }
     }
-- 
2.43.0


From 7e22666cd5e37e6da8558c2a99e0d86e5c90253d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:47 +0000
Subject: [PATCH 26/66] fix: color partition gave different colors the same
 unfolded place id

---
 src/PetriEngine/Colored/EquivalenceVec.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PetriEngine/Colored/EquivalenceVec.cpp b/src/PetriEngine/Colored/EquivalenceVec.cpp
index bcb4148..8d5a7d1 100644
--- a/src/PetriEngine/Colored/EquivalenceVec.cpp
+++ b/src/PetriEngine/Colored/EquivalenceVec.cpp
@@ -103,7 +103,9 @@ namespace PetriEngine {
             }
 
             if(hasDiagonalPositions){
-                return eqClass->id() + color->getColorType()->getColor(newColorTupleIds)->getId();
+                //the sum of the two ids would not be unique
+                const auto classIndex = static_cast<uint32_t>(eqClass - _equivalenceClasses.data());
+                return classIndex * color->getColorType()->size() + color->getColorType()->getColor(newColorTupleIds)->getId();
             }
 
             return eqClass->id();
-- 
2.43.0


From e0ff7b69c5d0a1cd99b97feb1ba8bae228dfebf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:47 +0000
Subject: [PATCH 27/66] fix: arcs mixing tuples and variables of a product
 color type aborted colored reductions

---
 .../Colored/Reduction/RedRulePreAgglomeration.cpp     |  8 +++++---
 src/PetriEngine/Colored/VarMultiset.cpp               | 11 ++---------
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp b/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp
index 65ad333..82a85f1 100644
--- a/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp
+++ b/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp
@@ -299,13 +299,15 @@ namespace PetriEngine::Colored::Reduction {
                     }
 
                     // referenceTuple being nullptr here means there were no tuples in the producers
-                    assert(consTuples.empty() == (referenceTuple == nullptr));
-                    if (!consTuples.empty()) {
+                    if (consTuples.empty() != (referenceTuple == nullptr)) {
+                        // A variable of a product sort on one side and a tuple on the other
+                        ok = false;
+                    } else if (!consTuples.empty()) {
                         // Check that the tuple is all variables, now for the consumer
                         for (auto& tuple : consTuples) {
                             if (tuple.second.size() == referenceTuple->size()) {
                                 std::unordered_map<std::string , uint32_t> tuplematching;
-                                for (uint32_t ii = 0; ii < consTuples.size(); ii++) {
+                                for (uint32_t ii = 0; ii < tuple.second.size(); ii++) {
                                     auto refv = (const VariableExpression *) (*referenceTuple)[ii];
                                     if (auto v = dynamic_cast<const VariableExpression*>(tuple.second[ii])) {
                                         if (tuplematching[v->variable()->name] != tuplematching[refv->variable()->name]) {
diff --git a/src/PetriEngine/Colored/VarMultiset.cpp b/src/PetriEngine/Colored/VarMultiset.cpp
index d910f73..c3e108b 100644
--- a/src/PetriEngine/Colored/VarMultiset.cpp
+++ b/src/PetriEngine/Colored/VarMultiset.cpp
@@ -48,8 +48,6 @@ namespace PetriEngine::Colored {
 
     void VarMultiset::operator+=(const VarMultiset &other) {
         if (_types.empty()) _types = other._types;
-        if (_types != other._types)
-            throw base_error("You cannot compare variable multisets of different types");
         for (auto &pair: other._set) {
             (*this)[pair.first] += pair.second;
         }
@@ -57,8 +55,6 @@ namespace PetriEngine::Colored {
 
     void VarMultiset::operator-=(const VarMultiset &other) {
         if (_types.empty()) _types = other._types;
-        if (!other._types.empty() && _types != other._types)
-            throw base_error("You cannot add multisets over different sets");
         for (auto &pair: _set) {
             (*this)[pair.first] = pair.second < other[pair.first] ? 0 : pair.second - other[pair.first];
         }
@@ -71,8 +67,8 @@ namespace PetriEngine::Colored {
     }
 
     uint32_t VarMultiset::operator[](const VarTuple &vt) const {
-        if (_types.empty()) return 0;
-        assert(matchesType(vt));
+        // Tuples over other types are just not in the set: a color of a product sort may be written
+        // both as a tuple of variables and as a single variable of that sort.
         for (auto &pair: _set) {
             if (pair.first == vt) return pair.second;
         }
@@ -81,7 +77,6 @@ namespace PetriEngine::Colored {
 
     uint32_t &VarMultiset::operator[](const VarTuple &vt) {
         if (_types.empty()) _types = inferTypes(vt);
-        assert(matchesType(vt));
         for (auto &pair: _set) {
             if (pair.first == vt) return pair.second;
         }
@@ -129,8 +124,6 @@ namespace PetriEngine::Colored {
     uint32_t VarMultiset::numberOfTimesThisFitsInto(const VarMultiset &other) const {
         if (_types.empty())
             return std::numeric_limits<uint32_t>::max();
-        if (_types != other._types)
-            throw base_error("You cannot compare variable multisets of different types");
         if (!this->isSubsetOrEqTo(other)) return 0;
         uint32_t k = std::numeric_limits<uint32_t>::max();
         for (const auto &pair : other) {
-- 
2.43.0


From f12b5bebe8c7e47f0a44d1b55d1fcb7a196e83f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:47 +0000
Subject: [PATCH 28/66] fix: preemptive firing moved tokens that do not match a
 constant input arc

---
 .../Colored/Reduction/RedRulePreemptiveFiring.cpp        | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/PetriEngine/Colored/Reduction/RedRulePreemptiveFiring.cpp b/src/PetriEngine/Colored/Reduction/RedRulePreemptiveFiring.cpp
index c353782..038f95a 100644
--- a/src/PetriEngine/Colored/Reduction/RedRulePreemptiveFiring.cpp
+++ b/src/PetriEngine/Colored/Reduction/RedRulePreemptiveFiring.cpp
@@ -9,6 +9,7 @@
 #include "PetriEngine/Colored/Reduction/RedRulePreemptiveFiring.h"
 #include "PetriEngine/Colored/Reduction/ColoredReducer.h"
 #include "PetriEngine/Colored/ArcVarMultisetVisitor.h"
+#include "PetriEngine/Colored/VariableVisitor.h"
 
 namespace PetriEngine::Colored::Reduction {
     bool RedRulePreemptiveFiring::apply(ColoredReducer &red, const PetriEngine::PQL::ColoredUseVisitor &inQuery,
@@ -82,6 +83,14 @@ namespace PetriEngine::Colored::Reduction {
         if (place.marking.distinctSize() > 1 && inWeight != 1) return false;
         if ((place.marking.size() % inWeight) != 0) return false;
 
+        // Every color must match the input arc, so each component has to be a variable of its own
+        std::set<const Variable *> inVars;
+        VariableVisitor::get_variables(*in->expr, inVars);
+        size_t freeComponents = 0;
+        for (const auto *var : inVars)
+            freeComponents += var->colorType->productSize();
+        if (place.type->size() > 1 && freeComponents != place.type->productSize()) return false;
+
         // Post set cannot inhibit or be in query
         for (auto &out: transition.output_arcs) {
             auto &outPlace = red.places()[out.place];
-- 
2.43.0


From ed48092d7c56634605515723c6cc74f4b163c21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:47 +0000
Subject: [PATCH 29/66] fix: number of LP combinations overflowed in query
 simplification

---
 .../Simplification/LinearPrograms.cpp         | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/PetriEngine/Simplification/LinearPrograms.cpp b/src/PetriEngine/Simplification/LinearPrograms.cpp
index c7ee2df..214e326 100644
--- a/src/PetriEngine/Simplification/LinearPrograms.cpp
+++ b/src/PetriEngine/Simplification/LinearPrograms.cpp
@@ -31,6 +31,20 @@ namespace PetriEngine {
             return explorePotencyImpl(context, potencies, maxConfigurationsSolved);
         }
 
+        // The number of combinations can exceed what fits in size_t
+
+        static size_t saturatedSum(size_t a, size_t b)
+        {
+            const auto max = std::numeric_limits<size_t>::max();
+            return a > max - b ? max : a + b;
+        }
+
+        static size_t saturatedProduct(size_t a, size_t b)
+        {
+            const auto max = std::numeric_limits<size_t>::max();
+            return b != 0 && a > max / b ? max : a * b;
+        }
+
         // *************************
         // UnionCollection functions
         // *************************
@@ -39,7 +53,7 @@ namespace PetriEngine {
         : AbstractProgramCollection(), lps(std::move(programs))
         {
             for (auto& p : lps)
-                _size += p->size();
+                _size = saturatedSum(_size, p->size());
         }
 
         UnionCollection::UnionCollection(const AbstractProgramCollection_ptr& A, const AbstractProgramCollection_ptr& B)
@@ -53,7 +67,7 @@ namespace PetriEngine {
                 if (_result == POSSIBLE) break;
             }
             for (auto& p : lps)
-                _size += p->size();
+                _size = saturatedSum(_size, p->size());
         }
 
         void UnionCollection::clear()
@@ -130,7 +144,7 @@ namespace PetriEngine {
             assert(A);
             assert(B);
             has_empty = left->empty() && right->empty();
-            _size = left->size() * right->size();
+            _size = saturatedProduct(left->size(), right->size());
         }
 
         void MergeCollection::clear()
-- 
2.43.0


From a1cd32a06a1db92f59a791260c4662e6de6249c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:47 +0000
Subject: [PATCH 30/66] fix: variables that are only subtracted on an arc lost
 all bindings, partition ignored all but the first position of product
 variables

---
 include/PetriEngine/Colored/VariableVisitor.h |  9 +++++++--
 src/PetriEngine/Colored/IntervalGenerator.cpp |  8 ++++----
 src/PetriEngine/Colored/PartitionBuilder.cpp  | 14 ++++++++++++--
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/include/PetriEngine/Colored/VariableVisitor.h b/include/PetriEngine/Colored/VariableVisitor.h
index 43d3422..3ae97aa 100644
--- a/include/PetriEngine/Colored/VariableVisitor.h
+++ b/include/PetriEngine/Colored/VariableVisitor.h
@@ -44,6 +44,7 @@ namespace PetriEngine {
             PositionVariableMap& _varPositions;
             VariableModifierMap& _varModifiers;
             const bool _include_subtracts;
+            std::vector<const ArcExpression*> _subtrahends;
 
         public:
             VariableVisitor(std::set<const Colored::Variable*>& variables, PositionVariableMap& varPositions,
@@ -209,9 +210,9 @@ namespace PetriEngine {
                 _index = 0;
                 (*sub)[0]->visit(*this);
                 //We ignore the restrictions imposed by the subtraction for now
+                //ArcIntervalVisitor has no side for the subtrahend, so its sides come after all the others
                 if(_include_subtracts){
-                    _index = 0;
-                    (*sub)[1]->visit(*this);
+                    _subtrahends.push_back((*sub)[1].get());
                 }
             }
 
@@ -224,6 +225,10 @@ namespace PetriEngine {
             static inline void get_variables(Expression& e, std::set<const Colored::Variable*>& variables, PositionVariableMap& varPositions, VariableModifierMap& varModifierMap, std::unordered_map<uint32_t, std::vector<const Colored::ColorExpression*>>& tuples, bool includeSubtracts) {
                 VariableVisitor v(variables, varPositions, varModifierMap, tuples, includeSubtracts);
                 e.visit(v);
+                for (size_t i = 0; i < v._subtrahends.size(); ++i) {
+                    v._index = 0;
+                    v._subtrahends[i]->visit(v);
+                }
                 //every variable has an entry for every side
                 for (auto& pair : varModifierMap) {
                     if (pair.second.size() < v._side)
diff --git a/src/PetriEngine/Colored/IntervalGenerator.cpp b/src/PetriEngine/Colored/IntervalGenerator.cpp
index 9c7cf86..aaf2be8 100644
--- a/src/PetriEngine/Colored/IntervalGenerator.cpp
+++ b/src/PetriEngine/Colored/IntervalGenerator.cpp
@@ -93,8 +93,8 @@ namespace PetriEngine {
 
                 getArcVarIntervals(varIntervals, pair.second[tuplePos], interval, varColorTypes);
 
-                if (arcIntervals._intervalTupleVec.size() > 1 && pair.second[tuplePos].empty()) {
-                    //The variable is not on this side of the add expression, so we add a full interval to compare against for the other side
+                if (pair.second[tuplePos].empty()) {
+                    //The variable is not on this side of the add expression (or only subtracted), so we add a full interval to compare against for the other side
                     varIntervals.addInterval(pair.first->colorType->getFullInterval());
                 }
 
@@ -136,8 +136,8 @@ namespace PetriEngine {
                     assert(pair.second.size() > tuplePos);
                     getArcVarIntervals(varIntervals, pair.second[tuplePos], interval, varColorTypes);
 
-                    if(arcIntervals._intervalTupleVec.size() > 1 && pair.second[tuplePos].empty()){
-                        //The variable is not on this side of the add expression, so we add a full interval to compare against for the other side
+                    if(pair.second[tuplePos].empty()){
+                        //The variable is not on this side of the add expression (or only subtracted), so we add a full interval to compare against for the other side
                         varIntervals.addInterval(pair.first->colorType->getFullInterval());
                     } else if(varIntervals.size() < 1){
                         //If any varinterval ends up empty then we were unable to use this arc interval
diff --git a/src/PetriEngine/Colored/PartitionBuilder.cpp b/src/PetriEngine/Colored/PartitionBuilder.cpp
index a967c60..10bc81c 100644
--- a/src/PetriEngine/Colored/PartitionBuilder.cpp
+++ b/src/PetriEngine/Colored/PartitionBuilder.cpp
@@ -141,7 +141,9 @@ namespace PetriEngine {
             for(const auto &varModMap : varModifierMap)
                 for(const auto &side : varModMap.second)
                     for(const auto &position : side)
-                        res.emplace_back(position.first, varModMap.first);
+                        //a variable of a product color type takes up several positions
+                        for(size_t i = 0; i < varModMap.first->colorType->productSize(); ++i)
+                            res.emplace_back(position.first + i, varModMap.first);
             return res;
         }
 
@@ -155,7 +157,8 @@ namespace PetriEngine {
                     for(const auto &map : varModMap.second){
                         if(!map.empty()){
                             for(auto position : map){
-                                positions.push_back(position.first);
+                                for(size_t i = 0; i < varModMap.first->colorType->productSize(); ++i)
+                                    positions.push_back(position.first + i);
                                 actualSize++;
                             }
                         }
@@ -298,6 +301,13 @@ namespace PetriEngine {
 
             checkVarOnArc(varModifierMap, diagonalVars, postPlaceId, false);
 
+            //the intervals do not tell what a subtracted variable does
+            VariableModifierMap addedModifierMap;
+            Colored::VariableVisitor::get_variables(*postArc->expr, postArcVars, lastVarPositionMap, addedModifierMap, false);
+            if(occurrences(addedModifierMap).size() != varPositionMap.size()){
+                diagonalVars.insert(postArcVars.begin(), postArcVars.end());
+            }
+
             if(transition.guard != nullptr){
                 Colored::VariableVisitor::get_variables(*transition.guard, guardVars);
             }
-- 
2.43.0


From 76ad5f9cfa9bb4745b4d9a205e550fc8c66f62c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:22 +0000
Subject: [PATCH 31/66] fix: written coloured nets lost integer-range
 constants, dot components and inhibitor weights

---
 src/PetriEngine/Colored/PnmlWriter.cpp          | 12 +++++++-----
 .../Colored/PnmlWriterColorExprVisitor.cpp      | 17 +++++++++++++++--
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/PetriEngine/Colored/PnmlWriter.cpp b/src/PetriEngine/Colored/PnmlWriter.cpp
index d14fb9b..d6ce91c 100644
--- a/src/PetriEngine/Colored/PnmlWriter.cpp
+++ b/src/PetriEngine/Colored/PnmlWriter.cpp
@@ -142,10 +142,6 @@ namespace PetriEngine {
                 if (type->productSize() > 1) {
                     throw base_error("Nested products, aborting writing PNML");
                 }
-                if (name == "dot") {
-                    _out << increaseTabs() << "<dot/>\n";
-                    break;
-                }
                 _out << (first ? increaseTabs() : getTabs()) << "<usersort declaration=\"" << name << "\"/>" << "\n";
                 first = false;
             }
@@ -307,6 +303,8 @@ namespace PetriEngine {
                     _out << increaseTabs() << "<finiteintrange end=\"" << end << "\" start=\"" << start
                          << "\"/>\n";
                     _out << decreaseTabs() << "</finiteintrangeconstant>\n";
+                } else if (color->getColorName() == "dot") {
+                    _out << increaseTabs() << "<dotconstant/>\n";
                 } else {
                     _out << increaseTabs() << "<useroperator declaration=\"" << color->getColorName() << "\"/>\n";
                 }
@@ -330,7 +328,7 @@ namespace PetriEngine {
                     const std::string& start = c->getColorType()->operator[](size_t{0}).getColorName();
                     const std::string& end = c->getColorType()->operator[](
                             c->getColorType()->size() - 1).getColorName();
-                    _out << increaseTabs() << "<finiteintrangeconstant value=\"" << c->getColorName() << "\">\n>";
+                    _out << increaseTabs() << "<finiteintrangeconstant value=\"" << c->getColorName() << "\">\n";
                     _out << increaseTabs() << "<finiteintrange start=\"" << start << "\" end=\"" << end << "\"/>\n";
                     _out << decreaseTabs() << "</finiteintrangeconstant>\n";
                 } else {
@@ -435,6 +433,10 @@ namespace PetriEngine {
                 _out << increaseTabs() << "<name>\n";
                 _out << increaseTabs() << "<text>" << id << "</text>\n";
                 _out << decreaseTabs() << "</name>\n";
+                // the weight is read from the (uncolored) inscription
+                _out << getTabs() << "<inscription>\n";
+                _out << increaseTabs() << "<text>" << inhibitor.inhib_weight << "</text>\n";
+                _out << decreaseTabs() << "</inscription>\n";
                 _out << getTabs() << "<hlinscription>\n";
 
                 _out << increaseTabs() << "<text>" << inhibitor.inhib_weight << "'" << place.type->getName() << ".all"
diff --git a/src/PetriEngine/Colored/PnmlWriterColorExprVisitor.cpp b/src/PetriEngine/Colored/PnmlWriterColorExprVisitor.cpp
index 051afeb..8ecc3ac 100644
--- a/src/PetriEngine/Colored/PnmlWriterColorExprVisitor.cpp
+++ b/src/PetriEngine/Colored/PnmlWriterColorExprVisitor.cpp
@@ -5,6 +5,9 @@
 #include "PetriEngine/Colored/PnmlWriterColorExprVisitor.h"
 #include "PetriEngine/Colored/Expressions.h"
 
+#include <algorithm>
+#include <cctype>
+
 namespace PetriEngine::Colored {
     void writeExpressionToPnml(std::ostream &out, uint32_t tabs, const Expression &expr) {
         PnmlWriterColorExprVisitor visitor(out, tabs);
@@ -20,8 +23,18 @@ namespace PetriEngine::Colored {
     }
 
     void PnmlWriterColorExprVisitor::accept(const UserOperatorExpression *e) {
-        _out << increaseTabs() << "<useroperator declaration=\"" << e->user_operator()->getColorName()
-             << "\"/>\n";
+        const auto *color = e->user_operator();
+        const auto *type = color->getColorType();
+        const auto &name = color->getColorName();
+        // colors of a finite integer range are not declared by name
+        if (!name.empty() && std::all_of(name.begin(), name.end(), [](unsigned char c) { return std::isdigit(c); })) {
+            _out << increaseTabs() << "<finiteintrangeconstant value=\"" << name << "\">\n";
+            _out << increaseTabs() << "<finiteintrange start=\"" << (*type)[size_t{0}].getColorName()
+                 << "\" end=\"" << (*type)[type->size() - 1].getColorName() << "\"/>\n";
+            _out << decreaseTabs() << "</finiteintrangeconstant>\n";
+        } else {
+            _out << increaseTabs() << "<useroperator declaration=\"" << name << "\"/>\n";
+        }
     }
 
     void PnmlWriterColorExprVisitor::accept(const SuccessorExpression *e) {
-- 
2.43.0


From 3f95ad67f2b64a51fb1b6f16bffeba160aeda997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:22 +0000
Subject: [PATCH 32/66] fix: colour-ignorant net misnamed the transition
 variations of inhibitor arcs

---
 .../ExplicitColored/ColorIgnorantPetriNetBuilder.cpp        | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/ExplicitColored/ColorIgnorantPetriNetBuilder.cpp b/src/PetriEngine/ExplicitColored/ColorIgnorantPetriNetBuilder.cpp
index 1e8cd9b..f57a140 100644
--- a/src/PetriEngine/ExplicitColored/ColorIgnorantPetriNetBuilder.cpp
+++ b/src/PetriEngine/ExplicitColored/ColorIgnorantPetriNetBuilder.cpp
@@ -89,7 +89,7 @@ namespace PetriEngine::ExplicitColored {
     };
 
     ColoredIgnorantPetriNetBuilderStatus ColorIgnorantPetriNetBuilder::build() {
-        std::map<std::string, std::vector<size_t>> transitionVariationCount;
+        std::map<std::string, size_t> transitionVariationCount;
         if (_foundNegative) {
             for (const auto& [transitionName, transitionStore] : _transitions) {
                 std::vector<ArcRange> arcRanges;
@@ -161,7 +161,9 @@ namespace PetriEngine::ExplicitColored {
             if (transitionVariationCountIt == transitionVariationCount.end()) {
                 _builder.addInputArc(place, transition, true, weight);
             } else {
-                for (size_t i = 0; i < transitionVariationCountIt->second.size(); i++) {
+                // The first variation keeps the name of the transition, the others are numbered from two
+                _builder.addInputArc(place, transition, true, weight);
+                for (size_t i = 2; i <= transitionVariationCountIt->second; i++) {
                     _builder.addInputArc(place, transition + "___" + std::to_string(i), true, weight);
                 }
             }
-- 
2.43.0


From 64d1c03eda0906a27e608ac72efc01fd453f7df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:27 +0000
Subject: [PATCH 33/66] fix: explicit engine miscounted tuples with all,
 misread variables of product sorts and guards of sourceless transitions

---
 .../ExplicitColored/ArcCompiler.cpp           | 24 +++++++++++--------
 .../ExplicitColoredModelChecker.cpp           |  8 +++++++
 .../ExplicitColoredPetriNetBuilder.cpp        |  6 ++++-
 3 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/PetriEngine/ExplicitColored/ArcCompiler.cpp b/src/PetriEngine/ExplicitColored/ArcCompiler.cpp
index 785a390..86c9737 100644
--- a/src/PetriEngine/ExplicitColored/ArcCompiler.cpp
+++ b/src/PetriEngine/ExplicitColored/ArcCompiler.cpp
@@ -139,9 +139,8 @@ namespace PetriEngine::ExplicitColored {
         }
 
         const ColoredMinimalMarking getMaximalColorMarking() const override {
-            auto rv = _lhs->getMinimalColorMarking();
-            rv.minimalMarkingMultiSet -= _rhs->getMaximalColorMarking().minimalMarkingMultiSet;
-            return rv;
+            // subtraction only takes tokens away
+            return _lhs->getMaximalColorMarking();
         }
 
         const std::set<Variable_t> & getVariables() const override {
@@ -558,7 +557,7 @@ namespace PetriEngine::ExplicitColored {
                         colorSequence.push_back(ParameterizedColor::fromColor(0));
                     }
                     const size_t originalColorSequencesBound = colorSequences.size();
-                    for (Color_t c = 1; c <= visitor.getMaxColor(); c++) {
+                    for (Color_t c = 1; c < visitor.getMaxColor(); c++) {
                         for (size_t i = 0; i < originalColorSequencesBound; i++) {
                             auto copy = colorSequences[i];
                             copy.push_back(ParameterizedColor::fromColor(c));
@@ -693,7 +692,9 @@ namespace PetriEngine::ExplicitColored {
         std::vector<std::unique_ptr<CompiledArcExpression>*> waiting;
         waiting.push_back(&top);
 
-        for (const auto next : waiting) {
+        // "waiting" grows while it is traversed
+        for (size_t index = 0; index < waiting.size(); index++) {
+            const auto next = waiting[index];
             if (const auto expr = dynamic_cast<ArcExpressionAddition*>(next->get())) {
                 waiting.push_back(&expr->getLhs());
                 waiting.push_back(&expr->getRhs());
@@ -710,12 +711,13 @@ namespace PetriEngine::ExplicitColored {
 
                     bool hasVariable = false;
                     std::vector<Color_t> newColorSequence;
-                    for (const auto& color : colorSequence) {
+                    for (size_t j = 0; j < colorSequence.size(); j++) {
+                        const auto& color = colorSequence[j];
                         if (color.isVariable) {
                             hasVariable = true;
                             break;
                         }
-                        newColorSequence.push_back(addColorOffset( color.value.color, color.offset, expr->getColorMaxes()[i]));
+                        newColorSequence.push_back(addColorOffset( color.value.color, color.offset, expr->getColorMaxes()[j]));
                     }
                     if (!hasVariable) {
                         constantMultiSet.addCount(ColorSequence { newColorSequence, expr->getColorMaxes() }, expr->getSignedCount());
@@ -749,12 +751,14 @@ namespace PetriEngine::ExplicitColored {
     }
 
     void ArcCompiler::preCalculate(std::unique_ptr<CompiledArcExpression> &top) {
-        std::vector<std::unique_ptr<CompiledArcExpression>*> waiting;
-        waiting.push_back(&top);
         bool appliedOptimization = true;
         while (appliedOptimization) {
             appliedOptimization = false;
-            for (const auto next : waiting) {
+            // starts over in every round: folding a node frees its children
+            std::vector<std::unique_ptr<CompiledArcExpression>*> waiting;
+            waiting.push_back(&top);
+            for (size_t index = 0; index < waiting.size(); index++) {
+                const auto next = waiting[index];
                 if (const auto expr = dynamic_cast<ArcExpressionAddition*>(next->get())) {
                     const auto lhs = dynamic_cast<ArcExpressionConstant*>(expr->getLhs().get());
                     const auto rhs = dynamic_cast<ArcExpressionConstant*>(expr->getRhs().get());
diff --git a/src/PetriEngine/ExplicitColored/ExplicitColoredModelChecker.cpp b/src/PetriEngine/ExplicitColored/ExplicitColoredModelChecker.cpp
index 3cc4d9b..68a19b8 100644
--- a/src/PetriEngine/ExplicitColored/ExplicitColoredModelChecker.cpp
+++ b/src/PetriEngine/ExplicitColored/ExplicitColoredModelChecker.cpp
@@ -112,6 +112,14 @@ namespace PetriEngine::ExplicitColored {
        const std::unique_ptr<PetriNet>& qnet,
        options_t& options
     ) const {
+        // The fireability of a transition without input arcs is replaced by true,
+        // but when it has a guard it may not be enabled in the colored net
+        for (uint32_t t = 0; t < qnet->numberOfTransitions(); ++t) {
+            const auto [first, last] = qnet->preset(t);
+            if (first == last) {
+                return Result::UNKNOWN;
+            }
+        }
         negstat_t stats;
         queries[0] = pushNegation(queries[0], stats, context, false, false, false);
         contextAnalysis(false, {}, {}, builder, qnet.get(), queries);
diff --git a/src/PetriEngine/ExplicitColored/ExplicitColoredPetriNetBuilder.cpp b/src/PetriEngine/ExplicitColored/ExplicitColoredPetriNetBuilder.cpp
index 09ed11e..08200fb 100644
--- a/src/PetriEngine/ExplicitColored/ExplicitColoredPetriNetBuilder.cpp
+++ b/src/PetriEngine/ExplicitColored/ExplicitColoredPetriNetBuilder.cpp
@@ -318,7 +318,11 @@ namespace PetriEngine::ExplicitColored {
             for (auto i = _currentNet._transitionArcs[tid].first; i < _currentNet._transitionArcs[tid].second; i++) {
                 const auto& arc = _currentNet._arcs[i];
                 for (Variable_t var : arc.expression->getVariables()) {
-                    const auto constraints = arc.expression->calculateVariableConstraints(var, arc.from);
+                    auto constraints = arc.expression->calculateVariableConstraints(var, arc.from);
+                    if (_underlyingVariableColorTypes[var]->isProduct()) {
+                        // the value is a whole token and not a component of one
+                        constraints = {VariableConstraint::getTop()};
+                    }
                     auto entry = transition.preplacesVariableConstraints.find(var);
                     if (entry == transition.preplacesVariableConstraints.end()) {
                         entry = transition.preplacesVariableConstraints.emplace(var, std::vector<VariableConstraint> {}).first;
-- 
2.43.0


From c30306f2a7df4e4b1589276d9e38b9731e670cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:27 +0000
Subject: [PATCH 34/66] fix: coloured reductions lost tokens of self-loops and
 agglomerated over colours that are not variables

---
 .../Reduction/RedRulePreAgglomeration.cpp     | 25 ++++++++++++++++---
 .../Reduction/RedRulePreemptiveFiring.cpp     |  3 +++
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp b/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp
index 82a85f1..4f40652 100644
--- a/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp
+++ b/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp
@@ -12,6 +12,25 @@
 #include "PetriEngine/Colored/VariableVisitor.h"
 
 namespace PetriEngine::Colored::Reduction {
+    // The producer's and the consumer's arc are matched by identifying their variables,
+    // which is only right when the color is a plain variable or a tuple
+    static bool isMatchable(const ArcExpression& expr, const ColorType* type) {
+        if (!expr.is_single_color()) return false;
+        if (type->size() == 1) return true;
+        const ArcExpression* inner = &expr;
+        while (!inner->is_number_of()) {
+            if (const auto* add = dynamic_cast<const AddExpression*>(inner)) {
+                inner = (*add)[0].get();
+            } else if (const auto* scalar = dynamic_cast<const ScalarProductExpression*>(inner)) {
+                inner = scalar->child().get();
+            } else {
+                return false;
+            }
+        }
+        const auto* color = (*static_cast<const NumberOfExpression*>(inner))[0].get();
+        return dynamic_cast<const VariableExpression*>(color) || dynamic_cast<const TupleExpression*>(color);
+    }
+
     bool RedRulePreAgglomeration::isApplicable(QueryType queryType, bool preserveLoops, bool preserveStutter) const {
         return queryType != CTL && !preserveStutter;
     }
@@ -111,7 +130,7 @@ namespace PetriEngine::Colored::Reduction {
                     uint32_t kw;
 
                     // T9, S6
-                    if(prodArc->expr->is_single_color()){
+                    if(isMatchable(*prodArc->expr, place.type)){
                         kw = prodArc->expr->weight();
                     } else {
                         ok = false;
@@ -133,13 +152,13 @@ namespace PetriEngine::Colored::Reduction {
 
                         // (T9, S6), S10, T10, T12
                         if (atomic_viable){
-                            if (!consArc->expr->is_single_color() || kw % w != 0) {
+                            if (!isMatchable(*consArc->expr, place.type) || kw % w != 0) {
                                 todo[n] = false;
                                 todoAllGood = false;
                             } else if (kw != w) {
                                 kIsAlwaysOne[n] = false;
                             }
-                        } else if (!consArc->expr->is_single_color() || kw != w) {
+                        } else if (!isMatchable(*consArc->expr, place.type) || kw != w) {
                             ok = false;
                             break;
                         }
diff --git a/src/PetriEngine/Colored/Reduction/RedRulePreemptiveFiring.cpp b/src/PetriEngine/Colored/Reduction/RedRulePreemptiveFiring.cpp
index 038f95a..6de5fbe 100644
--- a/src/PetriEngine/Colored/Reduction/RedRulePreemptiveFiring.cpp
+++ b/src/PetriEngine/Colored/Reduction/RedRulePreemptiveFiring.cpp
@@ -93,6 +93,9 @@ namespace PetriEngine::Colored::Reduction {
 
         // Post set cannot inhibit or be in query
         for (auto &out: transition.output_arcs) {
+            // Tokens that return to the place itself cannot be moved out of it
+            if (out.place == p) return false;
+
             auto &outPlace = red.places()[out.place];
             if (inQuery.isPlaceUsed(out.place) || outPlace.inhibitor) {
                 return false;
-- 
2.43.0


From bc2d2496194d794154955a85e489deb054835e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:05 +0000
Subject: [PATCH 35/66] fix: coloured relevance rule ignored what enables query
 transitions, dummy place used an undeclared colour

---
 .../Colored/Reduction/ColoredReducer.cpp      |  3 +++
 .../Colored/Reduction/RedRuleRelevance.cpp    | 23 ++++++++++++-------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/PetriEngine/Colored/Reduction/ColoredReducer.cpp b/src/PetriEngine/Colored/Reduction/ColoredReducer.cpp
index e2d7b0a..5d004a4 100644
--- a/src/PetriEngine/Colored/Reduction/ColoredReducer.cpp
+++ b/src/PetriEngine/Colored/Reduction/ColoredReducer.cpp
@@ -296,6 +296,9 @@ namespace PetriEngine::Colored::Reduction {
     }
 
     void ColoredReducer::addDummyPlace(){
+        // The model may not have declared the dot color
+        if (_builder.colors().find("dot") == _builder.colors().end())
+            _builder.addColorType("dot", ColorType::dotInstance());
         _builder.addPlace("Dummy", ColorType::dotInstance(), Multiset(), 0, 0);
     }
 
diff --git a/src/PetriEngine/Colored/Reduction/RedRuleRelevance.cpp b/src/PetriEngine/Colored/Reduction/RedRuleRelevance.cpp
index 690ed04..c06b277 100644
--- a/src/PetriEngine/Colored/Reduction/RedRuleRelevance.cpp
+++ b/src/PetriEngine/Colored/Reduction/RedRuleRelevance.cpp
@@ -47,13 +47,15 @@ namespace PetriEngine::Colored::Reduction {
         }
 
         for (uint32_t tid = 0; tid < red.transitionCount(); tid++) {
-            if (!red._tflags[tid] && inQuery.isTransitionUsed(tid)) {
-                wtrans.push_back(tid);
-                red._tflags[tid] = true;
-                // All places that a query transition consumes from should be treated as being in the query too.
-                for (const auto& arc : red.transitions()[tid].input_arcs){
-                    red._pflags[arc.place] = true;
-                    const Place &place = red.places()[arc.place];
+            if (inQuery.isTransitionUsed(tid)) {
+                if (!red._tflags[tid]) {
+                    wtrans.push_back(tid);
+                    red._tflags[tid] = true;
+                }
+                // All places that enable a query transition should be treated as being in the query too.
+                auto placeIsRelevant = [&](uint32_t pid) {
+                    red._pflags[pid] = true;
+                    const Place &place = red.places()[pid];
                     for (auto t : place._post) {
                         if (!red._tflags[t]) {
                             wtrans.push_back(t);
@@ -66,7 +68,12 @@ namespace PetriEngine::Colored::Reduction {
                             red._tflags[t] = true;
                         }
                     }
-                }
+                };
+                for (const auto& arc : red.transitions()[tid].input_arcs)
+                    placeIsRelevant(arc.place);
+                for (const auto& inhibitor : red.inhibitorArcs())
+                    if (inhibitor.transition == tid)
+                        placeIsRelevant(inhibitor.place);
             }
         }
 
-- 
2.43.0


From 982193bc60a3a43e52c2753d6f70d41884990b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:25 +0000
Subject: [PATCH 36/66] fix: coloured pre-agglomeration with repeated consumer
 firings dropped partial firings and mixed up variables

---
 .../Reduction/RedRulePreAgglomeration.cpp     | 25 +++++++++----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp b/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp
index 4f40652..a1f9e0f 100644
--- a/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp
+++ b/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp
@@ -247,8 +247,14 @@ namespace PetriEngine::Colored::Reduction {
                         }
                         // S11
                         if (!kIsAlwaysOne[n]) {
+                            std::set<const Variable *> consumedVars;
+                            Colored::VariableVisitor::get_variables(*red.getInArc(pid, consumer)->expr, consumedVars);
                             for (const auto &conspost: consumer.output_arcs) {
-                                if (red.places()[conspost.place].inhibitor) {
+                                // The firings of the consumer are merged, so they must all produce the same
+                                std::set<const Variable *> producedVars;
+                                Colored::VariableVisitor::get_variables(*conspost.expr, producedVars);
+                                const bool sameEffect = std::includes(consumedVars.begin(), consumedVars.end(), producedVars.begin(), producedVars.end());
+                                if (!sameEffect || red.places()[conspost.place].inhibitor) {
                                     todo[n] = false;
                                     todoAllGood = false;
                                     ok = false;
@@ -477,15 +483,6 @@ namespace PetriEngine::Colored::Reduction {
                             // Create new transition with effect of firing the producer, and then the consumer k_i times
                             auto tid = red.newTransition(mergedguard);
 
-                            // Separate variables for the k_i firing versions.
-                            if (k_i > 1){
-                                for (auto& kvPair : varReplacementMap) {
-                                    auto* newVar = new Variable{kvPair.first + "k" + std::to_string(k_i), kvPair.second->colorType};
-                                    red.addVariable(newVar);
-                                    kvPair.second = newVar;
-                                }
-                            }
-
                             // Re-fetch the transition references as they might be invalidated?
                             const Transition &producerPrime = red.transitions()[prod];
                             const Transition &consumerPrime = red.transitions()[originalConsumers[n]];
@@ -519,7 +516,9 @@ namespace PetriEngine::Colored::Reduction {
                             }
 
                             if (k_i != k){
-                                red.addOutputArc(tid, pid, std::make_shared<PetriEngine::Colored::ScalarProductExpression>(varReplacevis.makeReplacementArcExpr(proArc->expr), k-k_i));
+                                // What is left is enough for the remaining firings of the consumer
+                                const auto& remaining = red.getInArc(pid, red.transitions()[originalConsumers[n]])->expr;
+                                red.addOutputArc(tid, pid, std::make_shared<PetriEngine::Colored::ScalarProductExpression>(varReplacevis.makeReplacementArcExpr(remaining), k-k_i));
                             }
                         }
                     }
@@ -529,8 +528,8 @@ namespace PetriEngine::Colored::Reduction {
                 }
 
                 if (place._post.empty()) {
-                    auto transitions = place._pre;
-                    for (uint32_t tran_id : transitions)
+                    // The new transitions that leave tokens behind in the place stay
+                    for (uint32_t tran_id : originalProducers)
                         red.skipTransition(tran_id);
                     red.skipPlace(pid);
                 }
-- 
2.43.0


From 4c6939049066f5199b9a5c778eba3f5c18cdfe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:25 +0000
Subject: [PATCH 37/66] fix: colour partition merged classes that only differ
 in a position that became diagonal

---
 include/PetriEngine/Colored/EquivalenceVec.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/PetriEngine/Colored/EquivalenceVec.h b/include/PetriEngine/Colored/EquivalenceVec.h
index ce93fdc..1731391 100644
--- a/include/PetriEngine/Colored/EquivalenceVec.h
+++ b/include/PetriEngine/Colored/EquivalenceVec.h
@@ -49,6 +49,18 @@ namespace PetriEngine {
 
                 void setDiagonalTuplePosition(uint32_t position, bool value){
                     _diagonalTuplePositions[position] = value;
+                    //Diagonal positions are ignored when comparing classes, so classes that
+                    //were separated by this position would be mixed up from now on
+                    if(!value || _equivalenceClasses.size() < 2) return;
+                    const auto &first = _equivalenceClasses.front().intervals().front()[position];
+                    for(const auto &eqClass : _equivalenceClasses){
+                        for(const auto &interval : eqClass.intervals()){
+                            if(interval[position]._lower != first._lower || interval[position]._upper != first._upper){
+                                _diagonal = true;
+                                return;
+                            }
+                        }
+                    }
                 }
 
                 void setDiagonalTuplePositions(const std::vector<bool> &diagonalPositions){
-- 
2.43.0


From 23a8fca32155c662f829d5f26948e52eab2e46b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:46 +0000
Subject: [PATCH 38/66] fix: LTL Tarjan traces describe the accepting run
 (loops did not close, stale deadlock marks)

---
 include/LTL/Algorithm/TarjanModelChecker.h    |  8 +-
 .../SpoolingSuccessorGenerator.h              |  4 +
 src/LTL/Algorithm/TarjanModelChecker.cpp      | 93 +++++++++----------
 3 files changed, 53 insertions(+), 52 deletions(-)

diff --git a/include/LTL/Algorithm/TarjanModelChecker.h b/include/LTL/Algorithm/TarjanModelChecker.h
index 62cadb6..558b933 100644
--- a/include/LTL/Algorithm/TarjanModelChecker.h
+++ b/include/LTL/Algorithm/TarjanModelChecker.h
@@ -111,7 +111,7 @@ namespace LTL {
 
         struct tracable_centry_t : plain_centry_t {
             idx_t _lowsource = std::numeric_limits<idx_t>::max();
-            idx_t _sourcetrans = std::numeric_limits<idx_t>::max();
+            uint32_t _sourcetrans = std::numeric_limits<uint32_t>::max();
             tracable_centry_t(idx_t lowlink, idx_t stateid, idx_t next) : plain_centry_t(lowlink, stateid, next) {}
             static constexpr bool save_trace() { return true; }
         };
@@ -129,7 +129,7 @@ namespace LTL {
         light_deque<idx_t> _astack;
 
         bool _invariant_loop = true;
-        size_t _loop_state = std::numeric_limits<size_t>::max();
+        idx_t _loop_pos = std::numeric_limits<idx_t>::max();
         uint32_t _loop_trans = std::numeric_limits<uint32_t>::max();
         size_t _discoverd = std::numeric_limits<size_t>::max();
         size_t _max_tokens = std::numeric_limits<size_t>::max();
@@ -146,8 +146,8 @@ namespace LTL {
         template<typename S, typename T, typename D, typename SuccGen>
         void pop(S& seen, light_deque<T>& cstack, light_deque<D>& dstack, SuccGen& successorGenerator);
 
-        template<typename T, typename D, typename SuccGen>
-        void update(light_deque<T>& cstack, light_deque<D>& d, SuccGen& successorGenerator, idx_t to);
+        template<typename T, typename D>
+        void update(light_deque<T>& cstack, light_deque<D>& d, idx_t to, uint32_t fired);
 
         template<typename S, typename T, typename SuccGen, typename D>
         bool next_trans(S& seen, light_deque<T>& cstack, SuccGen& successorGenerator, State &state, State &parent, D &delem);
diff --git a/include/LTL/SuccessorGeneration/SpoolingSuccessorGenerator.h b/include/LTL/SuccessorGeneration/SpoolingSuccessorGenerator.h
index a659b10..6128e37 100644
--- a/include/LTL/SuccessorGeneration/SpoolingSuccessorGenerator.h
+++ b/include/LTL/SuccessorGeneration/SpoolingSuccessorGenerator.h
@@ -107,6 +107,9 @@ namespace LTL {
             assert(_spooler != nullptr);
 
             PetriEngine::SuccessorGenerator::prepare(state);
+            // when resuming, the last fired transition is that of this state.
+            if (!sucinfo.fresh())
+                _last = sucinfo._transition;
             if (sucinfo._successors == nullptr) {
                 uint32_t tid;
                 _spooler->prepare(state);
@@ -143,6 +146,7 @@ namespace LTL {
             assert(sucinfo._successors != nullptr);
             if (sucinfo._successors.empty()) {
                 _last = std::numeric_limits<uint32_t>::max() - 1;
+                sucinfo._transition = _last;
                 return false;
             }
             _last = sucinfo._successors.front();
diff --git a/src/LTL/Algorithm/TarjanModelChecker.cpp b/src/LTL/Algorithm/TarjanModelChecker.cpp
index 50ebd0c..219fb88 100644
--- a/src/LTL/Algorithm/TarjanModelChecker.cpp
+++ b/src/LTL/Algorithm/TarjanModelChecker.cpp
@@ -176,7 +176,7 @@ namespace LTL {
                     }
                     // we found the successor, i.e. there's a loop!
                     // now update lowlinks and check whether the loop contains an accepting state
-                    update(cstack, dstack, successorGenerator, suc_pos);
+                    update(cstack, dstack, suc_pos, successorGenerator.fired());
                     continue;
                 }
                 if (!_store.exists(stateid).first) {
@@ -240,7 +240,12 @@ namespace LTL {
             _astack.pop_back();
         }
         if (!dstack.empty()) {
-            update(cstack, dstack, successorGenerator, p);
+            uint32_t fired = std::numeric_limits<uint32_t>::max();
+            if constexpr (T::save_trace()) {
+                if (p < cstack.size()) // the transition that discovered p.
+                    fired = seen.get_history(cstack[p]._stateid).second;
+            }
+            update(cstack, dstack, p, fired);
             if constexpr (std::is_same<SuccGen, SpoolingSuccessorGenerator>::value) {
                 successorGenerator.pop(dstack.back()._sucinfo);
             }
@@ -257,8 +262,8 @@ namespace LTL {
     }
 
 
-    template<typename T, typename D, typename SuccGen>
-    void TarjanModelChecker::update(light_deque<T>& cstack, light_deque<D>& dstack, SuccGen& successorGenerator, idx_t to)
+    template<typename T, typename D>
+    void TarjanModelChecker::update(light_deque<T>& cstack, light_deque<D>& dstack, idx_t to, uint32_t fired)
     {
         const auto from = dstack.back()._pos;
         assert(cstack[to]._lowlink != std::numeric_limits<idx_t>::max() && cstack[from]._lowlink != std::numeric_limits<idx_t>::max());
@@ -267,13 +272,20 @@ namespace LTL {
             // if this earlier component precedes an accepting state,
             // the found loop is accepting and thus a violation.
             _violation = (!_astack.empty() && to <= _astack.back());
-            // either way update the component ID of the state we came from.
-            cstack[from]._lowlink = cstack[to]._lowlink;
             if constexpr (T::save_trace()) {
-                _loop_state = cstack[to]._stateid;
-                _loop_trans = successorGenerator.fired();
-                cstack[to]._lowsource = from;
+                if (_violation) {
+                    _loop_pos = to;
+                    _loop_trans = fired;
+                }
+                else if (cstack[to]._lowlink < cstack[from]._lowlink) {
+                    // remember the edge that leads towards the root of the component;
+                    // only when the lowlink decreases, such that these edges form no cycle.
+                    cstack[from]._lowsource = to;
+                    cstack[from]._sourcetrans = fired;
+                }
             }
+            // either way update the component ID of the state we came from.
+            cstack[from]._lowlink = cstack[to]._lowlink;
         }
     }
 
@@ -294,50 +306,35 @@ namespace LTL {
     void TarjanModelChecker::build_trace(S& seen, light_deque<D> &&dstack, light_deque<C>& cstack)
     {
         assert(_violation);
-        if (cstack[dstack.back()._pos]._stateid == _loop_state)
-            _loop = _trace.size();
+        // a deadlock is repeated forever, nothing needs to follow it.
+        auto add = [this](uint32_t tid) {
+            _trace.push_back({tid});
+            return tid < _net.numberOfTransitions();
+        };
+        // (length of trace, position in cstack) along the (reverted) dstack
+        std::vector<std::pair<size_t, idx_t>> path;
+        path.emplace_back(0, dstack.back()._pos);
         dstack.pop_back();
-        size_t p = 0;
-        bool had_deadlock = _loop_trans == std::numeric_limits<uint32_t>::max() - 1;
-        // print (reverted) dstack
         while (!dstack.empty()) {
-            p = dstack.back()._pos;
+            const auto p = dstack.back()._pos;
             dstack.pop_back();
-            auto stateid = cstack[p]._stateid;
-            auto[parent, tid] = seen.get_history(stateid);
-            _trace.push_back({(uint32_t)tid});
-            if(tid >= std::numeric_limits<uint32_t>::max() - 1)
-            {
-                had_deadlock = true;
-                break;
-            }
-            if(cstack[p]._stateid == _loop_state)
-                _loop = _trace.size();
-            cstack[p]._lowlink = std::numeric_limits<idx_t>::max();
+            if (!add(seen.get_history(cstack[p]._stateid).second))
+                return;
+            path.emplace_back(_trace.size(), p);
         }
-        // follow previously found back edges via lowsource until back in dstack.
-        if(!had_deadlock && cstack[p]._lowsource != std::numeric_limits<idx_t>::max())
-        {
+        // without a loop (state accepting everything) any continuation violates the formula.
+        if (_loop_pos == std::numeric_limits<idx_t>::max() || !add(_loop_trans))
+            return;
+        // follow the edges towards the root of the component until back in dstack.
+        auto p = _loop_pos;
+        while (!cstack[p]._dstack) {
+            assert(cstack[p]._lowsource != std::numeric_limits<idx_t>::max());
+            if (!add(cstack[p]._sourcetrans))
+                return;
             p = cstack[p]._lowsource;
-            while (cstack[p]._lowlink != std::numeric_limits<idx_t>::max() && p != cstack[p]._lowsource) {
-                auto[parent, tid] = seen.get_history(cstack[p]._stateid);
-                assert(tid < _net.numberOfTransitions());
-                _trace.push_back({(uint32_t)tid});
-                if(tid >= std::numeric_limits<ptrie::uint>::max() - 1)
-                {
-                    had_deadlock = true;
-                    break;
-                }
-                if(cstack[p]._lowsource == std::numeric_limits<idx_t>::max())
-                    break;
-                assert(cstack[p]._lowsource != std::numeric_limits<idx_t>::max());
-                p = cstack[p]._lowsource;
-            }
-        }
-        if(!had_deadlock && _loop_trans < _net.numberOfTransitions())
-        {
-            assert(_loop_trans < _net.numberOfTransitions());
-            _trace.push_back({_loop_trans});
         }
+        for (const auto& [length, pos] : path)
+            if (pos == p)
+                _loop = length;
     }
 }
-- 
2.43.0


From 52d6faae43834e2c526f90b99716a6dd48a9d0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:46 +0000
Subject: [PATCH 39/66] fix: LTL nested DFS traces contain the closing step and
 survive deadlocks (assertion)

---
 src/LTL/Algorithm/NestedDepthFirstSearch.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/LTL/Algorithm/NestedDepthFirstSearch.cpp b/src/LTL/Algorithm/NestedDepthFirstSearch.cpp
index 41e6c15..9d53cd7 100644
--- a/src/LTL/Algorithm/NestedDepthFirstSearch.cpp
+++ b/src/LTL/Algorithm/NestedDepthFirstSearch.cpp
@@ -227,10 +227,9 @@ namespace LTL {
         if(!todo.empty())
             todo.pop_back();
         if(!nested_todo.empty()) {
-            // here the last state is significant
-            // of the successor is the check that demonstrates the violation.
-            loop_id = nested_todo.back()._id;
-            nested_todo.pop_back();
+            // here the last state is significant, its transition leads back
+            // to the first state of the nested search, which closes the loop.
+            loop_id = nested_todo.front()._id;
         }
 
         for(auto* stck : {&todo, &nested_todo})
@@ -251,7 +250,9 @@ namespace LTL {
                 else
                 {
                     _trace.push_back({top._sucinfo.transition()});
-                    assert(top._sucinfo.transition() < _net.numberOfTransitions());
+                    // either a proper transition or the repetition of a deadlock.
+                    assert(top._sucinfo.transition() < _net.numberOfTransitions() ||
+                           top._sucinfo.transition() == std::numeric_limits<uint32_t>::max() - 1);
                 }
                 (*stck).pop_front();
             }
-- 
2.43.0


From 44913d5e3706b05c75a382f1bc52392cac07bf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:46 +0000
Subject: [PATCH 40/66] fix: stubborn sets see the enabled transitions of a net
 without places

---
 include/PetriEngine/Stubborn/StubbornSet.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/PetriEngine/Stubborn/StubbornSet.h b/include/PetriEngine/Stubborn/StubbornSet.h
index f74b4ce..6ad497f 100644
--- a/include/PetriEngine/Stubborn/StubbornSet.h
+++ b/include/PetriEngine/Stubborn/StubbornSet.h
@@ -243,11 +243,13 @@ namespace PetriEngine {
             _ordering.clear();
             memset(_enabled.get(), 0, _net.numberOfTransitions());
             memset(_stubborn.get(), 0, _net.numberOfTransitions());
-            for (uint32_t p = 0; p < _net.numberOfPlaces(); ++p) {
-                // orphans are currently under "place 0" as a special case
+            const uint32_t nplaces = _net.numberOfPlaces();
+            for (uint32_t p = 0; p == 0 || p < nplaces; ++p) {
+                // orphans are currently under "place 0" as a special case,
+                // without any places all transitions are orphans.
                 if (p == 0 || _parent->marking()[p] > 0) {
-                    uint32_t t = placeToPtrs()[p];
-                    uint32_t last = placeToPtrs()[p + 1];
+                    uint32_t t = nplaces == 0 ? 0 : placeToPtrs()[p];
+                    uint32_t last = nplaces == 0 ? _net.numberOfTransitions() : placeToPtrs()[p + 1];
 
                     for (; t != last; ++t) {
                         if (!checkPreset(t)) {
-- 
2.43.0


From 23ffc32c14274983aaf7c27b8cb6c8c153e24626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:46 +0000
Subject: [PATCH 41/66] fix: rules A and B fire the removed transition as often
 as needed in traces

---
 src/PetriEngine/Reducer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index 6726558..afdf423 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -362,9 +362,11 @@ namespace PetriEngine {
                 for(size_t pp : pre.producers)
                 {
                     auto prefire = getTransitionName(pp);
-                    _postfire[*prefire].push_back(tname);
+                    const auto multiplier = getOutArc(parent->_transitions[pp], pPre)->weight / w;
+                    for(size_t i = 0; i < multiplier; ++i)
+                        _postfire[*prefire].push_back(tname);
                 }
-                for(size_t i = 0; i < parent->initMarking()[pPre]; ++i)
+                for(size_t i = 0; i < parent->initMarking()[pPre] / w; ++i)
                 {
                     _initfire.push_back(tname);
                 }
@@ -543,7 +545,7 @@ namespace PetriEngine {
                         _postfire[*toutname].push_back(tinname);
                     }
 
-                    for(size_t i = 0; initm > 0 && i < initm / inArc->weight; ++i )
+                    for(size_t i = 0; i < initm; ++i )
                     {
                         _initfire.push_back(tinname);
                     }
-- 
2.43.0


From a8d2cb0985256d44bea83e5d7f38f5b3097b74ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:11 +0000
Subject: [PATCH 42/66] fix: TAR crashed on queries that simplify to a constant

---
 include/PetriEngine/PQL/PlaceUseVisitor.h | 1 +
 src/PetriEngine/TAR/TARReachability.cpp   | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/PetriEngine/PQL/PlaceUseVisitor.h b/include/PetriEngine/PQL/PlaceUseVisitor.h
index 9354fc4..275e73e 100644
--- a/include/PetriEngine/PQL/PlaceUseVisitor.h
+++ b/include/PetriEngine/PQL/PlaceUseVisitor.h
@@ -35,6 +35,7 @@ namespace PQL {
         }
     protected:
         virtual void _accept(const NotCondition* element) override;
+        virtual void _accept(const BooleanCondition* element) override {}
         virtual void _accept(const AndCondition* element) override;
         virtual void _accept(const OrCondition* element) override;
         virtual void _accept(const LessThanCondition* element) override;
diff --git a/src/PetriEngine/TAR/TARReachability.cpp b/src/PetriEngine/TAR/TARReachability.cpp
index f1f4e65..326e654 100644
--- a/src/PetriEngine/TAR/TARReachability.cpp
+++ b/src/PetriEngine/TAR/TARReachability.cpp
@@ -482,7 +482,8 @@ namespace PetriEngine {
                             used[p] = true;
                     }
                     Solver solver(_net, state.marking(), queries[i].get(), used);
-                    bool res = tryReach(printtrace, solver);
+                    // a query that simplified to false holds in no marking
+                    bool res = !queries[i]->isTriviallyFalse() && tryReach(printtrace, solver);
                     if(res)
                         results[i] = ResultPrinter::Satisfied;
                     else
-- 
2.43.0


From 07fffaaff517a6cc05edcb52b99749e3423a3a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:11 +0000
Subject: [PATCH 43/66] fix: TAR interpolants: failing assertions on negative
 limits, dirty places, source transitions and negated deadlock

---
 src/PetriEngine/TAR/RangeContext.cpp     | 13 +++++++------
 src/PetriEngine/TAR/RangeEvalContext.cpp |  6 +++++-
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/PetriEngine/TAR/RangeContext.cpp b/src/PetriEngine/TAR/RangeContext.cpp
index b6b6da4..fb264c9 100644
--- a/src/PetriEngine/TAR/RangeContext.cpp
+++ b/src/PetriEngine/TAR/RangeContext.cpp
@@ -50,7 +50,6 @@ namespace PetriEngine {
 
     void RangeContext::_accept(const NotCondition* element)
     {
-        assert(false);
         throw base_error("Unsupported query type for TAR");
     }
 
@@ -158,7 +157,7 @@ namespace PetriEngine {
         if (_lt)
             pr._range._upper = std::min<uint32_t>(pr._range._upper, _limit);
         else
-            pr._range._lower = std::max<uint32_t>(pr._range._lower, _limit);
+            pr._range._lower = std::max<int64_t>(pr._range._lower, _limit); // _limit may be negative
         assert(pr._range._lower <= _base[element->offset()]);
         assert(pr._range._upper >= _base[element->offset()]);
     }
@@ -212,6 +211,8 @@ namespace PetriEngine {
         bool dirty = false;
         for (size_t t = 0; t < _net.numberOfTransitions(); ++t) {
             auto pre = _net.preset(t);
+            if (pre.first == pre.second)
+                return; // always enabled, no marking is a deadlock
             bool ok = true;
             for (; pre.first != pre.second; ++pre.first) {
                 assert(!pre.first->inhibitor);
@@ -265,8 +266,8 @@ namespace PetriEngine {
         for (auto& c : element->constraints()) {
             if (!disjunction) {
                 if (c._lower > _base[c._place]) {
-                    auto& added = _ranges.find_or_add(c._place);
-                    if (added._range._upper <= c._lower - 1)
+                    auto* added = _ranges[c._place];
+                    if (added != nullptr && added->_range._upper <= c._lower - 1)
                         return;
                     if (!_dirty[c._place] && priority < _uses[c._place]) {
                         pr = placerange_t();
@@ -278,8 +279,8 @@ namespace PetriEngine {
                     }
                 }
                 else if (c._upper < _base[c._place]) {
-                    auto& added = _ranges.find_or_add(c._place);
-                    if (added._range._lower >= c._upper + 1)
+                    auto* added = _ranges[c._place];
+                    if (added != nullptr && added->_range._lower >= c._upper + 1)
                         return;
                     if (!_dirty[c._place] && priority < _uses[c._place]) {
                         pr = placerange_t();
diff --git a/src/PetriEngine/TAR/RangeEvalContext.cpp b/src/PetriEngine/TAR/RangeEvalContext.cpp
index 643961e..8a8ee2e 100644
--- a/src/PetriEngine/TAR/RangeEvalContext.cpp
+++ b/src/PetriEngine/TAR/RangeEvalContext.cpp
@@ -21,7 +21,11 @@ namespace PetriEngine
 
     }
 
-    void RangeEvalContext::_accept(const NotCondition* element) { assert(false); }
+    void RangeEvalContext::_accept(const NotCondition* element)
+    {
+        throw base_error("Unsupported query type for TAR");
+    }
+
     void RangeEvalContext::_accept(const AndCondition* element)
     {
         prvector_t sufficient;
-- 
2.43.0


From 716963d9200bbf8bd7fc3def8c256b1fdff67ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:13 +0000
Subject: [PATCH 44/66] fix: exhausted successors of a place-less net are
 remembered as such (LTL traces of its deadlock)

---
 include/PetriEngine/SuccessorGenerator.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/PetriEngine/SuccessorGenerator.h b/include/PetriEngine/SuccessorGenerator.h
index 763bbc3..ec7c2f9 100644
--- a/include/PetriEngine/SuccessorGenerator.h
+++ b/include/PetriEngine/SuccessorGenerator.h
@@ -87,6 +87,8 @@ protected:
     bool _next(Structures::State& write, T&& predicate) {
         if (_net._nplaces == 0) {
             // without places every transition is an orphan (and enabled)
+            if (_suc_pcounter != 0)
+                return false;
             if (_suc_tcounter == std::numeric_limits<uint32_t>::max())
                 _suc_tcounter = 0;
             for (; _suc_tcounter < _net._ntransitions; ++_suc_tcounter) {
@@ -94,6 +96,8 @@ protected:
                 _fire(write, _suc_tcounter); // <-- also updated _suc_tcounter
                 return true;
             }
+            ++_suc_pcounter;
+            _suc_tcounter = std::numeric_limits<uint32_t>::max();
             return false;
         }
         for (; _suc_pcounter < _net._nplaces; ++_suc_pcounter) {
-- 
2.43.0


From c6a8445b88ed706fc59e1438ee5f52c5ed7c8c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:42 +0000
Subject: [PATCH 45/66] fix: <place-bound> is written as it is read (written
 bounds queries could not be parsed)

---
 src/PetriEngine/PQL/XMLPrinter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/PetriEngine/PQL/XMLPrinter.cpp b/src/PetriEngine/PQL/XMLPrinter.cpp
index a9c9cc5..afb8beb 100644
--- a/src/PetriEngine/PQL/XMLPrinter.cpp
+++ b/src/PetriEngine/PQL/XMLPrinter.cpp
@@ -172,6 +172,11 @@ namespace PetriEngine {
         }
 
         void XMLPrinter::_accept(const EFCondition *condition) {
+            if (dynamic_cast<const UnfoldedUpperBoundsCondition*>(condition->getCond().get())) {
+                // <place-bound> is a formula of its own
+                Visitor::visit(this, condition->getCond());
+                return;
+            }
             Tag ep(this, "exists-path");
             {
                 Tag f(this, "finally");
-- 
2.43.0


From cabf33f61ce402d55223e7e598591d709cd9f571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:42 +0000
Subject: [PATCH 46/66] fix: comparisons with negative limits were merged into
 conjunctions as true

---
 src/PetriEngine/PQL/Expressions.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/PQL/Expressions.cpp b/src/PetriEngine/PQL/Expressions.cpp
index 234932b..f002bce 100644
--- a/src/PetriEngine/PQL/Expressions.cpp
+++ b/src/PetriEngine/PQL/Expressions.cpp
@@ -42,6 +42,18 @@ namespace PetriEngine {
     namespace PQL {
 
         /** FOR COMPILING AND CONSTRUCTING LOGICAL OPERATORS **/
+
+        /** true if the comparison is an interval of one place, i.e. expressible as a CompareConjunction **/
+        static bool isInterval(const CompareCondition& comp)
+        {
+            EvaluationContext context;
+            if (dynamic_cast<UnfoldedIdentifierExpr*>(comp[0].get()) && comp[1]->placeFree())
+                return evaluate(comp[1].get(), context) >= (dynamic_cast<const LessThanCondition*>(&comp) ? 1 : 0);
+            if (dynamic_cast<UnfoldedIdentifierExpr*>(comp[1].get()) && comp[0]->placeFree())
+                return evaluate(comp[0].get(), context) >= 0;
+            return false;
+        }
+
         template<typename T>
         void tryMerge(std::vector<Condition_ptr>& _conds, const Condition_ptr& ptr, bool aggressive = false)
         {
@@ -62,8 +74,7 @@ namespace PetriEngine {
                 }
                 else
                 {
-                    if(! ((dynamic_cast<UnfoldedIdentifierExpr*>((*comp)[0].get()) && (*comp)[1]->placeFree()) ||
-                          (dynamic_cast<UnfoldedIdentifierExpr*>((*comp)[1].get()) && (*comp)[0]->placeFree())))
+                    if(!isInterval(*comp))
                     {
                         _conds.emplace_back(ptr);
                         return;
-- 
2.43.0


From 153da2b791b37ffc9d43f4720a17fe9c2420708f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:42 +0000
Subject: [PATCH 47/66] fix: variables that arcs tell apart were taken for
 symmetric

---
 include/PetriEngine/Colored/SymmetryVisitor.h |  5 ++---
 src/PetriEngine/Colored/VariableSymmetry.cpp  | 12 ++++++++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/PetriEngine/Colored/SymmetryVisitor.h b/include/PetriEngine/Colored/SymmetryVisitor.h
index a29c637..0e6fb4d 100644
--- a/include/PetriEngine/Colored/SymmetryVisitor.h
+++ b/include/PetriEngine/Colored/SymmetryVisitor.h
@@ -110,14 +110,13 @@ namespace PetriEngine {
 
             virtual void accept(const NumberOfExpression* no)
             {
-                //Not entirely sure what to do if there is more than one colorExpression, but should probably return false
-                if(no->size() > 1){
+                //only plain variables are interchangeable
+                if(no->size() != 1 || dynamic_cast<const VariableExpression*>((*no)[0].get()) == nullptr){
                     _ok = false;
                 }
                 else
                 {
                     _numbers.emplace_back(no->number());
-                    //Maybe we need to check color expression also
                 }
             }
 
diff --git a/src/PetriEngine/Colored/VariableSymmetry.cpp b/src/PetriEngine/Colored/VariableSymmetry.cpp
index 2f36a71..823eb9f 100644
--- a/src/PetriEngine/Colored/VariableSymmetry.cpp
+++ b/src/PetriEngine/Colored/VariableSymmetry.cpp
@@ -41,7 +41,8 @@ namespace PetriEngine {
                         if (isEligible && numbers.size() > 1) {
                             Colored::VariableVisitor::get_variables(*inArc.expr, inArcVars);
                             //It cannot be symmetric with anything if there is only one variable
-                            if (inArcVars.size() < 2) {
+                            //nor if some variable appears more than once
+                            if (inArcVars.size() < 2 || inArcVars.size() != numbers.size()) {
                                 continue;
                             }
                             //The variables may appear only on one input arc and one output arc
@@ -53,7 +54,8 @@ namespace PetriEngine {
                         } else {
                             isEligible = false;
                         }
-                        if (isEligible) {
+                        //the bindings of one set of symmetric variables are enumerated for each transition
+                        if (isEligible && _symmetric_var_map[transitionId].empty()) {
                             _symmetric_var_map[transitionId].emplace_back(inArcVars);
                         }
                     }
@@ -92,6 +94,12 @@ namespace PetriEngine {
                     }
                 }
                 if (foundArc) {
+                    //the output has to be a sum of the same variables, each appearing once
+                    auto [symmetric, numbers] = Colored::SymmetryVisitor::eligible_for_symmetry(*outputArc.expr);
+                    if (!symmetric || numbers.size() != inArcVars.size() || otherArcVars.size() != inArcVars.size()) {
+                        isEligible = false;
+                        break;
+                    }
                     //Application of symmetric variables for partitioned places is currently unhandled
                     if (_partition.computed() && !_partition.partition()[outputArc.place].isDiagonal()) {
                         isEligible = false;
-- 
2.43.0


From 1e5dfa21b1b40045118c7d423cf91196e9910336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:14 +0000
Subject: [PATCH 48/66] fix: empty sums and products were written as nothing in
 XML queries

---
 src/PetriEngine/PQL/XMLPrinter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/PQL/XMLPrinter.cpp b/src/PetriEngine/PQL/XMLPrinter.cpp
index afb8beb..4aaa427 100644
--- a/src/PetriEngine/PQL/XMLPrinter.cpp
+++ b/src/PetriEngine/PQL/XMLPrinter.cpp
@@ -327,7 +327,7 @@ namespace PetriEngine {
 
         void XMLPrinter::_accept(const PlusExpr *element) {
             auto printer = [this](auto* element) {
-                if(element->constant() != 0)
+                if(element->constant() != 0 || (element->places().empty() && element->expressions().empty()))
                     outputLine("<integer-constant>", element->constant(), "</integer-constant>");
                 if(!element->places().empty()) {
                     Tag tc(this, "tokens-count");
@@ -353,7 +353,7 @@ namespace PetriEngine {
 
         void XMLPrinter::_accept(const MultiplyExpr *element) {
             auto printer = [this](auto* element) {
-                if(element->constant() != 1)
+                if(element->constant() != 1 || (element->places().empty() && element->expressions().empty()))
                 outputLine("<integer-constant>", element->constant(), "</integer-constant>");
                 if(!element->places().empty()) {
                     for(auto& i : element->places())
-- 
2.43.0


From d8e327896c5201d6e74050fcba14476530ae5168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:14 +0000
Subject: [PATCH 49/66] fix: 0 <= p became false when merged into a disjunction

---
 src/PetriEngine/PQL/Expressions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/PQL/Expressions.cpp b/src/PetriEngine/PQL/Expressions.cpp
index f002bce..d0ad025 100644
--- a/src/PetriEngine/PQL/Expressions.cpp
+++ b/src/PetriEngine/PQL/Expressions.cpp
@@ -43,14 +43,14 @@ namespace PetriEngine {
 
         /** FOR COMPILING AND CONSTRUCTING LOGICAL OPERATORS **/
 
-        /** true if the comparison is an interval of one place, i.e. expressible as a CompareConjunction **/
+        /** true if the comparison is an interval of one place, i.e. expressible as a CompareConjunction, also when negated **/
         static bool isInterval(const CompareCondition& comp)
         {
             EvaluationContext context;
             if (dynamic_cast<UnfoldedIdentifierExpr*>(comp[0].get()) && comp[1]->placeFree())
                 return evaluate(comp[1].get(), context) >= (dynamic_cast<const LessThanCondition*>(&comp) ? 1 : 0);
             if (dynamic_cast<UnfoldedIdentifierExpr*>(comp[1].get()) && comp[0]->placeFree())
-                return evaluate(comp[0].get(), context) >= 0;
+                return evaluate(comp[0].get(), context) >= (dynamic_cast<const LessThanOrEqualCondition*>(&comp) ? 1 : 0);
             return false;
         }
 
-- 
2.43.0


From 0a57498922be2d0e5472e22e1664fd43cecbf9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:14 +0000
Subject: [PATCH 50/66] fix: the search was guided by solved (or LTL) queries:
 failing assertion with several LTL queries

---
 .../Reachability/ReachabilitySearch.h            | 16 ++++++++++++++++
 .../Reachability/ReachabilitySearch.cpp          | 10 +---------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/PetriEngine/Reachability/ReachabilitySearch.h b/include/PetriEngine/Reachability/ReachabilitySearch.h
index d39b177..cb9d9a1 100644
--- a/include/PetriEngine/Reachability/ReachabilitySearch.h
+++ b/include/PetriEngine/Reachability/ReachabilitySearch.h
@@ -74,6 +74,20 @@ namespace PetriEngine {
                 std::vector<size_t> enabledTransitionsCount;
                 size_t heurquery = 0;
                 bool usequeries;
+
+                // guide the search by an unsolved query, if there is one
+                void nextHeurQuery(const std::vector<ResultPrinter::Result>& results)
+                {
+                    for(size_t n = 0; n < results.size(); ++n)
+                    {
+                        const size_t i = (heurquery + n) % results.size();
+                        if(results[i] == ResultPrinter::Unknown)
+                        {
+                            heurquery = i;
+                            return;
+                        }
+                    }
+                }
             };
 
             template<typename W = Structures::RandomWalkStateSet, typename G>
@@ -140,6 +154,7 @@ namespace PetriEngine {
             ss.expandedStates = 0;
             ss.exploredStates = 1;
             ss.heurquery = queries.size() >= 2 ? std::rand() % queries.size() : 0;
+            ss.nextHeurQuery(results);
             ss.usequeries = usequeries;
 
             // set up working area
@@ -240,6 +255,7 @@ namespace PetriEngine {
             ss.expandedStates = 0;
             ss.exploredStates = 1;
             ss.heurquery = queries.size() >= 2 ? std::rand() % queries.size() : 0;
+            ss.nextHeurQuery(results);
             ss.usequeries = usequeries;
             const PQL::Condition *query = queries[ss.heurquery].get();
 
diff --git a/src/PetriEngine/Reachability/ReachabilitySearch.cpp b/src/PetriEngine/Reachability/ReachabilitySearch.cpp
index 796e5e8..e5e5100 100644
--- a/src/PetriEngine/Reachability/ReachabilitySearch.cpp
+++ b/src/PetriEngine/Reachability/ReachabilitySearch.cpp
@@ -60,15 +60,7 @@ namespace PetriEngine {
                 if( i == ss.heurquery &&
                     results[i] != ResultPrinter::Unknown)
                 {
-                    if(queries.size() >= 2)
-                    {
-                        for(size_t n = 1; n < queries.size(); ++n)
-                        {
-                            ss.heurquery = (ss.heurquery + n) % queries.size();
-                            if(results[i] == ResultPrinter::Unknown)
-                                break;
-                        }
-                    }
+                    ss.nextHeurQuery(results);
                 }
             }
             return alldone;
-- 
2.43.0


From 1361701b7c0fde67c2de9f10915381636d6b9a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:05 +0000
Subject: [PATCH 51/66] fix: && is accepted in text queries (as || is)

---
 src/PetriEngine/PQL/PQLQueryTokens.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PetriEngine/PQL/PQLQueryTokens.l b/src/PetriEngine/PQL/PQLQueryTokens.l
index 8f9c384..2374dd8 100644
--- a/src/PetriEngine/PQL/PQLQueryTokens.l
+++ b/src/PetriEngine/PQL/PQLQueryTokens.l
@@ -56,7 +56,7 @@ letter        [a-zA-Z_]
 {letter}({letter}|{digit})* {SAVE_TOKEN; return ID;}
 {digit}+          {SAVE_TOKEN; return INT;}
 (\"(\\.|[^"])*\") {SAVE_QUOTED_TOKEN; return ID;}
-"&"|"&"?					{return TOKEN(AND);}
+"&""&"?					{return TOKEN(AND);}
 "|""|"?						{return TOKEN(OR);}
 "!"							{return TOKEN(NOT);}
 "=="						{return TOKEN(EQUAL);}
-- 
2.43.0


From 2145fc97021030493da3a7eda1573dab014c9725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:05 +0000
Subject: [PATCH 52/66] fix: global properties of nets with impossible
 transitions or no places crashed the query printer

---
 src/PetriEngine/PQL/Analyze.cpp      | 4 ++--
 src/PetriEngine/PQL/QueryPrinter.cpp | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/PQL/Analyze.cpp b/src/PetriEngine/PQL/Analyze.cpp
index 1cb8144..9a3e09d 100644
--- a/src/PetriEngine/PQL/Analyze.cpp
+++ b/src/PetriEngine/PQL/Analyze.cpp
@@ -325,7 +325,7 @@ namespace PetriEngine { namespace PQL {
                 std::vector<Condition_ptr> disj;
                 for(auto& tn : n.second)
                     disj.emplace_back(std::make_shared<UnfoldedFireableCondition>(tn));
-                quasi.emplace_back(std::make_shared<EFCondition>(std::make_shared<OrCondition>(std::move(disj))));
+                quasi.emplace_back(std::make_shared<EFCondition>(makeOr(disj)));
             }
         }
         else
@@ -355,7 +355,7 @@ namespace PetriEngine { namespace PQL {
                 std::vector<Condition_ptr> disj;
                 for(auto& tn : n.second)
                     disj.emplace_back(std::make_shared<UnfoldedFireableCondition>(tn));
-                liveness.emplace_back(std::make_shared<AGCondition>(std::make_shared<EFCondition>(std::make_shared<OrCondition>(std::move(disj)))));
+                liveness.emplace_back(std::make_shared<AGCondition>(std::make_shared<EFCondition>(makeOr(disj))));
             }
         }
         else
diff --git a/src/PetriEngine/PQL/QueryPrinter.cpp b/src/PetriEngine/PQL/QueryPrinter.cpp
index cf86e47..84edc33 100644
--- a/src/PetriEngine/PQL/QueryPrinter.cpp
+++ b/src/PetriEngine/PQL/QueryPrinter.cpp
@@ -27,6 +27,10 @@ namespace PetriEngine {
 
 
         void QueryPrinter::_accept(const LogicalCondition *element, const std::string &op) {
+            if (element->empty()) {
+                os << (op == "and" ? "true" : "false");
+                return;
+            }
             os << "(";
             Visitor::visit(this, (*element)[0]);
             for (size_t i = 1; i < element->operands(); ++i) {
-- 
2.43.0


From 3800c06f1023ddd98195ac5452c0fba85496ff5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:05 +0000
Subject: [PATCH 53/66] fix: queries over a shared constant (deadlock, true,
 false) got the answer of another query's quantifier

---
 src/PetriEngine/PQL/PrepareForReachability.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/PQL/PrepareForReachability.cpp b/src/PetriEngine/PQL/PrepareForReachability.cpp
index ea60558..5c4f4a0 100644
--- a/src/PetriEngine/PQL/PrepareForReachability.cpp
+++ b/src/PetriEngine/PQL/PrepareForReachability.cpp
@@ -47,8 +47,14 @@ namespace PetriEngine { namespace PQL {
     }
 
     void PrepareForReachabilityVisitor::_accept(const EFCondition *condition) {
-        condition->getCond()->setInvariant(_negated);
-        RETURN(condition->getCond());
+        Condition_ptr cond = condition->getCond();
+        // constants are shared between queries and must not be marked
+        if (auto constant = std::dynamic_pointer_cast<BooleanCondition>(cond))
+            cond = std::make_shared<BooleanCondition>(constant->value);
+        else if (std::dynamic_pointer_cast<DeadlockCondition>(cond))
+            cond = std::make_shared<DeadlockCondition>();
+        cond->setInvariant(_negated);
+        RETURN(cond)
     }
 
     void PrepareForReachabilityVisitor::_accept(const AXCondition *condition) {
-- 
2.43.0


From aaee4a56eebd6f1bcf105fababe7233adb09f66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:35 +0000
Subject: [PATCH 54/66] fix: only the first of several control queries was
 answered

---
 src/main.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 9f2094d..9df756d 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -476,9 +476,9 @@ int main(int argc, const char** argv) {
 
                 if (strategy_out != nullptr && strategy_out != &std::cout)
                     delete strategy_out;
-                if (std::find(results.begin(), results.end(), ResultPrinter::Unknown) == results.end()) {
-                    return to_underlying(ReturnValue::SuccessCode);
-                }
+            }
+            if (!synth_ids.empty() && std::find(results.begin(), results.end(), ResultPrinter::Unknown) == results.end()) {
+                return to_underlying(ReturnValue::SuccessCode);
             }
 
 
-- 
2.43.0


From 232afb70450cdd99ae556b49d585aae4f7c5a170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:56 +0000
Subject: [PATCH 55/66] fix: synthesis partial order reduction misjudged
 negations and differences

---
 include/PetriEngine/Synthesis/IntervalVisitor.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/PetriEngine/Synthesis/IntervalVisitor.h b/include/PetriEngine/Synthesis/IntervalVisitor.h
index 3b0a0ab..0266c24 100644
--- a/include/PetriEngine/Synthesis/IntervalVisitor.h
+++ b/include/PetriEngine/Synthesis/IntervalVisitor.h
@@ -31,6 +31,7 @@ namespace PetriEngine {
         protected:
             virtual void _accept(const PQL::NotCondition* element)
             {
+                Visitor::visit(this, (*element)[0]);
                 switch(_result_tos)
                 {
                     case TRUE:
@@ -315,6 +316,7 @@ namespace PetriEngine {
             }
 
             virtual void _accept(const PQL::MinusExpr *element) {
+                Visitor::visit(this, (*element)[0]);
                 _bound_tos.first *= -1;
                 _bound_tos.second *= -1;
                 std::swap(_bound_tos.first, _bound_tos.second);
@@ -328,8 +330,7 @@ namespace PetriEngine {
                     Visitor::visit(this, e);
                     if(first)
                     {
-                        bounds.first = _bound_tos.second;
-                        bounds.second = _bound_tos.first;
+                        bounds = _bound_tos;
                         first = false;
                     }
                     else
-- 
2.43.0


From d9b8309c30f8e347088e5c424c4119cbf0d266f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:56 +0000
Subject: [PATCH 56/66] fix: token bounds of synthesis partial order reduction
 left out tokens already present

---
 src/PetriEngine/Synthesis/GameStubbornSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/Synthesis/GameStubbornSet.cpp b/src/PetriEngine/Synthesis/GameStubbornSet.cpp
index 72f284b..bcf1484 100644
--- a/src/PetriEngine/Synthesis/GameStubbornSet.cpp
+++ b/src/PetriEngine/Synthesis/GameStubbornSet.cpp
@@ -135,7 +135,7 @@ namespace PetriEngine {
                         while (fout < lout && fout->place < finv->place)
                             ++fout;
                         if (fout < lout && fout->place == finv->place) {
-                            mx = std::min(_place_bounds[finv->place].second / (fout->tokens - finv->tokens), mx);
+                            mx = std::min(_place_bounds[finv->place].second / (finv->tokens - fout->tokens), mx);
                         } else {
                             mx = std::min(_place_bounds[finv->place].second / finv->tokens, mx);
                         }
@@ -160,7 +160,7 @@ namespace PetriEngine {
                 _places_seen[p] &= ~WAITING;
 
                 // place loop
-                uint64_t sum = 0;
+                uint64_t sum = (*_parent)[p];
                 for (auto ti = _places[p].pre; ti != _places[p].post; ++ti) {
                     const auto& arc = _arcs[ti];
                     if (arc.direction <= 0 ||
-- 
2.43.0


From 0e4d8c176b651cac0574d2c0d3bba82ec50cd20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:18 +0000
Subject: [PATCH 57/66] fix: a safety controller that can only wait (self-loop)
 was declared losing

---
 src/PetriEngine/Synthesis/SimpleSynthesis.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PetriEngine/Synthesis/SimpleSynthesis.cpp b/src/PetriEngine/Synthesis/SimpleSynthesis.cpp
index 787abb0..71b1db1 100644
--- a/src/PetriEngine/Synthesis/SimpleSynthesis.cpp
+++ b/src/PetriEngine/Synthesis/SimpleSynthesis.cpp
@@ -465,6 +465,7 @@ namespace PetriEngine {
                 some = true;
                 if (&child == &cconf) {
                     if (_is_safety) { // maybe a win if safety ( no need to explore more)
+                        some_winning = true;
                         cconf._state = SynthConfig::MAYBE;
                         if (!permissive) {
                             ctrl_buffer.clear();
-- 
2.43.0


From be519608ad23a16967615ebd5a48e15177f8d23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:56 +0000
Subject: [PATCH 58/66] fix: synthesis partial order reduction overlooked
 decreasing places and deadlock in the objective

---
 include/PetriEngine/Synthesis/GameStubbornSet.h |  1 +
 src/PetriEngine/Synthesis/GameStubbornSet.cpp   | 12 +++++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/PetriEngine/Synthesis/GameStubbornSet.h b/include/PetriEngine/Synthesis/GameStubbornSet.h
index a4309aa..1241e90 100644
--- a/include/PetriEngine/Synthesis/GameStubbornSet.h
+++ b/include/PetriEngine/Synthesis/GameStubbornSet.h
@@ -47,6 +47,7 @@ namespace PetriEngine {
             std::vector<bool> _inhibiting_place;
             std::vector<bool> _future_enabled;
             PQL::PlaceUseVisitor _in_query;
+            bool _query_has_deadlock = false;
             std::unique_ptr<uint32_t[]> _fireing_bounds;
             std::unique_ptr<std::pair<uint32_t,uint32_t>[]> _place_bounds;
             bool _added_enabled = false;
diff --git a/src/PetriEngine/Synthesis/GameStubbornSet.cpp b/src/PetriEngine/Synthesis/GameStubbornSet.cpp
index bcf1484..f3d6f8e 100644
--- a/src/PetriEngine/Synthesis/GameStubbornSet.cpp
+++ b/src/PetriEngine/Synthesis/GameStubbornSet.cpp
@@ -4,6 +4,7 @@
 #include "PetriEngine/PQL/Contexts.h"
 #include "PetriEngine/Stubborn/InterestingTransitionVisitor.h"
 #include "PetriEngine/PQL/Evaluation.h"
+#include "PetriEngine/PQL/PredicateCheckers.h"
 
 #include <stack>
 
@@ -31,6 +32,9 @@ namespace PetriEngine {
                         _inhibiting_place[finv->place] = true;
             }
             PQL::Visitor::visit(_in_query, predicate);
+            PQL::ContainsDeadlockVisitor deadlock;
+            PQL::Visitor::visit(deadlock, predicate);
+            _query_has_deadlock = deadlock.getReturnValue();
             _fireing_bounds = std::make_unique<uint32_t[]>(_net.numberOfTransitions());
             _place_bounds = std::make_unique<std::pair<uint32_t,uint32_t>[]>(_net.numberOfPlaces());
         }
@@ -248,13 +252,16 @@ namespace PetriEngine {
         bool GameStubbornSet::approximateFuture(const bool ctrl) {
             std::stack<uint32_t> waiting;
             std::fill(_future_enabled.begin(), _future_enabled.end(), false);
-            auto color_transition = [this, &waiting](auto t) {
+            bool seen_from_query = _query_has_deadlock;
+            auto color_transition = [this, &waiting, &seen_from_query](auto t) {
                 _future_enabled[t] = true;
-                if (_netContainsInhibitorArcs) {
+                {
                     // check for decrementors
                     auto [finv, linv] = _net.preset(t);
 
                     for (; finv < linv; ++finv) {
+                        if (finv->direction < 0 && _in_query[finv->place])
+                            seen_from_query = true;
                         if (finv->direction < 0 && _inhibiting_place[finv->place]) {
                             if ((_places_seen[finv->place] & DECR) == 0)
                                 waiting.push(finv->place);
@@ -283,7 +290,6 @@ namespace PetriEngine {
             }
 
             // saturate
-            bool seen_from_query = false;
             while (!waiting.empty()) {
                 auto p = waiting.top();
                 waiting.pop();
-- 
2.43.0


From 81906c0e67619da56aae0ff1d2dbc46889d68292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:34 +0000
Subject: [PATCH 59/66] fix: environment transitions without input places were
 given to the controller

---
 src/PetriEngine/PetriNetBuilder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PetriEngine/PetriNetBuilder.cpp b/src/PetriEngine/PetriNetBuilder.cpp
index 6320c33..63dca13 100644
--- a/src/PetriEngine/PetriNetBuilder.cpp
+++ b/src/PetriEngine/PetriNetBuilder.cpp
@@ -299,6 +299,7 @@ namespace PetriEngine {
                 // ALL have to be inhibitor, if any. Otherwise not orphan
 
                 if(trans.skip) continue;
+                net->_controllable[freetrans] = trans._player == 0;
                 net->_transitions[freetrans].inputs = freeinv;
 
                 // add inhibitors
-- 
2.43.0


From 3851969705fd2add1fbe57a24f9b83ec00e683a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:49 +0000
Subject: [PATCH 60/66] fix: synthesis partial order reduction overlooked
 transitions that become uninhibited

---
 src/PetriEngine/Synthesis/GameStubbornSet.cpp | 59 +++++++++----------
 1 file changed, 29 insertions(+), 30 deletions(-)

diff --git a/src/PetriEngine/Synthesis/GameStubbornSet.cpp b/src/PetriEngine/Synthesis/GameStubbornSet.cpp
index f3d6f8e..fefb776 100644
--- a/src/PetriEngine/Synthesis/GameStubbornSet.cpp
+++ b/src/PetriEngine/Synthesis/GameStubbornSet.cpp
@@ -296,38 +296,37 @@ namespace PetriEngine {
                 if (_in_query[p]) {
                     seen_from_query = true;
                 }
-                if ((_places_seen[p] & INCR) != 0 ||
-                    (_inhibiting_place[p] && (_places_seen[p] & DECR) != 0)) {
-                    auto pf = _places[p].post;
-                    auto pl = _places[p + 1].pre;
-                    for (; pf < pl; ++pf) {
-                        if ((_future_enabled[_arcs[pf].index]) == 0 &&
-                            _net.controllable(_arcs[pf].index) == ctrl) {
-                            auto t = _arcs[pf].index;
-                            auto [finv, linv] = _net.preset(t);
-                            bool ok = true;
-                            // check color of preset
-                            for (; finv < linv; ++finv) {
-                                if (!finv->inhibitor &&
-                                    (_places_seen[finv->place] & INCR) == 0 &&
-                                    (*_parent)[finv->place] < finv->tokens) {
-                                    // no proof of enabelable yet
-                                    ok = false;
-                                    break;
-                                }
-                                if (finv->inhibitor &&
-                                    (_places_seen[finv->place] & DECR) == 0 &&
-                                    (*_parent)[finv->place] >= finv->tokens) {
-                                    // no proof of uninhib yet
-                                    ok = false;
-                                    break;
-                                }
-                            }
-                            if (ok) {
-                                color_transition(t);
-                            }
+                const auto check_transition = [this, ctrl, &color_transition](uint32_t t) {
+                    if (_future_enabled[t] || _net.controllable(t) != ctrl)
+                        return;
+                    auto [finv, linv] = _net.preset(t);
+                    // check color of preset
+                    for (; finv < linv; ++finv) {
+                        if (!finv->inhibitor &&
+                            (_places_seen[finv->place] & INCR) == 0 &&
+                            (*_parent)[finv->place] < finv->tokens) {
+                            // no proof of enabelable yet
+                            return;
+                        }
+                        if (finv->inhibitor &&
+                            (_places_seen[finv->place] & DECR) == 0 &&
+                            (*_parent)[finv->place] >= finv->tokens) {
+                            // no proof of uninhib yet
+                            return;
                         }
                     }
+                    color_transition(t);
+                };
+                if ((_places_seen[p] & INCR) != 0) {
+                    auto pf = _places[p].post;
+                    auto pl = _places[p + 1].pre;
+                    for (; pf < pl; ++pf)
+                        check_transition(_arcs[pf].index);
+                }
+                if ((_places_seen[p] & DECR) != 0) {
+                    // the transitions inhibited by p are not among the consuming arcs
+                    for (auto t : _inhibpost[p])
+                        check_transition(t);
                 }
             }
             return seen_from_query;
-- 
2.43.0


From c0c0d6166ecc4837ea21d1c96a5d05939056b640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:43 +0000
Subject: [PATCH 61/66] fix: products of unbounded places wrapped around in
 synthesis partial order reduction

---
 .../PetriEngine/Synthesis/IntervalVisitor.h    | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/PetriEngine/Synthesis/IntervalVisitor.h b/include/PetriEngine/Synthesis/IntervalVisitor.h
index 0266c24..401ae0c 100644
--- a/include/PetriEngine/Synthesis/IntervalVisitor.h
+++ b/include/PetriEngine/Synthesis/IntervalVisitor.h
@@ -11,6 +11,8 @@
 
 #include "PetriEngine/PQL/Visitor.h"
 #include <cassert>
+#include <cstdlib>
+#include <limits>
 
 
 namespace PetriEngine {
@@ -286,12 +288,20 @@ namespace PetriEngine {
                 _bound_tos = bounds;
             }
 
-            template<typename T>
-            std::pair<T,T> multiply(const std::pair<T,T> a, const std::pair<T,T> b)
+            // unbounded places have an upper bound of 2^32-1, products of these must not wrap around
+            static int64_t multiply(int64_t a, int64_t b)
             {
-                auto lb = a.first * b.first;
+                constexpr int64_t limit = std::numeric_limits<int64_t>::max() / 4;
+                if(a != 0 && std::abs(b) > limit / std::abs(a))
+                    return (a < 0) == (b < 0) ? limit : -limit;
+                return a * b;
+            }
+
+            static std::pair<int64_t,int64_t> multiply(const std::pair<int64_t,int64_t> a, const std::pair<int64_t,int64_t> b)
+            {
+                auto lb = multiply(a.first, b.first);
                 auto ub = lb;
-                for(auto v : {a.first* b.second, a.second*b.first, a.second*b.second})
+                for(auto v : {multiply(a.first, b.second), multiply(a.second, b.first), multiply(a.second, b.second)})
                 {
                     lb = std::min(lb, v);
                     ub = std::max(ub, v);
-- 
2.43.0


From a23054251f4076e0a433c9c6977c84685b49149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:12 +0000
Subject: [PATCH 62/66] fix: only one of the controller's transitions that
 enable the environment was treated as unsafe

---
 src/PetriEngine/Synthesis/GameStubbornSet.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/PetriEngine/Synthesis/GameStubbornSet.cpp b/src/PetriEngine/Synthesis/GameStubbornSet.cpp
index fefb776..6b3e551 100644
--- a/src/PetriEngine/Synthesis/GameStubbornSet.cpp
+++ b/src/PetriEngine/Synthesis/GameStubbornSet.cpp
@@ -98,7 +98,6 @@ namespace PetriEngine {
                                     continue;
                                 // has to be consuming
                                 _safe_actions[id] = false;
-                                break;
                             }
                         }
                     } else {
@@ -110,7 +109,6 @@ namespace PetriEngine {
                                 if (!_net.controllable(id))
                                     continue;
                                 _safe_actions[id] = false;
-                                break;
                             }
                         }
                     }
-- 
2.43.0


From d87396883e698e4b69b6ded08e0fad94df05274b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:45 +0000
Subject: [PATCH 63/66] fix: printed strategies left markings out and allowed
 unexplored choices

---
 src/PetriEngine/Synthesis/SimpleSynthesis.cpp | 8 +++++++-
 src/main.cpp                                  | 4 +++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/Synthesis/SimpleSynthesis.cpp b/src/PetriEngine/Synthesis/SimpleSynthesis.cpp
index 71b1db1..697b07f 100644
--- a/src/PetriEngine/Synthesis/SimpleSynthesis.cpp
+++ b/src/PetriEngine/Synthesis/SimpleSynthesis.cpp
@@ -347,6 +347,8 @@ namespace PetriEngine {
             {
                 auto res = _stateset.add(working);
                 missing.emplace(res.second);
+                auto& state = _stateset.get_data(res.second)._state;
+                state = state | SynthConfig::PRINTED;
             }
             if (&out == &std::cout) out << "\n##BEGIN STRATEGY##\n";
             out << "{\n";
@@ -359,6 +361,8 @@ namespace PetriEngine {
                 if ((meta._state & SynthConfig::WINNING) ||
                     (_is_safety && (meta._state & (SynthConfig::UNKNOWN | SynthConfig::LOSING)) == 0)) {
                     _stateset.decode(parent, nxt);
+                    if (!_is_safety && eval(_predicate.get(), parent.marking()))
+                        continue; // objective reached, nothing left to decide
                     generator.prepare(parent);
                     while (generator.next_env(working)) {
                         auto res = _stateset.add(working);
@@ -382,7 +386,9 @@ namespace PetriEngine {
 #endif
                         auto res = _stateset.add(working);
                         auto state = _stateset.get_data(res.second)._state;
-                        if ((state & SynthConfig::LOSING)) continue;
+                        if ((state & (SynthConfig::MAYBE | SynthConfig::PROCESSED | SynthConfig::WINNING)) == 0)
+                            continue; // losing, or never explored
+                        if (seen_win && (state & SynthConfig::WINNING) == 0) continue;
                         if (!_is_safety && (state & SynthConfig::WINNING) == 0) continue;
                         if ((state & SynthConfig::WINNING) && !seen_win) {
                             seen_win = true;
diff --git a/src/main.cpp b/src/main.cpp
index 9df756d..ad62058 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -462,7 +462,9 @@ int main(int argc, const char** argv) {
 
                 std::ostream *strategy_out = nullptr;
 
-                results[i] = strategy.synthesize(options.strategy, options.stubbornreduction, false);
+                // the reduced game does not tell what to do in the markings it leaves out
+                const bool use_stubborn = options.stubbornreduction && options.strategy_output.empty();
+                results[i] = strategy.synthesize(options.strategy, use_stubborn, false);
 
                 strategy.result().print(querynames[i], options.printstatistics, i, options, std::cout);
 
-- 
2.43.0


From 52b2d405729e6a3c19c00e9c760b65b7ca21341b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:23 +0000
Subject: [PATCH 64/66] fix: evaluate path-scoped conditions and sums in the
 marking of their own path

BaseEvaluationVisitor recorded the path of a PathSelectCondition but never used
it, and PlusExpr/MultiplyExpr ignored the path of a PathSelectExpr, so both were
evaluated in the first path.
---
 include/PetriEngine/PQL/Evaluation.h | 13 ++++++++++---
 src/PetriEngine/PQL/Evaluation.cpp   | 15 +++++++++------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/include/PetriEngine/PQL/Evaluation.h b/include/PetriEngine/PQL/Evaluation.h
index 7e2c877..792cce3 100644
--- a/include/PetriEngine/PQL/Evaluation.h
+++ b/include/PetriEngine/PQL/Evaluation.h
@@ -29,7 +29,7 @@ namespace PetriEngine { namespace PQL {
 
     class ExprEvalVisitor : public ExpressionVisitor {
     public:
-        explicit ExprEvalVisitor(const EvaluationContext& context) : _context(context) {}
+        explicit ExprEvalVisitor(const EvaluationContext& context, size_t offset = 0) : _context(context), _offset(offset) {}
         virtual void _accept(const PlusExpr *element) override final;
 
         virtual void _accept(const MultiplyExpr *element) override final;
@@ -47,16 +47,18 @@ namespace PetriEngine { namespace PQL {
         virtual void _accept(const PathSelectExpr *element) override final;
 
         int64_t value() const { return _value; }
+        size_t offset() const { return _offset; }
     protected:
         const EvaluationContext& _context;
         int64_t _value = 0;
-        size_t _offset =  0;
+        size_t _offset;
     };
 
     class BaseEvaluationVisitor : public MutatingVisitor {
     public:
         Condition::Result get_return_value() { return _return_value; }
         const EvaluationContext& context() const { return _context; }
+        size_t offset() const { return _offset; }
     protected:
         explicit BaseEvaluationVisitor(const EvaluationContext& context) : _context(context) {}
 
@@ -73,8 +75,13 @@ namespace PetriEngine { namespace PQL {
         }
     protected:
         const EvaluationContext& _context;
+        // the marking of the path (Hyper-LTL) currently in scope
+        const MarkVal* marking() const {
+            return _offset == 0 ? _context.marking() : _context.marking() + _offset*_context.net()->numberOfPlaces();
+        }
+
         Condition::Result _return_value = Condition::RUNKNOWN;
-        size_t _offset;
+        size_t _offset = 0;
     };
 
     int64_t evaluate(Expr *element, const EvaluationContext& context);
diff --git a/src/PetriEngine/PQL/Evaluation.cpp b/src/PetriEngine/PQL/Evaluation.cpp
index b3467b1..56d4fd5 100644
--- a/src/PetriEngine/PQL/Evaluation.cpp
+++ b/src/PetriEngine/PQL/Evaluation.cpp
@@ -25,7 +25,7 @@ namespace PetriEngine { namespace PQL {
     template<typename V, typename C>
     bool compare(V* visitor, C* condition)
     {
-        ExprEvalVisitor eval(visitor->context());
+        ExprEvalVisitor eval(visitor->context(), visitor->offset());
         Visitor::visit(eval, (*condition)[0]);
 
         auto v1 = eval.value();
@@ -49,12 +49,15 @@ namespace PetriEngine { namespace PQL {
     template<typename V, typename E>
     int64_t commutative(V* visitor, const E* element, const EvaluationContext& context) {
         int64_t r = element->constant();
+        const auto* marking = context.marking();
+        if(visitor->offset() != 0)
+            marking += visitor->offset()*context.net()->numberOfPlaces();
         for(auto& i : element->places())
         {
             if constexpr (std::is_same<E, PlusExpr>::value)
-                r += context.marking()[i.first];
+                r += marking[i.first];
             else if constexpr (std::is_same<E, MultiplyExpr>::value)
-                r *= context.marking()[i.first];
+                r *= marking[i.first];
             else
                 E::fail_hard_here;
         }
@@ -244,7 +247,7 @@ namespace PetriEngine { namespace PQL {
     void EvaluateVisitor::_accept(CompareConjunction *element) {
         bool res = true;
         for (auto &c: element->constraints()) {
-            res = res && _context.marking()[c._place] <= c._upper && _context.marking()[c._place] >= c._lower;
+            res = res && marking()[c._place] <= c._upper && marking()[c._place] >= c._lower;
             if (!res) break;
         }
         _return_value = {(element->isNegated() xor res) ? Condition::RTRUE : Condition::RFALSE};
@@ -284,7 +287,7 @@ namespace PetriEngine { namespace PQL {
     }
 
     void EvaluateVisitor::_accept(DeadlockCondition *element) {
-        if (!_context.net() || !_context.net()->deadlocked(_context.marking()))
+        if (!_context.net() || !_context.net()->deadlocked(marking()))
             _return_value = {Condition::RFALSE};
         else
             _return_value = {Condition::RTRUE};
@@ -444,7 +447,7 @@ namespace PetriEngine { namespace PQL {
         if (!_context.net()) {
             _return_value = {Condition::RFALSE};
         } else {
-            element->setSatisfied(_context.net()->deadlocked(_context.marking()));
+            element->setSatisfied(_context.net()->deadlocked(marking()));
             _return_value = {element->isSatisfied() ? Condition::RTRUE : Condition::RFALSE};
         }
     }
-- 
2.43.0


From 642b24afc694175b17120c196b88fffb1a92fb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:24 +0000
Subject: [PATCH 65/66] fix: do not evaluate Hyper-LTL queries outside the
 initial marking

Evaluating a query over several paths in the initial marking of a single net
read past the end of the marking.
---
 src/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index ad62058..91c3370 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -218,6 +218,9 @@ int main(int argc, const char** argv) {
                     Visitor::visit(has_fireability, queries[i]);
                     if(has_fireability.getReturnValue() && options.cpnOverApprox) continue;
                     if(containsUpperBounds(queries[i])) continue;
+                    // qm0 is the marking of one path only, Hyper-LTL needs one for each path
+                    if(auto* path = dynamic_cast<PathQuant*>(queries[i].get()))
+                        if(dynamic_cast<PathQuant*>(path->child().get())) continue;
                     auto r = PQL::evaluate(queries[i].get(), context);
                     if(r == Condition::RFALSE)
                     {
-- 
2.43.0


From 94caf4d307c46a1ff63e89538b10cb362e8720ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:43 +0000
Subject: [PATCH 66/66] fix: transport arcs were inhibitor arcs at random

PNMLParser::parseTransportArc left Arc::inhib uninitialised.
---
 include/PetriParse/PNMLParser.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/PetriParse/PNMLParser.h b/include/PetriParse/PNMLParser.h
index 3b841c8..4c8aa71 100644
--- a/include/PetriParse/PNMLParser.h
+++ b/include/PetriParse/PNMLParser.h
@@ -38,8 +38,8 @@ class PNMLParser {
     struct Arc {
         std::string source,
         target;
-        int weight;
-        bool inhib;
+        int weight = 1;
+        bool inhib = false;
         PetriEngine::Colored::ArcExpression_ptr expr;
     };
     typedef std::vector<Arc> ArcList;
-- 
2.43.0

