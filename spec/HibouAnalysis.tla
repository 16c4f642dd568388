----------------------------- MODULE HibouAnalysis -----------------------------
(***************************************************************************)
(* Offline analysis of a multi-trace against an interaction.               *)
(*                                                                         *)
(* A problem is a record with                                              *)
(*   t       the interaction                                               *)
(*   colocs  the co-localizations: a sequence of sequences of lifelines    *)
(*   mu      the multi-trace: one sequence of multi-actions per coloc      *)
(*   kind    "accept" | "prefix" | "eliminate" | "simulate"                *)
(*   sim     [before, reset, mult |-> 0/1, act |-> <<kind, n>>,            *)
(*            loop |-> <<kind, n>>]   (used by "simulate" only)            *)
(*   dmax, lmax    depth and loop filters (NoLimit when absent)            *)
(*                                                                         *)
(* A node of the analysis is a tuple                                       *)
(*   <<term, consumed, hidden, sb, sa, remLoop, remAct, loopDepth>>        *)
(* consumed: how many multi-actions of each local trace were read;         *)
(* hidden: colocs removed from the interaction; sb/sa: something was       *)
(* simulated before the start / after the end of a local trace.            *)
(***************************************************************************)
EXTENDS HibouSemantics

NoLimit == 1000

NumColocs(P)   == Len(P.colocs)
Coloc(P, k)    == RangeOf(P.colocs[k])
Colocs(P)      == 1..NumColocs(P)
AllLfs(P)      == UNION { Coloc(P, k) : k \in Colocs(P) }
Part(P, ma, k) == ProjAct(ma, Coloc(P, k))
PartsOf(P, ma) == { k \in Colocs(P) : Part(P, ma, k) # {} }

RECURSIVE SumLens(_, _)
SumLens(s, i) == IF i > Len(s) THEN 0 ELSE Len(s[i]) + SumLens(s, i + 1)
TotalLength(P) == SumLens(P.mu, 1)
RECURSIVE SumInts(_, _)
SumInts(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumInts(s, i + 1)

Term(n)     == n[1]
Consumed(n) == n[2]
Hidden(n)   == n[3]
SimBefore(n) == n[4]
SimAfter(n) == n[5]
RemLoop(n)  == n[6]
RemAct(n)   == n[7]
LoopDepth(n) == n[8]

Exhausted(P, n, k) == Consumed(n)[k] = Len(P.mu[k])
HeadOf(P, n, k)    == IF Exhausted(P, n, k) THEN {} ELSE RangeOf(P.mu[k][Consumed(n)[k] + 1])
AllRead(P, n)      == \A k \in Colocs(P) : Exhausted(P, n, k)
AnyRead(P, n)      == \E k \in Colocs(P) : Exhausted(P, n, k)
Singletons(P)      == \A k \in Colocs(P) : Cardinality(Coloc(P, k)) <= 1

Advance(P, n, K) == [ k \in Colocs(P) |-> IF k \in K THEN Consumed(n)[k] + 1 ELSE Consumed(n)[k] ]

-----------------------------------------------------------------------------
(* Simulation budgets *)
ResetLoop(P, t, len) ==
  LET x == CASE P.sim.loop[1] = "depth" -> LoopNesting(t)
             [] P.sim.loop[1] = "num"   -> LoopCount(t)
             [] P.sim.loop[1] = "fixed" -> P.sim.loop[2]
             [] P.sim.loop[1] = "none"  -> 0
  IN IF P.sim.mult = 1 THEN x * len ELSE x
ResetAct(P, t, len) ==
  LET x == CASE P.sim.act[1] = "num"   -> NumAtomsOutsideLoops(t)
             [] P.sim.act[1] = "fixed" -> P.sim.act[2]
             [] P.sim.act[1] = "none"  -> 0
  IN IF P.sim.mult = 1 THEN x * len ELSE x
MayCharge(P, n, loops) ==
  /\ P.sim.act[1] # "none" => RemAct(n) > 0
  /\ P.sim.loop[1] # "none" => loops <= RemLoop(n)
Less(a, b) == IF a > b THEN a - b ELSE 0

-----------------------------------------------------------------------------
InitNode(P) ==
  <<P.t, [k \in Colocs(P) |-> 0], {}, FALSE, FALSE,
    IF P.kind = "simulate" THEN ResetLoop(P, P.t, TotalLength(P)) ELSE 0,
    IF P.kind = "simulate" THEN ResetAct(P, P.t, TotalLength(P)) ELSE 0, 0>>

(* Action Execute: read the parts of one multi-action off all the local     *)
(* traces it concerns.                                                      *)
ExecuteSteps(P, n) ==
  { <<s[2], <<s[3], Advance(P, n, PartsOf(P, s[1])), Hidden(n), FALSE, FALSE, 0, 0, LoopDepth(n) + s[2]>> >> :
    s \in { x \in StepsDelayed(Term(n)) :
            \A k \in PartsOf(P, x[1]) : HeadOf(P, n, k) = Part(P, x[1], k) } }

(* Action Hide: remove the groups whose local trace was entirely read.      *)
NewlyRead(P, n) == { k \in Colocs(P) : k \notin Hidden(n) /\ Exhausted(P, n, k) }
HideStep(P, n) ==
  LET K == NewlyRead(P, n)
  IN <<0, <<Elim(Term(n), UNION { Coloc(P, k) : k \in K }), Consumed(n), Hidden(n) \cup K,
            FALSE, FALSE, 0, 0, LoopDepth(n)>> >>

(* Action Simulate: some concerned local traces are read, the others (X)    *)
(* are let behave unobserved, after their end or before their start.        *)
SimulateSteps(P, n) ==
  UNION { LET K == PartsOf(P, s[1])
              U == { k \in K : HeadOf(P, n, k) # Part(P, s[1], k) }
              Able == { k \in K : Exhausted(P, n, k) \/ (P.sim.before = 1 /\ Consumed(n)[k] = 0) }
          IN { <<s[2],
                 LET rest == TotalLength(P) - SumInts(Consumed(n), 1) - Cardinality(K \ X)
                     rl == ResetLoop(P, s[3], rest)
                     ra == ResetAct(P, s[3], rest)
                 IN <<s[3], Advance(P, n, K \ X), {},
                      SimBefore(n) \/ (\E k \in X : ~Exhausted(P, n, k)),
                      SimAfter(n) \/ (\E k \in X : Exhausted(P, n, k)),
                      IF X = K THEN Min2(rl, Less(RemLoop(n), s[2])) ELSE IF P.sim.reset = 1 THEN rl ELSE RemLoop(n),
                      IF X = K THEN Min2(ra, Less(RemAct(n), 1)) ELSE IF P.sim.reset = 1 THEN ra ELSE RemAct(n),
                      LoopDepth(n) + s[2]>> >> :
               X \in { Y \in SUBSET Able : U \subseteq Y /\ (Y = {} \/ MayCharge(P, n, s[2])) } }
          : s \in StepsDelayed(Term(n)) }

(* All the steps of a node, as <<loops entered, next node>>. *)
NodeSteps(P, n) ==
  IF AllRead(P, n) THEN {}
  ELSE CASE P.kind \in {"accept", "prefix"} -> ExecuteSteps(P, n)
         [] P.kind = "eliminate" -> IF NewlyRead(P, n) # {} THEN { HideStep(P, n) } ELSE ExecuteSteps(P, n)
         [] P.kind = "simulate" -> SimulateSteps(P, n)

(* What a node without successor tells. *)
LeafVerdict(P, n) ==
  IF AllRead(P, n)
  THEN CASE P.kind = "accept" -> IF Eps(Term(n)) THEN "Cov" ELSE "Out"
         [] P.kind = "prefix" -> IF Eps(Term(n)) THEN "Cov" ELSE "TooShort"
         [] P.kind = "eliminate" ->
              IF Hidden(n) # {} THEN (IF Singletons(P) THEN "MultiPref" ELSE "InconcLR")
              ELSE IF Eps(Term(n)) THEN "Cov" ELSE "TooShort"
         [] P.kind = "simulate" ->
              IF SimBefore(n) THEN "Slice" ELSE IF SimAfter(n) THEN "MultiPref"
              ELSE IF Eps(Term(n)) THEN "Cov" ELSE "TooShort"
  ELSE CASE P.kind = "accept" -> "Out"
         [] P.kind = "prefix" -> IF AnyRead(P, n) THEN "LackObs" ELSE "Out"
         [] P.kind = "eliminate" -> "Out"
         [] P.kind = "simulate" -> "OutSim"

-----------------------------------------------------------------------------
(* The verdict of a search from the set of leaves it met, and whether a     *)
(* filter cut it.                                                           *)
Global(l) == CASE l = "Cov" -> "Pass"
               [] l \in {"TooShort", "MultiPref", "Slice"} -> "WeakPass"
               [] l = "LackObs" -> "Inconc LackObs"
               [] l = "InconcLR" -> "Inconc LR"
               [] l = "OutSim" -> "WeakFail"
               [] l = "Out" -> "Fail"
Rank(v) == CASE v = "Pass" -> 5 [] v = "WeakPass" -> 4
             [] v \in {"Inconc LackObs", "Inconc LR"} -> 3
             [] v = "WeakFail" -> 2
             [] v = "Inconc Filtered" -> 1
             [] v = "Fail" -> 0
BestOf(leaves, cut) ==
  LET V == { Global(l) : l \in leaves } \cup { IF cut THEN "Inconc Filtered" ELSE "Fail" }
  IN CHOOSE v \in V : \A u \in V : Rank(u) <= Rank(v)

(* One layer of the search: the next nodes, the leaves, whether a step was  *)
(* cut by a filter.  depth is the depth of the nodes of N.                  *)
Expand(P, N, depth) ==
  LET all  == { <<n, NodeSteps(P, n)>> : n \in N }
      ok(n, s) == depth + 1 <= P.dmax /\ LoopDepth(n) + s[1] <= P.lmax
  IN [ next   |-> UNION { { s[2] : s \in { x \in p[2] : ok(p[1], x) } } : p \in all },
       leaves |-> { LeafVerdict(P, p[1]) : p \in { q \in all : q[2] = {} } },
       cut    |-> \E p \in all : \E s \in p[2] : ~ok(p[1], s) ]

(* The verdict of a complete search, as a function (used by the theorems).  *)
RECURSIVE Search(_, _, _, _, _)
Search(P, N, seen, leaves, depth) ==
  IF N = {} THEN BestOf(leaves, FALSE)
  ELSE LET e == Expand(P, N, depth)
       IN Search(P, e.next \ (seen \cup N), seen \cup N, leaves \cup e.leaves, depth + 1)
VerdictOf(P) == Search(P, { InitNode(P) }, {}, {}, 0)
=============================================================================
