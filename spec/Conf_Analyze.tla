----------------------------- MODULE Conf_Analyze -----------------------------
(***************************************************************************)
(* Conformance of real analyses: each case is an analysis problem together *)
(* with the verdict the tool gave under some search configuration          *)
(*   v       the verdict of the tool                                       *)
(*   goal    "none" | "WeakPass" | "Pass"                                  *)
(*   memo    1 when equal nodes are merged by the tool                     *)
(*   locana  1 when local analyses were on                                 *)
(*   loose   1 when filters cut the search in a way that depends on the    *)
(*           order of the search (the filters are then not applied here)   *)
(*   nmax    node number filter (NoLimit when absent)                      *)
(* The search is a chain of states, one per layer.                         *)
(***************************************************************************)
EXTENDS HibouAnalysis, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, layer, seen, leaves, cut, depth, result
vars == <<c, layer, seen, leaves, cut, depth, result>>

P == Cases[c]
(* With a depth filter the same node counts at every depth it is reached.   *)
Merge == P.dmax = NoLimit

Exact == BestOf(leaves, cut)
Reached == { Global(l) : l \in leaves }
Goals == IF P.goal = "none" THEN {}
         ELSE { v \in Reached : Rank(v) >= Rank(P.goal) }
Allowed ==
  {Exact} \cup Goals
  (* merged simulations may leave no dead end to look at: both are rejections *)
  \cup (IF P.memo = 1 /\ P.kind = "simulate" /\ Exact = "WeakFail" THEN {"Fail"} ELSE {})
  \cup (IF P.locana = 1 /\ Exact = "Inconc LackObs" THEN {"Fail"} ELSE {})
  \cup (IF P.loose = 1
        THEN { v \in Reached : v # "Fail" } \cup {"Inconc Filtered"}
        ELSE {})
TooMany == P.nmax # NoLimit /\ P.memo = 0 /\ P.goal = "none" /\ P.locana = 0 /\ Cardinality(seen) > P.nmax
AllowedFinal == IF TooMany THEN Allowed \ {"Fail"} ELSE Allowed

Init == /\ c \in 1..Len(Cases)
        /\ layer = { InitNode(P) }
        /\ seen = {}
        /\ leaves = {}
        /\ cut = FALSE
        /\ depth = 0
        /\ result = ""

(* A search that grows beyond Cap nodes is abandoned (and reported as such). *)
Cap == 2500
TooBig == Cardinality(seen) + Cardinality(layer) > Cap

Layer == /\ layer # {}
         /\ ~TooBig
         /\ LET e == Expand(P, layer, depth)
            IN /\ seen' = seen \cup layer
               /\ layer' = IF Merge THEN e.next \ seen' ELSE e.next
               /\ leaves' = leaves \cup e.leaves
               /\ cut' = (cut \/ e.cut)
               /\ depth' = depth + 1
               /\ UNCHANGED <<c, result>>
Conclude == /\ layer = {} \/ TooBig
            /\ result = ""
            /\ result' = IF TooBig THEN "skipped" ELSE IF P.v \in AllowedFinal THEN "ok" ELSE "bad"
            /\ UNCHANGED <<c, layer, seen, leaves, cut, depth>>
Next == Layer \/ Conclude
Spec == Init /\ [][Next]_vars

(* Invariants of the search itself. *)
Sane == \A n \in layer :
          /\ \A k \in Colocs(P) : Consumed(n)[k] <= Len(P.mu[k])
          /\ P.kind = "eliminate" => LifelinesOf(Term(n)) \cap UNION { Coloc(P, k) : k \in Hidden(n) } = {}
          /\ P.kind # "simulate" => ~SimBefore(n) /\ ~SimAfter(n)
Skipped == result = "skipped" => PrintT(<<"SKIP", P.id>>)
Report == result = "bad" => PrintT(<<"BAD", P.id, P.v, AllowedFinal, Cardinality(seen)>>)
=============================================================================
