---------------------------- MODULE Conf_Mutation ----------------------------
(***************************************************************************)
(* Histories of slicing and mutating commands run with the implementation, *)
(* followed by TLC: each command reads the multi-trace the previous one    *)
(* wrote.  A step is [op, what it was asked, and what was written]; the    *)
(* specification says whether it is a behaviour of the command.            *)
(* Case kinds:                                                             *)
(*  "h"  a history: start |-> multi-trace, nms |-> number of messages,     *)
(*       steps |-> the commands                                            *)
(*  "c"  the results of many runs of one command (outs) on one small       *)
(*       multi-trace: every outcome of the step relation is to be seen     *)
(*       (how wide slices are chosen is left to the tool)                  *)
(***************************************************************************)
EXTENDS HibouMutation, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, q, mu, bad
vars == <<c, q, mu, bad>>
C == Cases[c]

B(x) == x = 1
StepVerdict(m, s) ==
  CASE s.op = "slice" ->
         IF s.num < 0 THEN (IF IsAllSlices(m, s.kind, s.files) THEN "" ELSE "not-all-slices-once")
         ELSE IF IsRandomSlices(m, s.kind, s.num, B(s.wide), s.files) THEN "" ELSE "not-random-slices"
    [] s.op = "remove" -> IF Removed(m, s.max, s.out) THEN "" ELSE "not-a-removal"
    [] s.op = "swap"   -> IF Swapped(m, s.max, s.out) THEN "" ELSE "not-a-swap-of-actions"
    [] s.op = "noise"  -> IF Noised(m, C.nms, s.max, B(s.one), B(s.end), s.out) THEN "" ELSE "not-noise"
    [] s.op = "exchange" -> IF SameShape(m, s.with) /\ Exchanged(m, s.with, s.max, s.out) THEN "" ELSE "not-a-swap-of-components"
Result(s) == IF s.op = "slice" THEN (IF s.files = <<>> THEN mu ELSE s.files[s.pick]) ELSE s.out

RECURSIVE SlicesOf(_, _, _)
SlicesOf(m, kind, wide) ==
  IF m = <<>> THEN {<<>>}
  ELSE { <<[l |-> m[1].l, t |-> Cut(m[1].t, x)]>> \o y : x \in RandomCuts(kind, Len(m[1].t), wide), y \in SlicesOf(Tail(m), kind, wide) }
Outcomes(m, s) ==
  CASE s.op = "slice" -> SlicesOf(m, s.kind, B(s.wide))
    [] s.op = "remove" -> RemoveStep(m)
    [] s.op = "swap" -> IF SwapBudget(m, 1) = 0 THEN {m} ELSE SwapStep(m)
    [] s.op = "noise" -> IF Noisy(m, C.nms) = {} THEN {m} ELSE NoiseStep(m, C.nms, Noisy(m, C.nms), B(s.end))
    [] s.op = "exchange" -> IF ExchangeBudget(m, 1) = 0 THEN {m} ELSE { x[1] : x \in ExchangeStep(m, s.with, {}) }
SeenVerdict == LET want == Outcomes(C.start, C.step) IN
               IF RangeSeq(C.outs) \subseteq want
               THEN (IF want \subseteq RangeSeq(C.outs) \/ (C.step.op = "slice" /\ B(C.step.wide)) THEN "" ELSE "an-outcome-is-never-chosen")
               ELSE "not-an-outcome"

Verdict(m, n) == IF C.kind = "c" THEN SeenVerdict ELSE IF n > Len(C.steps) THEN "" ELSE StepVerdict(m, C.steps[n])
Init == c \in 1..Len(Cases) /\ q = 1 /\ mu = C.start /\ bad = Verdict(C.start, 1)
Next == /\ C.kind = "h" /\ bad = "" /\ q <= Len(C.steps)
        /\ q' = q + 1 /\ c' = c /\ mu' = Result(C.steps[q]) /\ bad' = Verdict(mu', q')
Spec == Init /\ [][Next]_vars
Report == bad # "" => PrintT(<<"BAD", C.id, bad, q>>)
=============================================================================
