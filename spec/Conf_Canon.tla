------------------------------ MODULE Conf_Canon ------------------------------
(***************************************************************************)
(* Normal forms, termination and convergence of canonization.              *)
(* Case kinds:                                                             *)
(*  "g"  the rewriting graph recorded from the implementation: nodes       *)
(*       [p |-> phase, t |-> term, x |-> its steps were asked for,         *)
(*        s |-> targets], last |-> the last phase, proc |-> process.       *)
(*       TLC walks it from the root.                                       *)
(*  "n"  an end result t of a process, adj |-> how the implementation's    *)
(*       term order compares neighbouring branches: the partial order      *)
(*       the sorting function uses, and the declared total order; the      *)
(*       branches must follow one of them                                  *)
(*  "s"  results r1 and r2 of two canonizations that must agree            *)
(*  "o"  a matrix m of comparisons and eq of equalities over terms ts      *)
(***************************************************************************)
EXTENDS HibouSemantics, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, q, bad
vars == <<c, q, bad>>

C == Cases[c]

RECURSIVE AltBranches(_)
AltBranches(t) == IF t[1] = "alt" THEN AltBranches(t[2]) \o AltBranches(t[3]) ELSE <<t>>

TargetLeq(x, y) == IF x >= 0 THEN (y < 0 \/ x <= y) ELSE (y < 0 /\ x >= y)
SortedTargets(ts) == \A i \in 1..(Len(ts) - 1) : TargetLeq(ts[i], ts[i + 1])

(* The lifelines on which an interaction can start, resp. end.              *)
FirstLfs(t) == UNION { LfsOf(ma) : ma \in LabelsOf({t}) }

BasicProc(p)  == p \in {"basic", "unfold"}
ToSeqProc(p)  == p \in {"five", "toseq"}

(* No rewriting of the last phase of process p applies at the root of t.    *)
RootNormal(t, p) ==
  CASE t[1] = "o" -> TRUE
    [] t[1] \in {"em", "rc"} ->
         /\ p = "unfold" /\ t[4] = 0 => (IF t[1] = "em" THEN LfTargets(t[5]) = {} ELSE Len(t[5]) = 1)
         /\ p = "five" => SortedTargets(t[5])
    [] t[1] \in {"strict", "seq", "par"} ->
         /\ ~IsEmpty(t[2]) /\ ~IsEmpty(t[3])
         /\ t[2][1] # t[1]
         /\ (t[1] = "par" /\ ToSeqProc(p)) => LifelinesOf(t[2]) \cap LifelinesOf(t[3]) # {}
    [] t[1] = "cr" ->
         /\ ~IsEmpty(t[3]) /\ ~IsEmpty(t[4])
         /\ ~(t[3][1] = "cr" /\ t[3][2] = t[2])
    [] t[1] = "alt" ->
         /\ t[2][1] # "alt"
         /\ LET b == AltBranches(t) IN Cardinality(RangeOf(b)) = Len(b)
    [] t[1] = "lp" ->
         /\ ~IsEmpty(t[3])
         /\ t[3][1] = "lp" => (t[2] = "H" /\ t[3][2] \in {"H", "S"})
    [] OTHER -> TRUE

RECURSIVE NotNormal(_, _)
NotNormal(t, p) ==
  (IF RootNormal(t, p) THEN {} ELSE {t}) \cup UNION { NotNormal(k, p) : k \in RangeOf(Children(t)) }

-----------------------------------------------------------------------------
(* Rewriting graphs: repeatedly removing the nodes without successors must  *)
(* leave nothing, otherwise a sequence of rewritings can go on for ever.    *)
Succ(n) == RangeOf(C.nodes[n].s)
RECURSIVE Peel(_)
Peel(N) == LET dead == { n \in N : Succ(n) \cap N = {} }
           IN IF dead = {} THEN N ELSE Peel(N \ dead)
Terminates == Peel(1..Len(C.nodes)) = {}
Complete   == \A n \in 1..Len(C.nodes) : C.nodes[n].x
Ends       == { n \in 1..Len(C.nodes) : C.nodes[n].x /\ C.nodes[n].s = <<>> }

GraphVerdict(n) ==
  LET nd == C.nodes[n] IN
  IF n = 1 /\ ~Terminates THEN "canonization-may-not-terminate"
  ELSE IF n = 1 /\ BasicProc(C.proc) /\ C.all = 1 /\ Complete /\ Cardinality({ C.nodes[k].t : k \in Ends }) # 1 THEN "canonization-does-not-converge"
  ELSE IF \E k \in Succ(n) : C.nodes[k].p < nd.p \/ C.nodes[k].p > nd.p + 1 THEN "phases-out-of-order"
  ELSE IF nd.x /\ nd.s = <<>> /\ nd.p # C.last THEN "phase-skipped"
  ELSE IF nd.x /\ nd.s = <<>> /\ NotNormal(nd.t, C.proc) # {} THEN "not-a-normal-form"
  ELSE ""

-----------------------------------------------------------------------------
Dom == 1..Len(C.ts)
OrderVerdict ==
  IF \E i, j \in Dom : (C.m[i][j] = 0) # (C.ts[i] = C.ts[j]) THEN "equal-terms-are-not-those-that-compare-equal"
  ELSE IF \E i, j \in Dom : C.eq[i][j] # (C.ts[i] = C.ts[j]) THEN "equality-is-wrong"
  ELSE IF \E i, j \in Dom : C.m[i][j] # -C.m[j][i] THEN "order-not-antisymmetric"
  ELSE IF \E i, j, k \in Dom : C.m[i][j] <= 0 /\ C.m[j][k] <= 0 /\ C.m[i][k] > 0 THEN "order-not-transitive"
  ELSE ""

FormVerdict ==
  IF NotNormal(C.t, C.proc) # {} THEN "not-a-normal-form"
  ELSE IF \A k \in 1..2 : \E i \in 1..Len(C.adj) : C.adj[i][k] > 0 THEN "branches-not-sorted"
  ELSE ""

Verdict(n) == CASE C.kind = "g" -> GraphVerdict(n)
                [] C.kind = "n" -> FormVerdict
                [] C.kind = "s" -> IF C.r1 = C.r2 THEN "" ELSE "different-forms"
                [] C.kind = "o" -> OrderVerdict

Init == c \in 1..Len(Cases) /\ q = 1 /\ bad = Verdict(1)
Next == /\ C.kind = "g" /\ bad = ""
        /\ q' \in Succ(q) /\ c' = c /\ bad' = Verdict(q')
Spec == Init /\ [][Next]_vars

Report == bad # "" => PrintT(<<"BAD", C.id, bad, q>>)
=============================================================================
