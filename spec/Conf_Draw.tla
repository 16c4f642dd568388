------------------------------- MODULE Conf_Draw -------------------------------
(***************************************************************************)
(* Conformance of what is written for graphviz.  Every case has the names  *)
(* N, the term t that was given, and a graph: nodes (each with the term    *)
(* read off its drawing, the drawing itself as labels and edges, and the   *)
(* verdict shown), steps <<from, to, position>>, cuts <<node, filter>>,    *)
(* the number of nodes and the verdict reported.                           *)
(*   kind "draw": the drawing of a term alone (one node)                   *)
(*   kind "exp":  the graph of an exploration                              *)
(*   kind "ana":  the graph of an analysis: steps have no position, they   *)
(*                may also remove lifelines (the sets of them in elims);   *)
(*                lifelines nobody observes (unseen) are removed at first; *)
(*                the proof of a local verdict is drawn under the names of *)
(*                the main drawings, whose terms are then lost (lost=1)    *)
(*   kind "can":  the graph of a canonization: steps keep the meaning      *)
(***************************************************************************)
EXTENDS HibouDraw, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, n, bad      \* the case, the next node to be judged
vars == <<c, n, bad>>

C == Cases[c]
Node(i) == C.nodes[i]
TermOf(i) == Node(i).t
StepsOf(i) == { k \in 1..Len(C.steps) : C.steps[k][1] = i }
CutsOf(i) == { k \in 1..Len(C.cuts) : C.cuts[k][1] = i }
D == C.d

Drawing(i) ==
  IF Node(i).tree.n = <<>> THEN (IF Node(i).t = EmptyT THEN "" ELSE "not-drawn")
  ELSE IF RangeOf(Node(i).tree.n) # TreeNodes(C.N, Node(i).t, "p") THEN "wrong-labels"
  ELSE IF RangeOf(Node(i).tree.e) # TreeEdges(Node(i).t, "p") THEN "wrong-edges"
  ELSE IF Len(Node(i).tree.n) # Cardinality(TreeNodes(C.N, Node(i).t, "p")) \/ Len(Node(i).tree.e) # Cardinality(TreeEdges(Node(i).t, "p")) THEN "drawn-twice"
  ELSE ""

ExploVerdict(t) == IF Eps(t) THEN "Accepting" ELSE IF Positions(t) = {} THEN "DeadLocked" ELSE ""

Exploration(i) ==
  LET t == Node(i).t
      taken == { C.steps[k][3] : k \in StepsOf(i) }
  IN IF ~(taken \subseteq Positions(t)) THEN "no-such-position"
     ELSE IF Cardinality(taken) # Cardinality(StepsOf(i)) THEN "step-drawn-twice"
     ELSE IF Cardinality(taken) + Cardinality(CutsOf(i)) # Cardinality(Positions(t)) THEN "missing-steps"
     ELSE IF Node(i).v # ExploVerdict(t) THEN "wrong-verdict-shown"
     ELSE IF \E k \in StepsOf(i) : Beh({Follow(t, C.steps[k][3])}, D) # Beh({Node(C.steps[k][2]).t}, D) THEN "wrong-target"
     ELSE ""

Analysis(i) ==
  LET t == Node(i).t
      possible == { Beh({Follow(t, p)}, D) : p \in Positions(t) } \cup { Beh({Elim(t, RangeOf(C.elims[k]))}, D) : k \in 1..Len(C.elims) }
  IN IF \E k \in StepsOf(i) : Beh({Node(C.steps[k][2]).t}, D) \notin possible THEN "wrong-target"
     ELSE ""

Entered(i) == i = 1 \/ \E k \in 1..Len(C.steps) : C.steps[k][2] = i /\ C.steps[k][1] < i

Judge(i) ==
  LET d == Drawing(i) IN
  IF C.lost = 1 THEN IF Entered(i) THEN "" ELSE "unreachable-node" ELSE
  IF d # "" THEN d
  ELSE IF i = 1 /\ (IF C.kind = "ana" THEN Beh({Elim(C.t, RangeOf(C.unseen))}, D + 1) # Beh({Node(1).t}, D + 1) ELSE ~SameTerm(C.t, Node(1).t)) THEN "wrong-term"
  ELSE IF ~Entered(i) THEN "unreachable-node"
  ELSE CASE C.kind = "draw" -> ""
         [] C.kind = "exp" -> Exploration(i)
         [] C.kind = "can" -> IF \E k \in StepsOf(i) : Acc({TermOf(C.steps[k][2])}, D + 2) # Acc({TermOf(i)}, D + 2) THEN "meaning-changed" ELSE ""
         [] OTHER -> Analysis(i)

(* The verdict reported is the best of those shown; when all of them are   *)
(* failures, what was cut could have been better.                          *)
Worth(v) == CASE v = "Cov" -> 5
              [] v \in {"TooShort", "MultiPref", "Slice"} -> 4
              [] v \in {"OutSim", "OutSim-l"} -> 2
              [] v \in {"Out", "Out-l", ""} -> 0
              [] OTHER -> 3
Best == LET all == {0} \cup { Worth(Node(i).v) : i \in 1..Len(C.nodes) } \cup (IF C.cuts # <<>> THEN {1} ELSE {})
        IN CHOOSE x \in all : \A y \in all : y <= x
Reported == CASE C.final = "Pass" -> 5 [] C.final = "WeakPass" -> 4 [] C.final = "WeakFail" -> 2 [] C.final = "Fail" -> 0
              [] C.final = "Inconc FilteredNodes" -> 1 [] OTHER -> 3

Overall ==
  IF C.kind = "draw" THEN ""
  ELSE IF C.count # Len(C.nodes) THEN "wrong-number-of-nodes"
  ELSE IF C.kind = "exp"
  THEN IF C.legend # (IF \E i \in 1..Len(C.nodes) : Node(i).v = "DeadLocked" THEN "HasDeadLocks" ELSE "FoundNoDeadLocks") THEN "wrong-legend" ELSE ""
  ELSE IF C.kind = "ana" /\ C.legend # C.final THEN "legend-contradicts-report"
  ELSE IF C.kind = "ana" /\ Best # Reported THEN "verdicts-contradict-report"
  ELSE ""

Init == c \in 1..Len(Cases) /\ n = 0 /\ bad = ""
Next ==
  /\ bad = "" /\ n < Len(C.nodes) + 1
  /\ n' = n + 1 /\ c' = c
  /\ bad' = IF n = 0 THEN Overall ELSE Judge(n)
Spec == Init /\ [][Next]_vars

(* The positions are those of the semantics: they execute what the term can *)
(* execute, and leave what the semantics leaves.                           *)
Sound ==
  (C.kind = "exp" /\ n = 1 /\ bad = "") =>
    /\ LabelsOf({C.t}) = { ActsAt(C.t, p) : p \in Positions(C.t) }
    /\ \A ma \in LabelsOf({C.t}) : Beh(After({C.t}, ma), 2) = Beh({ Follow(C.t, p) : p \in { q \in Positions(C.t) : ActsAt(C.t, q) = ma } }, 2)

Report == bad # "" => PrintT(<<"BAD", C.id, bad, n - 1>>)
=============================================================================
