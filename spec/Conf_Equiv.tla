------------------------------ MODULE Conf_Equiv ------------------------------
(***************************************************************************)
(* Conformance of the implementation to the behaviours of the              *)
(* specification.  Every case pairs a term of the specification with what  *)
(* the implementation produced for it:                                     *)
(*   kind "g": the transition system (nodes) obtained by running the       *)
(*             implementation's frontier and execution functions;          *)
(*             node = [e |-> accepts empty, x |-> expanded,                *)
(*                     s |-> <<<<actions, target, ...>>, ...>>]            *)
(*   kind "t": another term, to be judged by the specification's rules     *)
(*             (result of a transformation, of parsing, ...)               *)
(*   kind "e": another term, both being compared once the lifelines rm are  *)
(*             removed from them                                           *)
(*   kind "p": a term to be compared with the projection of t: what the     *)
(*             lifelines keep do in a behaviour of t is a behaviour of it   *)
(* TLC explores the product of the two (subset construction on both        *)
(* sides), to depth d, and reports every state in which they differ.       *)
(* sub = 1 asks for inclusion of the left language in the right one only.  *)
(***************************************************************************)
EXTENDS HibouSemantics, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, S, Q, w, bad
vars == <<c, S, Q, w, bad>>
View == <<c, S, Q, Len(w), bad>>

IsGraph == Cases[c].kind = "g"
Node(q) == Cases[c].nodes[q]

QExpanded == IsGraph => \A q \in Q : Node(q).x
QAccepts  == IF IsGraph THEN \E q \in Q : Node(q).e ELSE Accepts(Q)
QLabels   == IF IsGraph
             THEN UNION { { RangeOf(Node(q).s[i][1]) : i \in 1..Len(Node(q).s) } : q \in Q }
             ELSE LabelsOf(Q)
IsProj == Cases[c].kind = "p"
QAfter(ma) == IF IsProj
              THEN LET p == ProjAct(ma, RangeOf(Cases[c].keep)) IN IF p = {} THEN Q ELSE After(Q, p)
              ELSE IF IsGraph
              THEN UNION { { Node(q).s[i][2] : i \in { j \in 1..Len(Node(q).s) : RangeOf(Node(q).s[j][1]) = ma } } : q \in Q }
              ELSE After(Q, ma)

(* Without synchronised products every step can be completed, so that the   *)
(* immediate multi-actions themselves have to agree.                        *)
Productive == Cases[c].nosync = 1

Verdict(sub) ==
  LET sa == Accepts(S)
      qa == QAccepts
  IN IF sub THEN (IF sa /\ ~qa THEN "lost-behaviour" ELSE "")
     ELSE IF sa /\ ~qa THEN "lost-behaviour"
     ELSE IF qa /\ ~sa THEN "invented-behaviour"
     ELSE IF Productive /\ QExpanded /\ (LabelsOf(S) \ QLabels) # {} THEN "lost-action"
     ELSE IF Productive /\ QExpanded /\ (QLabels \ LabelsOf(S)) # {} THEN "invented-action"
     ELSE ""

Init == /\ c \in 1..Len(Cases)
        /\ S = IF Cases[c].kind = "e" THEN {Elim(Cases[c].t, RangeOf(Cases[c].rm))} ELSE {Cases[c].t}
        /\ Q = IF IsGraph THEN {1}
              ELSE IF Cases[c].kind = "e" THEN {Elim(Cases[c].t2, RangeOf(Cases[c].rm))}
              ELSE {Cases[c].t2}
        /\ w = <<>>
        /\ bad = IF IsProj /\ ~(AtomsOf(Cases[c].t2) \subseteq { a \in AtomsOf(Cases[c].t) : a[1] \in RangeOf(Cases[c].keep) })
                 THEN "removed-lifeline-mentioned" ELSE Verdict(Cases[c].sub = 1)

Next == /\ bad = ""
        /\ Len(w) < Cases[c].d
        /\ QExpanded
        /\ \E ma \in LabelsOf(S) \cup (IF Cases[c].sub = 1 THEN {} ELSE QLabels) :
             /\ S' = After(S, ma)
             /\ Q' = QAfter(ma)
             /\ w' = Append(w, ma)
             /\ c' = c
             /\ bad' = (Verdict(Cases[c].sub = 1))'

Spec == Init /\ [][Next]_vars

(* Reporting: one line per differing state; never stops the exploration.    *)
Report == bad # "" => PrintT(<<"BAD", Cases[c].id, bad, w>>)
=============================================================================
