----------------------------- MODULE Conf_Metrics -----------------------------
(***************************************************************************)
(* Conformance of the metrics reported for an interaction C.t: C.m is a    *)
(* sequence of <<name, number>>.                                           *)
(***************************************************************************)
EXTENDS HibouTerms, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

Symbols == {"Empty", "Action", "Strict", "Seq", "Par", "LoopS", "LoopOther", "CoReg", "Alt", "Sync", "And"}
RECURSIVE Size(_)
Size(t) == LET ch == Children(t) IN
           1 + (IF Len(ch) >= 1 THEN Size(ch[1]) ELSE 0) + (IF Len(ch) >= 2 THEN Size(ch[2]) ELSE 0)

Expected(t, name) ==
  CASE name = "depth"      -> TermDepth(t)
    [] name = "loop depth" -> LoopNesting(t)
    [] name = "lifelines"  -> Cardinality(LifelinesOf(t))
    [] name = "symbols"    -> Size(t)
    [] name \in Symbols    -> CountSymbol(t, name)

VARIABLES c, bad
Init == /\ c \in 1..Len(Cases) /\ bad = <<>>
Next == /\ bad = <<>>
        /\ \E k \in 1..Len(Cases[c].m) :
             LET x == Cases[c].m[k] IN
             /\ x[2] # Expected(Cases[c].t, x[1])
             /\ bad' = <<x[1], x[2], Expected(Cases[c].t, x[1])>>
        /\ c' = c
Spec == Init /\ [][Next]_<<c, bad>>
Report == bad # <<>> => PrintT(<<"BAD", Cases[c].id, bad>>)
=============================================================================
