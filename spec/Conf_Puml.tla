------------------------------ MODULE Conf_Puml ------------------------------
(***************************************************************************)
(* Conformance of PlantUML texts.  A case C has the term C.t, the lines     *)
(* C.lines and the kind C.k of diagram: "sd" (sequence diagram) or "ap"      *)
(* (one state machine per lifeline; C.names names the composite state of    *)
(* each lifeline; C.n bounds the length of the words compared).             *)
(* The transition system reads the text line by line.                      *)
(***************************************************************************)
EXTENDS HibouPuml, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, pos, st, bad
vars == <<c, pos, st, bad>>
C == Cases[c]
IsSd == C.k = "sd"

Init == /\ c \in 1..Len(Cases) /\ pos = 1 /\ bad = <<>>
        /\ st = IF Cases[c].k = "sd" THEN <<Frame("top")>> ELSE NoChart

ReadLine == /\ pos <= Len(C.lines) /\ bad = <<>>
            /\ LET l == C.lines[pos] IN
               IF (IF IsSd THEN CanRead(st, l) ELSE CanReadC(st, l))
               THEN /\ st' = TLCEval(IF IsSd THEN Read(st, l) ELSE ReadC(st, l)) /\ pos' = pos + 1 /\ UNCHANGED bad
               ELSE /\ bad' = <<"line", pos>> /\ UNCHANGED <<st, pos>>
            /\ c' = c

JudgeSd == IF Len(st) # 1 THEN <<"open fragments">>
           ELSE IF st[1].cur # Items(C.t) THEN <<"structure">> ELSE <<>>
Wrong(i) == LET got == ChartLang(st, C.names[i], C.n)
                lo  == LocalLang(C.t, i - 1, C.n, FALSE)
                hi  == LocalLang(C.t, i - 1, C.n, TRUE) IN
            IF lo \ got # {} THEN <<"missing", i - 1, CHOOSE w \in lo \ got : TRUE>>
            ELSE IF got \ hi # {} THEN <<"added", i - 1, CHOOSE w \in got \ hi : TRUE>> ELSE <<>>
JudgeAp == IF st.stack # <<>> THEN <<"open states">>
           ELSE IF st.tops # C.names THEN <<"lifelines">>
           ELSE LET ws == { Wrong(i) : i \in 1..Len(C.names) } \ {<<>>} IN
                IF ws = {} THEN <<>> ELSE CHOOSE w \in ws : TRUE
Judge == /\ pos = Len(C.lines) + 1 /\ bad = <<>>
         /\ bad' = TLCEval(IF IsSd THEN JudgeSd ELSE JudgeAp)
         /\ pos' = pos + 1 /\ UNCHANGED <<c, st>>
Next == ReadLine \/ Judge
Spec == Init /\ [][Next]_vars
Report == bad # <<>> => PrintT(<<"BAD", C.id, bad>>)
(* Reading never leaves a fragment of the wrong kind open. *)
TypeOK == pos \in 1..(Len(C.lines) + 2)
=============================================================================
