----------------------------- MODULE Conf_Random -----------------------------
(***************************************************************************)
(* Conformance of the random generation.  Case kinds:                       *)
(*  "run"  a run: request R (fields of the case), files |-> the terms kept,  *)
(*         in order, numbers |-> their file numbers, log |-> what the run    *)
(*         said (<<>> when it could not be understood), again |-> the terms  *)
(*         of a second run with the same seed (files itself if not repeated) *)
(*  "dist" a distribution map, whether it was accepted and, if so, how often *)
(*         each symbol came in draws draws                                   *)
(***************************************************************************)
EXTENDS HibouRandom, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pos, st, bad
vars == <<c, pos, st, bad>>
C == Cases[c]
R == C
Abs(x) == IF x < 0 THEN -x ELSE x

Init == c \in 1..Len(Cases) /\ pos = 1 /\ bad = <<>> /\ st = IF Cases[c].kind = "run" THEN Start(Cases[c]) ELSE <<>>

(* The log is a behaviour of the process. *)
Replay == /\ C.kind = "run" /\ bad = <<>> /\ pos <= Len(C.log)
          /\ IF Can(st, R, C.log[pos], C.files)
             THEN st' = TLCEval(After(st, R, C.log[pos], C.files)) /\ bad' = bad
             ELSE st' = st /\ bad' = <<"log", pos, C.log[pos]>>
          /\ pos' = pos + 1 /\ c' = c
JudgeRun ==
  IF Len(C.log) > 0 /\ ~Over(st, R, C.files) THEN <<"ended early or late", st.ph, st.x>>
  ELSE IF Len(C.files) > R.n THEN <<"too many">>
  ELSE IF C.numbers # [i \in 1..Len(C.files) |-> i - 1] THEN <<"file names">>
  ELSE IF C.again # C.files THEN <<"the same seed gave other interactions">>
  ELSE LET W == { i \in 1..Len(C.files) : Kept(C.files[i], R, { C.files[j] : j \in 1..(i - 1) }) # "" } IN
       IF W = {} THEN <<>> ELSE LET i == CHOOSE i \in W : \A j \in W : i <= j IN <<"file", i - 1, Kept(C.files[i], R, { C.files[j] : j \in 1..(i - 1) })>>
Freq(name) == LET I == { i \in 1..Len(C.freq) : C.freq[i][1] = name } IN IF I = {} THEN 0 ELSE C.freq[CHOOSE i \in I : TRUE][2]
JudgeDist ==
  IF C.ok # IsDistribution(C.map) THEN <<"accepted", C.ok>>
  ELSE IF ~C.ok THEN <<>>
  ELSE IF \E i \in 1..Len(C.freq) : \A j \in 1..Len(C.map) : C.map[j][1] # C.freq[i][1] THEN <<"other symbols">>
  ELSE LET W == { i \in 1..Len(C.map) : Abs(Freq(C.map[i][1]) * 1000 - C.map[i][2] * C.draws) > 10 * C.draws
                                        \/ (C.map[i][2] = 0 /\ Freq(C.map[i][1]) * 1000 > C.draws) } IN
       IF W = {} THEN <<>> ELSE LET i == CHOOSE i \in W : TRUE IN <<"frequency", C.map[i], Freq(C.map[i][1])>>
Judge == /\ bad = <<>> /\ pos = (IF C.kind = "run" THEN Len(C.log) ELSE 0) + 1
         /\ bad' = TLCEval(IF C.kind = "run" THEN JudgeRun ELSE JudgeDist)
         /\ pos' = pos + 1 /\ UNCHANGED <<c, st>>
Next == Replay \/ Judge
Spec == Init /\ [][Next]_vars
Report == bad # <<>> => PrintT(<<"BAD", C.id, bad>>)
=============================================================================
