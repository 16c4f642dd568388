----------------------------- MODULE Conf_Explore -----------------------------
(***************************************************************************)
(* Conformance of the exploration process: the set of trace files written  *)
(* by a run of the tool (given as a prefix tree: node = [e |-> a file has  *)
(* this trace, s |-> <<<<actions, child>>, ...>>]) against the traces the  *)
(* specified exploration selects, up to the depth filter d.                *)
(* The empty trace is not written by the tool and not compared.            *)
(* full = 0: the run was cut by another filter, only "nothing invented".   *)
(***************************************************************************)
EXTENDS HibouExplore, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, N, q, w, bad
vars == <<c, N, q, w, bad>>
View == <<c, N, q, Len(w), bad>>

C == Cases[c]
Sons(x) == IF x = 0 THEN {} ELSE { C.nodes[x].s[i] : i \in 1..Len(C.nodes[x].s) }
Son(x, ma) == LET m == { s \in Sons(x) : RangeOf(s[1]) = ma }
              IN IF m = {} THEN 0 ELSE (CHOOSE s \in m : TRUE)[2]
Written(x) == IF x = 0 THEN FALSE ELSE C.nodes[x].e

Verdict(N1, q1, depth) ==
  IF depth = 0 THEN ""
  ELSE IF C.full = 1 /\ Selected(C.gen, N1, depth) /\ ~Written(q1) THEN "missing-trace"
  ELSE IF Written(q1) /\ ~Selected(C.gen, N1, depth) THEN "invented-trace"
  ELSE ""

Init == /\ c \in 1..Len(Cases)
        /\ N = ExpInit(C.t)
        /\ q = 1
        /\ w = <<>>
        /\ bad = ""

Execute(ma) ==
  /\ bad = ""
  /\ N' = ExpAfter(N, ma, C.lmax)
  /\ q' = Son(q, ma)
  /\ w' = Append(w, ma)
  /\ c' = c
  /\ bad' = Verdict(N', q', Len(w) + 1)

Next == \/ /\ Len(w) < C.d
           /\ \E ma \in ExpLabels(N, C.lmax) : Execute(ma)
        \/ \E s \in Sons(q) :
              /\ Len(w) >= C.d \/ RangeOf(s[1]) \notin ExpLabels(N, C.lmax)
              /\ N' = {} /\ q' = s[2] /\ w' = Append(w, RangeOf(s[1])) /\ c' = c
              /\ bad = "" /\ bad' = IF Written(s[2]) THEN "invented-trace" ELSE ""

Spec == Init /\ [][Next]_vars

Report == bad # "" => PrintT(<<"BAD", C.id, bad, w>>)
=============================================================================
