----------------------------- MODULE Conf_Syntax -----------------------------
(***************************************************************************)
(* Conformance of reading and writing files to HibouSyntax.  Cases:         *)
(*   kind "s": signature text cs; ok, and lf, ms, gt as read by the         *)
(*             implementation                                              *)
(*   kind "i": interaction text cs under signature sig; ok, and t as read   *)
(*   kinds "S", "I", "H": the same, only whether the tool works on the text *)
(*   kind "w": text cs the implementation wrote for interaction t           *)
(*   kind "h": multi-trace text cs; ok, and mt = << <<lifelines, trace>> >> *)
(*   kind "v": text cs the implementation wrote for the multi-trace mt      *)
(***************************************************************************)
EXTENDS HibouSyntax, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, bad
vars == <<c, bad>>

Sig == Cases[c].sig
Multi(mt) == [i \in 1..Len(mt) |-> <<RangeOf(mt[i][1]), [j \in 1..Len(mt[i][2]) |-> RangeOf(mt[i][2][j])]>>]
Canon(t) == Lean(AsSets(t))

Judge ==
  LET x == Cases[c] IN
  CASE x.kind = "s" -> LET r == Signature(x.cs)
                       IN IF r[1] /\ x.ok = 0 THEN "refused"
                          ELSE IF ~r[1] /\ x.ok = 1 THEN "accepted"
                          ELSE IF r[1] /\ r[2] # [lf |-> x.lf, ms |-> x.ms, gt |-> x.gt] THEN "read-otherwise" ELSE ""
    [] x.kind = "i" -> LET r == Interaction(Sig, x.cs)
                       IN IF r[1] /\ x.ok = 0 THEN "refused"
                          ELSE IF ~r[1] /\ x.ok = 1 THEN "accepted"
                          ELSE IF x.ok = 1 /\ r[2] # AsSets(x.t) THEN "read-otherwise" ELSE ""
    [] x.kind = "w" -> LET r == Interaction(Sig, x.cs)
                       IN IF ~r[1] THEN "ill-formed-output"
                          ELSE IF Lean(r[2]) # Canon(x.t) THEN "written-otherwise" ELSE ""
    [] x.kind = "h" -> LET r == MultiTrace(Sig, x.cs)
                       IN IF r[1] /\ x.ok = 0 THEN "refused"
                          ELSE IF ~r[1] /\ x.ok = 1 THEN "accepted"
                          ELSE IF x.ok = 1 /\ r[2] # Multi(x.mt) THEN "read-otherwise" ELSE ""
    [] x.kind \in {"S", "I", "H"} ->
         LET r == CASE x.kind = "S" -> Signature(x.cs) [] x.kind = "I" -> Interaction(Sig, x.cs) [] OTHER -> MultiTrace(Sig, x.cs)
         IN IF r[1] /\ x.ok = 0 THEN "refused" ELSE IF ~r[1] /\ x.ok = 1 THEN "accepted" ELSE ""
    [] x.kind = "v" -> LET r == MultiTrace(Sig, x.cs)
                       IN IF ~r[1] THEN "ill-formed-output"
                          ELSE IF r[2] # Multi(x.mt) THEN "written-otherwise" ELSE ""

Init == c \in 1..Len(Cases) /\ bad = "new"
Next == bad = "new" /\ bad' = Judge /\ c' = c
Spec == Init /\ [][Next]_vars

Report == bad \notin {"new", ""} => PrintT(<<"BAD", Cases[c].id, bad>>)
=============================================================================
