---------------------------- MODULE Conf_Options ----------------------------
(***************************************************************************)
(* Conformance of reading configuration files to HibouOptions.  A case has *)
(* a command cmd, a text cs, a signature sig, ok and, when known, the      *)
(* options opts the implementation read.  With cmd = "files": the command  *)
(* was run on existing files called names where it wants kinds; "number":    *)
(* a command was run with cs as a numeric argument.                         *)
(***************************************************************************)
EXTENDS HibouOptions, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, bad
vars == <<c, bad>>

Normal(m) == IF "filters" \notin DOMAIN m THEN m
             ELSE [m EXCEPT !.filters = [i \in 1..Len(@) |-> IF @[i][1] # "nodes" /\ @[i][2] = "4294967295" THEN <<"never", "">> ELSE @[i]]]

Judge ==
  LET x == Cases[c]
      r == IF x.cmd = "files" THEN (IF FilesOk(x.names, x.kinds) THEN Ok(<<>>) ELSE Err("extension"))
           ELSE IF x.cmd = "number" THEN (IF NumberOk(x.cs) /\ (x.positive = 1 => Positive(x.cs)) THEN Ok(<<>>) ELSE Err("number"))
           ELSE Options(x.cmd, x.sig, x.cs)
  IN IF r[1] /\ x.ok = 0 THEN "refused"
     ELSE IF ~r[1] /\ x.ok = 1 THEN "accepted"
     ELSE IF x.ok = 1 /\ "opts" \in DOMAIN x THEN (IF x.opts = Normal(r[2]) THEN "" ELSE "read-otherwise")
     ELSE ""

Init == c \in 1..Len(Cases) /\ bad = "new"
Next == bad = "new" /\ bad' = Judge /\ c' = c
Spec == Init /\ [][Next]_vars

Report == bad \notin {"new", ""} => PrintT(<<"BAD", Cases[c].id, bad>>)
=============================================================================
