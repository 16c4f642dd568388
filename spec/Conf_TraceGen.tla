----------------------------- MODULE Conf_TraceGen -----------------------------
(***************************************************************************)
(* Conformance of trace generation: the multi-traces written by a run of   *)
(* the tool for a partition of the lifelines, against the projections on   *)
(* that partition of the traces the specified exploration selects.         *)
(*                                                                         *)
(* One case is one behaviour: the exploration advances layer by layer, a   *)
(* layer being the set of <<multi-trace, explored node>> reached by that   *)
(* many steps; sel accumulates the multi-traces selected so far.           *)
(* The empty multi-trace of the initial node is never written by the tool  *)
(* and not compared.                                                       *)
(* full = 1: every selected multi-trace has to be written                  *)
(* full = 2: only when no multi-trace is reached in two different ways     *)
(*           (nodes, or numbers of steps)                                  *)
(* full = 0: the run may legitimately have written fewer of them           *)
(***************************************************************************)
EXTENDS HibouExplore, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, k, layer, seen, sel, uniq
vars == <<c, k, layer, seen, sel, uniq>>

C == Cases[c]
Parts == Len(C.part)
Part(i) == RangeOf(C.part[i])
Extend(mu, ma) ==
  [ i \in 1..Parts |-> LET p == ProjAct(ma, Part(i)) IN IF p = {} THEN mu[i] ELSE Append(mu[i], p) ]
EmptyMu == [ i \in 1..Parts |-> <<>> ]

(* The written files: in any order of the components, so keyed by part.     *)
Written == { [ i \in 1..Parts |-> [ j \in 1..Len(f[i]) |-> RangeOf(f[i][j]) ] ] : f \in RangeOf(C.files) }

ChosenNow(n, depth) ==
  CASE C.gen[1] = "accepted" -> Eps(n[1])
    [] C.gen[1] = "exact"    -> depth = C.gen[2]
    [] C.gen[1] = "modulo"   -> depth % C.gen[2] = 0

Init == /\ c \in 1..Len(Cases)
        /\ k = 0
        /\ layer = { <<EmptyMu, <<C.t, 0>>>> }
        /\ seen = {}
        /\ sel = {}
        /\ uniq = TRUE

Next == /\ k < C.d
        /\ k' = k + 1 /\ c' = c
        /\ layer' = UNION { { <<Extend(x[1], s[1]), <<s[3], x[2][2] + s[2]>>>> :
                              s \in { y \in StepsDelayed(x[2][1]) : x[2][2] + y[2] <= C.lmax } } : x \in layer }
        /\ seen' = seen \cup { x[1] : x \in layer }
        /\ sel' = sel \cup { x[1] : x \in { y \in layer' : ChosenNow(y[2], k + 1) } }
        /\ uniq' = (uniq /\ (Cardinality({ x[1] : x \in layer' }) = Cardinality(layer'))
                         /\ ({ x[1] : x \in layer' } \cap seen') = {})

Spec == Init /\ [][Next]_vars

Missing == (sel \ {EmptyMu}) \ Written
Invented == Written \ sel
Report ==
  k = C.d =>
    /\ (Invented # {}) => PrintT(<<"BAD", C.id, "invented-multi-trace", CHOOSE x \in Invented : TRUE>>)
    /\ (Missing # {} /\ (C.full = 1 \/ (C.full = 2 /\ uniq))) => PrintT(<<"BAD", C.id, "missing-multi-trace", CHOOSE x \in Missing : TRUE>>)
=============================================================================
