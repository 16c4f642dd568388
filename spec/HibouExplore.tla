----------------------------- MODULE HibouExplore -----------------------------
(***************************************************************************)
(* Exploration of an interaction, as a search configured by filters sees   *)
(* it.  An exploration node is <<term, loop depth>>; the subset            *)
(* construction over nodes is indexed by the trace that leads to them.     *)
(***************************************************************************)
EXTENDS HibouSemantics

NoLimit == 1000

ExpInit(t) == { <<t, 0>> }

(* Successors by one multi-action, cut by the loop filter. *)
ExpLabels(N, lmax) ==
  UNION { { s[1] : s \in { x \in StepsDelayed(n[1]) : n[2] + x[2] <= lmax } } : n \in N }
ExpAfter(N, ma, lmax) ==
  UNION { { <<s[3], n[2] + s[2]>> :
            s \in { x \in StepsDelayed(n[1]) : x[1] = ma /\ n[2] + x[2] <= lmax } } : n \in N }
ExpAccepts(N) == \E n \in N : Eps(n[1])

(* Which reached traces trace generation selects.                          *)
(* gen = <<"accepted">> | <<"exact", d>> | <<"modulo", d>>                 *)
Selected(gen, N, depth) ==
  CASE gen[1] = "accepted" -> ExpAccepts(N)
    [] gen[1] = "exact"    -> N # {} /\ depth = gen[2]
    [] gen[1] = "modulo"   -> N # {} /\ depth % gen[2] = 0
=============================================================================
