------------------------------ MODULE HibouSearch ------------------------------
(***************************************************************************)
(* The search that explorations and analyses are runs of.  A node waits in *)
(* the queue with the steps that remain to be taken from it; which node is *)
(* served next is the strategy's choice, which of its steps the            *)
(* priorities'; filters cut steps; memoization recognises nodes; verdicts  *)
(* of the nodes decide the verdict of the search, and when it may stop.    *)
(*                                                                         *)
(* A configuration cfg is a record                                         *)
(*   strategy : "BFS" | "DFS" | "HCS"                                      *)
(*   prio     : <<emission, reception, multi_rdv, loop, elim, simu>>       *)
(*   dmax, lmax, nmax : limits of depth, loop depth, number of nodes       *)
(*   memo     : BOOLEAN     goal : 0..5 (5: none)                          *)
(* A step is <<emissions, receptions, actions, loop depth, eliminated      *)
(* components, simulated components>>.  The identity of a node is <<k, v>>:*)
(* what makes it different from others, and a vector of which less is      *)
(* better (the loop depth spent, the simulations made).                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Priority(cfg, f) ==
  cfg.prio[1] * f[1] + cfg.prio[2] * f[2] + cfg.prio[3] * f[3] + cfg.prio[4] * f[4] + cfg.prio[5] * f[5] + cfg.prio[6] * f[6]

(* The steps that may be taken first among those that remain. *)
Foremost(cfg, steps) ==
  { j \in 1..Len(steps) : \A k \in 1..Len(steps) : Priority(cfg, steps[k]) <= Priority(cfg, steps[j]) }

Without(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))

(* The node served next: hybrid search goes deep until it meets a node it  *)
(* cannot leave, and then takes up the oldest node again.                  *)
Served(cfg, queue, leaf) ==
  IF cfg.strategy = "BFS" \/ (cfg.strategy = "HCS" /\ leaf) THEN 1 ELSE Len(queue)

(* Why a step is cut ({}: it is not). *)
Cuts(cfg, depth, loop, count) ==
  (IF depth > cfg.dmax THEN {"depth"} ELSE {}) \cup
  (IF loop > cfg.lmax THEN {"loop"} ELSE {}) \cup
  (IF count >= cfg.nmax THEN {"nodes"} ELSE {})

(* The node m makes the node with identity <<k, v>> superfluous. *)
Covers(m, k, v) == m.k = k /\ \A i \in 1..Len(v) : m.v[i] <= v[i]

(* Verdicts of nodes, as the least verdict of the search they justify.     *)
Worth(w) ==
  CASE w = "Cov" -> 4
    [] w \in {"TooShort", "MultiPref", "Slice"} -> 3
    [] w = "Inconc" -> 2
    [] w = "OutSim" -> 1
    [] w = "DeadLocked" -> 1
    [] OTHER -> 0
Best(a, b) == IF a > b THEN a ELSE b
GoalReached(cfg, g) == cfg.goal <= 4 /\ g >= cfg.goal
(* A search that was cut does not conclude a failure. *)
Final(kind, g, cut) == IF kind = "ana" /\ g = 0 /\ cut THEN 2 ELSE g
=============================================================================
