------------------------------- MODULE MC_Search -------------------------------
(***************************************************************************)
(* Theorems about HibouSearch, for all graphs of N identities with at most *)
(* two steps each, whatever the strategy and the order of the steps:       *)
(*  - a search with memoization meets exactly the identities that can be   *)
(*    reached, each once; one without, exactly the paths within the depth; *)
(*  - the verdict is the best that can be reached (this is why C04-C08 are *)
(*    free to judge verdicts without looking at the order of the search);  *)
(*  - with a goal the verdict reaches the goal iff it can be reached;      *)
(*  - with memoization and a depth filter the verdict is never better than *)
(*    what can be reached, and never Fail if something was cut (C10).      *)
(* The search itself is the one of Conf_Search, with the outcome of each   *)
(* decision given by the graph instead of a record.                        *)
(***************************************************************************)
EXTENDS HibouSearch, TLC

CONSTANTS N, D          \* identities, depth limit of searches without memoization

Ids == 1..N
Steps == {<<>>} \cup { <<a>> : a \in Ids } \cup { <<a, b>> : a, b \in Ids }
Words == {"", "Cov", "TooShort", "Inconc", "Out"}
NoStep == <<0, 0, 0, 0, 0, 0>>

VARIABLES succ, word, cfg, queue, rem, had, leaf, nodes, depth, g, cut, reach
vars == <<succ, word, cfg, queue, rem, had, leaf, nodes, depth, g, cut, reach>>

Configs == { [strategy |-> s, prio |-> NoStep, dmax |-> d, lmax |-> 1000, nmax |-> 1000, memo |-> m, goal |-> o] :
             s \in {"BFS", "DFS", "HCS"}, d \in {D, 1000}, m \in BOOLEAN, o \in {3, 5} }

(* what can be reached, and the paths within the depth limit *)
RECURSIVE Closure(_, _)
Closure(f, S) == LET T == S \cup UNION { {f[s][j] : j \in DOMAIN f[s]} : s \in S } IN IF T = S THEN S ELSE Closure(f, T)
RECURSIVE Within(_, _, _)
Within(f, s, d) == IF d = 0 THEN {<<s>>} ELSE {<<s>>} \cup UNION { { <<s>> \o w : w \in Within(f, f[s][j], d - 1) } : j \in DOMAIN f[s] }
RECURSIVE Paths(_, _, _)
Paths(f, s, d) == 1 + (IF d = 0 THEN 0 ELSE
                       LET q == f[s] IN IF q = <<>> THEN 0 ELSE IF Len(q) = 1 THEN Paths(f, q[1], d - 1) ELSE Paths(f, q[1], d - 1) + Paths(f, q[2], d - 1))
RECURSIVE BestOf(_, _)
BestOf(w, S) == IF S = {} THEN 0 ELSE LET s == CHOOSE x \in S : TRUE IN Best(Worth(w[s]), BestOf(w, S \ {s}))

Init ==
  /\ succ \in [Ids -> Steps]
  /\ word \in [Ids -> Words] /\ \A x \in Ids : (word[x] = "") <=> (succ[x] # <<>>)      \* only ends have verdicts
  /\ reach = Closure(succ, {1}) /\ reach = Ids                                          \* (smaller graphs are those of smaller N)
  /\ cfg \in { k \in Configs : k.memo \/ k.dmax = D }
  /\ nodes = <<1>> /\ depth = <<0>>
  /\ queue = IF succ[1] = <<>> THEN <<>> ELSE <<1>>
  /\ rem = IF succ[1] = <<>> THEN <<>> ELSE <<succ[1]>>
  /\ had = {} /\ leaf = TRUE /\ g = Worth(word[1]) /\ cut = FALSE

Pos == Served(cfg, queue, leaf)
P == queue[Pos]
Open == queue # <<>> /\ ~GoalReached(cfg, g)
Identity(n) == [k |-> nodes[n], v |-> <<0>>]

Take ==
  /\ Open
  /\ \E j \in Foremost(cfg, [x \in 1..Len(rem[Pos]) |-> NoStep]) :
       LET to    == rem[Pos][j]
           taken == Cuts(cfg, depth[P] + 1, 0, Len(nodes)) = {}
           known == cfg.memo /\ \E m \in 1..Len(nodes) : Covers(Identity(m), to, <<0>>)
           fresh == taken /\ ~known
           n     == Len(nodes) + 1
           rest  == Without(rem[Pos], j)
           had1  == IF taken THEN had \cup {P} ELSE had
           gone  == rest = <<>>
           lone  == gone /\ P \notin had1
           q1    == IF gone THEN Without(queue, Pos) ELSE queue
           r1    == IF gone THEN Without(rem, Pos) ELSE [rem EXCEPT ![Pos] = rest]
           in    == fresh /\ succ[to] # <<>>
       IN /\ queue' = IF in THEN Append(q1, n) ELSE q1
          /\ rem' = IF in THEN Append(r1, succ[to]) ELSE r1
          /\ had' = IF gone THEN had1 \ {P} ELSE had1
          /\ leaf' = (lone \/ (fresh /\ succ[to] = <<>>) \/ cfg.strategy # "HCS")
          /\ nodes' = IF fresh THEN Append(nodes, to) ELSE nodes
          /\ depth' = IF fresh THEN Append(depth, depth[P] + 1) ELSE depth
          /\ g' = IF fresh THEN Best(g, Worth(word[to])) ELSE g
          /\ cut' = (cut \/ ~taken)
  /\ UNCHANGED <<succ, word, cfg, reach>>
Spec == Init /\ [][Take]_vars

AllBest == BestOf(word, reach)
Depths == { Len(w) : w \in Within(succ, 1, D) }
Near == { w[Len(w)] : w \in Within(succ, 1, D) }

Exact == (~Open /\ cfg.goal = 5) =>
  IF cfg.memo /\ cfg.dmax = 1000
  THEN /\ Len(nodes) = Cardinality(reach) /\ { nodes[n] : n \in 1..Len(nodes) } = reach
       /\ g = AllBest
  ELSE ~cfg.memo => /\ Len(nodes) = Paths(succ, 1, D)
                    /\ g = BestOf(word, Near)
                    /\ cut <=> \E w \in Within(succ, 1, D) : Len(w) = D + 1 /\ succ[w[D + 1]] # <<>>
Goal == (~Open /\ cfg.goal < 5) =>
  IF cfg.dmax = 1000 THEN (g >= cfg.goal <=> AllBest >= cfg.goal) /\ (g < cfg.goal => g = AllBest)
  ELSE ~cfg.memo => (g >= cfg.goal <=> BestOf(word, Near) >= cfg.goal)
Sound == /\ g <= AllBest
         /\ (~Open /\ Final("ana", g, cut) = 0) => AllBest = 0
Once == cfg.memo => \A m, n \in 1..Len(nodes) : nodes[m] = nodes[n] => m = n
=============================================================================
