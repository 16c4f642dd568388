---------------------------- MODULE HibouAutomata ----------------------------
(***************************************************************************)
(* The automaton of an interaction: the memoised breadth first exploration *)
(* with at most Bound(t) loop entries.  A state is <<term, loop depth>>; a *)
(* node reached again with at least the depth it has been recorded with is *)
(* the recorded node.                                                      *)
(* If that exploration cuts no step, the automaton accepts the behaviours  *)
(* of t, all of them.  If it cuts steps, what the tool identifies depends  *)
(* on the order of the exploration and on the form of the terms, and the   *)
(* automaton is only known to accept the behaviours that can be read with  *)
(* Bound(t) loop entries, which are those of the graph without any         *)
(* identification of different depths: the tool records, for each of its   *)
(* nodes, one of a lower depth, that can do more.  In both cases           *)
(*   behaviours of Graph(t)  \subseteq  automaton  \subseteq  behaviours of t *)
(***************************************************************************)
EXTENDS HibouExplore, TLC

Bound(t) == 2 * LoopCount(t)

Covered(rec, m) == \E r \in rec : r[1] = m[1] /\ r[2] <= m[2]

(* st: node -> its steps, for the recorded nodes                            *)
RECURSIVE Records(_, _, _)
Records(st, layer, b) ==
  LET rec  == (DOMAIN st) \cup layer
      st1  == st @@ [ n \in layer |-> StepsDelayed(n[1]) ]
      succ == UNION { { <<s[3], n[2] + s[2]>> : s \in { x \in st1[n] : n[2] + x[2] <= b } } : n \in layer }
      new  == { m \in succ : ~Covered(rec, m) }
  IN  IF new = {} THEN st1 ELSE Records(st1, new, b)

(* The node an arrival is identified with: the recorded one of largest depth *)
Merge(rec, m) ==
  <<m[1], MaxOf({ r[2] : r \in { x \in rec : x[1] = m[1] /\ x[2] <= m[2] } })>>

RECURSIVE RecordsAll(_, _, _)
RecordsAll(st, layer, b) ==
  LET st1  == st @@ [ n \in layer |-> StepsDelayed(n[1]) ]
      succ == UNION { { <<s[3], n[2] + s[2]>> : s \in { x \in st1[n] : n[2] + x[2] <= b } } : n \in layer }
      new  == succ \ DOMAIN st1
  IN  IF new = {} THEN st1 ELSE RecordsAll(st1, new, b)

(* nodes; edges: node -> {<<multi-action, node>>}; cut: was a step cut?      *)
GraphOf(t) ==
  LET b   == Bound(t)
      n0  == { <<t, 0>> }
      sm  == Records(<<>>, n0, b)
      cut == \E n \in DOMAIN sm : \E x \in sm[n] : n[2] + x[2] > b
      st  == IF cut THEN RecordsAll(<<>>, n0, b) ELSE sm
      rec == DOMAIN st
      To(m) == IF cut THEN m ELSE Merge(rec, m)
  IN  [ init  |-> <<t, 0>>,
        nodes |-> rec,
        edges |-> TLCEval([ n \in rec |-> { <<s[1], To(<<s[3], n[2] + s[2]>>)>> : s \in { x \in st[n] : n[2] + x[2] <= b } } ]),
        cut   |-> cut,
        plain |-> \A m, n \in rec : m[1] = n[1] => m = n ]

GAccepts(N)     == \E n \in N : Eps(n[1])
GLabels(g, N)   == UNION { { e[1] : e \in g.edges[n] } : n \in N }
GAfter(g, N, a) == UNION { { e[2] : e \in { x \in g.edges[n] : x[1] = a } } : n \in N }

-----------------------------------------------------------------------------
(* The minimal deterministic automaton of the language of a graph.          *)
RECURSIVE SubsetsReached(_, _, _)
SubsetsReached(g, seen, layer) ==
  LET succ == UNION { { GAfter(g, N, a) : a \in GLabels(g, N) } : N \in layer }
      new  == succ \ seen
  IN  IF new = {} THEN seen ELSE SubsetsReached(g, seen \cup new, new)

RECURSIVE Refined(_, _, _, _)
Refined(g, A, D, f) ==
  LET h == TLCEval([ N \in D |-> { M \in f[N] : \A a \in A : f[GAfter(g, M, a)] = f[GAfter(g, N, a)] } ])
  IN  IF h = f THEN f ELSE Refined(g, A, D, h)

(* <<states, transitions>> of the minimal (trim, partial) automaton          *)
MinimalSize(g) ==
  LET init == { {g.init} }
      D    == SubsetsReached(g, init, init) \cup { {} }
      A    == GLabels(g, g.nodes)
      f    == Refined(g, A, D, TLCEval([ N \in D |-> { M \in D : GAccepts(M) = GAccepts(N) } ]))
      live == { N \in D : f[N] # f[{}] }
      cls  == { f[N] : N \in live }
      arcs == UNION { { <<f[N], a, f[GAfter(g, N, a)]>> : a \in { x \in A : GAfter(g, N, x) \in live } } : N \in live }
  IN  IF cls = {} THEN <<1, 0>> ELSE <<Cardinality(cls), Cardinality(arcs)>>
=============================================================================
