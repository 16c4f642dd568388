------------------------------- MODULE Conf_Nfa -------------------------------
(***************************************************************************)
(* Conformance of what the tool derives from the automata of C.t.          *)
(* C.auts: automata over the table C.letters: initial states, final states *)
(*   and, for each state, the pairs <<letter, target>>.  They are walked   *)
(*   together, along with the graph of the specification and the subset    *)
(*   construction of the full semantics.  live = 1 : the runs are those of *)
(*   the interaction (the automaton is not trimmed); exact = 1 : no loop   *)
(*   may be cut (the automaton is built by composition).                   *)
(* C.words: [w, v] verdicts on traces, 1 for re-enacted, 0 for failed.     *)
(* C.sizes: <<>> or <<states, transitions>> said to be those of the         *)
(*   operational automaton and of the minimal one, in this order.          *)
(* C.same: [a, b, v]: automata a and b said to be equivalent (v = 1) or not*)
(* C.hid: [a, lf, x]: automaton x, with silent moves (letter 0), said to be *)
(*   automaton a where the letters in which lifeline lf takes part are       *)
(*   erased.                                                                *)
(***************************************************************************)
EXTENDS HibouAutomata, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, g, N, F, q, w, bad
vars == <<c, g, N, F, q, w, bad>>
View == <<c, N, F, q, bad, g = <<>> >>

C == Cases[c]
K == 1..Len(C.auts)
L == [ k \in 1..Len(C.letters) |-> RangeOf(C.letters[k]) ]

Run(a, S, ma)   == UNION { { e[2] : e \in { x \in RangeOf(a.tr[s]) : L[x[1]] = ma } } : s \in S }
Enabled(a, S)   == UNION { { L[e[1]] : e \in RangeOf(a.tr[s]) } : s \in S }
Final(a, S)     == RangeOf(a.fin) \cap S # {}

Judge(a, N1, F1, q1) ==
  IF GAccepts(N1) /\ ~Final(a, q1) THEN "behaviour-refused"
  ELSE IF a.exact = 1 /\ Accepts(F1) /\ ~Final(a, q1) THEN "behaviour-refused"
  ELSE IF Final(a, q1) /\ ~Accepts(F1) THEN "behaviour-invented"
  ELSE IF a.live = 1 /\ N1 # {} /\ q1 = {} THEN "run-missing"
  ELSE IF a.live = 1 /\ q1 # {} /\ F1 = {} THEN "run-invented"
  ELSE ""
(* <<what, automaton>> for those judged wrong *)
Verdict(N1, F1, q1) ==
  { <<Judge(C.auts[k], N1, F1, q1[k]), k>> : k \in { i \in K : Judge(C.auts[i], N1, F1, q1[i]) # "" } }

-----------------------------------------------------------------------------
(* words *)
RECURSIVE RunG(_, _, _, _)
RunG(gr, S, u, k) == IF k > Len(u) THEN S ELSE RunG(gr, GAfter(gr, S, RangeOf(u[k])), u, k + 1)
RECURSIVE RunF(_, _, _)
RunF(S, u, k) == IF k > Len(u) THEN S ELSE RunF(After(S, RangeOf(u[k])), u, k + 1)
WordVerdict(gr, x) ==
  IF x.v = 1 /\ RunF({C.t}, x.w, 1) = {} THEN "deviation-not-seen"
  ELSE IF x.v = 0 /\ RunG(gr, {gr.init}, x.w, 1) # {} THEN "run-refused"
  ELSE ""
WordVerdicts(gr) ==
  { <<WordVerdict(gr, C.words[k]), k>> : k \in { i \in 1..Len(C.words) : WordVerdict(gr, C.words[i]) # "" } }

(* sizes: those of the operational automaton itself, which is C.auts[1], and those of the minimal automaton of
   the language when the specification determines it *)
SizesOf(a) == <<Len(a.tr), LET RECURSIVE Sum(_) Sum(k) == IF k = 0 THEN 0 ELSE Cardinality(RangeOf(a.tr[k])) + Sum(k - 1) IN Sum(Len(a.tr))>>
SizeVerdicts(gr) ==
  IF C.sizes = <<>> THEN {}
  ELSE LET o == SizesOf(C.auts[1])
           m == IF gr.plain /\ ~gr.cut THEN MinimalSize(gr) ELSE <<C.sizes[3], C.sizes[4]>>
       IN  (IF C.sizes[1] # o[1] THEN { <<"number-of-states", o[1]>> } ELSE {})
           \cup (IF C.sizes[2] # o[2] THEN { <<"number-of-edges", o[2]>> } ELSE {})
           \cup (IF C.sizes[3] # m[1] THEN { <<"number-of-states-of-the-minimal-automaton", m[1]>> } ELSE {})
           \cup (IF C.sizes[4] # m[2] THEN { <<"number-of-edges-of-the-minimal-automaton", m[2]>> } ELSE {})

(* equivalence of two automata *)
RECURSIVE PairsReached(_, _, _, _)
PairsReached(a, b, seen, layer) ==
  LET succ == UNION { { <<Run(a, p[1], x), Run(b, p[2], x)>> : x \in Enabled(a, p[1]) \cup Enabled(b, p[2]) } : p \in layer }
      new == succ \ seen
  IN  IF new = {} THEN seen ELSE PairsReached(a, b, seen \cup new, new)
Equivalent(a, b) ==
  LET p0 == { <<RangeOf(a.init), RangeOf(b.init)>> }
  IN  \A p \in PairsReached(a, b, p0, p0) : Final(a, p[1]) = Final(b, p[2])
PairVerdicts ==
  { <<"wrong-statement-on-equivalence", k>> : k \in { i \in 1..Len(C.same) :
      (C.same[i].v = 1) # Equivalent(C.auts[C.same[i].a], C.auts[C.same[i].b]) } }

(* erasure of a lifeline: Silent(k) are the letters without a trace *)
Silents(a, S, dom) == UNION { { e[2] : e \in { x \in RangeOf(a.tr[s]) : x[1] \in dom } } : s \in S }
RECURSIVE Closed(_, _, _)
Closed(a, S, dom) == LET S1 == S \cup Silents(a, S, dom) IN IF S1 = S THEN S ELSE Closed(a, S1, dom)
RECURSIVE PairsHidden(_, _, _, _, _, _)
PairsHidden(a, da, x, dx, seen, layer) ==
  LET vis == (1..Len(L)) \ da
      to(u, du, S, k) == Closed(u, { e[2] : e \in { y \in UNION { RangeOf(u.tr[s]) : s \in S } : y[1] = k } }, du)
      succ == UNION { { <<to(a, da, p[1], k), to(x, dx, p[2], k)>> : k \in vis } : p \in layer }
      new == succ \ seen
  IN  IF new = {} THEN seen ELSE PairsHidden(a, da, x, dx, seen \cup new, new)
Hides(a, lf, x) ==
  LET da == { k \in 1..Len(L) : lf \in LfsOf(L[k]) }
      p0 == { <<Closed(a, RangeOf(a.init), da), Closed(x, RangeOf(x.init), {0})>> }
  IN  /\ \A s \in 1..Len(x.tr) : \A e \in RangeOf(x.tr[s]) : e[1] \notin da
      /\ \A p \in PairsHidden(a, da, x, {0}, p0, p0) : Final(a, p[1]) = Final(x, p[2])
HidVerdicts == { <<"wrong-automaton-without-a-lifeline", k>> : k \in { i \in 1..Len(C.hid) : ~Hides(C.auts[C.hid[i].a], C.hid[i].lf, C.hid[i].x) } }

LetterVerdicts == IF \E i, j \in 1..Len(L) : i # j /\ L[i] = L[j] THEN { <<"letter-twice", 0>> } ELSE {}

-----------------------------------------------------------------------------
Init == /\ c \in 1..Len(Cases)
        /\ g = <<>> /\ N = {} /\ F = {} /\ q = <<>> /\ w = <<>>
        /\ bad = {}

Start == /\ g = <<>>
         /\ g' = TLCEval(GraphOf(C.t))
         /\ N' = { <<C.t, 0>> }
         /\ F' = { C.t }
         /\ q' = TLCEval([ k \in K |-> RangeOf(C.auts[k].init) ])
         /\ bad' = Verdict(N', F', q') \cup WordVerdicts(g') \cup SizeVerdicts(g') \cup PairVerdicts \cup HidVerdicts \cup LetterVerdicts
         /\ c' = c /\ w' = w

Walk == /\ g # <<>> /\ bad = {}
        /\ Len(w) < C.d
        /\ Cardinality(F) <= 24
        /\ K # {}
        /\ \E ma \in GLabels(g, N) \cup UNION { Enabled(C.auts[k], q[k]) : k \in K } :
             /\ N' = GAfter(g, N, ma)
             /\ F' = After(F, ma)
             /\ q' = TLCEval([ k \in K |-> Run(C.auts[k], q[k], ma) ])
             /\ w' = Append(w, ma)
             /\ c' = c /\ g' = g
             /\ bad' = Verdict(N', F', q')

Next == Start \/ Walk
Spec == Init /\ [][Next]_vars

Report == bad # {} => PrintT(<<"BAD", C.id, bad, w>>)
=============================================================================
