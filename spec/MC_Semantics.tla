----------------------------- MODULE MC_Semantics -----------------------------
(***************************************************************************)
(* Model-level theorems about the semantics, checked by TLC on every term  *)
(* of a family read from CASES (ndjson of {"id","t","n"}):                 *)
(*  T1  the operational rules denote exactly Lang                          *)
(*  T2  the delayed rules denote the same behaviours                       *)
(*  T3  Eps / Avoids / Prune have their denotational meaning               *)
(*  T4  lifeline removal over-approximates projection, and is exact when   *)
(*      a single lifeline is kept (loop-free terms without co-region/sync) *)
(*  T5  directly nested loops are one loop of the weaker kind, unless a     *)
(*      head-first loop contains a head-first or strict one                 *)
(***************************************************************************)
EXTENDS HibouSemantics, HibouDenotational, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

RECURSIVE OpLang(_, _)
OpLang(t, n) ==
  (IF Eps(t) THEN {<<>>} ELSE {})
  \cup (IF n = 0 THEN {}
        ELSE UNION { { <<s[1]>> \o w : w \in OpLang(s[3], n - 1) } : s \in Steps(t) })
RECURSIVE OpLangD(_, _)
OpLangD(t, n) ==
  (IF Eps(t) THEN {<<>>} ELSE {})
  \cup (IF n = 0 THEN {}
        ELSE UNION { { <<s[1]>> \o w : w \in OpLangD(s[3], n - 1) } : s \in StepsDelayed(t) })

ExactElim(t, n) == ~UsesOp(t, {"cr", "sy", "lp"}) /\ NumAtoms(t) <= n

UnnestLaw(t, n) ==
  \A k \in {"S", "H", "W", "P"} : \A l \in {"S", "H", "W", "P"} :
    (k = "H" /\ l \in {"S", "H"}) \/ Lang(<<"lp", k, <<"lp", l, t>>>>, n) = Lang(<<"lp", WeakestLoop(k, l), t>>, n)

VARIABLES c, done
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c
Spec == Init /\ [][Next]_<<c, done>>

Check(t, n) ==
  LET L    == Lang(t, n)
      lfs  == LifelinesOf(t)
      noSy == ~UsesOp(t, {"sy"})
  IN /\ OpLang(t, n) = L
     /\ NumAtoms(t) <= 3 => UnnestLaw(t, Min2(n, IF NumAtoms(t) = 3 THEN 2 ELSE 3))
     /\ OpLangD(t, n) = L
     /\ Eps(t) = (<<>> \in L)
     /\ \A l \in lfs :
          /\ Avoids(t, {l}) =>
               Lang(Prune(t, {l}), n) = { w \in L : l \notin LfsOfTrace(w) }
          /\ (\E w \in L : l \notin LfsOfTrace(w)) => Avoids(t, {l})
          /\ { ProjTrace(w, lfs \ {l}) : w \in L } \subseteq Lang(Elim(t, {l}), n)
          /\ \A w \in Lang(Elim(t, {l}), n) : l \notin LfsOfTrace(w)
          /\ ExactElim(t, n) =>
               { ProjTrace(w, {l}) : w \in L } = Lang(Elim(t, lfs \ {l}), n)

Inv == done => \/ Check(Cases[c].t, Cases[c].n)
               \/ PrintT(<<"BAD", Cases[c].id>>) /\ FALSE
=============================================================================
