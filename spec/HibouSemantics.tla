--------------------------- MODULE HibouSemantics ---------------------------
(***************************************************************************)
(* Operational semantics of interactions: which multi-actions can be       *)
(* executed next and what remains after each of them.                      *)
(***************************************************************************)
EXTENDS HibouTerms

(* Does the term accept the empty behaviour? *)
RECURSIVE Eps(_)
Eps(t) ==
  CASE t[1] = "o" -> TRUE
    [] t[1] = "em" -> FALSE
    [] t[1] = "rc" -> Len(t[5]) = 0
    [] t[1] \in {"strict", "seq", "par"} -> Eps(t[2]) /\ Eps(t[3])
    [] t[1] = "alt" -> Eps(t[2]) \/ Eps(t[3])
    [] t[1] = "lp" -> TRUE
    [] OTHER -> Eps(t[3]) /\ Eps(t[4])

(* Can the term behave without any action on the lifelines L? *)
RECURSIVE Avoids(_, _)
Avoids(t, L) ==
  CASE t[1] = "o" -> TRUE
    [] t[1] \in {"em", "rc"} -> LifelinesOf(t) \cap L = {}
    [] t[1] \in {"strict", "seq", "par"} -> Avoids(t[2], L) /\ Avoids(t[3], L)
    [] t[1] = "alt" -> Avoids(t[2], L) \/ Avoids(t[3], L)
    [] t[1] = "lp" -> TRUE
    [] OTHER -> Avoids(t[3], L) /\ Avoids(t[4], L)

(* The behaviours of t (with Avoids(t, L)) that have no action on L. *)
RECURSIVE Prune(_, _)
Prune(t, L) ==
  CASE t[1] \in {"o", "em", "rc"} -> t
    [] t[1] \in {"strict", "seq", "par"} -> MkBin(t[1], Prune(t[2], L), Prune(t[3], L))
    [] t[1] = "alt" ->
         IF Avoids(t[2], L)
         THEN IF Avoids(t[3], L) THEN MkAlt(Prune(t[2], L), Prune(t[3], L)) ELSE Prune(t[2], L)
         ELSE Prune(t[3], L)
    [] t[1] = "lp" ->
         IF Avoids(t[3], L)
         THEN LET b == Prune(t[3], L) IN IF IsEmpty(b) THEN EmptyT ELSE <<"lp", t[2], b>>
         ELSE EmptyT
    [] t[1] = "cr" -> MkCoReg(t[2], Prune(t[3], L), Prune(t[4], L))
    [] t[1] = "sy" -> MkSync(t[2], Prune(t[3], L), Prune(t[4], L))

(* What remains of an asynchronous emission / reception. *)
AfterEmission(t) ==
  LET ts == LfTargetSeq(t[5]) IN
  IF Len(ts) = 0 THEN EmptyT ELSE <<"rc", 0, t[3], 0, ts>>
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
AfterReception(t, i) ==
  LET rs == RemoveAt(t[5], i) IN
  IF Len(rs) = 0 THEN EmptyT ELSE <<"rc", t[2], t[3], 0, rs>>

AfterLoop(kind, loop, body, L) ==
  IF IsEmpty(body) THEN loop ELSE
  CASE kind = "S" -> MkBin("strict", body, loop)
    [] kind = "H" -> MkBin("seq", body, loop)
    [] kind = "P" -> MkBin("par", body, loop)
    [] kind = "W" -> MkBin("seq", Prune(loop, L), MkBin("seq", body, loop))

(***************************************************************************)
(* Steps(t, d): the set of <<multi-action, loop depth, follow-up>> of a    *)
(* term occurring under d loops.  With Delayed, the branches of an         *)
(* alternative that start with the same multi-action stay together         *)
(* (determinisation); both variants denote the same behaviours.            *)
(* The loop depth of a step is the number of loops it enters.              *)
(***************************************************************************)
RECURSIVE StepsR(_, _, _)
StepsR(t, d, delayed) ==
  CASE t[1] = "o" -> {}
    [] t[1] = "em" ->
         IF t[4] = 1
         THEN { <<AtomsOf(t), d, EmptyT>> }
         ELSE { <<{EmAct(t[2], t[3])}, d, AfterEmission(t)>> }
    [] t[1] = "rc" ->
         IF Len(t[5]) = 0 THEN {}
         ELSE IF t[4] = 1
         THEN { <<AtomsOf(t), d, EmptyT>> }
         ELSE { <<{RcAct(t[5][i], t[3])}, d, AfterReception(t, i)>> : i \in 1..Len(t[5]) }
    [] t[1] = "strict" ->
         { <<s[1], s[2], MkBin("strict", s[3], t[3])>> : s \in StepsR(t[2], d, delayed) }
         \cup (IF Eps(t[2]) THEN StepsR(t[3], d, delayed) ELSE {})
    [] t[1] = "seq" ->
         { <<s[1], s[2], MkBin("seq", s[3], t[3])>> : s \in StepsR(t[2], d, delayed) }
         \cup { <<s[1], s[2], MkBin("seq", Prune(t[2], LfsOf(s[1])), s[3])>> :
                s \in { x \in StepsR(t[3], d, delayed) : Avoids(t[2], LfsOf(x[1])) } }
    [] t[1] = "cr" ->
         { <<s[1], s[2], MkCoReg(t[2], s[3], t[4])>> : s \in StepsR(t[3], d, delayed) }
         \cup { <<s[1], s[2], MkCoReg(t[2], Prune(t[3], LfsOf(s[1]) \ RangeOf(t[2])), s[3])>> :
                s \in { x \in StepsR(t[4], d, delayed) :
                        Avoids(t[3], LfsOf(x[1]) \ RangeOf(t[2])) } }
    [] t[1] = "par" ->
         { <<s[1], s[2], MkBin("par", s[3], t[3])>> : s \in StepsR(t[2], d, delayed) }
         \cup { <<s[1], s[2], MkBin("par", t[2], s[3])>> : s \in StepsR(t[3], d, delayed) }
    [] t[1] = "alt" ->
         LET L == StepsR(t[2], d, delayed)
             R == StepsR(t[3], d, delayed)
         IN IF delayed
            THEN { <<s[1][1], Max2(s[1][2], s[2][2]), MkAlt(s[1][3], s[2][3])>> :
                   s \in { p \in L \X R : p[1][1] = p[2][1] } }
                 \cup { s \in L : \A r \in R : r[1] # s[1] }
                 \cup { r \in R : \A s \in L : r[1] # s[1] }
            ELSE L \cup R
    [] t[1] = "lp" ->
         { <<s[1], s[2], AfterLoop(t[2], t, s[3], LfsOf(s[1]))>> : s \in StepsR(t[3], d + 1, delayed) }
    [] t[1] = "sy" ->
         LET A == RangeOf(t[2])
             L == StepsR(t[3], d, delayed)
             R == StepsR(t[4], d, delayed)
         IN { <<s[1], s[2], MkSync(t[2], s[3], t[4])>> : s \in { x \in L : x[1] \cap A = {} } }
            \cup { <<s[1], s[2], MkSync(t[2], t[3], s[3])>> : s \in { x \in R : x[1] \cap A = {} } }
            \cup { <<p[1][1] \cup p[2][1], Max2(p[1][2], p[2][2]), MkSync(t[2], p[1][3], p[2][3])>> :
                   p \in { q \in L \X R : /\ q[1][1] \cap A # {}
                                          /\ q[1][1] \cap A = q[2][1] \cap A } }

Steps(t)        == StepsR(t, 0, FALSE)
StepsDelayed(t) == StepsR(t, 0, TRUE)

(* Transition function lifted to sets of terms (subset construction). *)
LabelsOf(T)   == UNION { { s[1] : s \in Steps(t) } : t \in T }
After(T, ma)  == UNION { { s[3] : s \in { x \in Steps(t) : x[1] = ma } } : t \in T }
Accepts(T)    == \E t \in T : Eps(t)

-----------------------------------------------------------------------------
(***************************************************************************)
(* Removal of a set of lifelines: a homomorphism that erases the actions   *)
(* of the removed lifelines.  A head-first loop whose body loses actions   *)
(* becomes a weakly sequential loop: the removed actions no longer witness *)
(* the order in which the iterations started.                              *)
(***************************************************************************)
(* directly nested loops are one loop of the weaker kind, except head-first  *)
(* over head-first or strict loops (see UnnestLaw in MC_Semantics)           *)
WeakestLoop(k, l) == IF "P" \in {k, l} THEN "P" ELSE IF "W" \in {k, l} THEN "W" ELSE IF "H" \in {k, l} THEN "H" ELSE "S"
RECURSIVE Elim(_, _)
Elim(t, L) ==
  CASE t[1] = "o" -> t
    [] t[1] = "em" ->
         LET ts == SelectSeq(t[5], LAMBDA x : x < 0 \/ x \notin L)
             ls == SelectSeq(t[5], LAMBDA x : x >= 0 /\ x \notin L)
         IN IF t[2] \in L
            THEN IF Len(ls) = 0 THEN EmptyT ELSE <<"rc", 0, t[3], t[4], ls>>
            ELSE <<"em", t[2], t[3], t[4], ts>>
    [] t[1] = "rc" ->
         LET rs == SelectSeq(t[5], LAMBDA x : x \notin L)
         IN IF Len(rs) = 0 THEN EmptyT ELSE <<"rc", t[2], t[3], t[4], rs>>
    [] t[1] \in {"strict", "seq", "par"} -> MkBin(t[1], Elim(t[2], L), Elim(t[3], L))
    [] t[1] = "alt" -> MkAlt(Elim(t[2], L), Elim(t[3], L))
    [] t[1] = "lp" ->
         LET b == Elim(t[3], L)
             k == IF t[2] = "H" /\ LifelinesOf(t[3]) \cap L # {} THEN "W" ELSE t[2]
         IN IF IsEmpty(b) THEN EmptyT
            ELSE IF b[1] = "lp" /\ ~(k = "H" /\ b[2] \in {"H", "S"}) THEN <<"lp", WeakestLoop(k, b[2]), b[3]>> ELSE <<"lp", k, b>>
    [] t[1] = "cr" -> MkCoReg(t[2], Elim(t[3], L), Elim(t[4], L))
    [] t[1] = "sy" ->
         MkSync(SelectSeq(t[2], LAMBDA a : a[1] \notin L), Elim(t[3], L), Elim(t[4], L))

(* Projection of a multi-action / of a trace on a set of lifelines. *)
ProjAct(ma, L) == { a \in ma : a[1] \in L }
RECURSIVE ProjTrace(_, _)
ProjTrace(w, L) ==
  IF w = <<>> THEN <<>>
  ELSE LET h == ProjAct(Head(w), L) IN
       (IF h = {} THEN <<>> ELSE <<h>>) \o ProjTrace(Tail(w), L)
=============================================================================
