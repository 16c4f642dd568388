-------------------------- MODULE HibouDenotational --------------------------
(***************************************************************************)
(* Denotational semantics, bounded: Lang(t, n) is the set of behaviours of *)
(* t of length at most n, defined by operations on sets of traces and      *)
(* independently of the operational rules.                                 *)
(***************************************************************************)
EXTENDS HibouTerms

LfsOfTrace(w) == UNION { LfsOf(w[i]) : i \in 1..Len(w) }

RECURSIVE Shuffle(_, _)
Shuffle(u, v) ==
  IF u = <<>> THEN {v} ELSE IF v = <<>> THEN {u}
  ELSE { <<Head(u)>> \o w : w \in Shuffle(Tail(u), v) }
       \cup { <<Head(v)>> \o w : w \in Shuffle(u, Tail(v)) }

(* Interleavings in which an action of v never overtakes an action of u on  *)
(* a common lifeline, the lifelines of C being exempt.                      *)
RECURSIVE Weak(_, _, _)
Weak(u, v, C) ==
  IF u = <<>> THEN {v} ELSE IF v = <<>> THEN {u}
  ELSE { <<Head(u)>> \o w : w \in Weak(Tail(u), v, C) }
       \cup (IF ((LfsOf(Head(v)) \cap LfsOfTrace(u)) \ C) = {}
             THEN { <<Head(v)>> \o w : w \in Weak(u, Tail(v), C) } ELSE {})

(* Weak sequencing in which the first action is taken from u. *)
HeadFirst(u, v) ==
  IF u = <<>> THEN {v} ELSE { <<Head(u)>> \o w : w \in Weak(Tail(u), v, {}) }

RECURSIVE SyncProd(_, _, _)
SyncProd(u, v, A) ==
  (IF u = <<>> /\ v = <<>> THEN {<<>>} ELSE {})
  \cup (IF u # <<>> /\ Head(u) \cap A = {}
        THEN { <<Head(u)>> \o w : w \in SyncProd(Tail(u), v, A) } ELSE {})
  \cup (IF v # <<>> /\ Head(v) \cap A = {}
        THEN { <<Head(v)>> \o w : w \in SyncProd(u, Tail(v), A) } ELSE {})
  \cup (IF u # <<>> /\ v # <<>> /\ Head(u) \cap A # {} /\ Head(u) \cap A = Head(v) \cap A
        THEN { <<Head(u) \cup Head(v)>> \o w : w \in SyncProd(Tail(u), Tail(v), A) } ELSE {})

Perms(s) ==  \* all orders of the elements of the sequence s
  { [i \in 1..Len(s) |-> s[p[i]]] : p \in { f \in [1..Len(s) -> 1..Len(s)] :
        \A i, j \in 1..Len(s) : i # j => f[i] # f[j] } }

RcTraces(ms, rs) == { [i \in 1..Len(p) |-> {RcAct(p[i], ms)}] : p \in Perms(rs) }

Cut(S, n) == { w \in S : Len(w) <= n }
Lift(op(_, _), S, T, n) == Cut(UNION { op(p[1], p[2]) : p \in S \X T }, n)

RECURSIVE Iterate(_, _, _, _)
Iterate(op(_, _), base, acc, n) ==
  LET next == acc \cup Lift(op, base, acc, n)
  IN  IF next = acc THEN acc ELSE Iterate(op, base, next, n)

RECURSIVE Lang(_, _)
Lang(t, n) ==
  CASE t[1] = "o" -> {<<>>}
    [] t[1] = "em" ->
         IF t[4] = 1 THEN Cut({ <<AtomsOf(t)>> }, n)
         ELSE Cut({ <<{EmAct(t[2], t[3])}>> \o w : w \in RcTraces(t[3], LfTargetSeq(t[5])) }, n)
    [] t[1] = "rc" ->
         IF t[5] = <<>> THEN {<<>>}
         ELSE IF t[4] = 1 THEN Cut({ <<AtomsOf(t)>> }, n)
         ELSE Cut(RcTraces(t[3], t[5]), n)
    [] t[1] = "strict" -> Lift(LAMBDA u, v : {u \o v}, Lang(t[2], n), Lang(t[3], n), n)
    [] t[1] = "seq"    -> Lift(LAMBDA u, v : Weak(u, v, {}), Lang(t[2], n), Lang(t[3], n), n)
    [] t[1] = "cr"     -> Lift(LAMBDA u, v : Weak(u, v, RangeOf(t[2])), Lang(t[3], n), Lang(t[4], n), n)
    [] t[1] = "par"    -> Lift(Shuffle, Lang(t[2], n), Lang(t[3], n), n)
    [] t[1] = "alt"    -> Lang(t[2], n) \cup Lang(t[3], n)
    [] t[1] = "sy"     -> Lift(LAMBDA u, v : SyncProd(u, v, RangeOf(t[2])), Lang(t[3], n), Lang(t[4], n), n)
    [] t[1] = "lp" ->
         LET base == { w \in Lang(t[3], n) : w # <<>> }
         IN CASE t[2] = "S" -> Iterate(LAMBDA u, v : {u \o v}, base, {<<>>}, n)
              [] t[2] = "H" -> Iterate(HeadFirst, base, {<<>>}, n)
              [] t[2] = "W" -> Iterate(LAMBDA u, v : Weak(u, v, {}), base, {<<>>}, n)
              [] t[2] = "P" -> Iterate(Shuffle, base, {<<>>}, n)
=============================================================================
