---------------------------- MODULE HibouMutation ----------------------------
(***************************************************************************)
(* Slicing and mutating multi-traces.                                       *)
(*                                                                          *)
(* A multi-trace is a sequence of components [l |-> its lifelines (a        *)
(* sequence without repetition), t |-> its local trace], a local trace a    *)
(* sequence of multi-actions, a multi-action a set of actions               *)
(* <<lifeline, "!" or "?", message>> written as a sorted sequence.          *)
(*                                                                          *)
(* Slicing chooses one cut <<i, j>> per component and keeps what lies       *)
(* between.  Mutating is a sequence of random elementary steps under a      *)
(* budget: the transition relations RemoveStep, SwapStep, NoiseStep and     *)
(* ExchangeStep; what a whole command may give is Removed, Swapped, Noised  *)
(* and Exchanged.  MC_Mutation proves the latter, on small instances, to    *)
(* be exactly what runs of the former reach.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RangeSeq(s) == { s[i] : i \in 1..Len(s) }
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})
RECURSIVE ProductOf(_)
ProductOf(s) == IF s = <<>> THEN 1 ELSE s[1] * ProductOf(Tail(s))

Cut(tr, c) == SubSeq(tr, c[1] + 1, c[2])
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsertAt(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))      \* after the i-th
Exchanged2(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
IsPrefixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
RECURSIVE IsSubsequence(_, _)
IsSubsequence(s, t) ==
  IF s = <<>> THEN TRUE
  ELSE IF Len(t) < Len(s) THEN FALSE
  ELSE IF s[1] = t[1] THEN IsSubsequence(Tail(s), Tail(t))
  ELSE IsSubsequence(s, Tail(t))

SameShape(mu, nu) == Len(mu) = Len(nu) /\ \A i \in 1..Len(mu) : mu[i].l = nu[i].l
Comps(mu) == 1..Len(mu)
With(mu, i, tr) == [mu EXCEPT ![i].t = tr]

-----------------------------------------------------------------------------
(* Slicing.  Cutting nothing out of the middle is one way to slice: the     *)
(* empty slice counts once.  A wide cut keeps at least a third.             *)
AllCuts(kind, n) ==
  CASE kind = "prefix" -> { <<0, j>> : j \in 0..n }
    [] kind = "suffix" -> { <<i, n>> : i \in 0..n }
    [] kind = "slice"  -> { c \in (0..n) \X (0..n) : c[1] < c[2] } \cup {<<0, 0>>}
(* a random cut may fall anywhere, also around nothing *)
RandomCuts(kind, n, wide) ==
  { c \in (0..n) \X (0..n) : /\ c[1] <= c[2]
                             /\ kind = "prefix" => c[1] = 0
                             /\ kind = "suffix" => c[2] = n
                             /\ wide => 3 * (c[2] - c[1]) >= n }
Ways(cuts, tr, part) == Cardinality({ c \in cuts : Cut(tr, c) = part })
WaysOf(mu, nu, CutsOf(_)) == ProductOf([i \in Comps(mu) |-> Ways(CutsOf(Len(mu[i].t)), mu[i].t, nu[i].t)])
NumSlices(mu, kind) == ProductOf([i \in Comps(mu) |-> Cardinality(AllCuts(kind, Len(mu[i].t)))])

Occurrences(x, s) == Cardinality({ i \in 1..Len(s) : s[i] = x })

(* the files (contents) an exhaustive slicing writes: every choice of cuts once *)
IsAllSlices(mu, kind, files) ==
  /\ Len(files) = NumSlices(mu, kind)
  /\ \A nu \in RangeSeq(files) : SameShape(mu, nu) /\ Occurrences(nu, files) = WaysOf(mu, nu, LAMBDA n : AllCuts(kind, n))
(* n attempts at random, repeated choices of cuts being written once        *)
IsRandomSlices(mu, kind, n, wide, files) ==
  /\ Len(files) <= n
  /\ n > 0 => files # <<>>
  /\ \A nu \in RangeSeq(files) : SameShape(mu, nu) /\ Occurrences(nu, files) <= WaysOf(mu, nu, LAMBDA k : RandomCuts(kind, k, wide))

-----------------------------------------------------------------------------
(* Removing actions: each step picks a component and removes one of its     *)
(* actions, if it has any.                                                  *)
RemoveStep(mu) == UNION { IF mu[i].t = <<>> THEN {mu} ELSE { With(mu, i, RemoveAt(mu[i].t, k)) : k \in 1..Len(mu[i].t) } : i \in Comps(mu) }
Removed(mu, max, nu) ==
  /\ SameShape(mu, nu)
  /\ \A i \in Comps(mu) : IsSubsequence(nu[i].t, mu[i].t)
  /\ LET d == SumOver([i \in Comps(mu) |-> Len(mu[i].t) - Len(nu[i].t)], Comps(mu)) IN
     /\ d <= max
     /\ d < max => Len(mu) = 0 \/ \E i \in Comps(nu) : nu[i].t = <<>>

(* Swapping actions: each step exchanges two positions of a component; the  *)
(* budget is bounded by what orders a component needs, len - 1 each.        *)
SwapStep(mu) ==
  UNION { UNION { { With(mu, i, Exchanged2(mu[i].t, a, b)) : b \in (a + 1)..Len(mu[i].t) } : a \in 1..Len(mu[i].t) } : i \in Comps(mu) }
SwapBudget(mu, max) == Min2(max, SumOver([i \in Comps(mu) |-> IF mu[i].t = <<>> THEN 0 ELSE Len(mu[i].t) - 1], Comps(mu)))
RECURSIVE SwapReach(_, _)
SwapReach(S, k) == IF k = 0 THEN S ELSE SwapReach(UNION { SwapStep(mu) : mu \in S }, k - 1)
IsRearranged(s, t) == Len(s) = Len(t) /\ \A x \in RangeSeq(s) \cup RangeSeq(t) : Occurrences(x, s) = Occurrences(x, t)
Distinct(s) == Cardinality(RangeSeq(s)) = Len(s)
(* cycles of the permutation between two orders of the same distinct actions *)
RECURSIVE Cycle(_, _, _)
Cycle(s, t, C) == LET D == C \cup { i \in 1..Len(s) : \E j \in C : s[j] = t[i] } IN IF D = C THEN C ELSE Cycle(s, t, D)
Distance(s, t) == Len(s) - Cardinality({ Cycle(s, t, {i}) : i \in 1..Len(s) })
Swapped(mu, max, nu) ==
  LET K == SwapBudget(mu, max) IN
  /\ SameShape(mu, nu)
  /\ \A i \in Comps(mu) : IsRearranged(mu[i].t, nu[i].t)
  /\ IF \A i \in Comps(mu) : Distinct(mu[i].t)
     THEN LET d == SumOver([i \in Comps(mu) |-> Distance(mu[i].t, nu[i].t)], Comps(mu)) IN d <= K /\ (K - d) % 2 = 0
     ELSE /\ SumOver([i \in Comps(mu) |-> Cardinality({ p \in 1..Len(mu[i].t) : mu[i].t[p] # nu[i].t[p] })], Comps(mu)) <= 2 * K
          /\ (K <= 1 \/ (K = 2 /\ \A i \in Comps(mu) : Len(mu[i].t) <= 6)) => nu \in SwapReach({mu}, K)

(* Noise: an action of one of the lifelines of a component, with a message  *)
(* of the signature (nms messages), inserted somewhere (or at the end).     *)
Noise(comp, nms) == { <<<<l, k, m>>>> : l \in RangeSeq(comp.l), k \in {"!", "?"}, m \in 0..(nms - 1) }
Noisy(mu, nms) == { i \in Comps(mu) : Noise(mu[i], nms) # {} }
NoiseStep(mu, nms, allowed, atEnd) ==
  UNION { UNION { { With(mu, i, InsertAt(mu[i].t, p, x)) : x \in Noise(mu[i], nms) }
                  : p \in (IF atEnd THEN {Len(mu[i].t)} ELSE 0..Len(mu[i].t)) } : i \in allowed }
NoiseBudget(mu, nms, max, onePer) ==
  LET e == Cardinality(Noisy(mu, nms)) IN IF e = 0 THEN 0 ELSE IF onePer THEN Min2(max, e) ELSE max
(* t is s with elements of X inserted (at the end); matching as early as    *)
(* possible loses nothing                                                   *)
RECURSIVE WithInserted(_, _, _, _)
WithInserted(s, t, X, atEnd) ==
  IF t = <<>> THEN s = <<>>
  ELSE IF s # <<>> /\ s[1] = t[1] THEN WithInserted(Tail(s), Tail(t), X, atEnd)
  ELSE (atEnd => s = <<>>) /\ t[1] \in X /\ WithInserted(s, Tail(t), X, atEnd)
Noised(mu, nms, max, onePer, atEnd, nu) ==
  LET K == NoiseBudget(mu, nms, max, onePer) IN
  /\ SameShape(mu, nu)
  /\ \A i \in Comps(mu) : /\ WithInserted(mu[i].t, nu[i].t, Noise(mu[i], nms), atEnd)
                          /\ onePer => Len(nu[i].t) <= Len(mu[i].t) + 1
  /\ SumOver([i \in Comps(mu) |-> Len(nu[i].t) - Len(mu[i].t)], Comps(mu)) = K

(* Exchanging components with another multi-trace over the same lifelines:  *)
(* different components each time, never all of them.                       *)
ExchangeStep(mu, mu2, done) == { <<With(mu, i, mu2[i].t), done \cup {i}>> : i \in Comps(mu) \ done }
ExchangeBudget(mu, max) == IF mu = <<>> THEN 0 ELSE Min2(max, Len(mu) - 1)
Exchanged(mu, mu2, max, nu) ==
  LET K == ExchangeBudget(mu, max)
      differ == { i \in Comps(mu) : mu[i].t # mu2[i].t }
  IN /\ SameShape(mu, nu)
     /\ \A i \in Comps(mu) : nu[i].t \in {mu[i].t, mu2[i].t}
     /\ LET d == Cardinality({ i \in Comps(mu) : nu[i].t # mu[i].t })
        IN d <= K /\ d >= K - (Len(mu) - Cardinality(differ))
=============================================================================
