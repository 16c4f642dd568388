----------------------------- MODULE MC_Mutation -----------------------------
(***************************************************************************)
(* What the commands may give (closed forms) is exactly what runs of the    *)
(* elementary steps reach, for all multi-traces of small size.  Runs are    *)
(* behaviours of this module: Command says which mutation is under way.     *)
(***************************************************************************)
EXTENDS HibouMutation

A1 == <<<<0, "!", 0>>>>   A2 == <<<<0, "?", 0>>>>   A3 == <<<<0, "!", 0>>, <<0, "?", 0>>>>
B1 == <<<<1, "?", 0>>>>
Traces(as, n) == UNION { [1..k -> as] : k \in 0..n }
MuSet == { <<>> } \cup { <<[l |-> <<0>>, t |-> s]>> : s \in Traces({A1, A2, A3}, 3) }
         \cup { <<[l |-> <<0>>, t |-> s], [l |-> <<1>>, t |-> u]>> : s \in Traces({A1, A2}, 2), u \in Traces({B1}, 1) }
         \cup { <<[l |-> <<>>, t |-> <<>>], [l |-> <<0, 1>>, t |-> u]>> : u \in Traces({A1, B1}, 1) }
Budgets == 0..3
NMS == 1

VARIABLES orig, mu, k, max, cmd, done
vars == <<orig, mu, k, max, cmd, done>>
Cmds == {"remove", "swap", "noise", "noise1", "noiseE", "noise1E"}
Init == orig \in MuSet /\ mu = orig /\ k = 0 /\ max \in Budgets /\ cmd \in Cmds /\ done = {}
Stays == UNCHANGED <<orig, max, cmd>>
Remove == cmd = "remove" /\ k < max /\ mu' \in RemoveStep(mu) /\ k' = k + 1 /\ done' = done /\ Stays
Swap == cmd = "swap" /\ k < SwapBudget(orig, max) /\ mu' \in SwapStep(mu) /\ k' = k + 1 /\ done' = done /\ Stays
OnePer == cmd \in {"noise1", "noise1E"}
AtEnd == cmd \in {"noiseE", "noise1E"}
IsNoise == cmd \in {"noise", "noise1", "noiseE", "noise1E"}
AddNoise == /\ IsNoise /\ k < NoiseBudget(orig, NMS, max, OnePer)
            /\ \E i \in Noisy(orig, NMS) \ (IF OnePer THEN done ELSE {}) :
                 mu' \in NoiseStep(mu, NMS, {i}, AtEnd) /\ done' = done \cup {i}
            /\ k' = k + 1 /\ Stays
Next == Remove \/ Swap \/ AddNoise
Spec == Init /\ [][Next]_vars

Budget == CASE cmd = "remove" -> IF orig = <<>> THEN 0 ELSE max
            [] cmd = "swap" -> SwapBudget(orig, max)
            [] OTHER -> NoiseBudget(orig, NMS, max, OnePer)
Over == k = Budget
(* every run ends, and ends within the closed form *)
Sound == Over => CASE cmd = "remove" -> Removed(orig, max, mu)
                   [] cmd = "swap" -> Swapped(orig, max, mu)
                   [] OTHER -> Noised(orig, NMS, max, OnePer, AtEnd, mu)
NeverStuck == Over \/ ENABLED Next

(* and everything within the closed form is reached, from a few starting points *)
RECURSIVE Reach(_, _, _)
Reach(S, Step(_), n) == IF n = 0 THEN S ELSE Reach(UNION { Step(m) : m \in S }, Step, n - 1)
Small == { m \in MuSet : \A i \in Comps(m) : Len(m[i].t) <= 2 }
Shaped(m, trs) == { nu \in [1..Len(m) -> [l : { m[i].l : i \in Comps(m) }, t : trs]] : SameShape(m, nu) }
AllTr == Traces({A1, A2, A3, B1}, 2)
NoisyTr == Traces({A3} \cup { <<<<l, x, 0>>>> : l \in {0, 1}, x \in {"!", "?"} }, 2)
ASSUME RemoveComplete == \A m \in Small : m # <<>> => \A b \in Budgets :
          { nu \in Shaped(m, AllTr) : Removed(m, b, nu) } = Reach({m}, RemoveStep, b)
ASSUME SwapComplete == \A m \in MuSet : m # <<>> => \A b \in 0..2 :
          { nu \in Shaped(m, UNION { IF Len(m[i].t) = 3 THEN [1..3 -> {A1, A2, A3}] ELSE AllTr : i \in Comps(m) }) : Swapped(m, b, nu) } = SwapReach({m}, SwapBudget(m, b))
ASSUME NoiseComplete == \A m \in { x \in MuSet : \A i \in Comps(x) : Len(x[i].t) <= 1 } : \A e \in BOOLEAN :
          { nu \in Shaped(m, NoisyTr) : Noised(m, NMS, 1, FALSE, e, nu) } = IF Noisy(m, NMS) = {} THEN {m} ELSE NoiseStep(m, NMS, Noisy(m, NMS), e)

(* slices: the closed form counts the choices of cuts *)
ASSUME SliceCounts == \A n \in 0..4 : /\ Cardinality(AllCuts("prefix", n)) = n + 1
                                      /\ Cardinality(AllCuts("suffix", n)) = n + 1
                                      /\ Cardinality(AllCuts("slice", n)) = ((n * (n + 1)) \div 2) + 1
ASSUME SlicesOfRandom == \A n \in 0..5, kind \in {"prefix", "suffix", "slice"} :
          LET tr == [i \in 1..n |-> <<<<0, "!", i>>>>] IN
          /\ { Cut(tr, c) : c \in RandomCuts(kind, n, FALSE) } = { Cut(tr, c) : c \in AllCuts(kind, n) }
          /\ { Cut(tr, c) : c \in RandomCuts(kind, n, TRUE) } = { s \in { Cut(tr, c) : c \in AllCuts(kind, n) } : 3 * Len(s) >= n }
(* the prefixes (suffixes) of a slice of a trace are slices, and every slice is the suffix of a prefix *)
ASSUME Composition == \A n \in 0..4 : LET tr == [i \in 1..n |-> <<<<0, "!", i>>>>] IN
          UNION { { Cut(Cut(tr, c), d) : d \in AllCuts("suffix", c[2]) } : c \in AllCuts("prefix", n) } = { Cut(tr, c) : c \in AllCuts("slice", n) }
(* exchanges *)
RECURSIVE ExReach(_, _, _)
ExReach(S, m2, n) == IF n = 0 THEN S ELSE ExReach(UNION { ExchangeStep(x[1], m2, x[2]) : x \in S }, m2, n - 1)
ThreeMu(a, b, c) == <<[l |-> <<0>>, t |-> a], [l |-> <<1>>, t |-> b], [l |-> <<2>>, t |-> c]>>
ASSUME ExchangeComplete == \A a, a2, b, b2 \in {<<>>, <<A1>>}, c \in {<<>>, <<B1>>}, mx \in 0..4 :
          LET m == ThreeMu(a, b, <<>>)  m2 == ThreeMu(a2, b2, c) IN
          { nu \in Shaped(m, {<<>>, <<A1>>, <<B1>>}) : Exchanged(m, m2, mx, nu) } = { x[1] : x \in ExReach({<<m, {}>>}, m2, ExchangeBudget(m, mx)) }
=============================================================================
