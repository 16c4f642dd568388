------------------------------ MODULE MC_Analysis ------------------------------
(***************************************************************************)
(* Model-level theorems: what the verdicts of HibouAnalysis mean in terms  *)
(* of the behaviours of HibouDenotational.  Cases are problems without     *)
(* kind: {"id","t","colocs","mu"}; each is analysed in every kind.         *)
(***************************************************************************)
EXTENDS HibouAnalysis, HibouDenotational, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, k, verdict
vars == <<c, k, verdict>>

Kinds == {"accept", "prefix", "eliminate", "after", "slice"}
NoSim == [before |-> 0, reset |-> 0, mult |-> 0, act |-> <<"none", 0>>, loop |-> <<"none", 0>>]
Problem(x, kd) ==
  [ t |-> x.t, colocs |-> x.colocs, mu |-> x.mu, dmax |-> NoLimit, lmax |-> NoLimit,
    kind |-> IF kd \in {"after", "slice"} THEN "simulate" ELSE kd,
    sim |-> [NoSim EXCEPT !.before = IF kd = "slice" THEN 1 ELSE 0] ]

Init == c \in 1..Len(Cases) /\ k \in Kinds /\ verdict = ""
Next == /\ verdict = ""
        /\ k \in {"after", "slice"} => Cases[c].free = 1   \* (with loops the unbounded simulation does not end)
        /\ verdict' = VerdictOf(Problem(Cases[c], k))
        /\ UNCHANGED <<c, k>>
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
P == Problem(Cases[c], k)
Mu == [ i \in Colocs(P) |-> [ j \in 1..Len(P.mu[i]) |-> RangeOf(P.mu[i][j]) ] ]
Multi(w) == [ i \in Colocs(P) |-> ProjTrace(w, Coloc(P, i)) ]
PrefixOf(u, v) == Len(u) <= Len(v) /\ \A i \in 1..Len(u) : u[i] = v[i]
FactorOf(u, v) == \E i \in 0..(Len(v) - Len(u)) : \A j \in 1..Len(u) : u[j] = v[i + j]
Prefixes(L) == UNION { { SubSeq(w, 1, i) : i \in 0..Len(w) } : w \in L }

(* Loop-free terms: all the behaviours are known. *)
Free == Cases[c].free = 1
Bound == IF Free THEN NumAtoms(P.t) ELSE TotalLength(P)
Behaviours == Lang(P.t, Bound)
(* Terms without synchronised product never deadlock: the prefixes of the   *)
(* behaviours are the runs.                                                 *)
NoDead == ~UsesOp(P.t, {"sy"})

IsBehaviour == \E w \in Behaviours : Multi(w) = Mu
IsPrefix    == \E w \in Prefixes(Behaviours) : Multi(w) = Mu
ReadsOne    == \E w \in Prefixes(Behaviours) :
                 LET m == Multi(w) IN (\A i \in Colocs(P) : PrefixOf(m[i], Mu[i])) /\ (\E i \in Colocs(P) : m[i] = Mu[i])
IsMultiPrefix == \E w \in Behaviours : LET m == Multi(w) IN \A i \in Colocs(P) : PrefixOf(Mu[i], m[i])
IsMultiSlice  == \E w \in Behaviours : LET m == Multi(w) IN \A i \in Colocs(P) : FactorOf(Mu[i], m[i])

Good == verdict \in {"Pass", "WeakPass"}
AcceptMeans == k = "accept" => verdict = (IF IsBehaviour THEN "Pass" ELSE "Fail")
PrefixMeans ==
  k = "prefix" =>
    /\ verdict = "Pass" <=> IsBehaviour
    /\ (Free /\ NoDead) =>
         verdict = (IF IsBehaviour THEN "Pass" ELSE IF IsPrefix THEN "WeakPass"
                    ELSE IF ReadsOne THEN "Inconc LackObs" ELSE "Fail")
EliminateMeans ==
  k = "eliminate" =>
    /\ verdict = "Pass" => IsBehaviour
    /\ IsBehaviour => verdict # "Fail"
    /\ (Free /\ IsMultiPrefix /\ Singletons(P)) => Good
    /\ (Free /\ IsMultiPrefix) => verdict # "Fail"
    /\ (Free /\ NoDead /\ Singletons(P)) => (Good <=> IsMultiPrefix)
SimulateMeans ==
  k \in {"after", "slice"} =>
    /\ verdict = "Pass" <=> IsBehaviour
    /\ verdict \in {"Pass", "WeakPass", "WeakFail"}
    /\ (k = "after" /\ NoDead) => (Good <=> IsMultiPrefix)
    /\ (k = "slice" /\ NoDead) => (Good <=> IsMultiSlice)

Meaning == AcceptMeans /\ PrefixMeans /\ EliminateMeans /\ SimulateMeans
Inv == verdict # "" => Meaning \/ (PrintT(<<"BAD", Cases[c].id, k, verdict>>) /\ FALSE)
=============================================================================
