----------------------------- MODULE HibouRandom -----------------------------
(***************************************************************************)
(* The random generation of interactions (`rng_gen_interactions`).          *)
(*                                                                         *)
(* A request R: [n, tries, depth, min, dist, nl, nm].  The generation is a  *)
(* sequence of attempts.  An attempt draws an interaction (a term of depth  *)
(* at most R.depth, of the constructs of the distribution), simplifies it,   *)
(* and keeps it when it has at least R.min symbols and is new; it stops      *)
(* when R.n interactions are kept or R.tries attempts have failed.           *)
(* What is drawn is not visible; what is said about it, and what is kept is. *)
(***************************************************************************)
EXTENDS HibouTerms

RECURSIVE TermSize(_)
TermSize(t) == LET ch == Children(t) IN
               1 + (IF Len(ch) >= 1 THEN TermSize(ch[1]) ELSE 0) + (IF Len(ch) >= 2 THEN TermSize(ch[2]) ELSE 0)
RECURSIVE SubTerms(_)
SubTerms(t) == LET ch == Children(t) IN
               {t} \cup (IF Len(ch) >= 1 THEN SubTerms(ch[1]) ELSE {}) \cup (IF Len(ch) >= 2 THEN SubTerms(ch[2]) ELSE {})
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)

(* Operators interactions drawn from a distribution, once simplified, are made of. *)
Common == {"o", "em", "rc", "seq", "alt", "par", "lpW"}
Constructs(dist) == CASE dist = "conservative"         -> Common \cup {"strict"}
                      [] dist = "default"              -> Common \cup {"strict", "lpP"}
                      [] dist = "protocols_with_coreg" -> Common \cup {"cr"}
Distributions == {"conservative", "default", "protocols_with_coreg"}
OpOf(t) == IF t[1] = "lp" THEN "lp" \o t[2] ELSE t[1]

DistinctSeq(s) == Cardinality(RangeOf(s)) = Len(s)
LeafOk(t, R) ==
  CASE t[1] = "em" -> /\ t[2] \in 0..(R.nl - 1) /\ t[3] \in 0..(R.nm - 1) /\ t[4] = 0
                      /\ RangeOf(t[5]) \subseteq (0..(R.nl - 1)) \ {t[2]} /\ DistinctSeq(t[5])
                      /\ (R.dist # "protocols_with_coreg" => t[5] = <<>>)
    [] t[1] = "rc" -> /\ t[2] = 0 /\ t[3] \in 0..(R.nm - 1) /\ t[4] = 0
                      /\ Len(t[5]) = 1 /\ t[5][1] \in 0..(R.nl - 1)
    [] t[1] = "cr" -> t[2] # <<>> /\ RangeOf(t[2]) \subseteq 0..(R.nl - 1)
    [] OTHER -> TRUE
(* Nothing is wrong with keeping t; otherwise, what is. *)
Kept(t, R, memo) ==
  IF t \in memo THEN "not new"
  ELSE IF TermSize(t) < R.min THEN "too small"
  ELSE IF TermSize(t) > Pow2(R.depth + 1) - 1 THEN "too large"
  ELSE IF \E x \in SubTerms(t) : OpOf(x) \notin Constructs(R.dist) THEN "construct"
  ELSE IF \E x \in SubTerms(t) : ~LeafOk(x, R) THEN "content"
  ELSE ""

-----------------------------------------------------------------------------
(* The process.  State S: [ph, x, left, g, k, memo]; ph is the phase, x the   *)
(* number of interactions kept, left the remaining failures, g = size drawn,  *)
(* k = <<depth, size>> after simplification, memo the terms kept.             *)
Start(R) == [ph |-> "idle", x |-> 0, left |-> R.tries, g |-> 0, k |-> <<0, 0>>, memo |-> {}]
Can(S, R, e, files) ==
  CASE e[1] = "try"   -> S.ph = "idle" /\ S.x < R.n /\ e[2] = S.x
    [] e[1] = "gen"   -> S.ph = "trying" /\ e[2] <= R.depth /\ e[3] >= e[2] + 1 /\ e[3] <= Pow2(e[2] + 1) - 1
    [] e[1] = "canon" -> S.ph = "drawn" /\ e[3] <= S.g /\ e[3] >= e[2] + 1
    [] e[1] = "few"   -> S.ph = "simple" /\ S.k[2] < R.min
    [] e[1] = "wrote" -> /\ S.ph = "simple" /\ e[2] = S.x /\ S.x < Len(files)
                         /\ LET t == files[S.x + 1] IN TermDepth(t) = S.k[1] /\ TermSize(t) = S.k[2] /\ Kept(t, R, S.memo) = ""
    [] e[1] = "retry" -> \/ S.ph = "failed"
                         \/ S.ph = "simple" /\ S.k[2] >= R.min /\ \E t \in S.memo : TermDepth(t) = S.k[1] /\ TermSize(t) = S.k[2]
    [] e[1] = "exceeded" -> S.ph = "exhausted"
    [] OTHER -> FALSE
After(S, R, e, files) ==
  CASE e[1] = "try"   -> [S EXCEPT !.ph = "trying"]
    [] e[1] = "gen"   -> [S EXCEPT !.ph = "drawn", !.g = e[3]]
    [] e[1] = "canon" -> [S EXCEPT !.ph = "simple", !.k = <<e[2], e[3]>>]
    [] e[1] = "few"   -> [S EXCEPT !.ph = "failed"]
    [] e[1] = "wrote" -> [S EXCEPT !.ph = "idle", !.x = @ + 1, !.memo = @ \cup {files[S.x + 1]}]
    [] e[1] = "retry" -> LET l == IF S.left > 0 THEN S.left - 1 ELSE 0 IN [S EXCEPT !.left = l, !.ph = IF l = 0 THEN "exhausted" ELSE "idle"]
    [] e[1] = "exceeded" -> [S EXCEPT !.ph = "stopped"]
Over(S, R, files) == Len(files) = S.x /\ (S.ph = "stopped" \/ (S.ph = "idle" /\ S.x = R.n))

(* Distributions: probabilities in thousandths. *)
RECURSIVE SumP(_)
SumP(m) == IF m = <<>> THEN 0 ELSE m[1][2] + SumP(Tail(m))
IsDistribution(m) == (\A i \in 1..Len(m) : m[i][2] \in 0..1000) /\ SumP(m) = 1000
=============================================================================
