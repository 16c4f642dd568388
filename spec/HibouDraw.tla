------------------------------- MODULE HibouDraw -------------------------------
(***************************************************************************)
(* What is written for graphviz: the drawing of a term, and the graph of a *)
(* search.                                                                 *)
(*                                                                         *)
(* A term is drawn as its syntax tree.  The node of the subterm at the     *)
(* path w (of 1: left or only operand, 2: right operand) is labelled with  *)
(* its operator or action; an edge leads from each operator to each of its *)
(* operands.                                                               *)
(*                                                                         *)
(* In the graph of an exploration node i is drawn with its term; a step    *)
(* from i is named after the position, in this term, of what is executed:  *)
(*   <<"e">>        here                                                   *)
(*   <<"s", k>>     here, the k-th reception of a broadcast                *)
(*   <<"1", p>>     at p in the left (or only) operand, <<"2", p>> right   *)
(*   <<"b", p, q>>  at p on the left and at q on the right, at once        *)
(***************************************************************************)
EXTENDS HibouSemantics

RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o "," \o Join(Tail(s))

(* N: the names of lifelines, messages, gates *)
Name(N, x) == IF x < 0 THEN N.gt[0 - x] ELSE N.lf[x + 1]
Names(N, s) == [i \in 1..Len(s) |-> Name(N, s[i])]
ActText(N, a) == N.lf[a[1] + 1] \o a[2] \o N.ms[a[3] + 1]

TreeLabel(N, t) ==
  CASE t[1] = "o" -> "o"
    [] t[1] = "em" -> N.lf[t[2] + 1] \o (IF t[4] = 1 THEN "|!|" ELSE "!") \o N.ms[t[3] + 1]
                      \o (IF t[5] = <<>> THEN "" ELSE "(" \o Join(Names(N, t[5])) \o ")")
    [] t[1] = "rc" -> (IF Len(t[5]) = 1 THEN Name(N, t[5][1]) ELSE "(" \o Join(Names(N, t[5])) \o ")")
                      \o (IF t[4] = 1 THEN "|?|" ELSE "?")
                      \o (IF t[2] < 0 THEN "[" \o Name(N, t[2]) \o "]" ELSE "") \o N.ms[t[3] + 1]
    [] t[1] = "lp" -> "loop" \o t[2]
    [] t[1] = "cr" -> "coreg(" \o Join(Names(N, t[2])) \o ")"
    [] t[1] = "sy" -> "sync{" \o Join([i \in 1..Len(t[2]) |-> ActText(N, t[2][i])]) \o "}"
    [] OTHER -> t[1]

Operands(t) ==
  CASE t[1] \in {"o", "em", "rc"} -> <<>>
    [] t[1] = "lp" -> <<t[3]>>
    [] t[1] \in {"cr", "sy"} -> <<t[3], t[4]>>
    [] OTHER -> <<t[2], t[3]>>

RECURSIVE TreeNodes(_, _, _), TreeEdges(_, _)
Digit(i) == IF i = 1 THEN "1" ELSE "2"
TreeNodes(N, t, w) ==
  {<<w, TreeLabel(N, t)>>} \cup UNION { TreeNodes(N, Operands(t)[i], w \o Digit(i)) : i \in 1..Len(Operands(t)) }
TreeEdges(t, w) ==
  UNION { {<<w, w \o Digit(i)>>} \cup TreeEdges(Operands(t)[i], w \o Digit(i)) : i \in 1..Len(Operands(t)) }

(* Two terms are the same but for the order in which sets are listed. *)
RECURSIVE SameTerm(_, _)
SameTerm(s, t) ==
  /\ s[1] = t[1]
  /\ CASE s[1] \in {"o", "em", "rc"} -> s = t
       [] s[1] = "lp" -> s[2] = t[2]
       [] s[1] \in {"cr", "sy"} -> RangeOf(s[2]) = RangeOf(t[2])
       [] OTHER -> TRUE
  /\ \A i \in 1..Len(Operands(s)) : SameTerm(Operands(s)[i], Operands(t)[i])

(* The actions executed at a position. *)
RECURSIVE ActsAt(_, _)
ActsAt(t, p) ==
  CASE t[1] = "em" -> IF t[4] = 1 THEN AtomsOf(t) ELSE {EmAct(t[2], t[3])}
    [] t[1] = "rc" -> IF p[1] = "s" THEN {RcAct(t[5][p[2] + 1], t[3])} ELSE AtomsOf(t)
    [] p[1] = "1" -> ActsAt(Operands(t)[1], p[2])
    [] p[1] = "2" -> ActsAt(Operands(t)[2], p[2])
    [] OTHER -> ActsAt(Operands(t)[1], p[2]) \cup ActsAt(Operands(t)[2], p[3])

(* The positions at which a term can be executed.  Branches of an          *)
(* alternative that begin alike are executed together.                     *)
RECURSIVE Positions(_)
Positions(t) ==
  CASE t[1] = "o" -> {}
    [] t[1] = "em" -> {<<"e">>}
    [] t[1] = "rc" -> IF t[4] = 1 THEN {<<"e">>} ELSE { <<"s", i - 1>> : i \in 1..Len(t[5]) }
    [] t[1] = "lp" -> { <<"1", p>> : p \in Positions(t[3]) }
    [] OTHER ->
       LET l == Operands(t)[1]
           r == Operands(t)[2]
           L == Positions(l)
           R == Positions(r)
       IN CASE t[1] = "strict" -> { <<"1", p>> : p \in L } \cup (IF Eps(l) THEN { <<"2", q>> : q \in R } ELSE {})
            [] t[1] = "seq" -> { <<"1", p>> : p \in L } \cup { <<"2", q>> : q \in { x \in R : Avoids(l, LfsOf(ActsAt(r, x))) } }
            [] t[1] = "cr" -> { <<"1", p>> : p \in L }
                              \cup { <<"2", q>> : q \in { x \in R : Avoids(l, LfsOf(ActsAt(r, x)) \ RangeOf(t[2])) } }
            [] t[1] = "par" -> { <<"1", p>> : p \in L } \cup { <<"2", q>> : q \in R }
            [] t[1] = "alt" ->
                 { <<"b", x[1], x[2]>> : x \in { y \in L \X R : ActsAt(l, y[1]) = ActsAt(r, y[2]) } }
                 \cup { <<"1", p>> : p \in { y \in L : \A q \in R : ActsAt(l, y) # ActsAt(r, q) } }
                 \cup { <<"2", q>> : q \in { y \in R : \A p \in L : ActsAt(l, p) # ActsAt(r, y) } }
            [] t[1] = "sy" ->
                 LET A == RangeOf(t[2]) IN
                 { <<"1", p>> : p \in { x \in L : ActsAt(l, x) \cap A = {} } }
                 \cup { <<"2", q>> : q \in { x \in R : ActsAt(r, x) \cap A = {} } }
                 \cup { <<"b", x[1], x[2]>> : x \in { y \in L \X R : /\ ActsAt(l, y[1]) \cap A # {}
                                                                    /\ ActsAt(l, y[1]) \cap A = ActsAt(r, y[2]) \cap A } }

(* What executing a position leaves. *)
RECURSIVE Follow(_, _)
Follow(t, p) ==
  CASE t[1] = "em" -> IF t[4] = 1 THEN EmptyT ELSE AfterEmission(t)
    [] t[1] = "rc" -> IF t[4] = 1 THEN EmptyT ELSE AfterReception(t, p[2] + 1)
    [] t[1] = "lp" -> AfterLoop(t[2], t, Follow(t[3], p[2]), LfsOf(ActsAt(t, p)))
    [] t[1] = "strict" -> IF p[1] = "1" THEN MkBin("strict", Follow(t[2], p[2]), t[3]) ELSE Follow(t[3], p[2])
    [] t[1] = "seq" -> IF p[1] = "1" THEN MkBin("seq", Follow(t[2], p[2]), t[3])
                       ELSE MkBin("seq", Prune(t[2], LfsOf(ActsAt(t, p))), Follow(t[3], p[2]))
    [] t[1] = "cr" -> IF p[1] = "1" THEN MkCoReg(t[2], Follow(t[3], p[2]), t[4])
                      ELSE MkCoReg(t[2], Prune(t[3], LfsOf(ActsAt(t, p)) \ RangeOf(t[2])), Follow(t[4], p[2]))
    [] t[1] = "par" -> IF p[1] = "1" THEN MkBin("par", Follow(t[2], p[2]), t[3]) ELSE MkBin("par", t[2], Follow(t[3], p[2]))
    [] t[1] = "alt" -> IF p[1] = "1" THEN Follow(t[2], p[2]) ELSE IF p[1] = "2" THEN Follow(t[3], p[2])
                       ELSE MkAlt(Follow(t[2], p[2]), Follow(t[3], p[3]))
    [] t[1] = "sy" -> IF p[1] = "1" THEN MkSync(t[2], Follow(t[3], p[2]), t[4])
                      ELSE IF p[1] = "2" THEN MkSync(t[2], t[3], Follow(t[4], p[2]))
                      ELSE MkSync(t[2], Follow(t[3], p[2]), Follow(t[4], p[3]))

(* The behaviours of a set of terms, to a depth. *)
RECURSIVE Beh(_, _)
Beh(T, d) == <<Accepts(T), IF d = 0 THEN {} ELSE { <<ma, Beh(After(T, ma), d - 1)>> : ma \in LabelsOf(T) }>>

(* The words they accept, up to a length, as a tree. *)
RECURSIVE Acc(_, _)
Acc(T, d) == <<Accepts(T), IF d = 0 THEN {} ELSE { x \in { <<ma, Acc(After(T, ma), d - 1)>> : ma \in LabelsOf(T) } : x[2] # <<FALSE, {}>> }>>
=============================================================================
