----------------------------- MODULE HibouTerms -----------------------------
(***************************************************************************)
(* Abstract syntax of the interaction language of hibou_label and the      *)
(* static notions every other module uses.                                 *)
(*                                                                         *)
(* Terms are tuples whose first component names the operator, exactly as   *)
(* the JSON arrays exchanged with the implementation:                      *)
(*   <<"o">>                                empty interaction              *)
(*   <<"em", lf, ms, sync, targets>>        emission; target >= 0 is a     *)
(*                                          lifeline, target < 0 a gate    *)
(*   <<"rc", gate, ms, sync, recipients>>   reception; gate is 0 (from the *)
(*                                          environment) or -(g+1)         *)
(*   <<"strict"|"seq"|"alt"|"par", l, r>>                                  *)
(*   <<"cr", lifelines, l, r>>              co-region                      *)
(*   <<"lp", "S"|"H"|"W"|"P", body>>        loops                          *)
(*   <<"sy", actions, l, r>>                synchronised product           *)
(* An observable (atomic) action is <<lf, "!"|"?", ms>>; what is executed  *)
(* in one step is a non-empty SET of atomic actions (a multi-action).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RangeOf(s) == { s[i] : i \in 1..Len(s) }
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
MaxOf(S)   == CHOOSE x \in S : \A y \in S : y <= x

EmptyT     == <<"o">>
IsEmpty(t) == t[1] = "o"
Binary     == {"strict", "seq", "alt", "par"}

LfTargets(ts) == { x \in RangeOf(ts) : x >= 0 }

(* Sequence of the lifeline targets, in order (duplicates kept).            *)
LfTargetSeq(ts) == SelectSeq(ts, LAMBDA x : x >= 0)

Lf(act)   == act[1]
LfsOf(ma) == { act[1] : act \in ma }

EmAct(lf, ms) == <<lf, "!", ms>>
RcAct(lf, ms) == <<lf, "?", ms>>

-----------------------------------------------------------------------------
(* All atomic actions a term may ever execute, and the lifelines involved.  *)
RECURSIVE AtomsOf(_)
AtomsOf(t) ==
  CASE t[1] = "o"  -> {}
    [] t[1] = "em" -> {EmAct(t[2], t[3])} \cup { RcAct(x, t[3]) : x \in LfTargets(t[5]) }
    [] t[1] = "rc" -> { RcAct(x, t[3]) : x \in RangeOf(t[5]) }
    [] t[1] \in Binary -> AtomsOf(t[2]) \cup AtomsOf(t[3])
    [] t[1] = "cr" -> AtomsOf(t[3]) \cup AtomsOf(t[4])
    [] t[1] = "sy" -> AtomsOf(t[3]) \cup AtomsOf(t[4])
    [] t[1] = "lp" -> AtomsOf(t[3])

LifelinesOf(t) == LfsOf(AtomsOf(t))

(* Atomic actions outside any loop. *)
RECURSIVE AtomsOutsideLoops(_)
AtomsOutsideLoops(t) ==
  CASE t[1] = "lp" -> {}
    [] t[1] \in {"o", "em", "rc"} -> AtomsOf(t)
    [] t[1] \in Binary -> AtomsOutsideLoops(t[2]) \cup AtomsOutsideLoops(t[3])
    [] OTHER -> AtomsOutsideLoops(t[3]) \cup AtomsOutsideLoops(t[4])

(* Number of atomic actions: occurrences, each communication counting its   *)
(* distinct atomic actions.                                                 *)
RECURSIVE NumAtoms(_)
NumAtoms(t) ==
  CASE t[1] \in {"o", "em", "rc"} -> Cardinality(AtomsOf(t))
    [] t[1] \in Binary -> NumAtoms(t[2]) + NumAtoms(t[3])
    [] t[1] = "lp" -> NumAtoms(t[3])
    [] OTHER -> NumAtoms(t[3]) + NumAtoms(t[4])

RECURSIVE NumAtomsOutsideLoops(_)
NumAtomsOutsideLoops(t) ==
  CASE t[1] = "lp" -> 0
    [] t[1] \in {"o", "em", "rc"} -> Cardinality(AtomsOf(t))
    [] t[1] \in Binary -> NumAtomsOutsideLoops(t[2]) + NumAtomsOutsideLoops(t[3])
    [] OTHER -> NumAtomsOutsideLoops(t[3]) + NumAtomsOutsideLoops(t[4])

RECURSIVE LoopNesting(_)
LoopNesting(t) ==
  CASE t[1] \in {"o", "em", "rc"} -> 0
    [] t[1] \in Binary -> Max2(LoopNesting(t[2]), LoopNesting(t[3]))
    [] t[1] = "lp" -> 1 + LoopNesting(t[3])
    [] OTHER -> Max2(LoopNesting(t[3]), LoopNesting(t[4]))

RECURSIVE LoopCount(_)
LoopCount(t) ==
  CASE t[1] \in {"o", "em", "rc"} -> 0
    [] t[1] \in Binary -> LoopCount(t[2]) + LoopCount(t[3])
    [] t[1] = "lp" -> 1 + LoopCount(t[3])
    [] OTHER -> LoopCount(t[3]) + LoopCount(t[4])

RECURSIVE TermDepth(_)
TermDepth(t) ==
  CASE t[1] \in {"o", "em", "rc"} -> 0
    [] t[1] \in Binary -> 1 + Max2(TermDepth(t[2]), TermDepth(t[3]))
    [] t[1] = "lp" -> 1 + TermDepth(t[3])
    [] OTHER -> 1 + Max2(TermDepth(t[3]), TermDepth(t[4]))

(* Number of symbols of one kind.  k is one of Empty, Action, Strict, Seq,  *)
(* Par, LoopS, LoopOther, CoReg, Alt, Sync.                                 *)
SymbolOf(t) ==
  CASE t[1] = "o" -> "Empty"
    [] t[1] \in {"em", "rc"} -> "Action"
    [] t[1] = "strict" -> "Strict"
    [] t[1] = "seq" -> "Seq"
    [] t[1] = "par" -> "Par"
    [] t[1] = "alt" -> "Alt"
    [] t[1] = "cr" -> "CoReg"
    [] t[1] = "sy" -> "Sync"
    [] t[1] = "lp" -> IF t[2] = "S" THEN "LoopS" ELSE "LoopOther"

Children(t) ==
  CASE t[1] \in {"o", "em", "rc"} -> <<>>
    [] t[1] \in Binary -> <<t[2], t[3]>>
    [] t[1] = "lp" -> <<t[3]>>
    [] OTHER -> <<t[3], t[4]>>

RECURSIVE CountSymbol(_, _)
CountSymbol(t, k) ==
  LET c == Children(t)
      self == IF SymbolOf(t) = k THEN 1 ELSE 0
  IN  self + (IF Len(c) >= 1 THEN CountSymbol(c[1], k) ELSE 0)
           + (IF Len(c) >= 2 THEN CountSymbol(c[2], k) ELSE 0)

RECURSIVE UsesOp(_, _)
UsesOp(t, ops) ==
  \/ t[1] \in ops
  \/ LET c == Children(t) IN \E i \in 1..Len(c) : UsesOp(c[i], ops)

RECURSIVE UsesLoop(_, _)
UsesLoop(t, kinds) ==
  \/ t[1] = "lp" /\ t[2] \in kinds
  \/ LET c == Children(t) IN \E i \in 1..Len(c) : UsesLoop(c[i], kinds)

(* Is there a synchronous communication (a multi-action of size > 1)? *)
RECURSIVE UsesMultiAct(_)
UsesMultiAct(t) ==
  \/ t[1] \in {"em", "rc"} /\ t[4] = 1 /\ Cardinality(AtomsOf(t)) > 1
  \/ LET c == Children(t) IN \E i \in 1..Len(c) : UsesMultiAct(c[i])

-----------------------------------------------------------------------------
(* Constructors that drop neutral empty operands.  They are semantically    *)
(* neutral and keep the reachable terms small; the static measures that     *)
(* simulation budgets depend on are not changed by them.                    *)
MkBin(op, l, r) ==
  IF IsEmpty(l) THEN r ELSE IF IsEmpty(r) THEN l ELSE <<op, l, r>>
MkCoReg(cr, l, r) ==
  IF IsEmpty(l) THEN r ELSE IF IsEmpty(r) THEN l ELSE <<"cr", cr, l, r>>
MkAlt(l, r) ==
  IF IsEmpty(l) /\ IsEmpty(r) THEN EmptyT ELSE <<"alt", l, r>>
MkSync(A, l, r) ==
  IF IsEmpty(l) /\ IsEmpty(r) THEN EmptyT ELSE <<"sy", A, l, r>>
=============================================================================
