------------------------------ MODULE HibouPuml ------------------------------
(***************************************************************************)
(* What the PlantUML texts written by hibou_label mean.                    *)
(*                                                                         *)
(* A sequence diagram is a sequence of lines; it denotes a nesting of      *)
(* fragments.  Items of a diagram:                                         *)
(*   <<"msg", from, to, m>>   from: lifeline, or -1 (from the border);      *)
(*                            to: lifeline, -1 (lost), -2 (right border)    *)
(*   <<"frag", kind, parts>>  parts: the operands, each a sequence of items *)
(* Lines: <<"msg",...>>, <<"open", kind>>, <<"else">>, <<"end">>.           *)
(*                                                                         *)
(* A state diagram has one composite state per lifeline, read here as a    *)
(* net: see the second part.                                               *)
(***************************************************************************)
EXTENDS HibouTerms

AssocKinds == {"strict", "par", "alt"}

(* Fragments directly nested in a fragment of the same associative kind are  *)
(* the operands of that fragment.                                            *)
RECURSIVE Splice(_, _)
Splice(kind, parts) ==
  IF parts = <<>> THEN <<>>
  ELSE (IF Len(parts[1]) = 1 /\ parts[1][1][1] = "frag" /\ parts[1][1][2] = kind /\ kind \in AssocKinds
        THEN parts[1][1][3] ELSE <<parts[1]>>) \o Splice(kind, Tail(parts))
Frag(kind, parts) == <<"frag", kind, Splice(kind, parts)>>

RECURSIVE Items(_)
Items(t) ==
  CASE t[1] = "o"   -> <<>>
    [] t[1] = "em"  -> << <<"msg", t[2], IF t[5] = <<>> THEN -1 ELSE IF t[5][1] < 0 THEN -2 ELSE t[5][1], t[3]>> >>
    [] t[1] = "rc"  -> << <<"msg", -1, t[5][1], t[3]>> >>
    [] t[1] = "seq" -> Items(t[2]) \o Items(t[3])
    [] t[1] \in AssocKinds -> << Frag(t[1], <<Items(t[2]), Items(t[3])>>) >>
    [] t[1] = "lp"  -> << <<"frag", "loop" \o t[2], <<Items(t[3])>> >> >>

(* Reading: a stack of open fragments [kind, parts so far, current operand]. *)
Frame(kind) == [kind |-> kind, parts |-> <<>>, cur |-> <<>>]
Push(s, item) == [s EXCEPT ![Len(s)].cur = Append(@, item)]
CanRead(s, l) == CASE l[1] = "msg" \/ l[1] = "open" -> TRUE
                   [] l[1] = "else" -> Len(s) > 1 /\ s[Len(s)].kind \in AssocKinds
                   [] l[1] = "end"  -> Len(s) > 1
                   [] OTHER -> FALSE
Read(s, l) ==
  LET top == s[Len(s)] IN
  CASE l[1] = "msg"  -> Push(s, l)
    [] l[1] = "open" -> Append(s, Frame(l[2]))
    [] l[1] = "else" -> [s EXCEPT ![Len(s)].parts = Append(@, top.cur), ![Len(s)].cur = <<>>]
    [] l[1] = "end"  -> Push(SubSeq(s, 1, Len(s) - 1), Frag(top.kind, Append(top.parts, top.cur)))

-----------------------------------------------------------------------------
(* State diagrams.  The words lifeline l may see in behaviours of t, up to n  *)
(* letters <<"!"|"?", message>>: projection on one lifeline makes strict and  *)
(* weak sequencing (and the loops repeating them) coincide.                   *)
RECURSIVE ShuffleW(_, _)
ShuffleW(u, v) == IF u = <<>> THEN {v} ELSE IF v = <<>> THEN {u}
                  ELSE { <<u[1]>> \o w : w \in ShuffleW(Tail(u), v) } \cup { <<v[1]>> \o w : w \in ShuffleW(u, Tail(v)) }
CatL(A, B, n) == { u \o v : <<u, v>> \in { p \in A \X B : Len(p[1]) + Len(p[2]) <= n } }
ShufL(A, B, n) == UNION { ShuffleW(p[1], p[2]) : p \in { p \in A \X B : Len(p[1]) + Len(p[2]) <= n } }
RECURSIVE StarL(_, _, _, _)
StarL(A, acc, n, inter) ==
  LET next == acc \cup (IF inter THEN ShufL(A, acc, n) ELSE CatL(A, acc, n)) IN
  IF next = acc THEN acc ELSE StarL(A, next, n, inter)

(* inter: are iterations of loopP interleaved? *)
RECURSIVE LocalLang(_, _, _, _)
LocalLang(t, l, n, inter) ==
  CASE t[1] = "o"  -> {<<>>}
    [] t[1] = "em" -> { (IF t[2] = l THEN << <<"!", t[3]>> >> ELSE <<>>) \o (IF l \in LfTargets(t[5]) THEN << <<"?", t[3]>> >> ELSE <<>>) }
    [] t[1] = "rc" -> { IF l \in RangeOf(t[5]) THEN << <<"?", t[3]>> >> ELSE <<>> }
    [] t[1] \in {"seq", "strict"} -> CatL(LocalLang(t[2], l, n, inter), LocalLang(t[3], l, n, inter), n)
    [] t[1] = "par" -> ShufL(LocalLang(t[2], l, n, inter), LocalLang(t[3], l, n, inter), n)
    [] t[1] = "alt" -> LocalLang(t[2], l, n, inter) \cup LocalLang(t[3], l, n, inter)
    [] t[1] = "lp"  -> StarL({ w \in LocalLang(t[3], l, n, inter) : w # <<>> }, {<<>>}, n, inter /\ t[2] = "P")

(* A state diagram as a net.  Lines:                                          *)
(*   <<"state", s>> a composite state is opened,  <<"close">>,                *)
(*   <<"kind", s, "fork"|"join"|"choice">>,  <<"edge", from, to, label>>.      *)
(* "[*]" as a source (target) is the entry (exit) of the enclosing composite   *)
(* state, whose body may be run any number of times.  label is <<>> or a        *)
(* letter.  The reader keeps the nesting and collects kinds and edges.          *)
NoChart == [stack |-> <<>>, kinds |-> {}, edges |-> <<>>, tops |-> <<>>]
Place(c, s, dir) == IF s = "[*]" THEN <<dir, c.stack[Len(c.stack)]>> ELSE <<"st", s>>
CanReadC(c, l) == CASE l[1] \in {"state"} -> TRUE
                    [] l[1] \in {"close", "kind", "edge"} -> Len(c.stack) > 0
                    [] OTHER -> FALSE
Arc(f, t, l) == [f |-> f, t |-> t, l |-> l]
ReadC(c, l) ==
  CASE l[1] = "state" -> IF c.stack = <<>> THEN [c EXCEPT !.stack = <<l[2]>>, !.tops = Append(@, l[2])]
                         ELSE [c EXCEPT !.stack = Append(@, l[2]),
                                        !.edges = @ \o <<Arc(<<"st", l[2]>>, <<"init", l[2]>>, <<>>), Arc(<<"final", l[2]>>, <<"st", l[2]>>, <<>>)>>]
    [] l[1] = "close" -> [c EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
    [] l[1] = "kind"  -> [c EXCEPT !.kinds = @ \cup {<< <<"st", l[2]>>, l[3]>>}]
    [] l[1] = "edge"  -> [c EXCEPT !.edges = Append(@, Arc(Place(c, l[2], "init"), Place(c, l[3], "final"), l[4]))]

(* Firing.  A marking is a set of active states; an arc into a join leaves a   *)
(* token on the arc, and the join is entered when all its arcs have one.  A fork  *)
(* makes all its arcs pending (they may carry letters).                          *)
Out(c, u) == { i \in 1..Len(c.edges) : c.edges[i].f = u }
In(c, u)  == { i \in 1..Len(c.edges) : c.edges[i].t = u }
Is(c, u, k) == <<u, k>> \in c.kinds
Into(c, i) == IF Is(c, c.edges[i].t, "join") THEN <<"arc", i>> ELSE c.edges[i].t
Joins(c) == { e[1] : e \in { k \in c.kinds : k[2] = "join" } }
Fire(c, M) ==  \* set of <<letter or <<>>, marking>>
  UNION { IF Is(c, u, "fork")
          THEN { <<<<>>, (M \ {u}) \cup { <<"out", i>> : i \in Out(c, u) }>> }
          ELSE IF u[1] = "out" THEN { <<c.edges[u[2]].l, (M \ {u}) \cup {Into(c, u[2])}>> }
          ELSE { <<c.edges[i].l, (M \ {u}) \cup {Into(c, i)}>> : i \in Out(c, u) } : u \in M }
  \cup { <<<<>>, (M \ { <<"arc", i>> : i \in In(c, j) }) \cup {j}>> :
         j \in { x \in Joins(c) : In(c, x) # {} /\ \A i \in In(c, x) : <<"arc", i>> \in M } }
RECURSIVE Closure(_, _, _)
Closure(c, done, front) ==
  IF front = {} THEN done
  ELSE LET next == UNION { { s[2] : s \in { s \in Fire(c, M) : s[1] = <<>> } } : M \in front } \ done IN
       Closure(c, done \cup next, next)
RECURSIVE WordsFrom(_, _, _, _)
WordsFrom(c, Ms, fin, n) ==
  (IF {fin} \in Ms THEN {<<>>} ELSE {}) \cup
  (IF n = 0 THEN {} ELSE
   LET steps == UNION { { s \in Fire(c, M) : s[1] # <<>> } : M \in Ms }
       letters == { s[1] : s \in steps } IN
   UNION { LET after == { s[2] : s \in { s \in steps : s[1] = a } } IN
           { <<a>> \o w : w \in WordsFrom(c, Closure(c, after, after), fin, n - 1) } : a \in letters })
ChartLang(c, top, n) == WordsFrom(c, Closure(c, {{<<"init", top>>}}, {{<<"init", top>>}}), <<"final", top>>, n)
=============================================================================
