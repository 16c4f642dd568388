----------------------------- MODULE HibouSyntax -----------------------------
(***************************************************************************)
(* Concrete syntax of the three kinds of files a user writes: signatures   *)
(* (.hsf), interactions (.hif) and multi-traces (.htf): which texts are    *)
(* well-formed and what they denote.                                       *)
(*                                                                         *)
(* A text is a sequence of character codes.  Scan turns it into tokens     *)
(* (white space and comments separate), the P operators recognise the      *)
(* grammar, the E operators resolve names against a signature               *)
(*    sig = [lf |-> names, ms |-> names, gt |-> names]                     *)
(* and yield <<TRUE, value>> or <<FALSE, reason>>.                         *)
(***************************************************************************)
EXTENDS HibouTerms

-----------------------------------------------------------------------------
(* Scanner *)
Blank(c)  == c \in {32, 9, 10, 13}
Upper(c)  == c \in 65..90
Lower(c)  == c \in 97..122
Digit(c)  == c \in 48..57
(* letters beyond the Latin alphabet the texts may use: e-acute, lambda, omega, zhe, CJK one *)
OtherLetters == {233, 955, 969, 1078, 19968}
Letter(c) == Upper(c) \/ Lower(c) \/ c \in OtherLetters
NameChar(c) == Letter(c) \/ Digit(c) \/ c = 95

C(cs, i) == IF i <= Len(cs) THEN cs[i] ELSE 0

RECURSIVE EndName(_, _)
EndName(cs, i) == IF NameChar(C(cs, i)) THEN EndName(cs, i + 1) ELSE i

(* first position after the comment opened at i, 0 when it is not closed *)
RECURSIVE EndComment(_, _)
EndComment(cs, i) == IF i > Len(cs) THEN 0
                     ELSE IF C(cs, i) = 42 /\ C(cs, i + 1) = 47 THEN i + 2
                     ELSE EndComment(cs, i + 1)

Tok(k, n) == [k |-> k, n |-> n]
One(c) == CASE c = 40 -> "(" [] c = 41 -> ")" [] c = 44 -> "," [] c = 60 -> "<" [] c = 62 -> ">"
            [] c = 124 -> "|" [] c = 123 -> "{" [] c = 125 -> "}" [] c = 33 -> "!" [] c = 63 -> "?"
            [] c = 91 -> "[" [] c = 93 -> "]" [] c = 46 -> "." [] c = 59 -> ";" [] c = 8709 -> "empty"
            [] OTHER -> "bad"

RECURSIVE ScanFrom(_, _)
ScanFrom(cs, i) ==
  IF i > Len(cs) THEN <<>>
  ELSE LET x == cs[i] y == C(cs, i + 1) IN
  CASE Blank(x) -> ScanFrom(cs, i + 1)
    [] x = 47 /\ y = 42 -> LET e == EndComment(cs, i + 2)
                           IN IF e = 0 THEN <<Tok("bad", <<>>)>> ELSE ScanFrom(cs, e)
    [] Letter(x) -> LET e == EndName(cs, i) IN <<Tok("id", SubSeq(cs, i, e - 1))>> \o ScanFrom(cs, e)
    [] x \in {35, 64} /\ Letter(y) ->
         LET e == EndName(cs, i + 1)
         IN <<Tok(IF x = 35 THEN "#" ELSE "@", SubSeq(cs, i + 1, e - 1))>> \o ScanFrom(cs, e)
    [] x = 45 /\ y = 45 -> <<Tok("--", <<>>)>> \o ScanFrom(cs, i + 2)
    [] x = 45 /\ y = 62 -> <<Tok("->", <<>>)>> \o ScanFrom(cs, i + 2)
    [] OTHER -> IF One(x) = "bad" THEN <<Tok("bad", <<>>)>>
                ELSE <<Tok(One(x), <<>>)>> \o ScanFrom(cs, i + 1)
Scan(cs) == ScanFrom(cs, 1)

(* words of the language *)
WStrict == <<115, 116, 114, 105, 99, 116>>
WSeq    == <<115, 101, 113>>
WAlt    == <<97, 108, 116>>
WPar    == <<112, 97, 114>>
WAnd    == <<97, 110, 100>>
WCoreg  == <<99, 111, 114, 101, 103>>
WSync   == <<115, 121, 110, 99>>
WLoop   == <<108, 111, 111, 112>>
WSynch  == <<115, 121, 110, 99, 104>>
WAsynch == <<97, 115, 121, 110, 99, 104>>
WO      == <<111>>
WAny    == <<97, 110, 121>>
WAll    == <<97, 108, 108>>
WMessage  == <<109, 101, 115, 115, 97, 103, 101>>
WLifeline == <<108, 105, 102, 101, 108, 105, 110, 101>>
WGate     == <<103, 97, 116, 101>>

NaryOf(w) == CASE w = WStrict -> "strict" [] w = WSeq -> "seq" [] w = WAlt -> "alt"
               [] w = WPar -> "par" [] w = WAnd -> "and" [] OTHER -> ""
LoopOf(c) == CASE c = <<83>> -> "S" [] c = <<72>> -> "H" [] c = <<87>> -> "W" [] c = <<80>> -> "P" [] OTHER -> ""

-----------------------------------------------------------------------------
(* Grammar.  Every recogniser takes the tokens and a position, and returns  *)
(* <<tree, next>>, or Fail.                                                 *)
Fail == <<>>
K(ts, i) == IF i <= Len(ts) THEN ts[i].k ELSE "eof"
N(ts, i) == IF i <= Len(ts) THEN ts[i].n ELSE <<>>

RECURSIVE PNamesTail(_, _, _)
(* names separated by sep; at least one *)
PNames(ts, i, sep) == IF K(ts, i) # "id" THEN Fail ELSE PNamesTail(ts, i, sep)
PNamesTail(ts, i, sep) ==
  IF K(ts, i + 1) = sep /\ K(ts, i + 2) = "id"
  THEN LET r == PNamesTail(ts, i + 2, sep) IN <<(<<N(ts, i)>> \o r[1]), r[2]>>
  ELSE <<<<N(ts, i)>>, i + 1>>

(* ( name , ... , name ) *)
PNameList(ts, i) ==
  IF K(ts, i) # "(" THEN Fail
  ELSE LET r == PNames(ts, i + 1, ",")
       IN IF r = Fail \/ K(ts, r[2]) # ")" THEN Fail ELSE <<r[1], r[2] + 1>>

(* observable action: lifeline (! or ?) message *)
PAction(ts, i) ==
  IF K(ts, i) = "id" /\ K(ts, i + 1) \in {"!", "?"} /\ K(ts, i + 2) = "id"
  THEN <<<<N(ts, i), K(ts, i + 1), N(ts, i + 2)>>, i + 3>> ELSE Fail
RECURSIVE PActions(_, _)
PActions(ts, i) ==
  LET a == PAction(ts, i)
  IN IF a = Fail THEN Fail
     ELSE IF K(ts, a[2]) # "," THEN <<<<a[1]>>, a[2]>>
     ELSE LET r == PActions(ts, a[2] + 1) IN IF r = Fail THEN Fail ELSE <<(<<a[1]>> \o r[1]), r[2]>>
(* { action , action , ... }: a set has at least two actions *)
PActionSet(ts, i) ==
  IF K(ts, i) # "{" THEN Fail
  ELSE LET r == PActions(ts, i + 1)
       IN IF r = Fail THEN Fail
          ELSE IF Len(r[1]) < 2 \/ K(ts, r[2]) # "}" THEN Fail ELSE <<r[1], r[2] + 1>>

(* communication: [origin --] [<synch>|<asynch>] message -> targets *)
PComm(ts, i) ==
  LET org == K(ts, i) = "id" /\ K(ts, i + 1) = "--"
      j   == IF org THEN i + 2 ELSE i
      typ == K(ts, j) = "<"
      typok == ~typ \/ (K(ts, j + 1) = "id" /\ N(ts, j + 1) \in {WSynch, WAsynch} /\ K(ts, j + 2) = ">")
      k   == IF typ THEN j + 3 ELSE j
      comm(tg, nx) == <<<<"comm", IF org THEN <<N(ts, i)>> ELSE <<>>,
                          IF typ /\ N(ts, j + 1) = WSynch THEN 1 ELSE 0, N(ts, k), tg>>, nx>>
  IN IF ~typok \/ K(ts, k) # "id" \/ K(ts, k + 1) # "->" THEN Fail
     ELSE CASE K(ts, k + 2) = "id" -> comm(<<N(ts, k + 2)>>, k + 3)
            [] K(ts, k + 2) = "|"  -> comm(<<>>, k + 3)
            [] OTHER -> LET r == PNameList(ts, k + 2) IN IF r = Fail THEN Fail ELSE comm(r[1], r[2])

RECURSIVE PInt(_, _), PInts(_, _), PBody(_, _)
PInt(ts, i) ==
  LET cm == PComm(ts, i)
      w  == IF K(ts, i) = "id" THEN N(ts, i) ELSE <<>>
  IN CASE cm # Fail -> cm
       [] K(ts, i) = "empty" \/ w = WO -> <<<<"o">>, i + 1>>
       [] NaryOf(w) # "" -> LET b == PBody(ts, i + 1)
                            IN IF b = Fail THEN Fail
                               ELSE IF Len(b[1]) < 2 THEN Fail ELSE <<<<"nary", NaryOf(w), b[1]>>, b[2]>>
       [] w = WCoreg -> LET l == PNameList(ts, i + 1)
                        IN IF l = Fail THEN Fail
                           ELSE LET b == PBody(ts, l[2])
                                IN IF b = Fail THEN Fail
                                   ELSE IF Len(b[1]) < 2 THEN Fail ELSE <<<<"cr", l[1], b[1]>>, b[2]>>
       [] w = WSync -> LET a1 == PAction(ts, i + 2)
                           a == IF K(ts, i + 1) = "(" /\ a1 # Fail
                                THEN IF K(ts, a1[2]) = ")" THEN <<<<a1[1]>>, a1[2] + 1>> ELSE Fail
                                ELSE PActionSet(ts, i + 1)
                       IN IF a = Fail THEN Fail
                          ELSE LET b == PBody(ts, a[2])
                               IN IF b = Fail THEN Fail
                                  ELSE IF Len(b[1]) < 2 THEN Fail ELSE <<<<"sy", a[1], b[1]>>, b[2]>>
       [] Len(w) >= 4 /\ SubSeq(w, 1, 4) = WLoop ->
            LET split == w = WLoop /\ K(ts, i + 1) = "id"
                kd == LoopOf(IF split THEN N(ts, i + 1) ELSE SubSeq(w, 5, Len(w)))
                b  == PBody(ts, IF split THEN i + 2 ELSE i + 1)
            IN IF kd = "" \/ b = Fail THEN Fail
               ELSE IF Len(b[1]) # 1 THEN Fail ELSE <<<<"lp", kd, b[1][1]>>, b[2]>>
       [] OTHER -> Fail
(* ( interaction , ... , interaction ) *)
PBody(ts, i) ==
  IF K(ts, i) # "(" THEN Fail
  ELSE LET r == PInts(ts, i + 1)
       IN IF r = Fail THEN Fail ELSE IF K(ts, r[2]) # ")" THEN Fail ELSE <<r[1], r[2] + 1>>
PInts(ts, i) ==
  LET a == PInt(ts, i)
  IN IF a = Fail THEN Fail
     ELSE IF K(ts, a[2]) # "," THEN <<<<a[1]>>, a[2]>>
     ELSE LET r == PInts(ts, a[2] + 1) IN IF r = Fail THEN Fail ELSE <<(<<a[1]>> \o r[1]), r[2]>>

-----------------------------------------------------------------------------
(* Meaning of an interaction file *)
Ok(v)  == <<TRUE, v>>
Err(w) == <<FALSE, w>>

Pos(names, n) == IF \E i \in 1..Len(names) : names[i] = n
                 THEN (CHOOSE i \in 1..Len(names) : names[i] = n /\ \A j \in 1..(i - 1) : names[j] # n) - 1
                 ELSE -1
Declared(names, n) == Pos(names, n) >= 0
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]

(* a target: a lifeline (>= 0) or a gate (< 0); a lifeline of that name is preferred *)
RefKnown(sig, n) == Declared(sig.lf, n) \/ Declared(sig.gt, n)
Ref(sig, n) == IF Declared(sig.lf, n) THEN Pos(sig.lf, n) ELSE -(Pos(sig.gt, n) + 1)
Lfs(sig, ns) == [i \in 1..Len(ns) |-> Pos(sig.lf, ns[i])]
AllLf(sig, ns) == \A i \in 1..Len(ns) : Declared(sig.lf, ns[i])

EComm(sig, t) ==
  LET org == t[2] ms == Pos(sig.ms, t[4]) tg == t[5]
      emission == org # <<>> /\ Declared(sig.lf, org[1])
      gate == IF org = <<>> THEN 0 ELSE -(Pos(sig.gt, org[1]) + 1)
      refs == [i \in 1..Len(tg) |-> Ref(sig, tg[i])]
  IN IF org # <<>> /\ ~RefKnown(sig, org[1]) THEN Err("unknown origin")
     ELSE IF ms < 0 THEN Err("unknown message")
     ELSE IF emission
          THEN IF \E i \in 1..Len(tg) : ~RefKnown(sig, tg[i]) THEN Err("unknown target")
               ELSE IF ~Distinct(refs) THEN Err("duplicate target")
               ELSE Ok(<<"em", Pos(sig.lf, org[1]), ms, t[3], refs>>)
     ELSE IF ~AllLf(sig, tg) THEN Err("unknown target lifeline")
     ELSE IF ~Distinct(tg) THEN Err("duplicate target")
     ELSE IF tg = <<>> THEN Err("nobody receives")
     ELSE Ok(<<"rc", gate, ms, t[3], Lfs(sig, tg)>>)

EActOk(sig, a) == Declared(sig.lf, a[1]) /\ Declared(sig.ms, a[3])
EAct(sig, a)   == <<Pos(sig.lf, a[1]), a[2], Pos(sig.ms, a[3])>>

(* n-ary operators associate to the right.  The lifelines of a co-region    *)
(* and the actions of a synchronised product are sets.                      *)
RECURSIVE FoldRight(_, _)
FoldRight(head, ts) == IF Len(ts) = 1 THEN ts[1] ELSE head \o <<ts[1], FoldRight(head, Tail(ts))>>

RECURSIVE EInt(_, _)
ESubs(sig, head, subs) ==
  LET rs == [i \in 1..Len(subs) |-> EInt(sig, subs[i])]
  IN IF \E i \in 1..Len(rs) : ~rs[i][1] THEN Err("operand")
     ELSE Ok(FoldRight(head, [i \in 1..Len(rs) |-> rs[i][2]]))
EInt(sig, t) ==
  CASE t[1] = "o" -> Ok(<<"o">>)
    [] t[1] = "comm" -> EComm(sig, t)
    [] t[1] = "nary" -> ESubs(sig, <<t[2]>>, t[3])
    [] t[1] = "lp" -> LET r == EInt(sig, t[3]) IN IF r[1] THEN Ok(<<"lp", t[2], r[2]>>) ELSE r
    [] t[1] = "cr" -> IF ~AllLf(sig, t[2]) THEN Err("unknown lifeline")
                      ELSE IF ~Distinct(t[2]) THEN Err("duplicate lifeline")
                      ELSE ESubs(sig, <<"cr", RangeOf(Lfs(sig, t[2]))>>, t[3])
    [] t[1] = "sy" -> IF \E i \in 1..Len(t[2]) : ~EActOk(sig, t[2][i]) THEN Err("unknown name in action")
                      ELSE ESubs(sig, <<"sy", { EAct(sig, t[2][i]) : i \in 1..Len(t[2]) }>>, t[3])

Interaction(sig, cs) ==
  LET ts == Scan(cs)
      p  == PInt(ts, 1)
  IN IF p = Fail THEN Err("syntax")
     ELSE IF p[2] # Len(ts) + 1 THEN Err("syntax")
     ELSE EInt(sig, p[1])

(* a term as exchanged with the implementation, its sets made sets *)
RECURSIVE AsSets(_)
AsSets(t) ==
  CASE t[1] \in {"o", "em", "rc"} -> t
    [] t[1] = "lp" -> <<t[1], t[2], AsSets(t[3])>>
    [] t[1] \in {"cr", "sy"} -> <<t[1], RangeOf(t[2]), AsSets(t[3]), AsSets(t[4])>>
    [] OTHER -> <<t[1], AsSets(t[2]), AsSets(t[3])>>

(* the same term with every nest of one associative operator leaning to the right *)
RECURSIVE Operands(_, _), Lean(_)
HeadOf(t) == IF t[1] \in {"cr", "sy"} THEN <<t[1], t[2]>> ELSE <<t[1]>>
Operands(head, t) == IF Len(t) >= 3 /\ t[1] \notin {"em", "rc", "lp"} /\ HeadOf(t) = head
                     THEN Operands(head, t[Len(t) - 1]) \o Operands(head, t[Len(t)]) ELSE <<Lean(t)>>
Lean(t) ==
  CASE t[1] \in {"o", "em", "rc"} -> t
    [] t[1] = "lp" -> <<t[1], t[2], Lean(t[3])>>
    [] OTHER -> FoldRight(HeadOf(t), Operands(HeadOf(t), t))

-----------------------------------------------------------------------------
(* Multi-trace files: either a bare trace, all lifelines being observed     *)
(* together, or canals [lifelines] trace separated by semicolons.           *)
RECURSIVE PTraceTail(_, _)
(* one element and what follows *)
PTraceTail(ts, i) ==
  LET a == PAction(ts, i)
      e == IF a # Fail THEN <<<<a[1]>>, a[2]>> ELSE PActionSet(ts, i)
  IN IF e = Fail THEN Fail
     ELSE IF K(ts, e[2]) # "." THEN <<<<e[1]>>, e[2]>>
     ELSE LET r == PTraceTail(ts, e[2] + 1) IN IF r = Fail THEN Fail ELSE <<(<<e[1]>> \o r[1]), r[2]>>
(* a trace may be empty *)
PTrace(ts, i) == IF K(ts, i) \in {"id", "{"} THEN PTraceTail(ts, i) ELSE <<<<>>, i>>

PCanal(ts, i) ==
  IF K(ts, i) # "[" THEN Fail
  ELSE LET l == IF K(ts, i + 1) = "#" /\ N(ts, i + 1) = WAny THEN <<<<"any">>, i + 2>>
                ELSE IF K(ts, i + 1) = "#" /\ N(ts, i + 1) = WAll THEN <<<<"all">>, i + 2>>
                ELSE LET r == PNames(ts, i + 1, ",") IN IF r = Fail THEN Fail ELSE <<<<"these", r[1]>>, r[2]>>
       IN IF l = Fail THEN Fail
          ELSE IF K(ts, l[2]) # "]" THEN Fail
          ELSE LET t == PTrace(ts, l[2] + 1) IN IF t = Fail THEN Fail ELSE <<<<l[1], t[1]>>, t[2]>>
RECURSIVE PCanals(_, _)
(* canals, then possibly a semicolon, then the closing brace *)
PCanals(ts, i) ==
  LET c == PCanal(ts, i)
  IN IF c = Fail THEN Fail
     ELSE IF K(ts, c[2]) = "}" THEN <<<<c[1]>>, c[2] + 1>>
     ELSE IF K(ts, c[2]) # ";" THEN Fail
     ELSE IF K(ts, c[2] + 1) = "}" THEN <<<<c[1]>>, c[2] + 2>>
     ELSE LET r == PCanals(ts, c[2] + 1) IN IF r = Fail THEN Fail ELSE <<(<<c[1]>> \o r[1]), r[2]>>
PMulti(ts, i) ==
  IF K(ts, i) # "{" THEN Fail
  ELSE IF K(ts, i + 1) = "}" THEN <<<<>>, i + 2>>
  ELSE IF K(ts, i + 1) = ";" /\ K(ts, i + 2) = "}" THEN <<<<>>, i + 3>>
  ELSE PCanals(ts, i + 1)

EElem(sig, e)  == { EAct(sig, e[i]) : i \in 1..Len(e) }
ETrace(sig, t) == [i \in 1..Len(t) |-> EElem(sig, t[i])]
TraceOk(sig, t) == \A i \in 1..Len(t) : \A j \in 1..Len(t[i]) : EActOk(sig, t[i][j])
TraceLfs(tr) == UNION { LfsOf(tr[i]) : i \in 1..Len(tr) }
AllLfs(sig) == 0..(Len(sig.lf) - 1)

RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>>
                ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SortedSeq(S \ {x})

(* canals are read in order: the components have to be disjoint, an action  *)
(* has to belong to its component; #all stands for the lifelines not yet    *)
(* taken, #any for those which occur; lifelines left over have an empty     *)
(* component each.                                                          *)
RECURSIVE ECanals(_, _, _, _)
ECanals(sig, cans, taken, acc) ==
  IF cans = <<>>
  THEN LET left == AllLfs(sig) \ taken
           order == SortedSeq(left)
       IN Ok(acc \o [i \in 1..Len(order) |-> <<{order[i]}, <<>>>>])
  ELSE LET kd == cans[1][1] tr == cans[1][2] et == ETrace(sig, tr)
           lfs == CASE kd[1] = "any" -> TraceLfs(et)
                    [] kd[1] = "all" -> AllLfs(sig) \ taken
                    [] OTHER -> RangeOf(Lfs(sig, kd[2]))
       IN IF kd[1] = "these" /\ ~AllLf(sig, kd[2]) THEN Err("unknown lifeline")
          ELSE IF ~TraceOk(sig, tr) THEN Err("unknown name in action")
          ELSE IF lfs \cap taken # {} \/ TraceLfs(et) \cap taken # {} THEN Err("components overlap")
          ELSE IF ~(TraceLfs(et) \subseteq lfs) THEN Err("action outside its component")
          ELSE ECanals(sig, Tail(cans), taken \cup lfs, Append(acc, <<lfs, et>>))

MultiTrace(sig, cs) ==
  LET ts == Scan(cs)
      m  == PMulti(ts, 1)
      t  == PTrace(ts, 1)
      whole(r) == r # Fail /\ (r # Fail => r[2] = Len(ts) + 1)
  IN IF whole(m) THEN ECanals(sig, m[1], {}, <<>>)
     ELSE IF whole(t) THEN IF TraceOk(sig, t[1]) THEN Ok(<<<<AllLfs(sig), ETrace(sig, t[1])>>>>)
                           ELSE Err("unknown name in action")
     ELSE Err("syntax")

-----------------------------------------------------------------------------
(* Signature files: sections @message, @lifeline, @gate, each at most once. *)
RECURSIVE PSections(_, _)
PSections(ts, i) ==
  IF i = Len(ts) + 1 THEN <<<<>>, i>>
  ELSE IF K(ts, i) # "@" \/ N(ts, i) \notin {WMessage, WLifeline, WGate} \/ K(ts, i + 1) # "{" THEN Fail
  ELSE LET r == PNames(ts, i + 2, ";")
           j == IF r = Fail THEN 0 ELSE IF K(ts, r[2]) = ";" THEN r[2] + 1 ELSE r[2]
       IN IF r = Fail THEN Fail
          ELSE IF K(ts, j) # "}" THEN Fail
          ELSE LET s == PSections(ts, j + 1)
               IN IF s = Fail THEN Fail ELSE <<(<<<<N(ts, i), r[1]>>>> \o s[1]), s[2]>>

RECURSIVE Unique(_, _)
Unique(ns, acc) == IF ns = <<>> THEN acc
                   ELSE Unique(Tail(ns), IF Declared(acc, ns[1]) THEN acc ELSE Append(acc, ns[1]))

Signature(cs) ==
  LET p == PSections(Scan(cs), 1)
      sec(w) == LET is == { i \in 1..Len(p[1]) : p[1][i][1] = w }
                IN IF is = {} THEN <<>> ELSE Unique(p[1][CHOOSE i \in is : TRUE][2], <<>>)
  IN IF p = Fail THEN Err("syntax")
     ELSE IF ~Distinct([i \in 1..Len(p[1]) |-> p[1][i][1]]) THEN Err("section declared twice")
     ELSE Ok([lf |-> sec(WLifeline), ms |-> sec(WMessage), gt |-> sec(WGate)])
=============================================================================
