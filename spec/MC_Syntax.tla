------------------------------ MODULE MC_Syntax ------------------------------
(***************************************************************************)
(* The syntax is unambiguous and complete: every term has a text (written   *)
(* here by the specification itself, in two styles), which reads back as    *)
(* that term with its associative operators leaning to the right, and a     *)
(* text whose tokens are glued or separated otherwise reads the same.       *)
(***************************************************************************)
EXTENDS HibouSyntax

Sig == [lf |-> <<<<97>>, <<111, 97>>>>, ms |-> <<<<109>>, <<111>>>>, gt |-> <<<<103>>>>]

Leaves == { <<"o">>, <<"em", 0, 1, 0, <<>>>>, <<"em", 1, 0, 1, <<0, -1>>>>, <<"em", 0, 0, 0, <<1>>>>,
            <<"rc", 0, 1, 0, <<1>>>>, <<"rc", -1, 0, 1, <<1, 0>>>> }
Grow(S, T) == { <<k, x, y>> : k \in Binary, x \in S, y \in T }
              \cup { <<"lp", k, x>> : k \in {"S", "H", "W", "P"}, x \in S }
              \cup { <<"cr", l, x, y>> : l \in {<<0>>, <<1, 0>>}, x \in S, y \in T }
              \cup { <<"sy", a, x, y>> : a \in {<<<<0, "!", 1>>>>, <<<<1, "?", 0>>, <<0, "!", 1>>>>}, x \in S, y \in T }
Few == { <<"o">>, <<"em", 0, 1, 0, <<>>>> }

Ch(k) == CASE k = "(" -> <<40>> [] k = ")" -> <<41>> [] k = "," -> <<44>> [] k = "--" -> <<45, 45>>
           [] k = "->" -> <<45, 62>> [] k = "|" -> <<124>> [] k = "<" -> <<60>> [] k = ">" -> <<62>>
           [] k = "{" -> <<123>> [] k = "}" -> <<125>> [] k = "!" -> <<33>> [] k = "?" -> <<63>>
           [] k = "[" -> <<91>> [] k = "]" -> <<93>> [] k = "." -> <<46>> [] k = ";" -> <<59>>
Gap == [plain |-> <<>>, airy |-> <<32, 47, 42, 111, 40, 42, 47, 10>>]
RECURSIVE Glue(_, _)
Glue(parts, gap) == IF parts = <<>> THEN <<>> ELSE parts[1] \o gap \o Glue(Tail(parts), gap)

RECURSIVE Between(_, _)
Between(seqs, sep) == IF Len(seqs) = 1 THEN seqs[1] ELSE seqs[1] \o <<sep>> \o Between(Tail(seqs), sep)
Names(is, names) == Between([i \in 1..Len(is) |-> <<names[is[i] + 1]>>], Ch(","))
TName(x) == IF x >= 0 THEN Sig.lf[x + 1] ELSE Sig.gt[-x]
Targets(ts) == IF Len(ts) = 0 THEN <<Ch("->"), Ch("|")>>
               ELSE IF Len(ts) = 1 THEN <<Ch("->"), TName(ts[1])>>
               ELSE <<Ch("->"), Ch("(")>> \o Between([i \in 1..Len(ts) |-> <<TName(ts[i])>>], Ch(",")) \o <<Ch(")")>>
Synch(b) == IF b = 1 THEN <<Ch("<"), WSynch, Ch(">")>> ELSE <<>>
Act(a) == <<Sig.lf[a[1] + 1], Ch(a[2]), Sig.ms[a[3] + 1]>>
Word(k) == CASE k = "strict" -> WStrict [] k = "seq" -> WSeq [] k = "alt" -> WAlt [] k = "par" -> WPar
KindCode(k) == CASE k = "S" -> <<83>> [] k = "H" -> <<72>> [] k = "W" -> <<87>> [] k = "P" -> <<80>>

(* the pieces of a text for t *)
RECURSIVE Pieces(_)
Args(ts) == <<Ch("(")>> \o Between([i \in 1..Len(ts) |-> Pieces(ts[i])], Ch(",")) \o <<Ch(")")>>
Pieces(t) ==
  CASE t[1] = "o" -> <<WO>>
    [] t[1] = "em" -> <<Sig.lf[t[2] + 1], Ch("--")>> \o Synch(t[4]) \o <<Sig.ms[t[3] + 1]>> \o Targets(t[5])
    [] t[1] = "rc" -> (IF t[2] < 0 THEN <<Sig.gt[-t[2]], Ch("--")>> ELSE <<>>)
                      \o Synch(t[4]) \o <<Sig.ms[t[3] + 1]>> \o Targets(t[5])
    [] t[1] \in Binary -> <<Word(t[1])>> \o Args(Tail(t))
    [] t[1] = "lp" -> <<WLoop \o KindCode(t[2])>> \o Args(<<t[3]>>)
    [] t[1] = "cr" -> <<WCoreg, Ch("(")>> \o Names(t[2], Sig.lf) \o <<Ch(")")>> \o Args(<<t[3], t[4]>>)
    [] t[1] = "sy" -> <<WSync, Ch(IF Len(t[2]) = 1 THEN "(" ELSE "{")>>
                      \o Between([i \in 1..Len(t[2]) |-> Act(t[2][i])], Ch(","))
                      \o <<Ch(IF Len(t[2]) = 1 THEN ")" ELSE "}")>> \o Args(<<t[3], t[4]>>)

VARIABLES t, depth
Init == t \in Leaves /\ depth = 0
Next == /\ depth < 2
        /\ depth' = depth + 1
        /\ t' \in Grow({t}, Few) \cup Grow(Few, {t})
Spec == Init /\ [][Next]_<<t, depth>>

Reads(cs, u) == LET r == Interaction(Sig, cs) IN r[1] /\ r[2] = u
Unambiguous == /\ Reads(Glue(Pieces(t), Gap.plain), AsSets(t))
               /\ Reads(Glue(Pieces(t), Gap.airy), AsSets(t))
               /\ Lean(Lean(AsSets(t))) = Lean(AsSets(t))
(* cutting a text short, or repeating its last piece, makes it ill-formed *)
Tight == LET p == Pieces(t) IN
         /\ \A n \in 1..(Len(p) - 1) : (SubSeq(p, 1, n) # <<WO>> => ~Interaction(Sig, Glue(SubSeq(p, 1, n), Gap.plain))[1])
         /\ ~Interaction(Sig, Glue(Append(p, p[Len(p)]), Gap.airy))[1]
=============================================================================
