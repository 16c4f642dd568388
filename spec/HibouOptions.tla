---------------------------- MODULE HibouOptions ----------------------------
(***************************************************************************)
(* Configuration files (.hcf): which texts are well-formed, which of them  *)
(* a command refuses, and what the options of a command are.               *)
(*                                                                         *)
(* A file is a sequence of sections @explore_option, @analyze_option and   *)
(* @canonize_option.  A command reads the section that is its own (at most *)
(* one); the other ones only have to be well-formed.  Within a section the *)
(* last declaration of an option counts.  Options of other commands,       *)
(* numbers that do not fit, unknown or twice mentioned lifelines in a      *)
(* partition are refused.  Without a section (or a file) the defaults of   *)
(* the command hold.                                                       *)
(***************************************************************************)
EXTENDS HibouSyntax

-----------------------------------------------------------------------------
(* Scanner: tokens [k, n, w]: kind, codes, and the word as a string when it *)
(* is a plain one.                                                          *)
Small == "abcdefghijklmnopqrstuvwxyz"
Big   == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Dig   == "0123456789"
Chr(x) == CASE Lower(x) -> SubSeq(Small, x - 96, x - 96) [] Upper(x) -> SubSeq(Big, x - 64, x - 64)
            [] Digit(x) -> SubSeq(Dig, x - 47, x - 47) [] x = 95 -> "_" [] OTHER -> "?"
RECURSIVE Str(_)
Str(n) == IF n = <<>> THEN "" ELSE Chr(n[1]) \o Str(Tail(n))

RECURSIVE EndDigits(_, _)
EndDigits(cs, i) == IF Digit(C(cs, i)) THEN EndDigits(cs, i + 1) ELSE i

OTok(k, n) == [k |-> k, n |-> n, w |-> Str(n)]
OOne(x) == CASE x = 40 -> "(" [] x = 41 -> ")" [] x = 44 -> "," [] x = 45 -> "-" [] x = 59 -> ";" [] x = 61 -> "="
             [] x = 91 -> "[" [] x = 93 -> "]" [] x = 123 -> "{" [] x = 125 -> "}"
             [] x = 8868 -> "top" [] x = 8869 -> "bot" [] OTHER -> "bad"
RECURSIVE OScanFrom(_, _)
OScanFrom(cs, i) ==
  IF i > Len(cs) THEN <<>>
  ELSE LET x == cs[i] y == C(cs, i + 1) IN
  CASE Blank(x) -> OScanFrom(cs, i + 1)
    [] x = 47 /\ y = 42 -> LET e == EndComment(cs, i + 2)
                           IN IF e = 0 THEN <<OTok("bad", <<>>)>> ELSE OScanFrom(cs, e)
    [] Letter(x) -> LET e == EndName(cs, i) IN <<OTok("id", SubSeq(cs, i, e - 1))>> \o OScanFrom(cs, e)
    [] Digit(x) -> LET e == EndDigits(cs, i)                         \* no superfluous zeros in front
                   IN <<OTok(IF x = 48 /\ e > i + 1 THEN "bad" ELSE "num", SubSeq(cs, i, e - 1))>> \o OScanFrom(cs, e)
    [] x = 64 /\ Letter(y) -> LET e == EndName(cs, i + 1) IN <<OTok("@", SubSeq(cs, i + 1, e - 1))>> \o OScanFrom(cs, e)
    [] OTHER -> <<OTok(OOne(x), <<>>)>> \o (IF OOne(x) = "bad" THEN <<>> ELSE OScanFrom(cs, i + 1))

W(ts, i) == IF i <= Len(ts) THEN (IF ts[i].k \in {"id", "num"} THEN ts[i].w ELSE ts[i].k) ELSE "eof"
(* the words ws stand at i *)
At(ts, i, ws) == \A j \in 1..Len(ws) : W(ts, i + j - 1) = ws[j]

-----------------------------------------------------------------------------
(* Grammar: <<tree, next>> or Fail *)
Trues  == {"top", "true", "True", "TRUE"}
Falses == {"bot", "false", "False", "FALSE"}
Nones  == {"none", "None", "NONE"}

(* name = boolean, the tree being <<tag, boolean>> *)
PBool(ts, i, tag) ==
  IF W(ts, i) # "=" THEN Fail
  ELSE IF W(ts, i + 1) \in Trues THEN <<<<tag, TRUE>>, i + 2>>
  ELSE IF W(ts, i + 1) \in Falses THEN <<<<tag, FALSE>>, i + 2>> ELSE Fail
(* a number, the tree being <<tag, digits>> *)
PNum(ts, i, tag) == IF K(ts, i) = "num" THEN <<<<tag, N(ts, i)>>, i + 1>> ELSE Fail
PEqNum(ts, i, tag) == IF W(ts, i) = "=" THEN PNum(ts, i + 1, tag) ELSE Fail
PEqName(ts, i, tag) == IF W(ts, i) = "=" /\ K(ts, i + 1) = "id" THEN <<<<tag, N(ts, i + 1)>>, i + 2>> ELSE Fail

PGraphicOpt(ts, i) ==
  LET w == W(ts, i) j == IF W(ts, i + 1) = "=" THEN i + 2 ELSE i IN
  CASE w \in {"png", "svg", "horizontal", "vertical"} -> <<<<w>>, i + 1>>
    [] w = "format" -> IF j # i /\ W(ts, j) \in {"png", "svg"} THEN <<<<W(ts, j)>>, j + 1>> ELSE Fail
    [] w = "layout" -> IF j # i /\ W(ts, j) \in {"horizontal", "vertical"} THEN <<<<W(ts, j)>>, j + 1>> ELSE Fail
    [] w \in {"draw_sd", "draw_tt", "draw_sub_processes", "draw_legend"} -> PBool(ts, i + 1, w)
    [] w \in {"parent", "parent_folder", "folder"} -> PEqName(ts, i + 1, "folder")
    [] w \in {"output", "name"} -> PEqName(ts, i + 1, "name")
    [] OTHER -> Fail

RECURSIVE PBlocks(_, _)
(* (a,b),(c),... up to the closing brace *)
PBlocks(ts, i) ==
  LET l == PNameList(ts, i)
  IN IF l = Fail THEN Fail
     ELSE IF W(ts, l[2]) = "}" THEN <<<<l[1]>>, l[2] + 1>>
     ELSE IF W(ts, l[2]) # "," THEN Fail
     ELSE LET r == PBlocks(ts, l[2] + 1) IN IF r = Fail THEN Fail ELSE <<(<<l[1]>> \o r[1]), r[2]>>

PTracegenOpt(ts, i) ==
  LET w == W(ts, i) IN
  CASE At(ts, i, <<"generation", "=", "accepted">>) -> <<<<"accepted">>, i + 3>>
    [] At(ts, i, <<"generation", "=", "exact", "depth">>) -> PNum(ts, i + 4, "exact")
    [] At(ts, i, <<"generation", "=", "modulo", "depth">>) -> PNum(ts, i + 4, "modulo")
    [] At(ts, i, <<"partition", "=">>) ->
         IF W(ts, i + 2) \in {"discrete", "trivial"} THEN <<<<"whole">>, i + 3>>
         ELSE IF W(ts, i + 2) # "{" THEN Fail
         ELSE LET b == PBlocks(ts, i + 3) IN IF b = Fail THEN Fail ELSE <<<<"blocks", b[1]>>, b[2]>>
    [] w \in {"parent", "parent_folder", "folder"} -> PEqName(ts, i + 1, "folder")
    [] w \in {"name_prefix", "trace_prefix", "prefix"} -> PEqName(ts, i + 1, "name")
    [] w \in {"avoid_duplicates", "prevent_duplicates", "no_duplicates"} -> PBool(ts, i + 1, "duplicates")
    [] OTHER -> Fail

PFilter(ts, i) ==
  LET w == W(ts, i) IN
  CASE w = "max_depth" -> PEqNum(ts, i + 1, "depth")
    [] w = "max_loop_depth" -> PEqNum(ts, i + 1, "loop")
    [] w = "max_node_number" -> PEqNum(ts, i + 1, "nodes")
    [] At(ts, i, <<"max", "depth">>) -> PEqNum(ts, i + 2, "depth")
    [] At(ts, i, <<"max", "loop", "depth">>) -> PEqNum(ts, i + 3, "loop")
    [] At(ts, i, <<"max", "node", "number">>) -> PEqNum(ts, i + 3, "nodes")
    [] OTHER -> Fail

Priorities == {"emission", "reception", "loop", "multi_rdv", "elim", "simu",
               "simpl", "flush", "invert", "deduplicate", "factorize", "defactorize"}
PPriority(ts, i) ==
  LET w == W(ts, i) neg == W(ts, i + 2) = "-" j == IF neg THEN i + 3 ELSE i + 2 IN
  IF w = "randomize" THEN PBool(ts, i + 1, w)
  ELSE IF w \in Priorities /\ W(ts, i + 1) = "=" /\ K(ts, j) = "num" THEN <<<<w, neg, N(ts, j)>>, j + 1>> ELSE Fail

PSimulate(ts, i) ==
  LET w == W(ts, i)
      crit(what, depth) ==
        CASE At(ts, i + 1, <<"num", "=">>) -> LET r == PNum(ts, i + 3, "num") IN IF r = Fail THEN Fail ELSE <<<<what, r[1]>>, r[2]>>
          [] W(ts, i + 1) = "max_num" -> <<<<what, <<"maxnum">>>>, i + 2>>
          [] At(ts, i + 1, <<"max", "num">>) -> <<<<what, <<"maxnum">>>>, i + 3>>
          [] depth /\ W(ts, i + 1) = "max_depth" -> <<<<what, <<"maxdepth">>>>, i + 2>>
          [] depth /\ At(ts, i + 1, <<"max", "depth">>) -> <<<<what, <<"maxdepth">>>>, i + 3>>
          [] W(ts, i + 1) \in Nones -> <<<<what, <<"none">>>>, i + 2>>
          [] OTHER -> Fail
  IN CASE w = "loop" -> crit("loop", TRUE)
       [] w = "act" -> crit("act", FALSE)
       [] w \in {"slice", "before", "preamble"} -> PBool(ts, i + 1, "before")
       [] w \in {"multiply", "resized", "dependent"} -> PBool(ts, i + 1, "multiply")
       [] w \in {"reset", "reinitialize"} -> PBool(ts, i + 1, "reset")
       [] OTHER -> Fail

PLocal(ts, i) ==
  LET w == W(ts, i)
      value(j) == IF W(ts, j) # "=" THEN Fail
                  ELSE IF W(ts, j + 1) \in Nones THEN <<<<"ahead">>, j + 2>> ELSE PNum(ts, j + 1, "ahead")
  IN CASE w \in {"max_look_ahead_depth", "lookahead", "lookup"} -> value(i + 1)
       [] At(ts, i, <<"max", "depth">>) -> value(i + 2)
       [] w \in {"modulo", "modulo_each_X_steps"} -> PEqNum(ts, i + 1, "modulo")
       [] w = "select" -> IF W(ts, i + 1) # "=" THEN Fail
                          ELSE IF W(ts, i + 2) \in {"all", "All", "ALL"} THEN <<<<"select", "all">>, i + 3>>
                          ELSE IF W(ts, i + 2) \in {"dirty", "Dirty", "DIRTY"} THEN <<<<"select", "dirty">>, i + 3>> ELSE Fail
       [] OTHER -> Fail

RECURSIVE PItems(_, _, _)
(* [ item , item , ... ] possibly with a last comma *)
PItem(what, ts, i) ==
  CASE what = "filters" -> PFilter(ts, i)
    [] what = "priorities" -> PPriority(ts, i)
    [] what = "simulate" -> PSimulate(ts, i)
    [] what = "local_analysis" -> PLocal(ts, i)
    [] what = "graphic" -> PGraphicOpt(ts, i)
    [] what = "tracegen" -> PTracegenOpt(ts, i)
PItems(what, ts, i) ==
  LET r == PItem(what, ts, i)
  IN IF r = Fail THEN Fail
     ELSE IF W(ts, r[2]) = "]" THEN <<<<r[1]>>, r[2] + 1>>
     ELSE IF W(ts, r[2]) # "," THEN Fail
     ELSE IF W(ts, r[2] + 1) = "]" THEN <<<<r[1]>>, r[2] + 2>>
     ELSE LET s == PItems(what, ts, r[2] + 1) IN IF s = Fail THEN Fail ELSE <<(<<r[1]>> \o s[1]), s[2]>>
PBracket(what, ts, i) == IF W(ts, i) # "[" THEN Fail ELSE PItems(what, ts, i + 1)
(* the same, optional *)
PMaybe(what, ts, i) == IF W(ts, i) # "[" THEN <<<<>>, i>> ELSE PItems(what, ts, i + 1)

PLogger(ts, i) ==
  LET w == W(ts, i) IN
  CASE w \in {"graphic", "tracegen"} -> LET r == PMaybe(w, ts, i + 1) IN IF r = Fail THEN Fail ELSE <<<<w, r[1]>>, r[2]>>
    [] w \in {"nfa", "nfait"} -> <<<<"nfa", <<>>>>, i + 1>>
    [] OTHER -> Fail
RECURSIVE PLoggers(_, _)
PLoggers(ts, i) ==
  LET r == PLogger(ts, i)
  IN IF r = Fail THEN Fail
     ELSE IF W(ts, r[2]) = "]" THEN <<<<r[1]>>, r[2] + 1>>
     ELSE IF W(ts, r[2]) # "," THEN Fail
     ELSE IF W(ts, r[2] + 1) = "]" THEN <<<<r[1]>>, r[2] + 2>>
     ELSE LET s == PLoggers(ts, r[2] + 1) IN IF s = Fail THEN Fail ELSE <<(<<r[1]>> \o s[1]), s[2]>>

PStrategy(ts, i) ==
  LET w == W(ts, i) IN
  CASE w \in {"BreadthFS", "BFS"} -> <<<<"strategy", "BFS">>, i + 1>>
    [] w \in {"DepthFS", "DFS"} -> <<<<"strategy", "DFS">>, i + 1>>
    [] w \in {"HighCoverageS", "HCS"} -> <<<<"strategy", "HCS">>, i + 1>>
    [] At(ts, i, <<"Breadth", "First", "Search">>) -> <<<<"strategy", "BFS">>, i + 3>>
    [] At(ts, i, <<"Depth", "First", "Search">>) -> <<<<"strategy", "DFS">>, i + 3>>
    [] At(ts, i, <<"High", "Coverage", "Search">>) -> <<<<"strategy", "HCS">>, i + 3>>
    [] OTHER -> Fail

Labelled(tag, r) == IF r = Fail THEN Fail ELSE <<<<tag, r[1]>>, r[2]>>

PGeneral(ts, i) ==
  LET w == W(ts, i) eq == W(ts, i + 1) = "=" IN
  CASE w = "loggers" /\ eq /\ W(ts, i + 2) = "[" -> Labelled(w, PLoggers(ts, i + 3))
    [] w = "strategy" /\ eq -> PStrategy(ts, i + 2)
    [] w \in {"filters", "priorities"} /\ eq -> Labelled(w, PBracket(w, ts, i + 2))
    [] w = "memoize" -> PBool(ts, i + 1, "memoize")
    [] OTHER -> Fail
PAnalyze(ts, i) ==
  LET w == W(ts, i) v == W(ts, i + 2) eq == W(ts, i + 1) = "=" IN
  CASE w = "analysis_kind" /\ eq /\ v \in {"accept", "prefix", "eliminate"} -> <<<<"kind", v>>, i + 3>>
    [] w = "analysis_kind" /\ eq /\ v = "simulate" -> LET r == PMaybe(v, ts, i + 3)
                                                     IN IF r = Fail THEN Fail ELSE <<<<"kind", v, r[1]>>, r[2]>>
    [] w = "goal" /\ eq /\ v \in {"Pass", "WeakPass"} -> <<<<"goal", v>>, i + 3>>
    [] w = "goal" /\ eq /\ v \in Nones -> <<<<"goal", "none">>, i + 3>>
    [] w = "local_analysis" /\ eq /\ v \in Nones -> <<<<"local", FALSE, <<>>>>, i + 3>>
    [] w = "local_analysis" /\ eq -> LET r == PBracket(w, ts, i + 2) IN IF r = Fail THEN Fail ELSE <<<<"local", TRUE, r[1]>>, r[2]>>
    [] w \in {"partial_order_reduction", "por", "POR"} -> PBool(ts, i + 1, "por")
    [] OTHER -> PGeneral(ts, i)
PCanonize(ts, i) ==
  IF W(ts, i) = "search_all"
  THEN IF W(ts, i + 1) = "=" THEN PBool(ts, i + 1, "search_all") ELSE <<<<"search_all", TRUE>>, i + 1>>
  ELSE PGeneral(ts, i)

PDecl(sec, ts, i) == CASE sec = "explore_option" -> PGeneral(ts, i)
                       [] sec = "analyze_option" -> PAnalyze(ts, i)
                       [] sec = "canonize_option" -> PCanonize(ts, i)
RECURSIVE PDecls(_, _, _)
PDecls(sec, ts, i) ==
  LET r == PDecl(sec, ts, i)
  IN IF r = Fail THEN Fail
     ELSE IF W(ts, r[2]) = "}" THEN <<<<r[1]>>, r[2] + 1>>
     ELSE IF W(ts, r[2]) # ";" THEN Fail
     ELSE IF W(ts, r[2] + 1) = "}" THEN <<<<r[1]>>, r[2] + 2>>
     ELSE LET s == PDecls(sec, ts, r[2] + 1) IN IF s = Fail THEN Fail ELSE <<(<<r[1]>> \o s[1]), s[2]>>

RECURSIVE PFile(_, _)
PFile(ts, i) ==
  IF i = Len(ts) + 1 THEN <<<<>>, i>>
  ELSE LET sec == IF K(ts, i) = "@" THEN ts[i].w ELSE ""
       IN IF sec \notin {"explore_option", "analyze_option", "canonize_option"} \/ W(ts, i + 1) # "{" THEN Fail
          ELSE LET r == PDecls(sec, ts, i + 2)
               IN IF r = Fail THEN Fail
                  ELSE LET s == PFile(ts, r[2]) IN IF s = Fail THEN Fail ELSE <<(<<<<sec, r[1]>>>> \o s[1]), s[2]>>

-----------------------------------------------------------------------------
(* Meaning.  Numbers are digit sequences, they may not fit in TLC's integers. *)
RECURSIVE LeqDigits(_, _)
LeqDigits(a, b) == \/ a = <<>>
                   \/ a[1] < b[1]
                   \/ a[1] = b[1] /\ LeqDigits(Tail(a), Tail(b))
AtMost(n, max) == Len(n) < Len(max) \/ (Len(n) = Len(max) /\ LeqDigits(n, max))
MaxNat    == <<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>>       \* 4294967295
MaxLevel  == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>       \* 2147483647
MinLevel  == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>       \* 2147483648, negative
Zero == <<48>>
Nat32(n) == AtMost(n, MaxNat)

LastOf(ds, tag) == { i \in 1..Len(ds) : ds[i][1] = tag /\ \A j \in (i + 1)..Len(ds) : ds[j][1] # tag }
Has(ds, tag) == LastOf(ds, tag) # {}
Get(ds, tag) == ds[CHOOSE i \in LastOf(ds, tag) : TRUE]
Val(ds, tag, default) == IF Has(ds, tag) THEN Get(ds, tag)[2] ELSE default
Each(ds, tag) == { i \in 1..Len(ds) : ds[i][1] = tag }

FilterOk(f)    == Nat32(f[2])
PriorityOk(p, mine) == p[1] = "randomize" \/ (p[1] \in mine /\ AtMost(p[3], IF p[2] THEN MinLevel ELSE MaxLevel))
SimulateOk(o)  == o[1] \in {"loop", "act"} => (o[2][1] = "num" => Nat32(o[2][2]))
LocalOk(o)     == Len(o) = 2 /\ o[1] \in {"ahead", "modulo"} => Nat32(o[2])
(* the blocks of a partition are made of known lifelines, none twice *)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Concat(Tail(ss))
TracegenOk(sig, o) ==
  CASE o[1] = "exact" -> Nat32(o[2])
    [] o[1] = "modulo" -> Nat32(o[2]) /\ o[2] # Zero
    [] o[1] = "blocks" -> AllLf(sig, Concat(o[2])) /\ Distinct(Concat(o[2]))
    [] OTHER -> TRUE
LoggerOk(sig, l) == l[1] = "tracegen" => \A i \in 1..Len(l[2]) : TracegenOk(sig, l[2][i])

(* tags and loggers the command knows *)
Mine(cmd) == CASE cmd = "explore"  -> {"loggers", "strategy", "filters", "priorities", "memoize"}
               [] cmd = "analyze"  -> {"loggers", "strategy", "filters", "priorities", "memoize", "kind", "goal", "local", "por"}
               [] cmd = "canonize" -> {"loggers", "search_all"}
MyLoggers(cmd) == CASE cmd = "explore" -> {"graphic", "tracegen", "nfa"} [] cmd = "analyze" -> {"graphic", "tracegen"}
                    [] cmd = "canonize" -> {"graphic"}
MyPriorities(cmd) == {"emission", "reception", "loop", "multi_rdv"} \cup (IF cmd = "analyze" THEN {"elim", "simu"} ELSE {})

DeclOk(cmd, sig, d) ==
  /\ d[1] \in Mine(cmd)
  /\ d[1] = "loggers" => \A i \in 1..Len(d[2]) : d[2][i][1] \in MyLoggers(cmd) /\ LoggerOk(sig, d[2][i])
  /\ d[1] = "filters" => \A i \in 1..Len(d[2]) : FilterOk(d[2][i])
  /\ d[1] = "priorities" => \A i \in 1..Len(d[2]) : PriorityOk(d[2][i], MyPriorities(cmd))
  /\ d[1] = "kind" /\ Len(d) = 3 => \A i \in 1..Len(d[3]) : SimulateOk(d[3][i])
  /\ d[1] = "local" => \A i \in 1..Len(d[3]) : LocalOk(d[3][i])

Level(ps, w) == IF ~Has(ps, w) THEN "0"
                ELSE LET p == Get(ps, w) IN IF p[2] /\ p[3] # Zero THEN "-" \o Str(p[3]) ELSE Str(p[3])
Levels(cmd, ds) ==
  IF ~Has(ds, "priorities")
  THEN [w \in MyPriorities(cmd) |-> CASE w = "elim" -> "1" [] w = "simu" -> "-1" [] OTHER -> "0"]
  ELSE [w \in MyPriorities(cmd) |-> Level(Get(ds, "priorities")[2], w)]
Randomized(ds) == Has(ds, "priorities") /\ Val(Get(ds, "priorities")[2], "randomize", FALSE)

(* when a filter <<kind, n>> cuts: the least depth, loop depth, or number of nodes it does not let pass *)
Filter(f) == <<f[1], Str(f[2])>>
Filters(cmd, ds, section) ==
  IF Has(ds, "filters") THEN LET fs == Get(ds, "filters")[2] IN [i \in 1..Len(fs) |-> Filter(fs[i])]
  ELSE IF cmd = "explore" /\ ~section THEN <<<<"loop", "1">>>> ELSE <<>>

Criterion(o) == IF o[1] = "num" THEN Str(o[2]) ELSE o[1]
Simulation(os) ==
  [kind |-> "simulate", before |-> Val(os, "before", FALSE), reset |-> Val(os, "reset", FALSE),
   multiply |-> Val(os, "multiply", FALSE),
   loop |-> IF Has(os, "loop") THEN Criterion(Get(os, "loop")[2]) ELSE "maxdepth",
   act |-> IF Has(os, "act") THEN Criterion(Get(os, "act")[2]) ELSE "none"]
Kind(ds) == IF ~Has(ds, "kind") THEN [kind |-> "prefix"]
            ELSE LET d == Get(ds, "kind") IN IF d[2] = "simulate" THEN Simulation(d[3]) ELSE [kind |-> d[2]]
Local(ds) ==
  LET os == IF Has(ds, "local") THEN Get(ds, "local")[3] ELSE <<>>
      ahead == IF Has(os, "ahead") THEN LET o == Get(os, "ahead") IN IF Len(o) = 2 THEN Str(o[2]) ELSE "none" ELSE "none"
  IN IF Has(ds, "local") /\ ~Get(ds, "local")[2] THEN [on |-> FALSE]
     ELSE [on |-> TRUE, select |-> Val(os, "select", "dirty"), ahead |-> ahead, modulo |-> IF Has(os, "modulo") THEN Str(Get(os, "modulo")[2]) ELSE "1"]

Loggers(ds) == IF Has(ds, "loggers") THEN Len(Get(ds, "loggers")[2]) ELSE 0

Meaning(cmd, ds, section) ==
  LET general == [loggers |-> Loggers(ds), strategy |-> Val(ds, "strategy", IF cmd = "analyze" /\ ~section THEN "DFS" ELSE "BFS"),
                  memoize |-> Val(ds, "memoize", cmd = "analyze"), filters |-> Filters(cmd, ds, section),
                  levels |-> Levels(cmd, ds), randomize |-> Randomized(ds)]
  IN CASE cmd = "explore" -> general
       [] cmd = "analyze" -> general @@ [kind |-> Kind(ds), goal |-> Val(ds, "goal", "WeakPass"),
                                         local |-> Local(ds), por |-> Val(ds, "por", FALSE)]
       [] cmd = "canonize" -> [loggers |-> Loggers(ds), search_all |-> Val(ds, "search_all", FALSE)]

(* the options of a command as told by a configuration file *)
Options(cmd, sig, cs) ==
  LET p == PFile(OScanFrom(cs, 1), 1)
      own == IF p = Fail THEN {} ELSE { i \in 1..Len(p[1]) : p[1][i][1] = cmd \o "_option" }
      ds == IF own = {} THEN <<>> ELSE p[1][CHOOSE i \in own : TRUE][2]
  IN IF p = Fail THEN Err("syntax")
     ELSE IF Cardinality(own) > 1 THEN Err("section declared twice")
     ELSE IF \E i \in 1..Len(ds) : ~DeclOk(cmd, sig, ds[i]) THEN Err("option")
     ELSE Ok(Meaning(cmd, ds, own # {}))

-----------------------------------------------------------------------------
(* Names of files: the extension is what follows the last dot, unless that  *)
(* dot is the first character.  A command refuses a file of another kind.   *)
LastDot(n) == LET ds == { i \in 1..Len(n) : n[i] = 46 } IN IF ds = {} THEN 0 ELSE CHOOSE i \in ds : \A j \in ds : j <= i
Extension(n) == IF LastDot(n) <= 1 THEN <<>> ELSE SubSeq(n, LastDot(n) + 1, Len(n))
FilesOk(names, kinds) == Len(names) = Len(kinds) /\ \A i \in 1..Len(names) : Extension(names[i]) = kinds[i]

(* Numbers given on the command line: blanks around do not matter.          *)
RECURSIVE NoZeros(_)
NoZeros(n) == IF Len(n) > 1 /\ n[1] = 48 THEN NoZeros(Tail(n)) ELSE n
NumberOk(cs) ==
  LET solid == SelectSeq(cs, LAMBDA x : x \notin {32, 9, 10, 13})
      n == IF solid # <<>> /\ solid[1] = 43 THEN Tail(solid) ELSE solid
  IN n # <<>> /\ (\A i \in 1..Len(n) : Digit(n[i])) /\ Nat32(NoZeros(n))
Positive(cs) == \E i \in 1..Len(cs) : cs[i] \in 49..57
=============================================================================
