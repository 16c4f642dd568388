------------------------------ MODULE Conf_Search ------------------------------
(***************************************************************************)
(* Trace validation of the search: the recorded decisions of a run (ops:   *)
(* steps taken and steps cut, in order) must be a behaviour of             *)
(* HibouSearch.  The record does not tell which step was cut; among those  *)
(* it may have been one with the fewest reasons to be cut is taken: they   *)
(* will all be cut, and the others remain explainable.                     *)
(***************************************************************************)
EXTENDS HibouSearch, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c,      \* the case
          i,      \* the next recorded decision
          queue,  \* nodes with remaining steps
          rem,    \* the remaining steps of each node of the queue (by position in queue)
          had,    \* nodes of the queue one of whose steps was taken
          leaf,   \* the node last reached cannot be left
          info,   \* [depth |-> of each node, leaves |-> number of times told to be a leaf, known |-> number of nodes, g |-> verdict, cut |-> something was]
          bad
vars == <<c, i, queue, rem, had, leaf, info, bad>>

C == Cases[c]
Op == C.ops[i]
Node(n) == C.nodes[n]
Stops(n) == Node(n).stat /\ Node(n).w \in {"Out", "OutSim"}     \* a local analysis has shown that nothing will come of it
Leaf(n) == Node(n).s = <<>> \/ Stops(n)
Told(n) == Node(n).w # ""

Init == /\ c \in 1..Len(Cases)
        /\ i = 1
        /\ queue = IF Leaf(1) THEN <<>> ELSE <<1>>
        /\ rem = IF Leaf(1) THEN <<>> ELSE << Node(1).s >>
        /\ had = {}
        /\ leaf = TRUE
        /\ info = [depth |-> <<0>>, leaves |-> <<IF Leaf(1) THEN 1 ELSE 0>>, known |-> 1, g |-> Worth(Node(1).w), cut |-> FALSE]
        /\ bad = ""

Pos == Served(C.cfg, queue, leaf)
P == queue[Pos]
Depth == info.depth[P] + 1
Loop(f) == Node(P).v[1] + f[4]
Covering(op) == { m \in 1..info.known : Covers(Node(m), op.k, op.v) }
Same(op) == { m \in 1..info.known : Node(m).k = op.k /\ Node(m).v = op.v }
Reached(op) == IF op.new THEN info.known + 1 ELSE op.to

(* The decision Op can be made about the step at place j of the node P. *)
Allowed(j) ==
  LET f == rem[Pos][j] IN
  /\ Op.p = P
  /\ IF Op.cut # ""
     THEN Op.cut \in Cuts(C.cfg, Depth, Loop(f), info.known)
     ELSE /\ Op.f = f
          /\ Cuts(C.cfg, Depth, Loop(f), info.known) = {}
          /\ Op.d = Depth
          /\ Op.v[1] = Loop(f)
          /\ IF Op.new THEN /\ Op.to = info.known + 1 /\ Op.to <= Len(C.nodes)
                            /\ Node(Op.to).k = Op.k /\ Node(Op.to).v = Op.v
                            /\ C.cfg.memo => Same(Op) = {}
             ELSE C.cfg.memo /\ Op.to \in Covering(Op)

Candidates == { j \in Foremost(C.cfg, rem[Pos]) : Allowed(j) }
Reasons(j) == Cardinality(Cuts(C.cfg, Depth, Loop(rem[Pos][j]), info.known))
Open == queue # <<>> /\ ~GoalReached(C.cfg, info.g)

Decide ==
  /\ bad = "" /\ i <= Len(C.ops) /\ Open
  /\ Candidates # {}
  /\ LET   j     == CHOOSE x \in Candidates : \A y \in Candidates : Reasons(x) <= Reasons(y)
           taken == Op.cut = ""
           fresh == taken /\ Op.new
           n     == info.known + 1
           rest  == Without(rem[Pos], j)
           had1  == IF taken THEN had \cup {P} ELSE had
           gone  == rest = <<>>
           lone  == gone /\ P \notin had1
           q1    == IF gone THEN Without(queue, Pos) ELSE queue
           r1    == IF gone THEN Without(rem, Pos) ELSE [rem EXCEPT ![Pos] = rest]
           in    == fresh /\ ~Leaf(n)
           lv    == [info.leaves EXCEPT ![P] = @ + (IF lone THEN 1 ELSE 0)]
       IN /\ queue' = IF in THEN Append(q1, n) ELSE q1
          /\ rem' = IF in THEN Append(r1, Node(n).s) ELSE r1
          /\ had' = IF gone THEN had1 \ {P} ELSE had1
          /\ leaf' = (lone \/ (fresh /\ Leaf(n)) \/ (C.cfg.strategy # "HCS"))
          /\ info' = [depth |-> IF fresh THEN Append(info.depth, Depth) ELSE info.depth,
                      leaves |-> IF fresh THEN Append(lv, IF Leaf(n) THEN 1 ELSE 0) ELSE lv,
                      known |-> IF fresh THEN n ELSE info.known,
                      g |-> IF fresh THEN Best(info.g, Worth(Node(n).w)) ELSE info.g,
                      cut |-> info.cut \/ ~taken]
  /\ i' = i + 1 /\ UNCHANGED <<c, bad>>

(* Why the recorded run is no run of the search. *)
Why ==
  IF ~Open THEN "goes-on-after-the-end"
  ELSE IF Op.p # P THEN "wrong-node-served"
  ELSE IF Op.cut # "" THEN "cut-without-reason"
  ELSE IF ~ \E j \in 1..Len(rem[Pos]) : rem[Pos][j] = Op.f THEN "unknown-step"
  ELSE IF ~ \E j \in Foremost(C.cfg, rem[Pos]) : rem[Pos][j] = Op.f THEN "priorities-not-respected"
  ELSE IF Cuts(C.cfg, Depth, Loop(Op.f), info.known) # {} THEN "not-cut"
  ELSE IF Op.d # Depth \/ Op.v[1] # Loop(Op.f) THEN "wrong-depth"
  ELSE IF ~Op.new THEN "wrongly-recognised"
  ELSE "not-recognised"

Stuck ==
  /\ bad = "" /\ i <= Len(C.ops) /\ (~Open \/ Candidates = {})
  /\ bad' = Why /\ UNCHANGED <<c, i, queue, rem, had, leaf, info>>

Ended == i > Len(C.ops)
EndVerdict ==
  IF Open THEN "ends-too-early"
  ELSE IF C.count # info.known \/ Len(C.nodes) # info.known THEN "wrong-number-of-nodes"
  ELSE IF C.final # Final(C.kind, info.g, info.cut) THEN "wrong-verdict"
  ELSE IF \E n \in 1..info.known : Node(n).t # info.leaves[n] /\ ~GoalReached(C.cfg, info.g) THEN "leaves-not-told"
  ELSE IF \E n \in 1..info.known : Node(n).s = <<>> /\ ~Told(n) THEN "leaf-without-verdict"
  ELSE IF C.kind = "exp" /\ \E n \in 1..info.known :
            Node(n).w # (IF Node(n).e THEN "Accepting" ELSE IF Node(n).s = <<>> THEN "DeadLocked" ELSE "") THEN "wrong-node-verdict"
  ELSE ""
Finish == /\ bad = "" /\ Ended
          /\ bad' = EndVerdict /\ bad' # "" /\ UNCHANGED <<c, i, queue, rem, had, leaf, info>>

Next == Decide \/ Stuck \/ Finish
Spec == Init /\ [][Next]_vars

Report == bad # "" => PrintT(<<"BAD", C.id, bad, i>>)
=============================================================================
