------------------------------- MODULE MCList -------------------------------
(***************************************************************************)
(* A few goroutines use the node list at the same time.  Every operation   *)
(* takes effect at some moment between its beginning and its end; loading  *)
(* adds one node after the other.  In every interleaving the results are   *)
(* those that ZwList allows, so that ListTrace never takes a correct list  *)
(* for a wrong one; and no addition is lost.                               *)
(***************************************************************************)
EXTENDS ZwList, ScriptSel, Json, SequencesExt, TLC

CONSTANT Wrong  \* "": as specified; otherwise what the list does wrong

VARIABLES sc, m, l, p, bad
vars == <<sc, m, l, p, bad>>

Procs == 1..3
PerProc == <<2, 1, 1>>
Ops == << [op |-> "add", n |-> 2], [op |-> "add", n |-> 3], [op |-> "get", n |-> 2], [op |-> "get", n |-> 3],
          [op |-> "all", n |-> 0], [op |-> "json", n |-> 0], [op |-> "load", n |-> 0], [op |-> "report", n |-> 2] >>
File == {<<2, 12>>, <<4, 14>>}
Total == 8 * 8 * 8 * 8
Script(i) == LET d == Digits(i, <<8, 8, 8, 8>>) IN [n |-> i, ops |-> << <<Ops[d[1] + 1], Ops[d[2] + 1]>>, <<Ops[d[3] + 1]>>, <<Ops[d[4] + 1]>> >>]
ASSUME ndJsonSerialize(IOEnv.SCRIPTS_OUT, SetToSeq({Script(i) : i \in Replayed(Total)}))

Id(q, j) == 10 * q + j           \* of an operation, and the token of the node it adds
Init ==
    /\ sc \in {Script(i) : i \in Picked(Total)}
    /\ m = {<<2, 12>>} /\ bad = {}       \* one of the nodes of the file is there
    /\ l = EndAdd(BeginAdds(ListInit, 0, {<<2, 12>>}), 0)
    /\ p = [q \in Procs |-> [j |-> 1, at |-> "before", b |-> 0, todo |-> {}, res |-> {}]]

Cur(q) == sc.ops[q][p[q].j]
Put(s, x) == {y \in s : y[1] # x[1]} \cup {x}

Call(q) ==
    /\ p[q].j <= PerProc[q] /\ p[q].at = "before"
    /\ LET o == Cur(q) id == Id(q, p[q].j) IN
       /\ l' = CASE o.op = "add" -> BeginAdd(l, id, o.n, id) [] o.op = "load" -> BeginAdds(l, id, File) [] OTHER -> Tick(l)
       /\ p' = [p EXCEPT ![q].at = "in", ![q].b = l.clock,
                         ![q].todo = CASE o.op = "add" -> {<<o.n, id>>} [] o.op = "load" -> File [] OTHER -> {},
                         ![q].res = m]
    /\ UNCHANGED <<sc, m, bad>>

(* One node gets into the list. *)
Effect(q) ==
    /\ p[q].j <= PerProc[q] /\ p[q].at = "in"
    /\ \E x \in p[q].todo :
        /\ m' = IF Wrong = "lost" /\ \E r \in Procs \ {q} : p[r].at = "in" /\ p[r].todo # {} THEN m ELSE Put(m, x)
        /\ p' = [p EXCEPT ![q].todo = @ \ {x}]
    /\ UNCHANGED <<sc, l, bad>>

Look(q) ==
    /\ p[q].j <= PerProc[q] /\ p[q].at = "in" /\ p[q].todo = {}
    /\ p' = [p EXCEPT ![q].at = "out", ![q].res = IF Wrong = "stale" THEN {x \in @ : x[2] # 12} ELSE {x \in m : Cur(q).op # "get" \/ x[1] = Cur(q).n}]
    /\ UNCHANGED <<sc, m, l, bad>>

Ret(q) ==
    /\ p[q].j <= PerProc[q] /\ p[q].at = "out"
    /\ LET o == Cur(q) r == SetToSeq(p[q].res) IN
       /\ l' = IF o.op \in {"add", "load"} THEN EndAdd(l, Id(q, p[q].j)) ELSE Tick(l)
       /\ bad' = IF o.op \notin {"get", "all", "json"} THEN bad
                 ELSE bad \cup (IF Lost(l, IF o.op = "get" THEN {o.n} ELSE Numbers(l), r, p[q].b) THEN {"misses"} ELSE {})
                          \cup (IF Foreign(l, r, p[q].b) THEN {"wrong"} ELSE {}) \cup (IF Twice(r) THEN {"twice"} ELSE {})
    /\ p' = [p EXCEPT ![q].at = "before", ![q].j = @ + 1]
    /\ UNCHANGED <<sc, m>>

Next == \E q \in Procs : Call(q) \/ Effect(q) \/ Look(q) \/ Ret(q)
Spec == Init /\ [][Next]_vars

Allowed == bad = {}
AllThere == (\A q \in Procs : p[q].j > PerProc[q]) => {x[1] : x \in m} = Numbers(l)
NoneTwice == Twice(SetToSeq(m)) = FALSE
=============================================================================
