------------------------------- MODULE MCNode -------------------------------
(***************************************************************************)
(* What a few reports and alarms of two nodes do, in every behaviour: the  *)
(* values, the end of alarms, and the events that wait for the             *)
(* application.  Time is in ticks of a twentieth of a second.              *)
(***************************************************************************)
EXTENDS ZwNodes, ScriptSel, Json, SequencesExt, FiniteSets

CONSTANT QueueMax
VARIABLES sc, k, now, v, due, q, hist, taken

vars == <<sc, k, now, v, due, q, hist, taken>>

Second == 20

Rep(node, d) == FrameOf(0, <<FnReport, 0, node, Len(d)>> \o d)
Tokens == << Rep(2, <<CCSwitchBinary, 3, 255>>), Rep(2, <<CCSwitchBinary, 3, 0>>), Rep(2, <<CCSwitchMultilevel, 3, 40>>),
             Rep(2, <<CCAlarm, 5, 7, 1, 0, 255, 7, 3, 0>>), Rep(2, <<CCAlarm, 5, 6, 1, 0, 255, 6, 3, 0>>),
             Rep(2, <<CCAlarm, 5, 7, 0, 0, 0, 7, 0, 0>>), Rep(2, <<CCSensorMultilevel, 5, 1, 34, 0, 215>>),
             Rep(3, <<CCSwitchBinary, 3, 255>>), Rep(3, <<CCAlarm, 5, 0, 0, 0, 255, 7, 3, 0>>), Rep(9, <<CCSwitchBinary, 3, 255>>) >>
Gaps == <<0, 1, 6, 19, 21, 45>>
Length == 5
Base == [i \in 1..2 * Length |-> IF i <= Length THEN Len(Tokens) ELSE Len(Gaps)]
Total == 100000 * 7776
Script(i) == LET d == Digits(i, Base) IN
    [n |-> i, tok |-> [j \in 1..Length |-> d[j] + 1], gap |-> [j \in 1..Length |-> d[Length + j] + 1]]

ASSUME ndJsonSerialize(IOEnv.SCRIPTS_OUT,
          SetToSeq({LET x == Script(i) IN [n |-> i, b |-> [j \in 1..Length |-> Tokens[x.tok[j]]], gap |-> x.gap] : i \in Replayed(Total)}))

Nodes == {2, 3}
RECURSIVE AtFrom(_, _)
AtFrom(x, j) == IF j = 0 THEN 0 ELSE AtFrom(x, j - 1) + Gaps[x.gap[j]]
At(j) == AtFrom(sc, j)

Init ==
    /\ sc \in {Script(i) : i \in Picked(Total)}
    /\ k = 1 /\ now = 0
    /\ v = [n \in Nodes |-> [x \in {"b:on"} |-> <<>>]]
    /\ due = [n \in Nodes |-> -1]
    /\ q = <<>> /\ hist = <<>> /\ taken = 0

RECURSIVE Put(_, _)
Put(f, as) == IF as = <<>> THEN f ELSE Put((as[1].k :> as[1].v) @@ f, Tail(as))

(* An event for node n; whether there is one although nothing has changed is open. *)
Push(n, as) ==
    LET same == \A i \in 1..Len(as) : as[i].k \in DOMAIN v[n] /\ v[n][as[i].k] = as[i].v
        full == Len(q) >= QueueMax
    IN \/ ~full /\ q' = Append(q, [n |-> n, at |-> Len(hist) + 1])
       \/ (full \/ same) /\ UNCHANGED q

Deliver ==
    /\ k <= Length /\ now = At(k)
    /\ k' = k + 1
    /\ LET m == DecodeFrame(Tokens[sc.tok[k]])
           n == m.node
           as == IF ~m.ok \/ n \notin Nodes THEN <<>> ELSE IF ActiveAlarm(m) THEN AlarmSet(m) ELSE Assignments(m)
       IN IF as = <<>> THEN UNCHANGED <<v, due, q, hist>>
          ELSE /\ v' = [v EXCEPT ![n] = Put(@, as)]
               /\ due' = IF ActiveAlarm(m) THEN [due EXCEPT ![n] = now + Second] ELSE due
               /\ Push(n, as)
               /\ hist' = Append(hist, [n |-> n, t |-> now, as |-> as, alarm |-> ActiveAlarm(m), v |-> v'[n], full |-> Len(q) >= QueueMax])
    /\ UNCHANGED <<sc, now, taken>>

EndAlarm ==
    \E n \in Nodes :
        /\ due[n] = now
        /\ due' = [due EXCEPT ![n] = -1]
        /\ v' = [v EXCEPT ![n] = Put(@, AlarmEnd)]
        /\ Push(n, AlarmEnd)
        /\ hist' = Append(hist, [n |-> n, t |-> now, as |-> AlarmEnd, alarm |-> FALSE, v |-> v'[n], full |-> Len(q) >= QueueMax])
        /\ UNCHANGED <<sc, k, now, taken>>

Take ==
    /\ q # <<>>
    /\ q' = Tail(q) /\ taken' = taken + 1
    /\ UNCHANGED <<sc, k, now, v, due, hist>>

Horizon == 270
TickIt ==
    /\ now < Horizon
    /\ k <= Length => At(k) > now
    /\ \A n \in Nodes : due[n] # now
    /\ now' = (* to the next thing that happens *)
        LET T == {due[n] : n \in {n \in Nodes : due[n] > now}} \cup (IF k <= Length THEN {At(k)} ELSE {}) \cup {Horizon}
        IN CHOOSE t \in T : \A u \in T : t <= u
    /\ UNCHANGED <<sc, k, v, due, q, hist, taken>>

Next == Deliver \/ EndAlarm \/ Take \/ TickIt
Spec == Init /\ [][Next]_vars

(* ---- properties *)
Sets(h, key) == {i \in 1..Len(h.as) : h.as[i].k = key}
LastSet(n, key) ==
    LET I == {i \in 1..Len(hist) : hist[i].n = n /\ Sets(hist[i], key) # {}} IN
    IF I = {} THEN <<>>
    ELSE LET h == hist[CHOOSE i \in I : \A j \in I : j <= i] IN h.as[CHOOSE i \in Sets(h, key) : TRUE].v
(* C15: every value is that of the last report about it *)
LastWins == \A n \in Nodes : \A key \in DOMAIN v[n] : v[n][key] = LastSet(n, key)
(* C16: an alarm is on while a second has not passed since the last report of one *)
AlarmIsOn == \A n \in Nodes :
    LET A == {hist[i].t : i \in {i \in 1..Len(hist) : hist[i].n = n /\ hist[i].alarm}} IN
    IF \E t \in A : now < t + Second THEN v[n]["b:alarm"] = <<1>>
    ELSE (\A t \in A : now > t + Second) /\ A # {} => v[n]["b:alarm"] = <<0>> /\ v[n]["f:alarm"] = <<0, 0>>
(* C17: at most ten wait; what an event tells about is there; they are in order *)
Waiting == Len(q) <= QueueMax
Visible == \A i \in 1..Len(q) : q[i].at <= Len(hist)
InOrder == \A i, j \in 1..Len(q) : i < j => q[i].at < q[j].at
(* nothing is lost while there is room: there is an event for every change that did not find the queue full *)
Change(i) == \E j \in 1..Len(hist[i].as) :
    LET a == hist[i].as[j] P == {p \in 1..i - 1 : hist[p].n = hist[i].n} IN
    P = {} \/ LET w == hist[CHOOSE p \in P : \A o \in P : o <= p].v IN a.k \notin DOMAIN w \/ w[a.k] # a.v
NoneLost == taken + Len(q) >= Cardinality({i \in 1..Len(hist) : Change(i) /\ ~hist[i].full})
=============================================================================
