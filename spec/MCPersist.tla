----------------------------- MODULE MCPersist ------------------------------
(***************************************************************************)
(* How changes get into the configuration file: reports that change a node *)
(* (or do not), the delay of ten seconds, saves on their own and by the    *)
(* application, one after the other, a disk that fails at any of the       *)
(* steps, and what is in the file at every moment, which is what a restart *)
(* after a crash at that moment finds.  Time is in ticks of 0.1 s.         *)
(***************************************************************************)
EXTENDS ScriptSel, Integers, Sequences, FiniteSets, Json, SequencesExt, TLC

CONSTANTS Delay, SaveTime  \* 100, and how long a save may take

VARIABLES sc, now, k,      \* the script, the time, the next step of it
          mem, lastRep,    \* the state of the nodes (a number) and when the last report came
          trig, due,       \* a report has not been noticed yet; when the state is to be saved (-1: not)
          pc, snap, since, lock,  \* of the two savers: "auto" and "app"
          file, tmp,       \* [v |-> state, part |-> incomplete] or <<>>
          room,            \* what fits before the disk is full (late: unnoticed until it is synced)
          written, stored, \* when the file was replaced and by whom; the last state that is known to have been stored
          faultAt

vars == <<sc, now, k, mem, lastRep, trig, due, pc, snap, since, lock, file, tmp, room, written, stored, faultAt>>
Savers == {"auto", "app"}

(* ---- scripts: five reports or saves, and a fault of the disk for a while *)
Ops  == <<"change", "change", "same", "back", "save">>
Gaps == <<0, 3, 40, 97, 103, 210>>
Kinds == <<"none", "none", "open", "write", "late", "sync", "close", "rename", "unlink">>
Froms == <<0, 40, 99, 101, 103>>     \* when the fault begins, after the first step
Tos  == <<2, 6, 120>>          \* for how long
Rooms == <<0, 1, 100>>
Steps == 5
Base == <<5, 5, 5, 5, 6, 6, 6, 6, 9, 5, 3, 3>>
Total == 625 * 1296 * 405
Script(i) == LET d == Digits(i, Base) IN
    [n |-> i, op |-> <<"change">> \o [j \in 1..4 |-> Ops[d[j] + 1]], gap |-> <<0>> \o [j \in 1..4 |-> Gaps[d[4 + j] + 1]],
     kind |-> Kinds[d[9] + 1], from |-> Froms[d[10] + 1], for |-> Tos[d[11] + 1], room |-> Rooms[d[12] + 1]]

ASSUME ndJsonSerialize(IOEnv.SCRIPTS_OUT, SetToSeq({Script(i) : i \in Replayed(Total)}))

RECURSIVE AtFrom(_, _)
AtFrom(x, j) == IF j = 0 THEN 0 ELSE AtFrom(x, j - 1) + x.gap[j]
At(j) == AtFrom(sc, j)
Fault(kind) == sc.kind = kind /\ now >= sc.from /\ now < sc.from + sc.for

Whole(v) == [v |-> v, part |-> FALSE]

Init ==
    /\ sc \in {Script(i) : i \in Picked(Total)}
    /\ now = 0 /\ k = 1 /\ mem = 0 /\ lastRep = -1000 /\ trig = FALSE /\ due = -1
    /\ pc = [s \in Savers |-> "idle"] /\ snap = [s \in Savers |-> 0] /\ since = [s \in Savers |-> 0] /\ lock = "none"
    /\ file = Whole(0) /\ tmp = <<>> /\ room = sc.room
    /\ written = <<>> /\ stored = 0 /\ faultAt = -1000

(* ---- reports and saves of the application *)
Step ==
    /\ k <= Steps /\ now = At(k)
    /\ IF sc.op[k] = "save"
       THEN /\ pc["app"] = "idle"     \* one goroutine: a call waits for the one before
            /\ pc' = [pc EXCEPT !["app"] = "wait"] /\ since' = [since EXCEPT !["app"] = now]
            /\ UNCHANGED <<mem, lastRep, trig>>
       ELSE /\ mem' = CASE sc.op[k] = "change" -> mem + 1 [] sc.op[k] = "same" -> mem [] OTHER -> 0
            /\ lastRep' = now /\ trig' = TRUE
            /\ UNCHANGED <<pc, since>>
    /\ k' = k + 1
    /\ UNCHANGED <<sc, now, due, snap, lock, file, tmp, room, written, stored, faultAt>>

(* A report is noticed unless the library is busy saving; it begins or prolongs the delay. *)
Notice ==
    /\ trig /\ pc["auto"] = "idle"
    /\ trig' = FALSE /\ due' = now + Delay
    /\ UNCHANGED <<sc, now, k, mem, lastRep, pc, snap, since, lock, file, tmp, room, written, stored, faultAt>>

Begin ==
    /\ due = now /\ ~trig
    /\ due' = -1
    /\ pc' = [pc EXCEPT !["auto"] = "wait"] /\ since' = [since EXCEPT !["auto"] = now]
    /\ UNCHANGED <<sc, now, k, mem, lastRep, trig, snap, lock, file, tmp, room, written, stored, faultAt>>

(* ---- the steps of a save *)
Go(s, to) == pc' = [pc EXCEPT ![s] = to]
Fails(s, to) == Go(s, to) /\ faultAt' = now
Rest(s) == UNCHANGED <<sc, now, k, mem, lastRep, trig, due, since>>

Lock(s) ==
    /\ pc[s] = "wait" /\ lock = "none"
    /\ lock' = s /\ snap' = [snap EXCEPT ![s] = mem]
    /\ Go(s, IF file = Whole(mem) THEN "done" ELSE "create")
    /\ UNCHANGED <<file, tmp, room, written, stored, faultAt>> /\ Rest(s)
Create(s) ==
    /\ pc[s] = "create"
    /\ IF Fault("open") THEN Fails(s, "fail") /\ UNCHANGED tmp
       ELSE Go(s, "write1") /\ tmp' = [v |-> snap[s], part |-> TRUE] /\ UNCHANGED faultAt
    /\ UNCHANGED <<snap, lock, file, room, written, stored>> /\ Rest(s)
(* in two pieces, the second of which may not fit *)
Write1(s) ==
    /\ pc[s] = "write1"
    /\ Go(s, "write2") /\ tmp' = [v |-> snap[s], part |-> TRUE]
    /\ UNCHANGED <<snap, lock, file, room, written, stored, faultAt>> /\ Rest(s)
Write2(s) ==
    /\ pc[s] = "write2"
    /\ IF Fault("write") THEN Fails(s, "close-fail") /\ UNCHANGED <<tmp, room>>
       ELSE IF Fault("late") /\ room < 100 THEN Go(s, "sync") /\ room' = -1 /\ UNCHANGED <<tmp, faultAt>>
       ELSE Go(s, "sync") /\ tmp' = Whole(snap[s]) /\ UNCHANGED <<room, faultAt>>
    /\ UNCHANGED <<snap, lock, file, written, stored>> /\ Rest(s)
Sync(s) ==
    /\ pc[s] = "sync"
    /\ IF Fault("sync") \/ room = -1 THEN Fails(s, "close-fail") /\ room' = sc.room ELSE Go(s, "close") /\ UNCHANGED <<room, faultAt>>
    /\ UNCHANGED <<snap, lock, file, tmp, written, stored>> /\ Rest(s)
Close(s) ==
    /\ pc[s] \in {"close", "close-fail"}
    /\ IF pc[s] = "close-fail" THEN Go(s, "remove") /\ UNCHANGED faultAt
       ELSE IF Fault("close") THEN Fails(s, "remove") ELSE Go(s, "rename") /\ UNCHANGED faultAt
    /\ UNCHANGED <<snap, lock, file, tmp, room, written, stored>> /\ Rest(s)
Rename(s) ==
    /\ pc[s] = "rename"
    /\ IF Fault("rename") THEN Fails(s, "remove") /\ UNCHANGED <<file, tmp, written>>
       ELSE /\ Go(s, "done") /\ file' = tmp /\ tmp' = <<>>
            /\ written' = Append(written, [s |-> s, t |-> now, same |-> file = tmp]) /\ UNCHANGED faultAt
    /\ UNCHANGED <<snap, lock, room, stored>> /\ Rest(s)
Unlink(s) ==
    /\ pc[s] = "remove"
    /\ IF Fault("unlink") THEN Fails(s, "fail") /\ UNCHANGED tmp ELSE Go(s, "fail") /\ tmp' = <<>> /\ UNCHANGED faultAt
    /\ UNCHANGED <<snap, lock, file, room, written, stored>> /\ Rest(s)
Unlock(s) ==
    /\ pc[s] \in {"done", "fail"}
    /\ lock' = "none" /\ Go(s, "idle")
    /\ stored' = IF pc[s] = "done" THEN snap[s] ELSE stored
    /\ UNCHANGED <<snap, file, tmp, room, written, faultAt>> /\ Rest(s)

Save(s) == Lock(s) \/ Create(s) \/ Write1(s) \/ Write2(s) \/ Sync(s) \/ Close(s) \/ Rename(s) \/ Unlink(s) \/ Unlock(s)

(* ---- time: to the next thing that happens; while a save goes on, that may be before or after it ends *)
Horizon == 950
Busy == {s \in Savers : pc[s] # "idle"}
NextTime ==
    LET T == (IF k <= Steps THEN {At(k)} ELSE {}) \cup (IF due >= 0 THEN {due} ELSE {}) \cup {sc.from, sc.from + sc.for, Horizon}
        U == {t \in T : t > now}
    IN IF U = {} THEN now ELSE CHOOSE t \in U : \A u \in U : t <= u
Tick ==
    /\ now < Horizon
    /\ k <= Steps => At(k) > now
    /\ ~(trig /\ pc["auto"] = "idle")
    /\ due # now
    /\ \A s \in Busy : NextTime <= since[s] + SaveTime
    /\ now' = NextTime
    /\ UNCHANGED <<sc, k, mem, lastRep, trig, due, pc, snap, since, lock, file, tmp, room, written, stored, faultAt>>

Next == Step \/ Notice \/ Begin \/ (\E s \in Savers : Save(s)) \/ Tick
Spec == Init /\ [][Next]_vars

(* ---- properties *)
(* C19: whenever the process is killed, the file is what was stored last or what is being stored *)
Complete == /\ file # <<>> /\ ~file.part
            /\ file.v \in {stored} \cup {snap[s] : s \in {s \in Savers : pc[s] # "idle"}}
(* C19: and a save can be tried again: nothing is left locked *)
Alone == Cardinality({s \in Savers : pc[s] \notin {"idle", "wait"}}) <= 1
NotLocked == lock # "none" => pc[lock] \notin {"idle", "wait"}
(* C20: eleven seconds after the last report all is in the file, if the disk has not failed since *)
Reached == now > lastRep + Delay + SaveTime + 1 /\ lastRep >= 0 /\ faultAt < lastRep => file = Whole(mem)
(* C20: no storms *)
NoStorm == \A i, j \in 1..Len(written) :
    i < j /\ written[i].s = "auto" /\ written[j].s = "auto" => written[j].t - written[i].t >= Delay - SaveTime
NotAgain == \A i \in 1..Len(written) : ~written[i].same
(* a save that succeeds has stored what was there when it began *)
AllDone == now = Horizon => k > Steps /\ Busy = {} /\ ~trig /\ due = -1
(* nothing is left on the disk, if that could be removed *)
Clean == now = Horizon /\ sc.kind # "unlink" /\ Busy = {} => tmp = <<>>
=============================================================================
