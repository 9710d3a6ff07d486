------------------------------- MODULE MCPort -------------------------------
(***************************************************************************)
(* The port fails and is opened again while commands are issued and frames *)
(* arrive: ZwPort and ZwLink together, with two commands, up to two        *)
(* failures, openings that are refused, and bytes on both sides of the     *)
(* failure.  Time is in ticks of an eighth of a second.                    *)
(***************************************************************************)
EXTENDS ZwLink, ScriptSel, Json, SequencesExt

P == INSTANCE ZwPort

CONSTANT Wrong     \* "": as specified; otherwise what the library does wrong

VARIABLES sc, s, p, now, pend, conn, waits, tries, buf, streams, taken, log, lazy
vars == <<sc, s, p, now, pend, conn, waits, tries, buf, streams, taken, log, lazy>>

(* ---- scripts *)
Kinds == <<"write", "wt">>
Ctls  == << <<"ack">>, <<"none">>, <<"can", "ack">>, <<"nak">> >>
Ats   == <<0, 4, 10, 13, 25>>
Fail1 == <<-1, 1, 2, 5, 11, 19>>      \* ticks from the start, -1: no failure
Fail2 == <<-1, 0, 1, 6>>              \* ticks from the reopening
Whole(i) == FrameOf(0, <<FnReport, 0, 7 + i, 3, CCSwitchBinary, 3, i>>)
Parts == << <<>>, SubSeq(Whole(1), 1, 5), Whole(1) >>
News  == << <<>>, SubSeq(Whole(1), 6, Len(Whole(1))), Whole(2), <<ACK>>, <<CAN>> >>
PerCmd == <<2, 4, 5>>
Base  == PerCmd \o PerCmd \o <<6, 3, 4, 3, 5, 2, 12>>
Total == Product(Base)
Other == [write |-> "wt", wt |-> "write"]

CmdOf(d) == [kind |-> Kinds[d[1] + 1], ctl |-> Ctls[d[2] + 1], at |-> Ats[d[3] + 1]]
Script(i) ==
    LET d == Digits(i, Base) IN
    [n |-> i, cmds |-> <<CmdOf(SubSeq(d, 1, 3)), CmdOf(SubSeq(d, 4, 6))>>,
     fail1 |-> Fail1[d[7] + 1], refused |-> d[8], fail2 |-> IF Fail1[d[7] + 1] < 0 THEN -1 ELSE Fail2[d[9] + 1],
     part |-> Parts[d[10] + 1], new |-> News[d[11] + 1], same |-> d[12], firstfails |-> IF d[13] = 0 THEN 1 ELSE 0]

Payload1(i) == <<FnSend, 1 + i, 4, CCSwitchBinary, 2, i, 0>>
Reply(i) == FrameOf(0, <<FnReport, 0, 1 + i, 3, CCSwitchBinary, 3, i>>)
Caller(x, i) == IF x.same = 1 THEN 1 ELSE i
ASSUME ndJsonSerialize(IOEnv.SCRIPTS_OUT, SetToSeq({
    [script |-> Script(i), data |-> [c \in 1..2 |-> Payload1(c)], reply |-> [c \in 1..2 |-> Reply(c)],
     caller |-> [c \in 1..2 |-> Caller(Script(i), c)]] : i \in Replayed(Total)}))

To == 20     \* the timeout of requests
AnsAt == 3   \* when they are answered

(* ---- behaviour.  conn: what the connection says; waits: generations whose
   connection has not been told of yet; streams: what each port delivered;
   taken: the frames taken of each. *)
Init ==
    /\ sc \in {Script(i) : i \in Picked(Total)}
    /\ s = LinkInit /\ p = P!PortInit /\ now = 0 /\ pend = {} /\ conn = FALSE /\ waits = {}
    /\ tries = <<>> /\ buf = <<>> /\ streams = <<>> /\ taken = <<>> /\ log = <<>> /\ lazy = 1

Log(k, id) == log' = Append(log, [t |-> now, k |-> k, id |-> id])

(* the outcome of the next attempt *)
Refuse ==
    LET n == Len(tries) IN
    IF n = 0 THEN sc.firstfails = 1 ELSE sc.fail1 >= 0 /\ n <= sc.refused
FirstFail(g) == CASE g = 1 -> sc.fail1 [] g = 2 -> IF sc.fail2 < 0 THEN -1 ELSE p.upAt + sc.fail2 [] OTHER -> -1
Nominal == p.first = "" \/ (p.retry >= 0 /\ (now >= p.retry + Second \/ Wrong = "at once"))
           \/ (Wrong = "persists" /\ p.first = "err" /\ now >= tries[Len(tries)].t + Second)

RECURSIVE TakeAll(_, _, _)
TakeAll(st, items, t) ==
    IF items = <<>> THEN st
    ELSE LET x == Head(items) IN
         TakeAll(IF x.k = "ctl" THEN Control(st, x.f[1], t) ELSE Received(st, x.f, t), Tail(items), t)
(* what a port delivers, by the moments; a frame does not last over a tick *)
Burst(q, b) ==
    IF b = <<>> THEN q
    ELSE IF q # <<>> /\ q[Len(q)].t = now THEN [q EXCEPT ![Len(q)].b = @ \o b]
    ELSE Append(q, [t |-> now, b |-> b])
Deliver(st, b0, b, g, was, rec) ==
    LET q == Parse(b0 \o b) IN
    /\ s' = TakeAll(st, q.items, now)
    /\ buf' = q.rest
    /\ streams' = [was EXCEPT ![g] = Burst(@, b)]
    /\ taken' = [rec EXCEPT ![g] = @ \o q.items]

CtlLog(items) == IF Waiting(s, now) /\ \E i \in 1..Len(items) : items[i].k = "ctl"
                 THEN log' = Append(log, [t |-> now, id |-> s.cur,
                        k |-> IF items[(CHOOSE i \in 1..Len(items) : items[i].k = "ctl")].f[1] = CAN THEN "can" ELSE "ctl"])
                 ELSE UNCHANGED log

CloseIt ==
    /\ Wrong # "left open"
    /\ \E g \in p.held : P!MayClose(p, g) /\ p' = P!Closed(p, g)
    /\ UNCHANGED <<sc, s, now, pend, conn, waits, tries, buf, streams, taken, log, lazy>>

Try ==
    /\ ~p.up /\ Nominal
    /\ P!LeftOpen(p) => Wrong = "left open"
    /\ tries' = Append(tries, [t |-> now, ok |-> ~Refuse])
    /\ IF Refuse
       THEN /\ p' = P!Refused(p, now)
            /\ UNCHANGED <<s, buf, streams, taken, waits, log>>
       ELSE LET g == p.gen + 1 IN
            /\ p' = P!Opened(p, g, now)
            /\ waits' = waits \cup {g}
            /\ Deliver(s, IF Wrong = "leftover" THEN buf ELSE <<>>, IF g = 2 THEN sc.new ELSE <<>>, g,
                       Append(streams, <<>>), Append(taken, <<>>))
            /\ CtlLog(Parse(IF g = 2 THEN sc.new ELSE <<>>).items)
    /\ UNCHANGED <<sc, now, pend, conn, lazy>>

Fail ==
    /\ p.up /\ FirstFail(p.gen) = now
    /\ p' = P!Failed(p, now)
    /\ conn' = FALSE
    /\ waits' = IF Wrong = "late" THEN waits ELSE {}
    /\ IF p.gen = 1
       THEN /\ LET q == Parse(buf \o sc.part) IN
               /\ s' = [TakeAll(s, q.items, now) EXCEPT !.owed = 0]
               /\ buf' = IF Wrong = "leftover" THEN q.rest ELSE <<>>
               /\ streams' = [streams EXCEPT ![1] = Burst(@, sc.part)]
               /\ taken' = [taken EXCEPT ![1] = @ \o q.items]
               /\ CtlLog(q.items)
       ELSE /\ s' = [s EXCEPT !.owed = 0]
            /\ UNCHANGED <<buf, streams, taken, log>>
    /\ UNCHANGED <<sc, now, pend, tries, lazy>>

(* told 200 ms after the opening, unless the port failed meanwhile *)
Tell ==
    /\ \E g \in waits : /\ now >= p.upAt + 1 \/ g # p.gen
                        /\ waits' = waits \ {g}
                        /\ conn' = TRUE
    /\ UNCHANGED <<sc, s, p, now, pend, tries, buf, streams, taken, log, lazy>>

IssueIt ==
    \E i \in 1..2 :
        /\ p.first = "ok" /\ i \notin Ids(s) /\ now >= sc.cmds[i].at
        /\ (i = 2 /\ Caller(sc, 2) = 1) => 1 \in Ids(s)
        /\ s' = Issue(s, i, NewCmd(Payload1(i), sc.cmds[i].kind # "write", To, 0, Caller(sc, i), now))
        /\ UNCHANGED <<sc, p, now, pend, conn, waits, tries, buf, streams, taken, log, lazy>>

CtlByte == [ack |-> ACK, nak |-> NAK, can |-> CAN]
React(i, k) ==
    LET c == sc.cmds[i]
        x == IF k <= Len(c.ctl) THEN c.ctl[k] ELSE "ack"
        ctl == IF x = "none" THEN {} ELSE {[at |-> now + 2, b |-> <<CtlByte[x]>>, id |-> i, g |-> p.gen]}
        ans == IF k = 1 THEN {[at |-> now + AnsAt, b |-> Reply(i), id |-> i, g |-> p.gen]} ELSE {}
    IN ctl \cup ans

(* a second writer does not know of the frame of the first one *)
MayIt(i) == MayWrite(s, i, now)
            \/ (Wrong = "writers" /\ p.gen > 1 /\ p.up /\ i \in Queued(s))
            \/ (Wrong = "again" /\ i \in Ids(s) /\ s.cmds[i].dead /\ p.up /\ s.cmds[i].w = 1)
WriteIt ==
    \E i \in Ids(s) :
        /\ MayIt(i)
        /\ s' = Written(s, i, now, ~p.up)
        /\ pend' = IF p.up THEN pend \cup React(i, Cardinality({j \in 1..Len(log) : log[j].k = "w" /\ log[j].id = i}) + 1) ELSE pend
        /\ Log(IF p.up THEN "w" ELSE "dead", i)
        /\ UNCHANGED <<sc, p, now, conn, waits, tries, buf, streams, taken, lazy>>

DeliverIt ==
    \E x \in pend :
        /\ x.at = now
        /\ pend' = pend \ {x}
        /\ IF p.up /\ x.g = p.gen
           THEN /\ Deliver(s, buf, x.b, p.gen, streams, taken) /\ CtlLog(Parse(x.b).items)
           ELSE UNCHANGED <<s, buf, streams, taken, log>>
        /\ UNCHANGED <<sc, p, now, conn, waits, tries, lazy>>

AckIt == /\ p.up /\ MayAck(s) /\ s' = Acked(s) /\ Log("ack", p.gen)
         /\ UNCHANGED <<sc, p, now, pend, conn, waits, tries, buf, streams, taken, lazy>>

Busy == (\E i \in Ids(s) : MayIt(i)) \/ (p.up /\ MayAck(s)) \/ (~p.up /\ Nominal)
Horizon == 90
TickIt ==
    /\ now < Horizon /\ p.first # ""
    /\ \A x \in pend : x.at > now
    /\ p.first = "ok" => \A i \in 1..2 : i \notin Ids(s) => now < sc.cmds[i].at
    /\ ~(p.up /\ FirstFail(p.gen) = now)
    /\ \A g \in waits : now < p.upAt + 2
    /\ Busy => lazy > 0
    /\ lazy' = IF Busy THEN lazy - 1 ELSE lazy
    /\ now' = now + 1
    /\ s' = Expire(s, now + 1)
    (* what is left of a frame is forgotten after 40 ms *)
    /\ buf' = IF Wrong = "leftover" /\ ~p.up THEN buf ELSE <<>>
    /\ UNCHANGED <<sc, p, pend, conn, waits, tries, streams, taken, log>>

Next == CloseIt \/ Try \/ Fail \/ Tell \/ IssueIt \/ WriteIt \/ DeliverIt \/ AckIt \/ TickIt
Spec == Init /\ [][Next]_vars

(* ---- properties *)
Is(k) == {i \in 1..Len(log) : log[i].k = k}
WritesOf(id) == {i \in Is("w") \cup Is("dead") : log[i].id = id}

(* C06, C11: also across ports, two writes without an answer between them are a second apart *)
OneUnanswered ==
    \A i \in Is("w"), j \in Is("w") : i < j /\ (\A m \in i + 1 .. j - 1 : log[m].k \notin {"w", "dead", "ctl", "can"}) => log[j].t - log[i].t >= Second
(* C09, C10: written once, and once more for each cancellation; also when the port failed meanwhile *)
WrittenOnce == \A id \in Ids(s) :
    LET n == Cardinality(WritesOf(id)) c == Cardinality({i \in Is("can") : log[i].id = id})
    IN n > 0 => IF s.cmds[id].can THEN n = c ELSE n = c + 1
(* C11: no command is left over *)
AllWritten == now = Horizon /\ p.first = "ok" => Ids(s) = {1, 2} /\ \A i \in 1..2 : s.cmds[i].w > 0 /\ ~s.cmds[i].can
(* C10: what is issued while the port is up and stays up for a while goes to it *)
UpWritten == now = Horizon /\ sc.fail1 < 0 /\ p.first = "ok" => Is("dead") = {}
(* C11: what is taken of a port is what it delivered *)
RECURSIVE ItemsOf(_)
ItemsOf(q) == IF q = <<>> THEN <<>> ELSE Parse(Head(q).b).items \o ItemsOf(Tail(q))
OwnBytes == \A g \in 1..Len(streams) : taken[g] = ItemsOf(streams[g])
(* C11: one port at a time *)
OneOpen == Cardinality(p.held) <= 1
(* C11: connected only while a port is open *)
ConnectedOnlyUp == conn => p.up
Tells == now = Horizon /\ p.up => conn
(* C11: attempts about a second apart, until one succeeds; none after a failed first one *)
Cadence == \A i \in 2..Len(tries) : ~tries[i - 1].ok => tries[i].t - tries[i - 1].t >= 5 /\ tries[i].t - tries[i - 1].t <= 14
FirstIsLast == p.first = "err" => Len(tries) = 1 /\ log = <<>>
Reopens == now = Horizon /\ p.first = "ok" => p.up
(* the guards of ZwPort, which judge the real library, allow all this *)
Allowed == [][Len(tries') # Len(tries) => P!MayTry(p, now)]_vars
Timely == ~P!TryOverdue(p, now, 1)
=============================================================================
