------------------------------- MODULE MCLink -------------------------------
(***************************************************************************)
(* All behaviours of ZwLink with two commands and a controller that        *)
(* follows a script: what it does with each frame, and when answers come.  *)
(* The scripts are numbered; the ones that are picked are also written to  *)
(* a file, and replayed into the real library.                             *)
(*                                                                         *)
(* Time is in ticks of an eighth of a second; the library may be late by   *)
(* a tick, Lazy times.                                                     *)
(***************************************************************************)
EXTENDS ZwLink, ScriptSel, Json, SequencesExt

CONSTANT Lazy

VARIABLES sc,      \* the script
          s,       \* the link
          now, pend,
          log,     \* what has happened on the line: [t, k, id]
          lazy

vars == <<sc, s, now, pend, log, lazy>>

(* ---- scripts *)
Kinds == <<"write", "wt", "wr">>
Ctls  == << <<"ack">>, <<"nak">>, <<"none">>, <<"can", "ack">>, <<"can", "can", "nak">>, <<"late">>, <<"can", "none">> >>
AnsAt == <<-1, 0, 1, 3, 9, 21>>        \* ticks after the first write, -1: no answer
Tos   == <<6, 20>>
Offs  == <<0, 1, 5, 12>>
PerCmd == <<3, 7, 6, 2>>
Base  == PerCmd \o PerCmd \o <<4, 2, 2>>  \* when the second one is issued, by the same caller, of the same node
Total == Product(Base)

CmdOf(d) == [kind |-> Kinds[d[1] + 1], ctl |-> Ctls[d[2] + 1], ans |-> AnsAt[d[3] + 1], to |-> Tos[d[4] + 1]]
Script(i) ==
    LET d == Digits(i, Base) IN
    [n |-> i, cmds |-> <<CmdOf(SubSeq(d, 1, 4)), CmdOf(SubSeq(d, 5, 8))>>,
     off |-> Offs[d[9] + 1], same |-> d[10], shared |-> d[11]]

Node(x, i) == IF x.shared = 1 THEN 2 ELSE 1 + i
Payload1(x, i) == <<FnSend, Node(x, i), 4, CCSwitchBinary, 2, i, 0>>
Reply(x, i) == FrameOf(0, <<FnReport, 0, Node(x, i), 3, CCSwitchBinary, 3, i>>)
At1(x, i) == IF i = 1 THEN 0 ELSE x.off
Caller(x, i) == IF x.same = 1 THEN 1 ELSE i

Exported(i) ==
    LET x == Script(i) IN
    [script |-> x, data |-> [c \in 1..2 |-> Payload1(x, c)], reply |-> [c \in 1..2 |-> Reply(x, c)],
     at |-> [c \in 1..2 |-> At1(x, c)], caller |-> [c \in 1..2 |-> Caller(x, c)]]
ASSUME ndJsonSerialize(IOEnv.SCRIPTS_OUT, SetToSeq({Exported(i) : i \in Replayed(Total)}))

(* ---- behaviour *)
Init ==
    /\ sc \in {Script(i) : i \in Picked(Total)}
    /\ s = LinkInit /\ now = 0 /\ pend = {} /\ log = <<>> /\ lazy = Lazy

Log(k, id) == log' = Append(log, [t |-> now, k |-> k, id |-> id])

IssueIt ==
    \E i \in 1..2 :
        /\ i \notin Ids(s) /\ now >= At1(sc, i)
        /\ (i = 2 /\ Caller(sc, 2) = 1) => 1 \in Ids(s)
        /\ LET c == sc.cmds[i] IN
           s' = Issue(s, i, NewCmd(Payload1(sc, i), c.kind # "write", c.to, IF c.kind = "wr" THEN 3 ELSE 0, Caller(sc, i), now))
        /\ UNCHANGED <<sc, now, pend, log, lazy>>

CtlByte == [ack |-> ACK, nak |-> NAK, can |-> CAN, late |-> ACK]
React(i, k) ==
    LET c == sc.cmds[i]
        x == IF k <= Len(c.ctl) THEN c.ctl[k] ELSE "ack"
        ctl == IF x = "none" THEN {} ELSE {[at |-> now + (IF x = "late" THEN 11 ELSE 2), b |-> <<CtlByte[x]>>, id |-> i]}
        ans == IF k = 1 /\ c.ans >= 0 THEN {[at |-> now + c.ans, b |-> Reply(sc, i), id |-> i]} ELSE {}
    IN ctl \cup ans

WriteIt ==
    \E i \in Ids(s) :
        /\ MayWrite(s, i, now)
        /\ s' = Written(s, i, now, FALSE)
        /\ pend' = pend \cup React(i, s.cmds[i].w + 1)
        /\ Log("w", i)
        /\ UNCHANGED <<sc, now, lazy>>

DeliverIt ==
    \E p \in pend :
        /\ p.at = now
        /\ pend' = pend \ {p}
        /\ IF Len(p.b) = 1
           THEN /\ s' = Control(s, p.b[1], now)
                /\ Log(IF Waiting(s, now) THEN (IF p.b[1] = CAN THEN "can" ELSE "ctl") ELSE "stray", s.cur)
           ELSE /\ s' = Received(s, p.b, now)
                /\ Log("f", p.id)
        /\ UNCHANGED <<sc, now, lazy>>

AckIt == /\ MayAck(s) /\ s' = Acked(s) /\ Log("ack", 0) /\ UNCHANGED <<sc, now, pend, lazy>>

Can(i) == i \in Ids(s) /\ MayWrite(s, i, now)
Busy == (\E i \in 1..2 : Can(i)) \/ MayAck(s)
Horizon == 70
TickIt ==
    /\ now < Horizon
    /\ \A p \in pend : p.at > now
    /\ \A i \in 1..2 : i \notin Ids(s) => now < At1(sc, i)
    /\ Busy => lazy > 0
    /\ lazy' = IF Busy THEN lazy - 1 ELSE lazy
    /\ now' = now + 1
    /\ s' = Expire(s, now + 1)
    /\ UNCHANGED <<sc, pend, log>>

Next == IssueIt \/ WriteIt \/ DeliverIt \/ AckIt \/ TickIt
Spec == Init /\ [][Next]_vars

(* ---- properties *)
Is(k) == {i \in 1..Len(log) : log[i].k = k}
WritesOf(id) == {i \in Is("w") : log[i].id = id}

(* C06: two writes with nothing between them that frees the line are a second apart *)
OneUnanswered ==
    \A i, j \in Is("w") : i < j /\ (\A m \in i + 1 .. j - 1 : log[m].k \notin {"w", "ctl", "can"}) => log[j].t - log[i].t >= Second
(* C09: written once more for each cancellation, and only then *)
WrittenAgain == \A id \in Ids(s) :
    LET n == Cardinality(WritesOf(id)) c == Cardinality({i \in Is("can") : log[i].id = id})
    IN n > 0 => IF s.cmds[id].can THEN n = c ELSE n = c + 1
(* C10: first writes in the order in which the commands were issued *)
InOrder == \A a, b \in Ids(s) :
    (s.cmds[a].at < s.cmds[b].at \/ (Caller(sc, a) = Caller(sc, b) /\ a < b)) /\ WritesOf(b) # {} => WritesOf(a) # {} /\ s.cmds[a].n < s.cmds[b].n
(* C07: one outcome, in time *)
Outcome == \A id \in Ids(s) :
    LET c == s.cmds[id] IN
    c.fin # "" => /\ c.req /\ c.w > 0 /\ c.wAt <= c.finAt /\ c.finAt <= Deadline(c)
                  /\ c.fin = "timeout" <=> c.finAt = Deadline(c)
OutcomeStays == [][\A id \in Ids(s) : s.cmds[id].fin # "" => s'.cmds[id] = [s.cmds[id] EXCEPT !.w = s'.cmds[id].w, !.last = s'.cmds[id].last, !.can = s'.cmds[id].can, !.canAt = s'.cmds[id].canAt]]_vars
(* C08: an answer is what came for this request, or, if both ask the same, for the other one; the first written one gets the first *)
RightAnswer == \A id \in Ids(s) :
    LET c == s.cmds[id] IN
    c.fin = "answer" =>
        /\ Answers(c, SubSeq(Reply(sc, id), 1, Len(Reply(sc, id)) - 1))
        /\ c.val \in {DecodeFrame(Reply(sc, i)) : i \in IF sc.shared = 1 THEN 1..2 ELSE {id}}
FirstGets == \A a, b \in Ids(s) :
    LET x == s.cmds[a] y == s.cmds[b] IN
    (x.req /\ y.req /\ x.w > 0 /\ y.w > 0 /\ x.n < y.n /\ Node(sc, a) = Node(sc, b) /\ y.fin = "answer")
        => (x.fin # "" /\ x.finAt <= y.finAt)
Unanswered == \A i \in Is("f") :
    (* no frame passes by a request that waits for it *)
    \A id \in Ids(s) : LET c == s.cmds[id] IN
        (c.req /\ c.w > 0 /\ Node(sc, id) = Node(sc, log[i].id) /\ c.wAt < log[i].t /\ log[i].t < Deadline(c))
            => (c.fin # "" /\ c.finAt <= log[i].t) \/ \E o \in Ids(s) : o # id /\ s.cmds[o].fin = "answer" /\ s.cmds[o].finAt = log[i].t
(* C02: never more acknowledgements than frames, and one for each in the end *)
Acks == /\ Cardinality(Is("ack")) <= Cardinality(Is("f"))
        /\ now = Horizon => Cardinality(Is("ack")) = Cardinality(Is("f"))
(* everything is over in the end; every frame acknowledged (C02) *)
AllDone == now = Horizon => s.owed = 0 /\ \A i \in 1..2 : i \in Ids(s) /\ s.cmds[i].w > 0 /\ ~s.cmds[i].can /\ (s.cmds[i].req => s.cmds[i].fin # "")
=============================================================================
