------------------------------- MODULE ZwLink -------------------------------
(***************************************************************************)
(* The link between application and controller: commands, the single      *)
(* unanswered frame on the line, retransmission, requests and their        *)
(* answers, acknowledgement of received frames, and the port.              *)
(*                                                                         *)
(* The state is a record; every action is a guard (what must hold when it  *)
(* happens) and an effect (the next state).  MCLink explores all           *)
(* behaviours of the guards; LinkTrace checks what the real library did    *)
(* against the same guards and effects.                                    *)
(***************************************************************************)
EXTENDS ZwCodec, ZwFraming

CONSTANTS Second,       \* how long an unanswered frame occupies the line
          Slack         \* what a scheduler may add to any instant

NoCmd == -1

(* A command: payload d, a request if req, then timeout to and expected
   report er (0: any); issued by caller at time at. *)
NewCmd(d, req, to, er, caller, at) ==
    [d |-> d, req |-> req, to |-> to, er |-> er, caller |-> caller, at |-> at,
     w |-> 0,             \* times written
     n |-> 0,             \* position of its first write among all first writes
     wAt |-> 0,           \* when it was first written
     last |-> 0,          \* when it was last written
     dead |-> FALSE,      \* the last write went to a failed port
     can |-> FALSE,       \* cancelled, to be written again
     canAt |-> 0,
     fin |-> "",          \* outcome of a request: "", "answer", "none", "refused", "timeout"
     finAt |-> 0,
     val |-> BadFrame]    \* the answer

LinkInit ==
    [cmds |-> <<>>,       \* function from ids to commands
     cur  |-> NoCmd,      \* the frame on the line
     free |-> 0,          \* since when, or from when on, the line is free
     nw   |-> 0,          \* frames first written so far
     lastTx |-> 0,
     owed |-> 0]          \* frames taken and not yet acknowledged

Ids(s) == DOMAIN s.cmds
Pending(s) == {i \in Ids(s) : s.cmds[i].w = 0}
Cancelled(s) == {i \in Ids(s) : s.cmds[i].can}
Queued(s) == Pending(s) \cup Cancelled(s)

Deadline(c) == c.wAt + c.to
IsOpen(c, t) == c.req /\ c.w > 0 /\ c.fin = "" /\ t < Deadline(c)

(* ---- which frame answers which request; b is the frame without checksum *)
At(b, i) == IF Len(b) >= i THEN b[i] ELSE -1
Answers(c, b) ==
    IF c.d[1] # FnSend
    THEN At(b, 4) = c.d[1]
    ELSE /\ At(b, 4) = FnReport
         /\ At(b, 6) = c.d[2]
         /\ Len(c.d) > 3 => At(b, 8) = c.d[4]
         /\ c.er # 0 => At(b, 9) = c.er

Candidates(s, f, t) ==
    LET b == SubSeq(f, 1, Len(f) - 1)
    IN  {i \in Ids(s) : IsOpen(s.cmds[i], t) /\ Answers(s.cmds[i], b)}
FirstWritten(s, S) == CHOOSE i \in S : \A j \in S : s.cmds[i].n <= s.cmds[j].n

(* ---- actions *)
Issue(s, id, c) == [s EXCEPT !.cmds = (id :> c) @@ @]

Occupied(s, t) == s.cur # NoCmd /\ ~s.cmds[s.cur].dead /\ t < s.cmds[s.cur].last + Second - Slack

(* Commands that must be written before id. *)
Before(s, id) ==
    {j \in Pending(s) \ {id} :
        \/ s.cmds[j].caller = s.cmds[id].caller /\ j < id
        \/ s.cmds[j].at + Slack < s.cmds[id].at}

MayWrite(s, id, t) ==
    /\ id \in Queued(s)
    /\ ~Occupied(s, t)
    /\ id \in Pending(s) => Before(s, id) = {}

Written(s, id, t, dead) ==
    LET first == s.cmds[id].w = 0 IN
    [s EXCEPT !.cmds[id].w = @ + 1,
              !.cmds[id].n = IF first THEN s.nw + 1 ELSE @,
              !.cmds[id].wAt = IF first THEN t ELSE @,
              !.cmds[id].last = t,
              !.cmds[id].dead = dead,
              !.cmds[id].can = FALSE,
              !.nw = IF first THEN @ + 1 ELSE @,
              !.lastTx = t,
              !.cur = id,
              !.free = t + Second]

Finish(s, id, how, t, val) ==
    IF s.cmds[id].req /\ s.cmds[id].fin = ""
    THEN [s EXCEPT !.cmds[id].fin = how, !.cmds[id].finAt = t, !.cmds[id].val = val]
    ELSE s

(* A control byte is the answer to the frame on the line, if there is one. *)
Waiting(s, t) == s.cur # NoCmd /\ t < s.cmds[s.cur].last + Second
ControlAnswer(s, b, t) ==
    LET id == s.cur
        s1 == [s EXCEPT !.cur = NoCmd, !.free = t]
    IN CASE b = ACK -> s1
         [] b = NAK -> Finish(s1, id, "refused", t, BadFrame)
         [] b = CAN -> [s1 EXCEPT !.cmds[id].can = TRUE, !.cmds[id].canAt = t]
Control(s, b, t) == IF Waiting(s, t) THEN ControlAnswer(s, b, t) ELSE s

(* A frame with a correct checksum: owed an ACK, and given to the first
   written of the unfinished requests it answers. *)
Given(s, id, f, t) ==
    LET m == DecodeFrame(f) IN Finish(s, id, IF m.ok THEN "answer" ELSE "none", t, m)
ReceivedBy(s, f, t, S) ==
    LET s1 == [s EXCEPT !.owed = @ + 1]
    IN  IF S = {} THEN s1 ELSE Given(s1, FirstWritten(s, S), f, t)
Received(s, f, t) == ReceivedBy(s, f, t, Candidates(s, f, t))

MayAck(s) == s.owed > 0
Acked(s) == [s EXCEPT !.owed = @ - 1]

(* Requests whose time is over. *)
Expired(s, t) == {i \in Ids(s) : s.cmds[i].req /\ s.cmds[i].w > 0 /\ s.cmds[i].fin = "" /\ Deadline(s.cmds[i]) <= t}
Expire(s, t) ==
    LET E == Expired(s, t) IN
    IF E = {} THEN s
    ELSE [s EXCEPT !.cmds = [i \in Ids(s) |->
             IF i \in E THEN [s.cmds[i] EXCEPT !.fin = "timeout", !.finAt = Deadline(s.cmds[i])]
             ELSE s.cmds[i]]]
=============================================================================
