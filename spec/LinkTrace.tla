----------------------------- MODULE LinkTrace -----------------------------
(***************************************************************************)
(* Checks recorded behaviours of the library against ZwLink, ZwFraming and *)
(* ZwCodec.  A trace is a sequence of events with times in microseconds;   *)
(* Judge is a deterministic monitor that collects the properties a trace   *)
(* breaks in st.bad, as strings "C06:why".                                 *)
(***************************************************************************)
EXTENDS ZwLink, Races, Json, IOUtils

P == INSTANCE ZwPort

VARIABLES tr, pos, st

Max(a, b) == IF a > b THEN a ELSE b
Near(a, b, d) == a - b <= d /\ b - a <= d

IdleMax  == 400000 + Slack     \* longest a free line keeps a queued command waiting
AckMax   == 400000 + Slack
PauseMax == 700000 + Slack     \* after a cancellation
DiscoveryId == 0

Branch(trace) ==
    [l |-> LinkInit,
     openTime |-> trace.open_time, connected |-> FALSE, silent |-> FALSE,
     buf |-> <<>>, lastRx |-> 0,
     strays |-> <<>>,          \* control bytes that answered nothing lately: <<t, b>>
     hold |-> 0,               \* the reader may be held up until then
     ch |-> <<>>, nch |-> 0,   \* choices made for the event, and how many it had
     owedAt |-> 0, owedSilent |-> FALSE,
     p |-> P!PortInit,         \* the port
     got |-> <<>>,             \* id -> "" | "resp" | "closed"
     recent |-> <<>>,          \* frames received lately that answered nothing: <<t, frame>>
     returned |-> {}, amb |-> "", bad |-> {}]

Flag(ms, S) == [ms EXCEPT !.bad = @ \cup S]
FlagIf(ms, c, S) == IF c THEN Flag(ms, S) ELSE ms

(* Something received at t is looked at between then and this. *)
Seen(ms, t) == IF t > ms.hold THEN t ELSE ms.hold
Within(ms, t, x) == t - Slack <= x /\ x <= Seen(ms, t) + Slack

Again(ms) == ms.p.gen > 1       \* the port has been reopened
C11also(ms, S) == IF Again(ms) THEN S \cup {"C11:after reopening/" \o x : x \in S} ELSE S

(* ---- the passing of time *)
CollectAt(e) == e.t + e.col

Overdue(ms, t) ==
    LET l == ms.l
        bad(id) ==
          LET c == l.cmds[id] IN
          /\ c.req /\ id # DiscoveryId
          /\ c.w > 0 /\ c.col >= 0
          /\ ms.got[id] # "closed"
          /\ LET due == IF c.fin # "" THEN c.finAt ELSE Deadline(c)
                 vis == IF due > c.at + c.col THEN due ELSE c.at + c.col
                 (* the collector starts when the call has returned, i.e. about when it is written *)
                 vis2 == IF vis > c.wAt + c.col THEN vis ELSE c.wAt + c.col
             IN  t > vis2 + 300000 + Slack
    IN {id \in Ids(l) : bad(id)}

MissedAnswer(ms, id) == ms.l.cmds[id].fin = "answer" /\ ms.got[id] = ""

FreeSince(ms) == IF ms.l.free > ms.p.upAt THEN ms.l.free ELSE ms.p.upAt

CheckTime(ms, t) ==
    LET l == ms.l
        od == Overdue(ms, t)
        s1 == FlagIf(ms, od # {},
                 {"C07:request has no outcome in time"} \cup
                 (IF \E id \in od : MissedAnswer(ms, id) THEN {"C08:answer does not reach its request"} ELSE {}))
        s2 == FlagIf(s1, l.owed > 0 /\ ms.p.up /\ t > ms.owedAt + AckMax,
                 C11also(ms, {"C02:frame not acknowledged"} \cup
                    (IF ms.owedSilent THEN {"C01:frame after silence not acknowledged"} ELSE {})))
        late == {id \in Pending(l) : ms.p.up /\ t > Max(FreeSince(ms), l.cmds[id].at) + IdleMax}
        s3 == FlagIf(s2, late # {},
                 (IF \E id \in late : l.cmds[id].at >= ms.p.upAt
                  THEN C11also(ms, {"C10:command not written on a free line"}) ELSE {}) \cup
                 (IF \E id \in late : l.cmds[id].at < ms.p.upAt /\ id \notin ms.returned
                  THEN {"C11:command blocked after reopening"} ELSE {}))
        lateC == {id \in Cancelled(l) : ms.p.up /\ ~l.cmds[id].dead /\ t > Max(FreeSince(ms), l.cmds[id].canAt) + PauseMax}
        s4 == FlagIf(s3, lateC # {}, C11also(ms, {"C09:cancelled frame not written again"}))
        s5 == FlagIf(s4, P!TryOverdue(ms.p, t, Slack + ms.openTime),
                 {"C11:port not reopened in time"})
        unret == {id \in Ids(l) : id # DiscoveryId /\ l.cmds[id].w > 0 /\ id \notin ms.returned
                                  /\ t > l.cmds[id].wAt + 400000 + Slack}
        s6 == FlagIf(s5, unret # {}, C11also(ms, {"C10:call does not return", "C07:call does not return"}))
    IN  s6

(* ---- received bytes *)
Lately(q, t) == SelectSeq(q, LAMBDA r : r.t + 2 * Slack > t)

ResultWait == 50000       \* nobody takes the control byte

OnCtl(ms, b, t) ==
    LET l == ms.l
        edge == l.cur # NoCmd /\ Within(ms, t, l.cmds[l.cur].last + Second)
        s0 == IF edge THEN Chosen(ms) ELSE ms
    IN IF edge /\ Choice(ms)
       THEN [s0 EXCEPT !.l = ControlAnswer(l, b, t), !.hold = Max(@, t + ResultWait)]
       ELSE IF ~edge /\ Waiting(l, t)
       THEN [s0 EXCEPT !.l = Control(l, b, t)]
       ELSE [s0 EXCEPT !.l.cur = IF edge THEN NoCmd ELSE @,
                       !.strays = Append(Lately(@, t), [t |-> Seen(ms, t), b |-> b])]

(* Requests that this frame answers if it was looked at before their end. *)
Ending(ms, b, t) ==
    {i \in Ids(ms.l) : LET c == ms.l.cmds[i] IN
        /\ c.req /\ c.w > 0
        /\ c.fin = "" \/ (c.fin = "timeout" /\ ms.got[i] # "closed")
        /\ Within(ms, t, Deadline(c))
        /\ Answers(c, b)}

RECURSIVE OnEnding(_, _, _, _)
OnEnding(ms, E, open, t) ==
    IF E = {} THEN [s |-> ms, open |-> open]
    ELSE LET i == CHOOSE i \in E : TRUE IN
         IF Choice(ms)
         THEN OnEnding([Chosen(ms) EXCEPT !.l.cmds[i].fin = ""], E \ {i}, open \cup {i}, t)
         ELSE OnEnding([Chosen(ms) EXCEPT !.l.cmds[i].fin = "timeout",
                                          !.l.cmds[i].finAt = IF @ = 0 THEN Deadline(ms.l.cmds[i]) ELSE @],
                       E \ {i}, open, t)

OnFrame(ms, f, t) ==
    LET b == SubSeq(f, 1, Len(f) - 1)
        r == OnEnding(ms, Ending(ms, b, t), {}, t)
        l == r.s.l
        S == {i \in Ids(l) : (i \in r.open \/ IsOpen(l.cmds[i], t)) /\ Answers(l.cmds[i], b)}
    IN [r.s EXCEPT !.l = ReceivedBy(l, f, t, S),
                   !.owedAt = IF ms.l.owed = 0 THEN t ELSE @,
                   !.owedSilent = IF ms.l.owed = 0 THEN ms.silent ELSE @ \/ ms.silent,
                   !.recent = IF S = {} THEN Append(Lately(@, t), [t |-> Seen(ms, t), f |-> f]) ELSE @]

RECURSIVE Items(_, _, _)
Items(ms, items, t) ==
    IF items = <<>> THEN ms
    ELSE LET x == Head(items) IN
         Items(IF x.k = "ctl" THEN OnCtl(ms, x.f[1], t) ELSE OnFrame(ms, x.f, t), Tail(items), t)

OnRx(ms, e) ==
    LET gap == e.t - ms.lastRx
        edge == ms.buf # <<>> /\ Near(gap, Stale, Slack)
        fresh == IF edge THEN Choice(ms) ELSE gap > Stale
        s0 == IF edge THEN Chosen(ms) ELSE ms
        p == Parse((IF fresh THEN <<>> ELSE ms.buf) \o e.b)
        s1 == [s0 EXCEPT !.buf = p.rest, !.lastRx = e.t, !.silent = fresh]
    IN  IF e.g # ms.p.gen THEN ms ELSE Items(s1, p.items, e.t)

(* ---- written bytes *)
WithFrame(l, b) == {i \in Ids(l) : Frame(l.cmds[i].d) = b}

(* What was received just before a write may have been looked at after it. *)
RECURSIVE AfterWrite(_, _, _)
AfterWrite(ms, q, t) ==
    IF q = <<>> \/ ms.l.cur = NoCmd THEN ms
    ELSE IF Choice(ms) THEN AfterWrite([Chosen(ms) EXCEPT !.l = ControlAnswer(@, q[1].b, t)], Tail(q), t)
    ELSE AfterWrite(Chosen(ms), Tail(q), t)

RECURSIVE AnswerAfterWrite(_, _, _, _)
AnswerAfterWrite(ms, q, id, t) ==
    IF q = <<>> THEN ms
    ELSE IF Choice(ms) THEN [Chosen(ms) EXCEPT !.l = Given(@, id, q[1].f, t)]
    ELSE AnswerAfterWrite(Chosen(ms), Tail(q), id, t)

OnTx(ms, e, dead) ==
    LET l == ms.l IN
    IF e.b = <<ACK>>
    THEN IF dead THEN ms
         ELSE IF MayAck(l) THEN [ms EXCEPT !.l = Acked(l), !.owedAt = e.t]
         ELSE Flag(ms, {"C02:acknowledges what is not a frame"})
    ELSE IF ~WellFormedRequest(e.b) THEN Flag(ms, {"C05:malformed write"})
    ELSE LET S == WithFrame(l, e.b) IN
         IF S = {} THEN Flag(ms, {"C05:no command has this frame", "C10:a frame nobody issued"})
         ELSE LET id == CHOOSE i \in S : i \in Queued(l) \/ S \cap Queued(l) = {}
                  c == l.cmds[id]
                  s0 == ms
                  s1 == FlagIf(s0, ~dead /\ Occupied(l, e.t), C11also(ms, {"C06:second unanswered frame"}))
                  s2 == FlagIf(s1, id \notin Queued(l),
                               {"C09:frame written again", "C10:command written twice"})
                  s3 == FlagIf(s2, id \in Pending(l) /\ Before(l, id) # {}, {"C10:overtakes an earlier command"})
                  s4 == FlagIf(s3, dead /\ ms.p.up /\ e.g # ms.p.gen /\ e.t > ms.p.upAt + Slack,
                               {"C11:written to a port that was replaced"})
                  s5 == [s4 EXCEPT !.l = Written(l, id, e.t, dead),
                                   !.strays = <<>>, !.recent = Lately(@, e.t)]
                  s6 == AfterWrite(s5, SelectSeq(ms.strays, LAMBDA r : e.t - r.t < Slack), e.t)
              IN IF c.w = 0 /\ c.req
                 THEN AnswerAfterWrite(s6, SelectSeq(ms.recent, LAMBDA r :
                          e.t - r.t <= Slack /\ Answers(c, SubSeq(r.f, 1, Len(r.f) - 1))), id, e.t)
                 ELSE s6

(* ---- calls, answers *)
OnCall(ms, e) ==
    LET c == NewCmd(e.d, e.k # "write", e.to, e.er, e.c, e.t) @@ [col |-> e.col, k |-> e.k]
    IN [ms EXCEPT !.l = Issue(ms.l, e.id, c), !.got = (e.id :> "") @@ @]

SameMsg(e, m) ==
    /\ e.len = m.len /\ e.mt = m.mt /\ e.fn = m.fn /\ e.node = m.node
    /\ e.data.t = m.t /\ e.data.v = m.v /\ e.data.s = m.s
    /\ m.cc >= 0 => e.data.cc = m.cc /\ e.data.cmd = m.cmd
SameRep(e, m) == e.data.t = m.t /\ e.data.v = m.v /\ e.data.s = m.s

OnResp(ms, e) ==
    LET c == ms.l.cmds[e.id]
        again == ms.got[e.id] # ""
        s0 == [ms EXCEPT !.got[e.id] = "resp"] IN
    IF e.k = "none" \/ (e.k = "rep" /\ e.data.t = "nil")
    THEN FlagIf(s0, c.fin = "answer" \/ again, {"C07:no answer instead of the answer"})
    ELSE IF again THEN Flag(s0, {"C07:two answers"})
    ELSE IF c.fin = "answer"
         THEN FlagIf(s0, ~(IF e.k = "rep" THEN SameRep(e, c.val) ELSE SameMsg(e, c.val)),
                     {"C08:not the answer of this request"})
    ELSE IF c.fin \in {"timeout", "refused"} THEN Flag(s0, {"C07:answer after the end of the request", "C08:not the answer of this request"})
    ELSE Flag(s0, {"C08:not the answer of this request"})

OnClosed(ms, e) ==
    LET c == ms.l.cmds[e.id]
        due == IF c.w = 0 THEN -1 ELSE Deadline(c)
        s0 == [ms EXCEPT !.got[e.id] = "closed"]
        s1 == FlagIf(s0, ms.got[e.id] = "closed", {"C07:ended twice"})
        s2 == FlagIf(s1, c.fin = "" /\ (c.w = 0 \/ e.t < due - Slack), {"C07:ended before its timeout"})
        s3 == FlagIf(s2, c.fin = "answer" /\ ms.got[e.id] # "resp",
                     {"C07:ended without its answer", "C08:answer does not reach its request"})
        s4 == IF c.fin = "" /\ c.w > 0 THEN [s3 EXCEPT !.l = Finish(ms.l, e.id, "timeout", e.t, BadFrame)] ELSE s3
    IN s4

(* ---- the port *)
OnTry(ms, t) ==
    LET s0 == FlagIf(ms, P!AfterFirstFailure(ms.p), {"C11:opens the port after the first opening failed"})
        s1 == FlagIf(s0, P!LeftOpen(ms.p), {"C11:failed port is not closed"})
    IN FlagIf(s1, P!TooEarly(ms.p, t), {"C11:reopens too often"})

(* After the first opening the library asks for the nodes. *)
OnOpen(ms, e) ==
    LET sx == OnTry(ms, e.t)
        s0 == IF DiscoveryId \in Ids(ms.l) THEN sx
              ELSE [sx EXCEPT !.l = Issue(ms.l, DiscoveryId,
                        NewCmd(<<FnDiscover>>, TRUE, 5000000, 0, 0, e.t) @@ [col |-> -1, k |-> "wt"]),
                    !.got = (DiscoveryId :> "") @@ @] IN
    [s0 EXCEPT !.p = P!Opened(@, e.g, e.t), !.buf = <<>>, !.lastRx = -10000000, !.l.owed = 0]

OnOpenFail(ms, e) ==
    LET s0 == OnTry(ms, e.t) IN [s0 EXCEPT !.p = P!Refused(@, e.t)]

OnFail(ms, e) ==
    IF ~ms.p.up \/ e.g # ms.p.gen THEN ms
    ELSE [ms EXCEPT !.p = P!Failed(@, e.t), !.buf = <<>>, !.l.owed = 0]

OnClose(ms, e) ==
    LET s0 == FlagIf(ms, ~P!MayClose(ms.p, e.g), {"C11:closes a working port"})
    IN [s0 EXCEPT !.p = P!Closed(@, e.g)]

OnConnect(ms, e) ==
    LET s0 == FlagIf(ms, (e.ok = 1) # (ms.p.first = "ok") \/ ms.p.first = "", {"C11:wrong result of connecting"}) IN
    [s0 EXCEPT !.connected = TRUE]

OnConn(ms, e) ==
    LET s1 == FlagIf(ms, e.v = 1 /\ ~P!MayBeConnected(ms.p, e.t, Slack), {"C11:connected without a port"})
    IN FlagIf(s1, e.v = 0 /\ P!MustBeConnected(ms.p, e.t, Slack), {"C11:not connected with an open port"})

OnEnd(ms, e) ==
    LET l == ms.l
        s1 == FlagIf(ms, ~ms.connected, {"C11:connecting does not return"})
    IN s1

(* Requests expire while time passes; close ones are left to the events. *)
Advance(ms, t) ==
    LET s1 == CheckTime(ms, t)
    IN [s1 EXCEPT !.l = Expire(s1.l, t - Slack)]

Judge1(ms, e) ==
    LET s == Advance(ms, e.t) IN
    CASE e.e = "rx"       -> OnRx(s, e)
      [] e.e = "tx"       -> OnTx(s, e, FALSE)
      [] e.e = "txdead"   -> OnTx(s, e, TRUE)
      [] e.e = "call"     -> OnCall(s, e)
      [] e.e = "ret"      -> [s EXCEPT !.returned = @ \cup {e.id}]
      [] e.e = "resp"     -> OnResp(s, e)
      [] e.e = "closed"   -> OnClosed(s, e)
      [] e.e = "open"     -> OnOpen(s, e)
      [] e.e = "openfail" -> OnOpenFail(s, e)
      [] e.e = "fail"     -> OnFail(s, e)
      [] e.e = "close"    -> OnClose(s, e)
      [] e.e = "connect"  -> OnConnect(s, e)
      [] e.e = "connected" -> OnConn(s, e)
      [] e.e = "end"      -> OnEnd(s, e)
      [] OTHER            -> s

Traces == ndJsonDeserialize(IOEnv.TRACES)
INSTANCE RaceDriver
=============================================================================
