------------------------------ MODULE RecTrace ------------------------------
(***************************************************************************)
(* Checks what the real recorder and the real converter did against        *)
(* ZwRecorder.                                                             *)
(***************************************************************************)
EXTENDS ZwRecorder, Json, IOUtils

CONSTANTS Second, Slack
VARIABLES tr, pos, st

StInit(trace) == [r |-> RecInit, opening |-> {}, closing |-> {}, up |-> FALSE, down |-> {}, outcome |-> -1, amb |-> "", bad |-> {}]

Flag(ms, S) == [ms EXCEPT !.bad = @ \cup S]

OnPort(ms, e) ==
    LET S == Movers(ms.r, e.dir, e.ask) IN
    IF e.dir = "w" /\ e.ask = <<>> THEN ms
    ELSE IF S = {} THEN Flag(ms, {"C24:port is called for nothing"})
    ELSE [ms EXCEPT !.r = Move(ms.r, Earliest(S), e.b, e.err, e.t)]

(* the calls during which there was, at some moment, no open port *)
OpenIds(ms) == {ms.r.calls[i].id : i \in Open(ms.r)}

OnRet(ms, e) ==
    LET i == CallOf(ms.r, e.id)
        c == ms.r.calls[i]
        s == [ms EXCEPT !.r = Return(ms.r, i, e.t)]
    IN IF ~Passed(c, e.n, e.err, e.id \in ms.down) \/ (e.dir = "r" /\ e.b # c.moved) \/ (e.dir = "w" /\ e.b # c.asked)
       THEN Flag(s, {"C24:traffic is changed"})
       ELSE s

OnRow(ms, e) ==
    LET r == ms.r
        S == Fits(r, e.dir, e.b)
        T == {i \in S : InTurn(r, i)}
        (* of equal rows the one of the earliest call *)
        i == Earliest(IF T # {} THEN T ELSE S)
        c == r.calls[i]
    IN IF S = {} THEN Flag(ms, {"C24:row of something that did not happen"})
       ELSE LET s1 == [ms EXCEPT !.r.calls[i].row = TRUE, !.r.lastTs = e.ts]
                s2 == IF T = {} THEN Flag(s1, {"C24:rows out of order"}) ELSE s1
                s3 == IF e.ts < r.lastTs THEN Flag(s2, {"C24:timestamps go back"}) ELSE s2
            IN IF e.ts < c.tm - 1000 \/ (c.t1 >= 0 /\ e.ts > c.t1 + 1000 + Slack)
               THEN Flag(s3, {"C24:wrong timestamp"}) ELSE s3

(* A write always comes to an end; a read waits for the port only. *)
OnEnd(ms, e) ==
    LET s1 == IF Unlogged(ms.r) # {} THEN Flag(ms, {"C24:row missing"}) ELSE ms
        stuck == {i \in Open(ms.r) : ms.r.calls[i].moved # <<>> \/ ms.r.calls[i].dir = "w"}
    IN IF stuck # {} \/ ms.opening # {} \/ ms.closing # {} \/ Cardinality(Open(ms.r)) > e.reads THEN Flag(s1, {"C24:call does not return"}) ELSE s1

Judge(ms, e) ==
    CASE e.e = "begin"   -> [ms EXCEPT !.r = Begin(@, e.id, e.dir, e.b, e.t),
                                       !.down = IF ms.up THEN @ ELSE @ \cup {e.id}]
      [] e.e = "port"    -> OnPort(ms, e)
      [] e.e = "ret"     -> OnRet(ms, e)
      [] e.e = "opening" -> [ms EXCEPT !.opening = @ \cup {e.id}, !.up = FALSE, !.outcome = -1, !.down = @ \cup OpenIds(ms)]
      [] e.e = "opened"  -> Flag([ms EXCEPT !.outcome = e.ok],
                                 IF ms.outcome = -1 /\ e.name = "/dev/recorded" /\ e.baud = 115200 THEN {}
                                 ELSE {"C24:another port is opened"})
      [] e.e = "open"    -> Flag([ms EXCEPT !.opening = @ \ {e.id}, !.up = (e.ok = 1)],
                                 IF ms.outcome = e.ok THEN {} ELSE {"C24:opening is not passed on"})
      [] e.e = "closing" -> [ms EXCEPT !.closing = @ \cup {e.id}]
      [] e.e = "close"   -> LET s == [ms EXCEPT !.closing = @ \ {e.id}]
                            IN IF ms.up THEN Flag(s, {"C24:closing is not passed on"}) ELSE s
      [] e.e = "closed"  -> [ms EXCEPT !.up = FALSE, !.down = @ \cup OpenIds(ms)]
      [] e.e = "row"     -> OnRow(ms, e)
      [] e.e = "garbled" -> Flag(ms, {"C24:recording is not readable"})
      [] e.e = "end"     -> OnEnd(ms, e)
      [] e.e = "conv"    -> IF e.ok = 0 THEN Flag(ms, {"C25:converter fails"})
                            ELSE IF ConvertOk(e.rows, e.ms, e.opt, e.lines) THEN ms
                            ELSE Flag(ms, {"C25:lines differ from the recording"})
      [] OTHER           -> ms

Traces == ndJsonDeserialize(IOEnv.TRACES)
INSTANCE TraceDriver
=============================================================================
