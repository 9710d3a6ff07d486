------------------------------- MODULE ZwPort -------------------------------
(***************************************************************************)
(* The life of the port: it is opened when the library connects, fails,    *)
(* and is opened again about once a second until that succeeds.  Each      *)
(* opened port has a number, its generation.                               *)
(***************************************************************************)
EXTENDS Integers

CONSTANT Second

PortInit ==
    [up |-> FALSE, gen |-> 0,
     upAt |-> 0,        \* when it was opened last
     down |-> -1,       \* since when it is down, -1: up
     retry |-> -1,      \* last attempt or failure since which the next attempt is due, -1: none is due
     first |-> "",      \* outcome of the first opening: "", "ok", "err"
     held |-> {}]       \* the ports that were opened and not yet closed

(* An attempt to open the port: never after the first one failed, and not
   right after the failure. *)
AfterFirstFailure(p) == p.first = "err"
TooEarly(p, t) == p.retry >= 0 /\ t < p.retry + (3 * Second) \div 5
(* A port that failed is closed before it is opened again. *)
LeftOpen(p) == p.held # {}
MayTry(p, t) == ~p.up /\ ~LeftOpen(p) /\ (p.first = "" \/ p.retry >= 0) /\ ~AfterFirstFailure(p) /\ ~TooEarly(p, t)
(* It must have been tried, an opening taking so long and the scheduler being that late. *)
TryOverdue(p, t, late) == p.retry >= 0 /\ t > p.retry + (9 * Second) \div 5 + late

First(p, how) == IF p.first = "" THEN how ELSE p.first
Opened(p, g, t) ==
    [p EXCEPT !.first = First(p, "ok"), !.up = TRUE, !.gen = g, !.upAt = t, !.down = -1, !.retry = -1, !.held = @ \cup {g}]
Refused(p, t) ==
    [p EXCEPT !.first = First(p, "err"), !.retry = IF First(p, "err") = "err" THEN -1 ELSE t]
Closed(p, g) == [p EXCEPT !.held = @ \ {g}]
(* Only a port that failed is closed. *)
MayClose(p, g) == ~(p.up /\ g = p.gen)
Failed(p, t) == [p EXCEPT !.up = FALSE, !.down = t, !.retry = t]

(* The connection may say that it is connected. *)
MayBeConnected(p, t, late) == p.up \/ t <= p.down + late
(* It must say so, a while after the port was opened. *)
MustBeConnected(p, t, late) == p.up /\ p.first = "ok" /\ t > p.upAt + Second + late
=============================================================================
