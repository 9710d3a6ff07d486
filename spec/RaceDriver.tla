----------------------------- MODULE RaceDriver -----------------------------
(***************************************************************************)
(* Runs a monitor with races (see Races) over recorded traces.             *)
(***************************************************************************)
EXTENDS Races, FiniteSets

CONSTANTS Traces, Branch(_), Judge1(_, _)
VARIABLES tr, pos, st

MaxBranches == 48

(* All ways the races of an event can have gone. *)
RECURSIVE Explore(_, _, _)
Explore(ms, e, ch) ==
    LET r == Judge1([ms EXCEPT !.ch = ch, !.nch = 0], e) IN
    IF r.nch <= Len(ch) THEN {[r EXCEPT !.ch = <<>>, !.nch = 0]}
    ELSE Explore(ms, e, Append(ch, TRUE)) \cup Explore(ms, e, Append(ch, FALSE))

StInit(trace) == [br |-> {Branch(trace)}, amb |-> "", bad |-> {}]

Judge(s, e) ==
    IF s.amb # "" THEN s ELSE
    LET next == UNION {Explore(b, e, <<>>) : b \in s.br}
        good == {b \in next : b.bad \subseteq s.bad}
        bad == s.bad \cup UNION {b.bad : b \in next}
        lost == {b \in good : b.amb # ""}
    IN IF good = {} THEN [s EXCEPT !.br = {[b EXCEPT !.bad = bad] : b \in next}, !.bad = bad]
       ELSE IF lost # {} THEN [s EXCEPT !.br = {}, !.amb = (CHOOSE b \in lost : TRUE).amb]
       ELSE IF Cardinality(good) > MaxBranches THEN [s EXCEPT !.br = {}, !.amb = "too many races"]
       ELSE [s EXCEPT !.br = good]

INSTANCE TraceDriver
=============================================================================
