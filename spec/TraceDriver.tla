---------------------------- MODULE TraceDriver ----------------------------
(***************************************************************************)
(* Runs a monitor over recorded traces: one initial state per trace, one   *)
(* step per event.  The monitor state has the fields bad (the properties   *)
(* broken so far) and amb (why the trace cannot be judged any further).    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Traces, StInit(_), Judge(_, _)
VARIABLES tr, pos, st

Init == /\ tr \in 1..Len(Traces)
        /\ pos = 0
        /\ st = StInit(Traces[tr])

Step ==
    /\ pos < Len(Traces[tr].ev)
    /\ pos' = pos + 1
    /\ st' = Judge(st, Traces[tr].ev[pos + 1])
    /\ st'.bad # st.bad => PrintT(<<"BAD", Traces[tr].s, pos + 1, st'.bad \ st.bad>>)
    /\ UNCHANGED tr

Done ==
    /\ pos = Len(Traces[tr].ev)
    /\ pos' = pos + 1
    /\ PrintT(<<"DONE", Traces[tr].s, st.amb>>)
    /\ UNCHANGED <<tr, st>>

Next == Step \/ Done
Spec == Init /\ [][Next]_<<tr, pos, st>>
=============================================================================
