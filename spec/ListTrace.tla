----------------------------- MODULE ListTrace ------------------------------
(* Checks what the real node list did against ZwList. *)
EXTENDS ZwList, TLC, Json, IOUtils

CONSTANTS Second, Slack
VARIABLES tr, pos, st

(* The nodes of the network may be added by the library at any time, unless
   they are known from the file. *)
StInit(trace) == [l |-> ListInit, calls |-> <<>>, file |-> {}, seen |-> <<>>,
                  net |-> {trace.sc.net[i] : i \in 1..Len(trace.sc.net)}, amb |-> "", bad |-> {}]

Flag(ms, S) == [ms EXCEPT !.bad = @ \cup S]
Pairs(l) == {l[i] : i \in 1..Len(l)}

OnBegin(ms, e) ==
    LET f == Pairs(e.file) IN
    [ms EXCEPT !.file = f,
               !.l = BeginAdds(BeginAdds(@, 0, f), -1, {<<n, -2>> : n \in ms.net \ {x[1] : x \in f}})]

OnCall(ms, e) ==
    LET c == [id |-> e.id, op |-> e.op, n |-> IF e.op \in {"add", "get"} THEN e.node ELSE 0, b |-> ms.l.clock]
        l == CASE e.op = "add"  -> BeginAdd(ms.l, e.id, e.node, e.tok)
               [] e.op = "load" -> BeginAdds(ms.l, e.id, ms.file)
               [] OTHER         -> Tick(ms.l)
    IN [ms EXCEPT !.calls = Append(@, c), !.l = l]

CallOf(ms, id) == CHOOSE i \in 1..Len(ms.calls) : ms.calls[i].id = id
Without(s, i) == [k \in 1..Len(s) - 1 |-> IF k < i THEN s[k] ELSE s[k + 1]]

OnRead(ms, e, c) ==
    LET ns == IF c.op = "get" THEN {c.n} ELSE Numbers(ms.l)
        s0 == [ms EXCEPT !.seen = IF c.op = "all" THEN Append(@, [id |-> e.id, l |-> Pairs(e.l)]) ELSE @]
        s1 == IF Lost(ms.l, ns, e.l, c.b) THEN Flag(s0, {"C21:" \o c.op \o " misses a node"}) ELSE s0
        s2 == IF Foreign(ms.l, e.l, c.b) THEN Flag(s1, {"C21:" \o c.op \o " gives a wrong node"}) ELSE s1
    IN IF Twice(e.l) THEN Flag(s2, {"C21:" \o c.op \o " gives a node twice"}) ELSE s2

OnRet(ms, e) ==
    LET i == CallOf(ms, e.id)
        c == ms.calls[i]
        s == [ms EXCEPT !.calls = Without(@, i)]
    IN CASE c.op \in {"add", "load"} -> [s EXCEPT !.l = EndAdd(@, e.id)]
         [] c.op = "json" /\ e.ok = 0 -> Flag(s, {"C21:serialising fails"})
         [] c.op \in {"get", "all", "json"} -> OnRead(s, e, c)
         [] OTHER -> [s EXCEPT !.l = Tick(@)]

OnAgain(ms, e) ==
    LET S == {i \in 1..Len(ms.seen) : ms.seen[i].id = e.id}
        i == CHOOSE i \in S : \A j \in S : j <= i
    IN IF S # {} /\ ms.seen[i].l # Pairs(e.l) THEN Flag(ms, {"C21:a returned list changes"}) ELSE ms

Judge(ms, e) ==
    CASE e.e = "begin"      -> OnBegin(ms, e)
      [] e.e = "loaded"     -> [ms EXCEPT !.l = EndAdd(@, 0)]
      [] e.e = "discovered" -> [ms EXCEPT !.l = Told(@, e.node)]
      [] e.e = "call"       -> OnCall(ms, e)
      [] e.e = "ret"        -> OnRet(ms, e)
      [] e.e = "again"      -> OnAgain(ms, e)
      [] e.e = "end"        -> IF ms.calls # <<>> THEN Flag(ms, {"C21:a call blocks"}) ELSE ms
      [] OTHER              -> ms

Traces == ndJsonDeserialize(IOEnv.TRACES)
INSTANCE TraceDriver
=============================================================================
