----------------------------- MODULE NodeTrace -----------------------------
(***************************************************************************)
(* Checks recorded behaviours of a library whose nodes are known from the  *)
(* start (restored from a configuration file, or added): reports, alarms,  *)
(* events, the configuration file, node control.                           *)
(*                                                                         *)
(* h maps <<node, value>> to the history of the value: a sequence of       *)
(* [t, v].  An observation made in [t1, t2] may see, of every value, one   *)
(* that was valid in this time.                                            *)
(***************************************************************************)
EXTENDS ZwNodes, ZwFraming, Races, FiniteSets, Json, IOUtils

CONSTANTS Second, Slack
VARIABLES tr, pos, st

Near(a, b, d) == a - b <= d /\ b - a <= d
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Never == 2000000000

RECURSIVE PutAll(_, _)
PutAll(h, s) == IF s = <<>> THEN h ELSE PutAll((s[1][1] :> s[1][2]) @@ h, Tail(s))

(* values of a canonical node as <<key, value>> *)
Values(n) == [i \in 1..Len(n.b) |-> <<"b:" \o n.b[i].k, <<n.b[i].v>>>>]
             \o [i \in 1..Len(n.f) |-> <<"f:" \o n.f[i].k, <<n.f[i].v[1], n.f[i].v[2]>>>>]
ValueOf(n, key) ==
    LET vs == Values(n) S == {i \in 1..Len(vs) : vs[i][1] = key}
    IN IF S = {} THEN <<>> ELSE vs[CHOOSE i \in S : TRUE][2]
Keys(n) == {Values(n)[i][1] : i \in 1..(Len(n.b) + Len(n.f))}

(* the data of a node that no report changes *)
Static(n) == [id |-> n.id, aw |-> n.aw, manu |-> n.manu, names |-> n.names, cc |-> n.cc, ep |-> n.ep, epset |-> n.epset, x |-> n.x]

NodeMap(l) == [i \in {l[j].id : j \in 1..Len(l)} |-> Static(l[CHOOSE j \in 1..Len(l) : l[j].id = i])]
HistOf(l, t) ==
    LET all == UNION {{<<l[j].id, Values(l[j])[i][1], Values(l[j])[i][2]>> : i \in 1..Len(Values(l[j]))} : j \in 1..Len(l)}
    IN [x \in {<<a[1], a[2]>> : a \in all} |->
            <<[t |-> t, v |-> (CHOOSE a \in all : a[1] = x[1] /\ a[2] = x[2])[3]]>>]

Branch(trace) ==
    LET l == trace.sc.nodes IN
    [nodes |-> NodeMap(l), h |-> HistOf(l, -1000),
     keys |-> [i \in {l[j].id : j \in 1..Len(l)} |-> Keys(l[CHOOSE j \in 1..Len(l) : l[j].id = i])],
     ended |-> <<>>,            \* node -> when its last alarm has ended
     alarm |-> <<>>,            \* node -> when its alarm ends
     buf |-> <<>>, lastRx |-> -10000000, silent |-> FALSE,
     owed |-> 0, owedAt |-> 0, owedSilent |-> FALSE,
     disc |-> {l[j].id : j \in 1..Len(l)},   \* discovery events still to come
     ndisc |-> Len(l),
     ev |-> <<>>,               \* update events expected: [node, at, opt, reset]
     nrecv |-> 0,               \* events received
     npost |-> 0,               \* events expected from shortly before the consumer started on
     consumer |-> trace.sc.consumer,   \* from when on events are collected
     nocollect |-> trace.sc.consumer > 0,
     file |-> trace.sc.file,    \* 1: a configuration file is in use
     explicit |-> trace.sc.explicit,   \* 1: the application saves, too
     watch |-> trace.sc.watch,
     lastReport |-> -1, fver |-> 0, fAt |-> -Never, fnodes |-> trace.sc.nodes, fok |-> trace.sc.fileok = 1,
     checked |-> TRUE, saveAt |-> Never,
     want |-> <<>>,             \* control: [id, caller, payloads, prop, at]
     lastOut |-> -Never, cur |-> <<>>, re |-> <<>>,
     savemax |-> trace.sc.savemax,     \* how long a save can take
     faults |-> trace.sc.faults = 1,   \* file operations may fail
     fault |-> -Never,                 \* when one did
     damaged |-> trace.sc.damaged = 1, \* the configuration file was not a configuration
     net |-> IF trace.sc.damaged = 1 THEN {trace.sc.net[i] : i \in 1..Len(trace.sc.net)} ELSE {},
     connected |-> FALSE, ch |-> <<>>, nch |-> 0, amb |-> "", bad |-> {}]

Flag(ms, S) == [ms EXCEPT !.bad = @ \cup S \cup (IF ms.damaged /\ S # {} THEN {"C19:library does not work after a damaged file"} ELSE {})]
FlagIf(ms, c, S) == IF c THEN Flag(ms, S) ELSE ms
Blocked(ms, S) == IF ms.nocollect THEN S \cup {"C17:blocked while events are not collected"} ELSE S

(* ---- histories *)
Hist(ms, id, key) == IF <<id, key>> \in DOMAIN ms.h THEN ms.h[<<id, key>>] ELSE <<>>
LastVal(ms, id, key) == LET q == Hist(ms, id, key) IN IF q = <<>> THEN <<>> ELSE q[Len(q)].v
Valid(ms, id, key, t1, t2) ==
    LET q == Hist(ms, id, key) IN
    {q[i].v : i \in {i \in 1..Len(q) : q[i].t <= t2 /\ (i = Len(q) \/ q[i + 1].t > t1)}}
    \cup (IF q = <<>> \/ q[1].t > t1 THEN {<<>>} ELSE {})

RECURSIVE Assign(_, _, _, _)
Assign(ms, id, as, t) ==
    IF as = <<>> THEN ms
    ELSE LET a == Head(as) IN
         Assign([ms EXCEPT !.h = (<<id, a.k>> :> Append(Hist(ms, id, a.k), [t |-> t, v |-> a.v])) @@ @,
                           !.keys[id] = @ \cup {a.k}], id, Tail(as), t)
Changes(ms, id, as) == \E i \in 1..Len(as) : LastVal(ms, id, as[i].k) # as[i].v

(* ---- events: how many may be waiting, at most *)
Waiting(ms) == Cardinality(ms.disc) + Len(ms.ev)
(* pos: what of the histories whoever receives the event must find. *)
Expect(ms, id, t, as, change, reset) ==
    (* the end of an alarm at about the same time may have come second, when there was no more room *)
    LET evs == IF Waiting(ms) < 9 THEN ms.ev
               ELSE [i \in 1..Len(ms.ev) |-> IF ms.ev[i].reset /\ Near(ms.ev[i].at, t, 2 * Slack) THEN [ms.ev[i] EXCEPT !.opt = TRUE] ELSE ms.ev[i]]
    IN
    [ms EXCEPT !.ev = Append(evs, [node |-> id, at |-> t, opt |-> (~change \/ Waiting(ms) >= 10), reset |-> reset,
                                 pos |-> [key \in (ms.keys[id] \ AlarmKeys) \cup {as[i].k : i \in 1..Len(as)} |->
                                             Len(Hist(ms, id, key))]]),
               !.npost = IF t + 2 * Slack + 1000 >= ms.consumer THEN @ + 1 ELSE @,
               !.lastReport = t, !.checked = FALSE]

(* ---- the end of alarms *)
EndAlarm(ms, id, at) ==
    LET s1 == Expect(Assign(ms, id, AlarmEnd, at), id, at, AlarmEnd, TRUE, TRUE)
    IN [s1 EXCEPT !.ended = (id :> at) @@ @, !.alarm = [x \in DOMAIN @ \ {id} |-> @[x]]]
RECURSIVE EndAlarms(_, _)
EndAlarms(ms, t) ==
    LET S == {id \in DOMAIN ms.alarm : ms.alarm[id] <= t} IN
    IF S = {} THEN ms
    ELSE LET id == CHOOSE x \in S : \A y \in S : ms.alarm[x] <= ms.alarm[y]
         IN EndAlarms(EndAlarm(ms, id, ms.alarm[id]), t)

(* The last alarm of the node has ended; as long as no event told of it,
   another alarm at about the same time may have come first. *)
EndEvent(ms, id) == {i \in 1..Len(ms.ev) : ms.ev[i].node = id /\ ms.ev[i].reset /\ ms.ev[i].at = ms.ended[id]}
NotSeen(ms, id) == EndEvent(ms, id) # {}
NotEnded(ms, id) ==
    LET j == CHOOSE i \in EndEvent(ms, id) : TRUE
        back(q) == SelectSeq(q, LAMBDA x : x.t # ms.ended[id])
    IN [ms EXCEPT !.ev = SubSeq(@, 1, j - 1) \o SubSeq(@, j + 1, Len(@)),
                  !.ended = [x \in DOMAIN @ \ {id} |-> @[x]],
                  !.h = [k \in DOMAIN @ |-> IF k[1] = id /\ k[2] \in {"b:alarm", "f:alarm"} THEN back(@[k]) ELSE @[k]]]

(* ---- one report *)
OnReport(ms, m, t) ==
    LET id == m.node IN
    IF id \notin DOMAIN ms.nodes THEN ms
    ELSE IF ActiveAlarm(m)
    THEN LET due == id \in DOMAIN ms.alarm /\ Near(ms.alarm[id], t, Slack)
             past == id \in DOMAIN ms.ended /\ Near(ms.ended[id], t, Slack) /\ NotSeen(ms, id)
             s0 == IF due THEN Chosen(IF Choice(ms) THEN ms ELSE EndAlarm(ms, id, t))
                   ELSE IF past THEN Chosen(IF Choice(ms) THEN ms ELSE NotEnded(ms, id))
                   ELSE ms
             as == AlarmSet(m)
             s1 == Expect(Assign(s0, id, as, t), id, t, as, Changes(s0, id, as), FALSE)
         IN [s1 EXCEPT !.alarm = (id :> (t + Second)) @@ @]
    ELSE LET as == Assignments(m) IN
         IF as = <<>> THEN ms
         ELSE Expect(Assign(ms, id, as, t), id, t, as, Changes(ms, id, as), FALSE)

RECURSIVE Items(_, _, _)
Items(ms, items, t) ==
    IF items = <<>> THEN ms
    ELSE LET x == Head(items) IN
         (* control bytes: a stray one, say within a broken frame, may be the first answer to a command *)
         IF x.k = "ctl" THEN Items([ms EXCEPT !.cur = <<>>, !.re = IF x.f[1] = CAN THEN ms.cur ELSE @,
                                              !.lastOut = IF x.f[1] = CAN /\ ms.cur # <<>> THEN t ELSE @], Tail(items), t)
         ELSE LET m == DecodeFrame(x.f)
                  s1 == [ms EXCEPT !.owedAt = IF ms.owed = 0 THEN t ELSE @, !.owed = @ + 1,
                                   !.owedSilent = IF ms.owed = 0 THEN ms.silent ELSE @ \/ ms.silent]
                  s2 == IF m.ok /\ m.fn = FnReport THEN OnReport(s1, m, t) ELSE s1
              IN Items(s2, Tail(items), t)

OnRx(ms, e) ==
    LET gap == e.t - ms.lastRx
        edge == ms.buf # <<>> /\ Near(gap, Stale, Slack)
        fresh == IF edge THEN Choice(ms) ELSE gap > Stale
        s0 == ChosenIf(ms, edge)
        p == Parse((IF fresh THEN <<>> ELSE ms.buf) \o e.b)
    IN Items([s0 EXCEPT !.buf = p.rest, !.lastRx = e.t, !.silent = fresh], p.items, e.t)

(* ---- what is due when time has come to t *)
FileValues(ms, t1, t2) ==
    \A id \in DOMAIN ms.nodes :
        \E j \in 1..Len(ms.fnodes) :
            /\ ms.fnodes[j].id = id
            /\ \A key \in ms.keys[id] \cup Keys(ms.fnodes[j]) :
                  ValueOf(ms.fnodes[j], key) \in Valid(ms, id, key, t1, t2)

CheckTime(ms, t) ==
    LET s1 == FlagIf(ms, ms.owed > 0 /\ t > ms.owedAt + 400000 + Slack,
                 Blocked(ms, {"C02:frame not acknowledged"} \cup
                    (IF ms.owedSilent THEN {"C01:frame after silence not acknowledged"} ELSE {})))
        lost == {i \in 1..Len(s1.ev) : ~s1.ev[i].opt /\ t > Max(s1.ev[i].at, s1.consumer) + 100000 + Slack}
        s2 == FlagIf(s1, lost # {}, {"C17:no event for a change"} \cup
                 (IF \E i \in lost : s1.ev[i].reset THEN {"C16:no event for the end of an alarm"} ELSE {}))
        over == {i \in 1..Len(s2.ev) : t > Max(s2.ev[i].at, s2.consumer) + 100000 + Slack}
        s2p == IF over = {} THEN s2
               ELSE [s2 EXCEPT !.ev = SelectSeq(@, LAMBDA v : t <= Max(v.at, s2.consumer) + 100000 + Slack)]
        s2a == FlagIf(s2p, ~s2.damaged /\ s2.ndisc <= 10 /\ s2.disc # {} /\ s2.connected /\ t > Max(s2.consumer, 1000000) + 100000 + Slack,
                 {"C12:no discovery event for a node"})
        late == s2a.file = 1 /\ s2a.watch > 0 /\ ~s2a.checked /\ s2a.lastReport >= 0
                /\ t > s2a.lastReport + 11000000 + Slack + s2a.watch + 2 * s2a.savemax
        s3 == IF ~late THEN s2a
              ELSE [FlagIf(s2a, s2a.fault < s2a.lastReport /\ (~s2a.fok \/ ~FileValues(s2a, s2a.lastReport, t)), {"C20:changes do not reach the file"})
                       EXCEPT !.checked = TRUE]
        due == {i \in 1..Len(s3.want) : t > Max(s3.lastOut, s3.want[i].at) + 1500000 + Slack}
        s4 == FlagIf(s3, due # {}, UNION {{s3.want[i].prop \o ":command not sent"} : i \in due})
    IN s4

(* ---- events *)
(* The end of an alarm may be handled before or after what is received then. *)
Swap(v, w) == (v.reset \/ w.reset) /\ Near(v.at, w.at, 2 * Slack)
MatchEv(ms, node) ==
    {j \in 1..Len(ms.ev) :
        /\ ms.ev[j].node = node
        /\ \A i \in 1..(j - 1) : \/ ms.ev[i].opt
                                 \/ Swap(ms.ev[i], ms.ev[j])}

SnapBad(ms, snap, node, v, t) ==
    \E key \in ms.keys[node] \cup Keys(snap) :
        IF v.reset /\ key \notin AlarmKeys
        THEN ValueOf(snap, key) \notin Valid(ms, node, key, v.at - 2 * Slack, t)
        ELSE IF key \in DOMAIN v.pos
        THEN LET q == Hist(ms, node, key)
             IN ValueOf(snap, key) \notin ({q[i].v : i \in Max(v.pos[key], 1)..Len(q)} \cup (IF v.pos[key] = 0 THEN {<<>>} ELSE {}))
        ELSE ValueOf(snap, key) \notin Valid(ms, node, key, v.at - Slack, t)

(* Only ten can have been waiting when the application began to collect. *)
TooMany(ms) == ms.nocollect /\ ms.nrecv >= 10 + ms.npost

OnEvent(ms, e) ==
    IF e.k = "discovered"
    THEN IF e.node \in ms.disc
         THEN [FlagIf(ms, TooMany(ms), {"C17:more than ten events waited"})
                 EXCEPT !.disc = @ \ {e.node}, !.nrecv = @ + 1]
         ELSE Flag(ms, {"C12:discovery event repeated or for another node"})
    ELSE IF e.k # "updated" \/ e.node \notin DOMAIN ms.nodes THEN Flag(ms, {"C17:unknown event"})
    ELSE LET S == MatchEv(ms, e.node) IN
         IF S = {} THEN Flag(ms, {"C17:event without a change, repeated or out of order"})
         ELSE LET G == {i \in S : Len(e.snap) = 0 \/ ~SnapBad(ms, e.snap[1], e.node, ms.ev[i], e.t)}
                  B == IF G = {} THEN S ELSE G
                  j0 == CHOOSE i \in B : \A x \in B : i <= x
                  \* rather not the end of an alarm, which another alarm may yet turn out to have prevented
                  R == IF ms.ev[j0].reset THEN {i \in B : ~ms.ev[i].reset /\ Swap(ms.ev[j0], ms.ev[i])} ELSE {}
                  j == IF R = {} THEN j0 ELSE CHOOSE i \in R : \A x \in R : i <= x
                  v == ms.ev[j]
                  s1 == FlagIf(ms, TooMany(ms), {"C17:more than ten events waited"})
                  s2 == FlagIf(s1, G = {}, {"C17:event before its change is visible"})
                  s3 == [s2 EXCEPT !.nrecv = @ + 1]
                  \* this event may as well have been that of the first entry that is due
                  D == {i \in S : ~ms.ev[i].opt}
                  evs == IF ~v.opt \/ D = {} THEN ms.ev
                         ELSE [ms.ev EXCEPT ![CHOOSE i \in D : \A x \in D : i <= x].opt = TRUE]
                  keep == SelectSeq([i \in 1..Len(evs) |-> [x |-> evs[i], i |-> i]],
                              LAMBDA r : r.i > j \/ (r.i < j /\ (~r.x.opt \/ Swap(r.x, v))))
              IN [s3 EXCEPT !.ev = [i \in 1..Len(keep) |-> keep[i].x]]

(* ---- observations *)
KeyProp(ms, id, key) ==
    IF key \in AlarmKeys THEN {"C16:wrong alarm value"} ELSE {"C15:wrong value after reports"}

NodesBad(ms, l, t1, t2) ==
    LET ids == {l[j].id : j \in 1..Len(l)}
        wrong == UNION {
            LET n == l[j] IN
            IF n.id \notin DOMAIN ms.nodes THEN {}
            ELSE (UNION {KeyProp(ms, n.id, key) : key \in {key \in ms.keys[n.id] \cup Keys(n) : ValueOf(n, key) \notin Valid(ms, n.id, key, t1, t2)}})
                 \cup (IF ~ms.damaged /\ Static(n) # ms.nodes[n.id] THEN {"C15:report changes other data of a node"} ELSE {})
            : j \in 1..Len(l)}
    IN wrong \cup (IF ids # DOMAIN ms.nodes \/ Len(l) # Cardinality(ids) THEN {"C12:wrong set of nodes", "C15:report changes the list of nodes"} ELSE {})
             \cup (IF \E j \in 1..Len(l) : l[j].key # l[j].id THEN {"C12:node under another number"} ELSE {})

OnObs(ms, e) ==
    IF e.ok = 0 THEN Flag(ms, Blocked(ms, {"C21:listing the nodes blocks", "C01:listing the nodes blocks"}))
    ELSE LET b == NodesBad(ms, e.nodes, e.at - Slack, e.t) IN
         FlagIf(ms, b # {}, Blocked(ms, b \cup (IF "C15:wrong value after reports" \in b THEN {"C01:report not applied"} ELSE {})))

(* ---- the configuration file *)
OnFile(ms, e) ==
    LET new == e.ver # ms.fver
        s1 == FlagIf(ms, new /\ e.ex = 1 /\ e.t - ms.fAt < 10000000 - ms.watch - Slack /\ ms.explicit = 0,
                     {"C20:file written twice within ten seconds"})
        s2 == FlagIf(s1, new /\ e.ex = 1 /\ e.same = 1, {"C20:file rewritten although nothing has changed"})
        s3 == FlagIf(s2, e.ex = 1 /\ e.ok = 0, {"C19:file is not a complete configuration"})
        s4 == [s3 EXCEPT !.fver = e.ver, !.fAt = IF new THEN e.t ELSE @, !.fnodes = e.nodes, !.fok = e.ok = 1]
    IN FlagIf(s4, new /\ e.ok = 1 /\ ~FileValues(s4, e.t - ms.watch - ms.savemax - Slack, e.t), {"C20:file does not hold the state", "C18:file does not hold the state"})

(* A node of the second controller, which has no protocol information. *)
OnReload(ms, e) ==
    IF e.ok = 0 THEN Flag(ms, {"C18:saved configuration is not loaded"})
    ELSE LET bad == \/ {e.nodes[j].id : j \in 1..Len(e.nodes)} # DOMAIN ms.nodes
                    \/ Len(e.nodes) # Cardinality(DOMAIN ms.nodes)
                    \/ \E j \in 1..Len(e.nodes) :
                         LET n == e.nodes[j] IN
                         \/ ~ms.damaged /\ Static(n) # ms.nodes[n.id]
                         \/ n.key # n.id
                         \/ \E key \in ms.keys[n.id] \cup Keys(n) : ValueOf(n, key) \notin Valid(ms, n.id, key, Min(ms.saveAt, e.t - 500000), e.t)
         IN FlagIf(ms, bad, {"C18:restored nodes differ"})

(* What a second controller finds that is started from what was on the disk
   at the moment e.at: a configuration that was current at most as long ago as
   a save takes.  (Only moments at which the file had changed are recorded.)
   Then a value of a node is changed, and all is saved and loaded again. *)
SameNodes(ms, l) ==
    /\ {l[j].id : j \in 1..Len(l)} = DOMAIN ms.nodes
    /\ Len(l) = Cardinality(DOMAIN ms.nodes)
    /\ \A j \in 1..Len(l) : Static(l[j]) = ms.nodes[l[j].id] /\ l[j].key = l[j].id
OnRestart(ms, e) ==
    LET good == /\ e.ex = 1
                /\ SameNodes(ms, e.nodes)
                /\ \A j \in 1..Len(e.nodes) : \A key \in ms.keys[e.nodes[j].id] \cup Keys(e.nodes[j]) :
                      ValueOf(e.nodes[j], key) \in Valid(ms, e.nodes[j].id, key, e.at - ms.savemax - Slack, e.at)
        again == /\ e.saved = 1
                 /\ Len(e.again) = Len(e.nodes)
                 /\ \A j \in 1..Len(e.again) :
                       /\ Static(e.again[j]) = Static(e.nodes[j])
                       /\ \A key \in Keys(e.again[j]) \cup Keys(e.nodes[j]) :
                             ValueOf(e.again[j], key) = IF e.again[j].id = e.node /\ key = "b:on" THEN <<e.v>> ELSE ValueOf(e.nodes[j], key)
    IN IF e.ok = 0 THEN Flag(ms, {"C19:library does not start after a crash"})
       ELSE FlagIf(FlagIf(ms, ~good, {"C19:file was neither the previous nor the new configuration"}),
                   good /\ ~again, {"C19:saving does not work after a crash"})

(* After a damaged file: whatever nodes were found in it, and those of the network. *)
OnAdopt(ms, e) ==
    IF e.ok = 0 THEN Flag(ms, {"C19:listing the nodes blocks"})
    ELSE FlagIf([ms EXCEPT !.nodes = NodeMap(e.nodes), !.h = HistOf(e.nodes, e.t),
                           !.keys = [i \in {e.nodes[j].id : j \in 1..Len(e.nodes)} |->
                                        Keys(e.nodes[CHOOSE j \in 1..Len(e.nodes) : e.nodes[j].id = i])]],
                ~(ms.net \subseteq {e.nodes[j].id : j \in 1..Len(e.nodes)}), {"C19:nodes are not discovered"})

OnAdd(ms, e) ==
    LET n == e.node IN
    [ms EXCEPT !.nodes = (n.id :> Static(n)) @@ @,
               !.keys = (n.id :> Keys(n)) @@ @,
               !.h = [x \in {y \in DOMAIN @ : y[1] # n.id} |-> @[x]] @@ HistOf(<<n>>, e.t)]

(* ---- node control *)
OnCtl(ms, e) ==
    LET known == e.node \in DOMAIN ms.nodes
        s1 == FlagIf(ms, (e.found = 1) # known, {"C23:node not found", "C21:lookup is wrong"})
        ep == e.k \in {"epon", "epoff", "eplevel"}
        cc == IF known THEN ms.nodes[e.node].cc ELSE <<>>
        exists == known /\ \E i \in 1..Len(ms.nodes[e.node].ep) : ms.nodes[e.node].ep[i] = e.ep
        W == IF ~known THEN {<<>>}
             ELSE IF ~ep THEN Control(e.k, e.node, cc, e.m, e.p)
             ELSE IF ~exists THEN {<<>>}
             ELSE EpControl(e.k, e.node, e.ep, cc, e.m, e.p)
    IN IF W = {<<>>} \/ ms.damaged THEN s1
       ELSE [s1 EXCEPT !.want = Append(@, [id |-> e.id, caller |-> e.c, pay |-> W, prop |-> IF ep THEN "C22" ELSE "C23", at |-> e.t])]

OnEp(ms, e) ==
    LET exists == e.node \in DOMAIN ms.nodes /\ \E i \in 1..Len(ms.nodes[e.node].ep) : ms.nodes[e.node].ep[i] = e.ep
    IN FlagIf(ms, e.got # (IF exists THEN e.ep ELSE -1), {"C22:wrong endpoint"})

Heads(ms) == {i \in 1..Len(ms.want) : \A j \in 1..(i - 1) : ms.want[j].caller # ms.want[i].caller}

OnTx(ms, e) ==
    IF ms.damaged THEN [ms EXCEPT !.owed = IF e.b = <<ACK>> /\ @ > 0 THEN @ - 1 ELSE @, !.owedAt = e.t]
    ELSE IF e.b = <<ACK>>
    THEN IF ms.owed > 0 THEN [ms EXCEPT !.owed = @ - 1, !.owedAt = e.t]
         ELSE Flag(ms, {"C02:acknowledges what is not a frame"})
    ELSE IF ~WellFormedRequest(e.b) THEN Flag(ms, {"C05:malformed write"})
    ELSE IF Payload(e.b) = <<FnDiscover>> THEN [ms EXCEPT !.lastOut = e.t]
    ELSE IF ms.re # <<>> /\ Payload(e.b) = ms.re THEN [ms EXCEPT !.lastOut = e.t, !.cur = ms.re, !.re = <<>>]
    ELSE LET S == {i \in Heads(ms) : Payload(e.b) \in ms.want[i].pay}
             T == {i \in 1..Len(ms.want) : Payload(e.b) \in ms.want[i].pay} IN
         IF S # {}
         THEN LET i == CHOOSE x \in S : \A y \in S : x <= y IN
              [ms EXCEPT !.want = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@)), !.lastOut = e.t, !.cur = Payload(e.b), !.re = <<>>]
         ELSE IF T # {} THEN Flag(ms, {"C10:overtakes an earlier command"})
         ELSE Flag(ms, LET epl == \E i \in Heads(ms) : ms.want[i].prop = "C22"
                           nol == Heads(ms) = {} \/ \E i \in Heads(ms) : ms.want[i].prop = "C23"
                       IN {"C05:wrong command"} \cup (IF epl THEN {"C22:wrong command"} ELSE {})
                          \cup (IF nol \/ ~epl THEN {"C23:wrong command"} ELSE {}))

OnEnd(ms, e) ==
    LET s1 == FlagIf(ms, ms.file = 0 /\ e.stray > 0, {"C20:file written without a file name"})
    IN FlagIf(s1, ~ms.connected, {"C01:connecting does not return", "C19:connecting does not return"})

Judge1(ms0, e) ==
    LET ms == CheckTime(EndAlarms(ms0, e.t), e.t) IN
    CASE e.e = "rx"     -> OnRx(ms, e)
      [] e.e = "tx"     -> OnTx(ms, e)
      [] e.e = "event"  -> OnEvent(ms, e)
      [] e.e = "obs"    -> OnObs(ms, e)
      [] e.e = "file"   -> OnFile(ms, e)
      [] e.e = "reload" -> OnReload(ms, e)
      [] e.e = "add"    -> OnAdd(ms, e)
      [] e.e = "ctl"    -> OnCtl(ms, e)
      [] e.e = "ep"     -> OnEp(ms, e)
      [] e.e = "json"   -> FlagIf(ms, e.ok = 0, Blocked(ms, {"C21:serialising the nodes blocks"}))
      [] e.e = "save"   -> [ms EXCEPT !.saveAt = e.t]
      [] e.e = "saved"  -> FlagIf(ms, e.ok = 0 /\ ~ms.faults, {"C18:saving fails"})
      [] e.e = "fault"  -> [ms EXCEPT !.fault = e.t]
      [] e.e = "restart" -> OnRestart(ms, e)
      [] e.e = "adopt"  -> OnAdopt(ms, e)
      [] e.e = "connect" -> FlagIf([ms EXCEPT !.connected = TRUE], e.ok = 0, {"C19:connecting fails", "C01:connecting fails"})
      [] e.e = "end"    -> OnEnd(ms, e)
      [] OTHER          -> ms

Traces == ndJsonDeserialize(IOEnv.TRACES)
INSTANCE RaceDriver
=============================================================================
