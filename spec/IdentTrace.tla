----------------------------- MODULE IdentTrace -----------------------------
(***************************************************************************)
(* Checks recorded behaviours of discovery and identification: which nodes *)
(* there are, what they are asked and when, and what becomes known of      *)
(* them.                                                                   *)
(*                                                                         *)
(* h maps <<node, field>> to the history of the field, a sequence of       *)
(* [t, v].  An observation made in [t1, t2] may see, of every field, a     *)
(* value that was valid in this time.                                      *)
(***************************************************************************)
EXTENDS ZwNodes, ZwFraming, Races, FiniteSets, Json, IOUtils

CONSTANTS Second, Slack
VARIABLES tr, pos, st

Near(a, b, d) == a - b <= d /\ b - a <= d
Max(a, b) == IF a > b THEN a ELSE b
Never == 2000000000
Pause == 15 * Second       \* at most this long after a failure a step is asked again
Quiet == 1500000           \* at most this long an idle line stays idle when something is due

SetOf(q) == {q[i] : i \in 1..Len(q)}

(* ---- histories *)
Hist(ms, id, f) == IF <<id, f>> \in DOMAIN ms.h THEN ms.h[<<id, f>>] ELSE <<>>
Last(ms, id, f) == LET q == Hist(ms, id, f) IN q[Len(q)].v
Put(ms, id, f, t, v) == [ms EXCEPT !.h = (<<id, f>> :> Append(Hist(ms, id, f), [t |-> t, v |-> v])) @@ @]
(* Values in [t1, t2]; a change may become visible a little late. *)
Valid(ms, id, f, t1, t2) ==
    LET q == Hist(ms, id, f) IN
    {q[i].v : i \in {i \in 1..Len(q) : q[i].t <= t2 /\ (i = Len(q) \/ q[i + 1].t + Slack > t1)}}

Values(n) == [i \in 1..Len(n.b) |-> <<"b:" \o n.b[i].k, <<n.b[i].v>>>>]
             \o [i \in 1..Len(n.f) |-> <<"f:" \o n.f[i].k, <<n.f[i].v[1], n.f[i].v[2]>>>>]
ValueOf(n, key) ==
    LET vs == Values(n) S == {i \in 1..Len(vs) : vs[i][1] = key}
    IN IF S = {} THEN <<>> ELSE vs[CHOOSE i \in S : TRUE][2]
Keys(n) == {Values(n)[i][1] : i \in 1..(Len(n.b) + Len(n.f))}

RECURSIVE PutAll(_, _, _, _)
PutAll(ms, id, vs, t) ==
    IF vs = <<>> THEN ms
    ELSE LET key == vs[1][1] val == vs[1][2]
             s1 == IF <<id, key>> \in DOMAIN ms.h THEN ms ELSE Put(ms, id, key, -Never, <<>>)
         IN PutAll([Put(s1, id, key, t, val) EXCEPT !.keys[id] = @ \cup {key}], id, Tail(vs), t)

(* ---- what is known about devices *)
Product(ms, manu) ==
    LET S == {i \in 1..Len(ms.prods) : ms.prods[i].manu = manu} IN
    IF S = {} THEN [ok |-> FALSE] ELSE [ok |-> TRUE, p |-> ms.prods[CHOOSE i \in S : TRUE]]
Mandatory(ms, g, s) ==
    LET S == {i \in 1..Len(ms.mand) : ms.mand[i].g = g /\ ms.mand[i].s = s} IN
    IF S = {} THEN {{}} ELSE {SetOf(l) : l \in SetOf(ms.mand[CHOOSE i \in S : TRUE].cc)}
ProductCC(ms, manu) ==
    IF manu = <<>> THEN {} ELSE LET p == Product(ms, manu) IN IF p.ok THEN SetOf(p.p.cc) ELSE {}
(* the sets of command classes a node may have *)
Classes(ms, pi, manu) == {m \cup ProductCC(ms, manu) : m \in Mandatory(ms, pi[9], pi[10])}

StateClasses == {CCSwitchBinary, CCSwitchMultilevel, CCSensorMultilevel}

(* ---- the state *)
(* A node as restored from the file, or as new. *)
RECURSIVE Restore(_, _, _)
Restore(ms, l, t) ==
    IF l = <<>> THEN ms
    ELSE LET n == Head(l)
             id == n.id
             s0 == [ms EXCEPT !.keys = (id :> Keys(n)) @@ @]
             s1 == Put(Put(Put(s0, id, "pi", t, <<>>), id, "manu", t, n.manu), id, "names", t, n.names)
             s2 == Put(Put(Put(s1, id, "cc", t, {SetOf(n.cc)}), id, "ep", t, n.ep), id, "epset", t, {n.epset})
             s3 == Put(s2, id, "aw", t, n.aw)
         IN Restore(PutAll(s3, id, Values(n), t), Tail(l), t)

NewNode(id) == [id |-> id, manu |-> <<>>, names |-> <<"", "", "">>, cc |-> <<>>, ep |-> <<>>, epset |-> 0, aw |-> 0,
                b |-> <<>>, f |-> <<>>]

(* Identification of a node: out is what it is being asked, since at, until
   to; ended is when the last request ended, ready when the next one may be
   expected; wake is the last wake-up, call the last one that must be used. *)
Ident == [pi |-> FALSE, manu |-> FALSE, ep |-> FALSE, st |-> {}, sting |-> FALSE,
          out |-> "", to |-> 0, ended |-> 0, ready |-> 0, wake |-> -Never, call |-> -Never]

Branch(trace) ==
    LET sc == trace.sc
        m0 == [prods |-> sc.prods, mand |-> sc.mand, truth |-> sc.nodes,
               h |-> <<>>, keys |-> <<>>, n |-> <<>>,
               restored |-> {sc.restored[i].id : i \in 1..Len(sc.restored)},
               found |-> {}, foundAt |-> 0, disc |-> "", discTo |-> 0,
               come |-> {sc.restored[i].id : i \in 1..Len(sc.restored)}, seen |-> {},
               buf |-> <<>>, lastRx |-> -10000000,
               cur |-> <<0, "">>, curAt |-> -Never, re |-> <<>>,
               lastTx |-> 0, hold |-> 0, piIdle |-> 0,
               want |-> <<>>, connected |-> FALSE,
               tell |-> {}, cause |-> <<>>, told |-> -Never,
               strays |-> <<>>, recent |-> <<>>, ch |-> <<>>, nch |-> 0, amb |-> "", bad |-> {}]
    IN Restore(m0, sc.restored, -Never)

Flag(ms, S) == [ms EXCEPT !.bad = @ \cup S]
FlagIf(ms, c, S) == IF c THEN Flag(ms, S) ELSE ms
Amb(ms, c, why) == IF c /\ ms.amb = "" THEN [ms EXCEPT !.amb = why] ELSE ms

Known(ms) == ms.restored \cup ms.found
Truth(ms, id) == ms.truth[CHOOSE i \in 1..Len(ms.truth) : ms.truth[i].id = id]
HasTruth(ms, id) == \E i \in 1..Len(ms.truth) : ms.truth[i].id = id
(* Many new nodes take a while to be added, one after the other. *)
Adding(ms) == Slack * (1 + Cardinality(ms.found) \div 10)
Listening(ms, id) == Truth(ms, id).info[1] >= 128

(* ---- events.  tell: what an update event has yet to tell of; cause: when
   something happened that events may tell of; told: the last update event. *)
Tell(ms, id, f, t) == [ms EXCEPT !.tell = @ \cup {<<id, f, t>>}]
Cause(ms, n, t) ==
    [ms EXCEPT !.cause = SelectSeq(@, LAMBDA c : c + 2 * Second > t) \o [i \in 1..n |-> t]]
(* So much happened at the time that the event may have been dropped. *)
Crowded(ms, t) == Len(SelectSeq(ms.cause, LAMBDA c : Near(c, t, 2 * Slack))) > 7

(* ---- steps of the identification *)
End(ms, id, t, failed) ==
    [ms EXCEPT !.n[id].out = "", !.n[id].ended = t, !.n[id].ready = IF failed THEN t + Pause ELSE t,
               !.n[id].sting = FALSE,
               !.piIdle = IF ms.n[id].out = "pi" THEN Max(@, t) ELSE @]

GotPi(ms, id, v, t) ==
    LET s1 == Put(Put(End([ms EXCEPT !.n[id].pi = TRUE], id, t, FALSE), id, "pi", t, v), id, "aw", t, v[1])
    IN Tell(Put(s1, id, "cc", t, Classes(ms, v, Last(ms, id, "manu"))), id, "pi", t)

GotManu(ms, id, v, t) ==
    LET p == Product(ms, v)
        s1 == Put(End([ms EXCEPT !.n[id].manu = TRUE], id, t, FALSE), id, "manu", t, v)
        s2 == IF p.ok THEN Put(s1, id, "names", t, p.p.names) ELSE s1
    IN Tell(IF ms.n[id].pi THEN Put(s2, id, "cc", t, Classes(ms, Last(ms, id, "pi"), v)) ELSE s2, id, "manu", t)

GotEp(ms, id, n, t) ==
    Tell(Put(Put(End([ms EXCEPT !.n[id].ep = TRUE], id, t, FALSE), id, "ep", t, [i \in 1..n |-> i]), id, "epset", t, {1}), id, "ep", t)

(* Some class is known for sure, or none for sure. *)
SomeClass(ms, id) == {} \notin Last(ms, id, "cc")
NoClass(ms, id) == Last(ms, id, "cc") = {{}}
Supported(ms, id) == StateClasses \cap UNION Last(ms, id, "cc")
Sure(ms, id) == StateClasses \cap {c \in UNION Last(ms, id, "cc") : \A S \in Last(ms, id, "cc") : c \in S}

(* A step that must be asked now, if the node is awake. *)
Due(ms, id) ==
    LET n == ms.n[id] IN
    /\ n.pi
    /\ \/ ~n.manu
       \/ ~n.ep /\ SomeClass(ms, id)
       \/ n.manu /\ n.ep /\ Sure(ms, id) \ n.st # {}

(* ---- time *)
Outs(ms) == {id \in DOMAIN ms.n : ms.n[id].out # ""}
ExpireOne(ms, id) ==
    LET done == ms.n[id].out = "st49"       \* asked only once
        s1 == End(ms, id, ms.n[id].to, ~done)
    IN IF done THEN [s1 EXCEPT !.n[id].sting = TRUE] ELSE s1
RECURSIVE Expire(_, _)
Expire(ms, t) ==
    LET S == {id \in Outs(ms) : ms.n[id].to <= t} IN
    IF S = {} THEN ms
    ELSE LET id == CHOOSE x \in S : \A y \in S : ms.n[x].to <= ms.n[y].to
         IN Expire(ExpireOne(ms, id), t)

Idle(ms, t0, t) == t > Max(Max(t0, ms.lastTx), ms.hold) + Quiet + Slack

CheckTime(ms, t) ==
    LET piDue == {id \in DOMAIN ms.n : ~ms.n[id].pi /\ ms.n[id].out = ""}
        s1 == FlagIf(ms, /\ \A id \in DOMAIN ms.n : ms.n[id].out # "pi"
                         /\ \E id \in piDue : Idle(ms, Max(ms.n[id].ready, ms.piIdle), t),
                     {"C13:protocol information is not asked for"})
        late == {id \in DOMAIN s1.n :
                    LET n == s1.n[id] IN
                    /\ n.out = ""
                    /\ Due(s1, id)
                    /\ IF Listening(s1, id) \/ n.sting THEN Idle(s1, n.ready, t)
                       ELSE n.call >= n.ended /\ Idle(s1, n.call, t)}
        s2 == FlagIf(s1, late # {},
                 UNION {IF Listening(s1, id) THEN {"C13:step is not asked", "C14:listening node is not asked at once"}
                        ELSE {"C14:wake-up does not let the step go on", "C13:step is not asked after a wake-up"} : id \in late})
        s3 == FlagIf(s2, s2.come # {} /\ Cardinality(s2.come \cup s2.seen) <= 10 /\ s2.connected
                         /\ t > s2.foundAt + Second + Adding(s2) /\ (s2.disc = "done" \/ t > 2 * Second),
                     {"C12:no discovery event for a node"})
        old == {x \in s3.tell : x[3] + Second + Slack < t}
        s4 == FlagIf([s3 EXCEPT !.tell = @ \ old], \E x \in old : ~Crowded(s3, x[3]), {"C17:no event for an identification step"})
        due == {i \in 1..Len(s3.want) : ~s3.want[i].opt /\ Idle(s3, s3.want[i].at, t)}
    IN FlagIf(s4, due # {}, UNION {{s3.want[i].prop \o ":command not sent"} : i \in due})

(* ---- received frames *)
Field(f, i) == IF Len(f) - 1 >= i THEN f[i] ELSE -1

NearEnd(ms, id, t) == Near(ms.n[id].to, t, Slack)

(* the answer of the request that is outstanding *)
Hit(ms, id, f) ==
    LET out == ms.n[id].out cc == Field(f, 8) cmd == Field(f, 9) IN
    \/ out = "manu" /\ cc = CCManufacturer /\ cmd = 5
    \/ out = "ep" /\ cc = CCMultiInstance /\ cmd = 8
    \/ out = "st49" /\ cc = CCSensorMultilevel /\ cmd = 2
Got(ms, id, m, t) ==
    CASE ms.n[id].out = "st49" -> [End(ms, id, t, FALSE) EXCEPT !.n[id].sting = TRUE]
      [] ~m.ok -> End(ms, id, t, TRUE)
      [] ms.n[id].out = "manu" -> GotManu(ms, id, m.s, t)
      [] ms.n[id].out = "ep" -> GotEp(ms, id, m.v[3], t)
Lately(q, t) == SelectSeq(q, LAMBDA r : r.t + 2 * Slack > t)

OnInfo(ms, m, f, t) ==
    LET O == {id \in DOMAIN ms.n : ms.n[id].out = "pi"} IN
    LET X == IF ~m.ok THEN O
             ELSE {id \in O : ProtocolInfo(IF Len(Truth(ms, id).info) = 5 THEN Truth(ms, id).info \o <<0>> ELSE Truth(ms, id).info).v = m.v}
    IN IF O = {} THEN [ms EXCEPT !.recent = Append(Lately(@, t), [t |-> t, f |-> f])]
       ELSE IF Cardinality(X) # 1 THEN Amb(ms, TRUE, "protocol information nobody asked for")
       ELSE LET id == CHOOSE x \in X : TRUE
                edge == NearEnd(ms, id, t)
                s0 == ChosenIf(ms, edge)
            IN IF edge /\ ~Choice(ms) THEN [ExpireOne(s0, id) EXCEPT !.recent = Append(Lately(@, t), [t |-> t, f |-> f])]
               ELSE IF m.ok THEN GotPi(s0, id, m.v, t) ELSE End(s0, id, t, TRUE)

OnReport(ms, m, f, t) ==
    LET id == Field(f, 6) IN
    IF id \notin Known(ms) THEN ms
    ELSE LET s0 == IF m.ok THEN PutAll(ms, id, [i \in 1..Len(Assignments(m)) |-> <<Assignments(m)[i].k, Assignments(m)[i].v>>], t) ELSE ms
         IN IF id \notin DOMAIN ms.n THEN s0
            ELSE LET n == ms.n[id]
                     hit == Hit(ms, id, f)
                     edge == hit /\ NearEnd(ms, id, t)
                     s1 == ChosenIf(s0, edge)
                     s2 == IF ~hit THEN [s1 EXCEPT !.recent = Append(Lately(@, t), [t |-> t, f |-> f])]
                           ELSE IF edge /\ ~Choice(ms) THEN ExpireOne(s1, id)
                           ELSE Got(s1, id, m, t)
                     wake == m.ok /\ m.t = "WakeUp"
                     use == /\ n.out = "" /\ t > Max(n.ready, ms.hold) + Slack /\ Due(ms, id)
                 IN IF ~wake THEN s2
                    ELSE [s2 EXCEPT !.n[id].wake = t, !.n[id].call = IF use THEN t ELSE @]

RECURSIVE FindAll(_, _, _)
FindAll(ms, ids, t) ==
    IF ids = <<>> THEN ms
    ELSE LET id == Head(ids)
             s1 == IF id \in ms.restored THEN ms ELSE Restore(ms, <<NewNode(id)>>, t)
             manu == Last(s1, id, "manu") # <<>>
             ep == Last(s1, id, "epset") = {1}
         IN FindAll([s1 EXCEPT !.n = (id :> [Ident EXCEPT !.manu = manu, !.ep = ep, !.ended = t, !.ready = t]) @@ @,
                               !.found = @ \cup {id},
                               !.come = IF id \in ms.restored THEN @ ELSE @ \cup {id}], Tail(ids), t)

OnDiscovered(ms, m, t) ==
    IF ms.disc # "out" THEN ms
    ELSE LET edge == Near(ms.discTo, t, Slack) s0 == ChosenIf(ms, edge) IN
    IF ~m.ok \/ (IF edge THEN ~Choice(ms) ELSE t > ms.discTo) THEN [s0 EXCEPT !.disc = "over"]
    ELSE FindAll([Cause(s0, Len(m.v), t) EXCEPT !.disc = "done", !.foundAt = t, !.piIdle = t], SelectSeq(m.v, LAMBDA i : i # 1), t)

OnFrame(ms, f, t) ==
    LET m == DecodeFrame(f) fn == Field(f, 4) IN
    CASE fn = FnDiscover -> OnDiscovered(ms, m, t)
      [] fn = FnInfo     -> OnInfo(ms, m, f, t)
      [] fn = FnReport   -> OnReport(ms, m, f, t)
      [] OTHER           -> ms

CtlAnswer(ms, b, t) ==
    LET c == ms.cur
        s1 == [ms EXCEPT !.cur = <<0, "">>, !.lastTx = Max(@, t)]
    IN CASE b = ACK -> s1
         [] b = CAN -> [s1 EXCEPT !.re = Append(@, <<c[1], c[2]>>)]
         [] b = NAK -> IF c[2] = "disc" THEN [s1 EXCEPT !.disc = "over"]
                       ELSE IF c[1] \in DOMAIN ms.n /\ ms.n[c[1]].out = c[2]
                            THEN LET s2 == End(s1, c[1], t, c[2] # "st49")
                                 IN IF c[2] = "st49" THEN [s2 EXCEPT !.n[c[1]].sting = TRUE] ELSE s2
                       ELSE s1
OnCtl(ms, b, t) ==
    LET edge == ms.cur[2] # "" /\ Near(t, ms.curAt + Second, Slack)
        s0 == ChosenIf(ms, edge)
    IN IF ms.cur[2] # "" /\ (IF edge THEN Choice(ms) ELSE t < ms.curAt + Second) THEN CtlAnswer(s0, b, t)
       ELSE [s0 EXCEPT !.cur = IF edge THEN <<0, "">> ELSE @, !.strays = Append(Lately(@, t), [t |-> t, b |-> b])]

RECURSIVE Items(_, _, _)
Items(ms, items, t) ==
    IF items = <<>> THEN ms
    ELSE LET x == Head(items) IN
         Items(IF x.k = "ctl" THEN OnCtl(ms, x.f[1], t) ELSE OnFrame(Cause(ms, 2, t), x.f, t), Tail(items), t)

OnRx(ms, e) ==
    LET gap == e.t - ms.lastRx
        edge == ms.buf # <<>> /\ Near(gap, Stale, Slack)
        s0 == ChosenIf(ms, edge)
        p == Parse((IF (IF edge THEN Choice(ms) ELSE gap > Stale) THEN <<>> ELSE ms.buf) \o e.b)
    IN Items([s0 EXCEPT !.buf = p.rest, !.lastRx = e.t], p.items, e.t)

(* ---- written frames *)
StepOf(d) ==
    CASE d = <<FnDiscover>> -> <<0, "disc">>
      [] Len(d) = 2 /\ d[1] = FnInfo -> <<d[2], "pi">>
      [] Len(d) >= 5 /\ d[1] = FnSend ->
            <<d[2], CASE d[4] = CCManufacturer /\ d[5] = 4 -> "manu"
                      [] d[4] = CCMultiInstance /\ d[5] = 7 -> "ep"
                      [] d[4] = CCSwitchBinary /\ d[5] = 2 -> "st37"
                      [] d[4] = CCSwitchMultilevel /\ d[5] = 2 -> "st38"
                      [] d[4] = CCSensorMultilevel /\ d[5] = 1 -> "st49"
                      [] OTHER -> "?">>
      [] OTHER -> <<0, "?">>
StClass(k) == CASE k = "st37" -> CCSwitchBinary [] k = "st38" -> CCSwitchMultilevel [] k = "st49" -> CCSensorMultilevel
IsSt(k) == k \in {"st37", "st38", "st49"}

(* Something received at about the same time may not have had its effect yet. *)
Ask(ms0, id, k, t) ==
    \* a request whose time is almost over may have ended; protocol information is asked for one after the other
    LET over == {x \in Outs(ms0) : ms0.n[x].to <= t + Slack /\ (x = id \/ (k = "pi" /\ ms0.n[x].out = "pi"))}
        ms == IF over = {} THEN ms0 ELSE Expire([ms0 EXCEPT !.n = [x \in DOMAIN @ |-> IF x \in over THEN [@[x] EXCEPT !.to = t] ELSE @[x]]], t) IN
    IF id \notin Known(ms) THEN Flag(ms, {"C12:request to a node that does not exist", "C13:request to a node that does not exist"})
    ELSE IF id \notin DOMAIN ms.n THEN ms
    ELSE LET n == ms.n[id]
             again == \/ k = "pi" /\ n.pi
                      \/ k = "manu" /\ n.manu
                      \/ k = "ep" /\ n.ep
                      \/ IsSt(k) /\ StClass(k) \in n.st
             s1 == FlagIf(ms, again, {"C13:answered step is asked again"})
             s2 == FlagIf(s1, ~again /\ n.out # "", {"C13:asked while another request is outstanding"})
             s3 == FlagIf(s2, k # "pi" /\ ~n.pi, {"C13:asked before the protocol information is known"}
                                \cup (IF Listening(ms, id) THEN {} ELSE {"C14:sleeping node asked without a wake-up"}))
             s4 == FlagIf(s3, k # "pi" /\ n.pi /\ ~Listening(ms, id) /\ ~(IsSt(k) /\ n.sting) /\ n.wake < n.ended - Slack,
                          {"C14:sleeping node asked without a wake-up"})
             s5 == FlagIf(s4, IsSt(k) /\ n.pi /\ StClass(k) \notin UNION (UNION Valid(ms, id, "cc", t - Slack, t)),
                          {"C13:state of an unsupported class asked for"})
             to == t + (CASE k \in {"pi", "manu"} -> 10 * Second [] OTHER -> 2 * Second)
         IN CASE k \in {"st37", "st38"} -> [s5 EXCEPT !.n[id].st = @ \cup {StClass(k)}, !.n[id].sting = TRUE,
                                                     !.n[id].ended = t, !.n[id].ready = t]
              [] k = "st49" -> [s5 EXCEPT !.n[id].st = @ \cup {StClass(k)}, !.n[id].sting = TRUE, !.n[id].out = k, !.n[id].to = to]
              [] OTHER -> [s5 EXCEPT !.n[id].out = k, !.n[id].to = to, !.n[id].sting = FALSE]

Heads(ms) == {i \in 1..Len(ms.want) : \A j \in 1..(i - 1) : ms.want[j].caller # ms.want[i].caller \/ ms.want[j].opt}

OnWrite(ms, e) ==
    IF ~WellFormedRequest(e.b) THEN Flag(ms, {"C05:malformed write"})
    ELSE LET d == Payload(e.b)
             k == StepOf(d)
             s0 == [ms EXCEPT !.lastTx = e.t, !.cur = k, !.curAt = e.t]
             R == {i \in 1..Len(ms.re) : ms.re[i] = k}
             W == {i \in Heads(ms) : d \in ms.want[i].pay}
         IN IF W # {}
            THEN LET i == CHOOSE x \in W : \A y \in W : x <= y IN
                 [s0 EXCEPT !.want = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
            ELSE IF R # {}
            THEN LET i == CHOOSE x \in R : TRUE IN [s0 EXCEPT !.re = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
            \* written again to the port that has failed meanwhile
            ELSE IF e.e = "txdead" /\ k[1] \in DOMAIN ms.n /\ ms.n[k[1]].out = k[2] THEN s0
            ELSE IF k[2] = "?" THEN Flag(s0, {"C13:unknown request", "C22:wrong command", "C23:wrong command"})
            ELSE IF k[2] = "disc"
            THEN FlagIf([s0 EXCEPT !.disc = IF @ = "" THEN "out" ELSE @, !.discTo = IF ms.disc = "" THEN e.t + 5 * Second ELSE @],
                        ms.disc = "done", {"C12:nodes are queried again"})
            ELSE Ask(s0, k[1], k[2], e.t)

(* What was received just before a write may have been looked at after it. *)
RECURSIVE CtlAfter(_, _, _)
CtlAfter(ms, q, t) ==
    IF q = <<>> \/ ms.cur[2] = "" THEN ms
    ELSE IF Choice(ms) THEN CtlAfter(CtlAnswer(Chosen(ms), q[1].b, t), Tail(q), t)
    ELSE CtlAfter(Chosen(ms), Tail(q), t)
RECURSIVE GotAfter(_, _, _, _)
GotAfter(ms, q, id, t) ==
    IF q = <<>> \/ id \notin DOMAIN ms.n \/ ms.n[id].out = "" THEN ms
    ELSE IF Field(q[1].f, 4) # FnReport \/ Field(q[1].f, 6) # id \/ ~Hit(ms, id, q[1].f) THEN GotAfter(ms, Tail(q), id, t)
    ELSE IF Choice(ms) THEN Got(Chosen(ms), id, DecodeFrame(q[1].f), t)
    ELSE GotAfter(Chosen(ms), Tail(q), id, t)
Close(q, t) == SelectSeq(q, LAMBDA r : t - r.t <= Slack)
OnTx(ms, e) ==
    IF e.b = <<ACK>> THEN ms
    ELSE LET s == OnWrite(ms, e)
             s1 == CtlAfter([s EXCEPT !.strays = <<>>], Close(ms.strays, e.t), e.t)
             k == IF WellFormedRequest(e.b) THEN StepOf(Payload(e.b)) ELSE <<0, "?">>
         IN IF k[2] = "pi" /\ \E i \in 1..Len(ms.recent) : Field(ms.recent[i].f, 4) = FnInfo /\ e.t - ms.recent[i].t <= Slack
            THEN Amb(s1, TRUE, "protocol information while it is asked for")
            ELSE IF k[1] \in DOMAIN ms.n /\ ms.n[k[1]].out = "" THEN GotAfter(s1, Close(ms.recent, e.t), k[1], e.t) ELSE s1

(* After a failure of the port requests get lost, and wake-ups with them. *)
OnFail(ms, e) ==
    [ms EXCEPT !.hold = e.t + 25 * Second, !.re = <<>>, !.cur = <<0, "">>,
               !.n = [id \in DOMAIN @ |-> [@[id] EXCEPT !.call = -Never]],
               !.disc = IF @ = "out" THEN "over" ELSE @]

(* ---- observations *)
Ids(l) == {l[i].id : i \in 1..Len(l)}

NodeBad(ms, n, t1, t2, reload) ==
    LET id == n.id
        ok(f, v) == v \in Valid(ms, id, f, t1, t2)
        cc == SetOf(n.cc) \in UNION Valid(ms, id, "cc", t1, t2)
        ep == \/ ok("ep", n.ep) /\ n.epset \in UNION Valid(ms, id, "epset", t1, t2)
              \/ n.ep = <<>> /\ {} \in UNION Valid(ms, id, "cc", t1, t2) /\ id \in DOMAIN ms.n /\ ms.n[id].pi
        vals == \A key \in ms.keys[id] \cup Keys(n) :
                    IF <<id, key>> \in DOMAIN ms.h THEN ok(key, ValueOf(n, key)) ELSE ValueOf(n, key) = <<>>
        keep == id \in ms.restored
        c12 == IF keep THEN {"C12:restored data lost"} ELSE {}
    IN (IF ~reload /\ ~ok("pi", n.pi) THEN {"C13:wrong protocol information"} ELSE {})
       \cup (IF ~reload /\ n.dc = 0 THEN {"C13:wrong device class"} ELSE {})
       \cup (IF ~ok("manu", n.manu) THEN {"C13:wrong manufacturer data"} \cup c12 ELSE {})
       \cup (IF ~ok("names", n.names) THEN {"C13:wrong product names"} \cup c12 ELSE {})
       \cup (IF ~ok("aw", n.aw) THEN {"C14:wrong listening flag"} ELSE {})
       \cup (IF ~cc THEN {"C13:wrong command classes"} ELSE {})
       \cup (IF ~ep THEN {"C13:wrong endpoints", "C22:wrong endpoints"} \cup c12 ELSE {})
       \cup (IF ~vals THEN {"C15:wrong state values"} \cup c12 ELSE {})

NodesBad(ms, l, t1, t2, reload) ==
    LET ids == Ids(l)
        must == ms.restored \cup (IF ms.foundAt + Adding(ms) <= t1 THEN ms.found ELSE {})
    IN UNION {NodeBad(ms, l[i], t1, t2, reload) : i \in {i \in 1..Len(l) : l[i].id \in Known(ms)}}
       \cup (IF Len(l) # Cardinality(ids) THEN {"C12:node appears twice"} ELSE {})
       \cup (IF ~(must \subseteq ids) THEN {"C12:node missing"} ELSE {})
       \cup (IF ~(ids \subseteq Known(ms)) THEN {"C12:node that is not there"} ELSE {})
       \cup (IF \E i \in 1..Len(l) : l[i].key # l[i].id THEN {"C12:node under another number"} ELSE {})

OnObs(ms, e) ==
    IF e.ok = 0 THEN Flag(ms, {"C21:listing the nodes blocks"})
    ELSE Flag(ms, NodesBad(ms, e.nodes, e.at, e.t, FALSE))

OnReload(ms, e) ==
    IF e.ok = 0 THEN Flag(ms, {"C18:saved configuration is not loaded"})
    ELSE LET b == NodesBad(ms, e.nodes, e.t - 2 * Second, e.t, TRUE)
         IN FlagIf(ms, b # {}, {"C18:restored nodes differ"} \cup (b \cap {"C22:wrong endpoints"}))

(* An event tells of a step when the answer can be seen then. *)
Shows(ms, n, f) ==
    CASE f = "pi"   -> n.pi = Last(ms, n.id, f)
      [] f = "manu" -> n.manu = Last(ms, n.id, f) /\ n.names = Last(ms, n.id, "names")
      [] f = "ep"   -> n.epset = 1 /\ n.ep = Last(ms, n.id, f)

(* The library saves on its own: what the file holds when there was no update
   for eleven seconds.  A node without any update need not be in it. *)
OnAuto(ms, e) ==
    LET b == NodesBad(ms, e.nodes, e.t - 11 * Second, e.t, TRUE)
             \ (IF ms.foundAt + Adding(ms) <= ms.told THEN {} ELSE {"C12:node missing"})
    IN IF e.t < ms.told + 11 * Second + 3 * Slack \/ ms.told = -Never THEN ms
       ELSE FlagIf(ms, e.ok = 0 \/ b # {}, {"C20:file does not hold what is known of the nodes"})

OnEvent(ms, e) ==
    IF e.k = "updated" /\ e.node \in Known(ms)
    THEN [ms EXCEPT !.told = e.t, !.tell = {x \in @ : x[1] # e.node \/ (e.snap # <<>> /\ ~Shows(ms, e.snap[1], x[2]))}]
    ELSE IF e.k # "discovered" THEN Flag(ms, {"C17:unknown event"})
    ELSE IF e.node \in ms.come THEN [ms EXCEPT !.come = @ \ {e.node}, !.seen = @ \cup {e.node}]
    ELSE Flag(ms, {"C12:discovery event repeated or for another node"})

OnOp(ms, e) ==
    LET known == e.node \in Known(ms)
        sure == e.node \in ms.restored \/ (known /\ ms.foundAt + Adding(ms) <= e.t)
        s1 == FlagIf(ms, (e.found = 1 /\ ~known) \/ (e.found = 0 /\ sure), {"C12:wrong node found", "C21:lookup is wrong"})
        isep == e.k \in {"epon", "epoff", "eplevel"}
        C == IF e.found = 1 /\ known THEN UNION Valid(ms, e.node, "cc", e.t - Slack, e.t + Slack) ELSE {{}}
        E == IF e.found = 1 /\ known THEN Valid(ms, e.node, "ep", e.t - Slack, e.t + Slack) ELSE {<<>>}
        seq(S) == LET a == IF CCSwitchBinary \in S THEN <<CCSwitchBinary>> ELSE <<>>
                      b == IF CCSwitchMultilevel \in S THEN <<CCSwitchMultilevel>> ELSE <<>> IN a \o b
        W == IF ~known THEN {<<>>}
             ELSE IF ~isep THEN UNION {Control(e.k, e.node, seq(S), e.m, e.p) : S \in C}
             ELSE UNION {IF e.ep \in SetOf(x) THEN UNION {EpControl(e.k, e.node, e.ep, seq(S), e.m, e.p) : S \in C} ELSE {<<>>} : x \in E}
    IN IF W = {<<>>} THEN s1
       ELSE [s1 EXCEPT !.want = Append(@, [id |-> e.id, caller |-> e.c, pay |-> W \ {<<>>}, opt |-> <<>> \in W,
                                           prop |-> IF isep THEN "C22" ELSE "C23", at |-> e.t])]

OnEp(ms, e) ==
    LET E == IF e.node \in Known(ms) THEN Valid(ms, e.node, "ep", e.t - 2 * Slack, e.t) ELSE {<<>>}
        P == {IF e.ep \in SetOf(x) THEN e.ep ELSE -1 : x \in E}
    IN FlagIf(ms, e.got \notin P, {"C22:wrong endpoint"})

Judge1(ms0, e) ==
    LET ms == CheckTime(Expire(ms0, e.t - Slack), e.t) IN
    CASE e.e = "rx"     -> OnRx(ms, e)
      [] e.e \in {"tx", "txdead"} -> OnTx(ms, e)
      [] e.e = "event"  -> OnEvent(ms, e)
      [] e.e = "obs"    -> OnObs(ms, e)
      [] e.e = "reload" -> OnReload(ms, e)
      [] e.e = "auto"   -> OnAuto(ms, e)
      [] e.e = "ctl"    -> OnOp(ms, e)
      [] e.e = "ep"     -> OnEp(ms, e)
      [] e.e \in {"fail", "readerr", "open", "close"} -> IF e.t > 0 /\ ms.connected THEN OnFail(ms, e) ELSE ms
      [] e.e = "saved"  -> FlagIf(ms, e.ok = 0, {"C18:saving fails"})
      [] e.e = "connect" -> FlagIf([ms EXCEPT !.connected = TRUE], e.ok = 0, {"C12:connecting fails"})
      [] e.e = "end"    -> FlagIf(ms, ~ms.connected, {"C12:connecting does not return"})
      [] OTHER          -> ms

Traces == ndJsonDeserialize(IOEnv.TRACES)
INSTANCE RaceDriver
=============================================================================
