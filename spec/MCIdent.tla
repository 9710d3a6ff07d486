------------------------------- MODULE MCIdent ------------------------------
(***************************************************************************)
(* How nodes are found and identified: two nodes, each asked for its       *)
(* protocol information, manufacturer data, endpoints and states.  The     *)
(* script says for every step what becomes of the first attempts, and when *)
(* a sleeping node wakes up.  When the library asks, within what it is     *)
(* allowed, is open; what it may ask and when is what is checked.          *)
(* Time is in ticks of half a second.                                      *)
(***************************************************************************)
EXTENDS ScriptSel, Integers, Sequences, FiniteSets, Json, SequencesExt, TLC

VARIABLES sc, now,
          n,          \* what the library knows of and does with each node
          pend        \* answers that are on their way

vars == <<sc, now, n, pend>>
Nodes == {1, 2}
Steps == <<"pi", "manu", "ep", "st">>
Timeout == [pi |-> 20, manu |-> 20, ep |-> 4, st |-> 4]
Pause == 20          \* the library pauses after a failure, at most so long

(* ---- scripts *)
Fates == <<"ok", "ok", "lost", "nak", "garbled", "slow", "late">>
Kinds == <<"awake", "asleep", "asleep", "bare">>   \* bare: no class is known, there are no endpoints to ask for
Wakes == <<7, 17, 30>>             \* a sleeping node wakes up so often
Phases == <<0, 1, 3, 5>>
(* two attempts for each of three steps, and how the node wakes up *)
Per == <<4, 7, 7, 7, 7, 7, 7, 3, 4, 2>>
PerTotal == 4 * 117649 * 24
(* the second node has what another number says *)
Total == PerTotal * 16
Half(i) ==
    LET d == Digits(i, Per) IN
    [kind |-> Kinds[d[1] + 1],
     fate |-> [s \in {"pi", "manu", "ep", "st"} |->
                 CASE s = "pi" -> <<Fates[d[2] + 1], Fates[d[3] + 1]>> [] s = "manu" -> <<Fates[d[4] + 1], Fates[d[5] + 1]>>
                   [] s = "ep" -> <<Fates[d[6] + 1], Fates[d[7] + 1]>> [] s = "st" -> <<Fates[d[2] + 1]>>],
     every |-> Wakes[d[8] + 1], phase |-> Phases[d[9] + 1], withAnswer |-> d[10]]
Script(i) == [n |-> i, node |-> <<Half(i % PerTotal), Half(((i % 10007) * 1009 + (i \div 10007) * 31 + i) % PerTotal)>>,
              at |-> (i \div PerTotal) % 4]

ASSUME ndJsonSerialize(IOEnv.SCRIPTS_OUT, SetToSeq({Script(i) : i \in Replayed(Total)}))

Sleeps(i) == sc.node[i].kind = "asleep"
Wakes1(i, t) == Sleeps(i) /\ t >= 6 + sc.node[i].phase /\ (t - 6 - sc.node[i].phase) % sc.node[i].every = 0

(* A late answer to a question for the protocol information is nobody's; there are none. *)
Fate(i, s, k) == LET f == sc.node[i].fate[s] x == IF k <= Len(f) THEN f[k] ELSE "ok"
                 IN IF s = "pi" /\ x = "late" THEN "lost" ELSE IF s = "st" /\ x = "garbled" THEN "ok" ELSE x

Init ==
    /\ sc \in {Script(i) : i \in Picked(Total)}
    /\ now = 0 /\ pend = {}
    /\ n = [i \in Nodes |-> [step |-> 1, out |-> FALSE, since |-> 0, pause |-> -1, tried |-> 0, wake |-> FALSE, done |-> {},
                        woken |-> FALSE, bad |-> {}]]    \* woken: since the last step has ended; bad: what it must not be asked

StepOf(i) == Steps[n[i].step]
Finished(i) == n[i].step > 4
(* endpoints are not asked for when no class is known *)
Skip(i) == ~Finished(i) /\ sc.node[i].kind = "bare" /\ StepOf(i) \in {"ep", "st"}

(* The library asks one node at a time for its protocol information. *)
PiFree(i) == \A j \in Nodes \ {i} : ~(~Finished(j) /\ StepOf(j) = "pi" /\ n[j].out)
MayAsk(i) ==
    /\ ~Finished(i) /\ ~Skip(i)
    /\ ~n[i].out /\ n[i].pause <= now
    /\ IF StepOf(i) = "pi" THEN PiFree(i) ELSE Sleeps(i) => n[i].wake

Ask(i) ==
    /\ MayAsk(i)
    /\ LET s == StepOf(i) k == n[i].tried + 1 f == Fate(i, s, k)
           at == CASE f = "ok" -> now [] f = "nak" -> now [] f = "garbled" -> now [] f = "slow" -> now + Timeout[s] - 2 [] f = "late" -> now + Timeout[s] + 2 [] OTHER -> -1
           bad == (IF n[i].out THEN {"two at a time"} ELSE {})
                  \cup (IF s \in n[i].done THEN {"answered already"} ELSE {})
                  \cup (IF s # "pi" /\ "pi" \notin n[i].done THEN {"not yet"} ELSE {})
                  \cup (IF s # "pi" /\ Sleeps(i) /\ ~n[i].woken THEN {"asleep"} ELSE {})
       IN /\ n' = [n EXCEPT ![i].out = TRUE, ![i].since = now, ![i].tried = k, ![i].wake = FALSE, ![i].bad = @ \cup bad]
          /\ pend' = IF at < 0 THEN pend ELSE pend \cup {[id |-> i, s |-> s, at |-> at, k |-> IF f \in {"nak", "garbled"} THEN f ELSE "answer"]}
    /\ UNCHANGED <<sc, now>>

Advance(m, i, s) == [m EXCEPT ![i].step = @ + 1, ![i].out = FALSE, ![i].tried = 0, ![i].pause = now, ![i].done = @ \cup {s}, ![i].wake = FALSE, ![i].woken = FALSE]
Failed(m, i, p) == [m EXCEPT ![i].out = FALSE, ![i].pause = now + p, ![i].wake = FALSE, ![i].woken = FALSE]

Deliver ==
    \E p \in pend :
        /\ p.at = now
        /\ pend' = pend \ {p}
        /\ LET i == p.id hit == ~Finished(i) /\ n[i].out /\ StepOf(i) = p.s
               w == sc.node[i].withAnswer = 1 /\ Sleeps(i)    \* a wake-up comes along with it
           IN IF ~hit THEN UNCHANGED n    \* too late
              ELSE IF p.k = "answer"
              THEN n' = [Advance(n, i, p.s) EXCEPT ![i].wake = w, ![i].woken = w]
              ELSE IF p.s = "st" THEN n' = Advance(n, i, p.s)
              ELSE \E q \in {0, Pause} : n' = Failed(n, i, q)
    /\ UNCHANGED <<sc, now>>

Over(i) == ~Finished(i) /\ n[i].out /\ now >= n[i].since + Timeout[StepOf(i)]
TimeOut(i) ==
    /\ Over(i) /\ \A p \in pend : p.at > now
    /\ IF StepOf(i) = "st" THEN n' = Advance(n, i, "st")    \* only asked once
       ELSE \E q \in {0, Pause} : n' = Failed(n, i, q)
    /\ UNCHANGED <<sc, now, pend>>

SkipIt(i) == Skip(i) /\ n' = [n EXCEPT ![i].step = @ + 1] /\ UNCHANGED <<sc, now, pend>>

Horizon == 500
Tick ==
    /\ now < Horizon
    /\ \A p \in pend : p.at > now
    /\ \A i \in Nodes : ~MayAsk(i) /\ ~Over(i) /\ ~Skip(i)
    /\ LET T == {p.at : p \in pend} \cup {n[i].since + Timeout[StepOf(i)] : i \in {i \in Nodes : ~Finished(i) /\ n[i].out}}
                \cup {n[i].pause : i \in {i \in Nodes : ~Finished(i)}} \cup {Horizon}
           W == {t \in now + 1 .. now + 40 : \E i \in Nodes : ~Finished(i) /\ Wakes1(i, t)}
           U == {t \in T \cup W : t > now}
       IN now' = CHOOSE t \in U : \A u \in U : t <= u
    /\ LET woke == {i \in Nodes : ~Finished(i) /\ Wakes1(i, now')} IN
       \* a notification counts when a step is due or the answer to one is awaited no longer
       n' = [i \in Nodes |-> IF i \in woke THEN [n[i] EXCEPT !.wake = IF n[i].out THEN @ ELSE TRUE, !.woken = TRUE] ELSE n[i]]
    /\ UNCHANGED <<sc, pend>>

Next == (\E i \in Nodes : Ask(i) \/ TimeOut(i) \/ SkipIt(i)) \/ Deliver \/ Tick
Spec == Init /\ [][Next]_vars

(* ---- properties *)
(* C13: the protocol information first, one request at a time, nothing that has been answered;
   C14: a sleeping node only when it has woken up since the step before ended *)
NothingForbidden == \A i \in Nodes : n[i].bad = {}
(* C13: in the end everything is known; nodes without a class have no endpoints to be asked for *)
Known == now = Horizon => \A i \in Nodes : Finished(i) /\ n[i].done = IF sc.node[i].kind = "bare" THEN {"pi", "manu"} ELSE {"pi", "manu", "ep", "st"}
(* answers to questions for the protocol information name no node: one question at a time *)
OnePi == Cardinality({i \in Nodes : ~Finished(i) /\ StepOf(i) = "pi" /\ n[i].out}) <= 1
(* a late answer finds nobody waiting for it, and does no harm *)
Sound == \A i \in Nodes : n[i].done = {Steps[k] : k \in 1 .. n[i].step - 1} \ (IF sc.node[i].kind = "bare" THEN {"ep", "st"} ELSE {})
=============================================================================
