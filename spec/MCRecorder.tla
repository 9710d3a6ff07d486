----------------------------- MODULE MCRecorder -----------------------------
(***************************************************************************)
(* Two callers write and one reads through the recorder, while one         *)
(* goroutine takes the rows from a buffer to a log that is as slow as it   *)
(* likes.  A row is made and buffered under a lock.  In every interleaving *)
(* the rows of the log are those that ZwRecorder allows, so that RecTrace  *)
(* never takes a correct recording for a wrong one, and in the end no row  *)
(* is missing.  The port takes all of a write, a part of it, or nothing.   *)
(***************************************************************************)
EXTENDS ZwRecorder, ScriptSel, Json, SequencesExt

CONSTANTS Wrong,   \* "": as specified; otherwise what the recorder does wrong
          Room     \* rows the buffer holds
VARIABLES sc, now, r, p, lock, q, log, last, bad, feed, wr
vars == <<sc, now, r, p, lock, q, log, last, bad, feed, wr>>

Procs == 1..3
Dir == <<"w", "w", "r">>
PerProc == <<2, 1, 1>>
LastTick == 1

(* what is written (the first byte tells by whom), what the port takes of each write, what it receives,
   how it is cut by the reads; for the replay also when, and how slow the log and the port are *)
Tails  == << <<>>, <<6>>, <<6, 1, 1>> >>
Takes  == <<"all", "all", "part", "none">>
Feeds  == << <<>>, <<6>>, <<1, 3, 0, 4, 248>>, <<6, 6>> >>
Base   == <<3, 3, 3, 4, 4, 4, 4, 4, 3, 3, 3, 3>>
Total  == Product(Base)
Script(i) ==
    LET d == Digits(i, Base) IN
    [n |-> i,
     data |-> << << <<101>> \o Tails[d[1] + 1], <<102>> \o Tails[d[2] + 1] >>, << <<201>> \o Tails[d[3] + 1] >> >>,
     take |-> <<Takes[d[4] + 1], Takes[d[5] + 1], Takes[d[6] + 1]>>,
     feed |-> <<Feeds[d[7] + 1], Feeds[d[8] + 1]>>,
     gap  |-> <<d[9], d[10]>>, slow |-> d[11], reopen |-> d[12]]
ASSUME ndJsonSerialize(IOEnv.SCRIPTS_OUT, SetToSeq({Script(i) : i \in Replayed(Total)}))

Id(c, j) == 10 * c + j
Init ==
    /\ sc \in {Script(i) : i \in Picked(Total)}
    /\ now = 0 /\ r = RecInit /\ lock = 0 /\ q = <<>> /\ log = {} /\ last = -1 /\ bad = {} /\ wr = 1
    /\ feed = SelectSeq(sc.feed, LAMBDA b : b # <<>>)
    /\ p = [c \in Procs |-> [j |-> 1, at |-> "before", b |-> <<>>, ts |-> -1]]

Asked(c) == IF Dir[c] = "w" THEN sc.data[c][p[c].j] ELSE <<>>

Call(c) ==
    /\ p[c].j <= PerProc[c] /\ p[c].at = "before"
    /\ r' = Begin(r, Id(c, p[c].j), Dir[c], Asked(c), now)
    /\ p' = [p EXCEPT ![c].at = "port"]
    /\ UNCHANGED <<sc, now, lock, q, log, last, bad, feed, wr>>

(* the call of the port below; a read of a port that has nothing more fails *)
Port(c) ==
    /\ p[c].at = "port"
    /\ LET b == IF Dir[c] = "r" THEN (IF feed = <<>> THEN <<>> ELSE Head(feed))
                ELSE CASE sc.take[wr] = "all" -> Asked(c) [] sc.take[wr] = "part" -> SubSeq(Asked(c), 1, (Len(Asked(c)) + 1) \div 2) [] OTHER -> <<>>
           S == Movers(r, Dir[c], Asked(c))
           err == IF b = Asked(c) \/ (Dir[c] = "r" /\ b # <<>>) THEN 0 ELSE 1
       IN /\ p' = [p EXCEPT ![c].at = IF b = <<>> THEN "out" ELSE "moved", ![c].b = b]
          /\ feed' = IF Dir[c] = "r" /\ feed # <<>> THEN Tail(feed) ELSE feed
          /\ wr' = IF Dir[c] = "w" THEN wr + 1 ELSE wr
          /\ r' = IF S = {} \/ (Wrong = "skips" /\ err = 1) THEN r ELSE Move(r, Earliest(S), b, err, now)
          /\ bad' = IF S = {} THEN bad \cup {"nobody asked"} ELSE bad
    /\ UNCHANGED <<sc, now, lock, q, log, last>>

Row(c) ==
    /\ p[c].at = "moved" /\ (lock = 0 \/ Wrong = "unlocked")
    /\ p' = [p EXCEPT ![c].at = "row", ![c].ts = now]
    /\ lock' = c
    /\ UNCHANGED <<sc, now, r, q, log, last, bad, feed, wr>>

Buffer(c) ==
    /\ p[c].at = "row"
    /\ Len(q) < Room \/ Wrong = "dropped"
    /\ q' = IF Len(q) < Room THEN Append(q, [dir |-> Dir[c], b |-> p[c].b, ts |-> p[c].ts]) ELSE q
    /\ lock' = 0
    /\ p' = [p EXCEPT ![c].at = "out"]
    /\ UNCHANGED <<sc, now, r, log, last, bad, feed, wr>>

Ret(c) ==
    /\ p[c].at = "out"
    /\ LET i == CallOf(r, Id(c, p[c].j)) IN
       /\ r' = Return(r, i, now)
       /\ bad' = IF r.calls[i].moved # p[c].b \/ ~Passed(r.calls[i], Len(p[c].b), r.calls[i].perr, FALSE) THEN bad \cup {"changed"} ELSE bad
    /\ p' = [p EXCEPT ![c].at = "before", ![c].j = @ + 1, ![c].b = <<>>, ![c].ts = -1]
    /\ UNCHANGED <<sc, now, lock, q, log, last, feed, wr>>

(* the goroutine of the log; judged as RecTrace does *)
Write ==
    /\ q # <<>>
    /\ LET x == Head(q) ts == IF Wrong = "late" THEN now ELSE x.ts
           S == Fits(r, x.dir, x.b) T == {i \in S : InTurn(r, i)}
           i == Earliest(IF T # {} THEN T ELSE S) c == r.calls[i]
       IN /\ r' = IF S = {} THEN r ELSE [r EXCEPT !.calls[i].row = TRUE]
          /\ log' = (IF x.dir = "w" THEN log \cup {x.b[1]} ELSE log) /\ last' = ts
          /\ bad' = bad \cup (IF S = {} THEN {"did not happen"} ELSE IF T = {} THEN {"order"} ELSE {})
                        \cup (IF ts < last THEN {"goes back"} ELSE {})
                        \cup (IF x.dir = "w" /\ (x.b[1] \in log \/ (x.b[1] = 101 /\ 102 \in log)) THEN {"twice, or after a later one"} ELSE {})
                        \cup (IF S # {} /\ (ts < c.tm \/ (c.t1 >= 0 /\ ts > c.t1)) THEN {"time"} ELSE {})
    /\ q' = Tail(q)
    /\ UNCHANGED <<sc, now, p, lock, feed, wr>>

Tick == now < LastTick /\ now' = now + 1 /\ UNCHANGED <<sc, r, p, lock, q, log, last, bad, feed, wr>>

Over == \A c \in Procs : p[c].j > PerProc[c]
Next == (\E c \in Procs : Call(c) \/ Port(c) \/ Row(c) \/ Buffer(c) \/ Ret(c)) \/ Write \/ Tick
Spec == Init /\ [][Next]_vars

Allowed == bad = {}
Complete == (Over /\ q = <<>>) => Unlogged(r) = {}
Ends == ~(ENABLED Next) => Over
=============================================================================
