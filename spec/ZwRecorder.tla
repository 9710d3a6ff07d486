----------------------------- MODULE ZwRecorder -----------------------------
(***************************************************************************)
(* The serial recorder: a port that keeps a log of its traffic, and the    *)
(* converter that prints such a log.                                       *)
(*                                                                         *)
(* State of the recorder: the calls that have been made, in the order they *)
(* began, with what went through the port during them, and the rows of the *)
(* log.  A row may be the next one of the log iff it tells of a call that  *)
(* moved bytes, is not in the log yet, and every call that was over when   *)
(* this one began is in it.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NewCall(id, dir, b, t, clock) ==
    [id |-> id, dir |-> dir, asked |-> b, moved |-> <<>>, through |-> FALSE,
     perr |-> 0, t0 |-> t, tm |-> t, t1 |-> -1, began |-> clock, ended |-> -1, row |-> FALSE]

RecInit == [calls |-> <<>>, clock |-> 0, lastTs |-> -1]

Open(s) == {i \in 1..Len(s.calls) : s.calls[i].ended < 0}
Earliest(S) == CHOOSE i \in S : \A j \in S : i <= j

Begin(s, id, dir, b, t) ==
    [s EXCEPT !.calls = Append(@, NewCall(id, dir, b, t, s.clock)), !.clock = @ + 1]

(* The port is called during one of the open calls, for a write with the
   bytes of that call; it takes or gives the bytes b, and fails or not. *)
Movers(s, dir, ask) ==
    {i \in Open(s) : /\ s.calls[i].dir = dir /\ ~s.calls[i].through
                     /\ dir = "w" => s.calls[i].asked = ask}
Move(s, i, b, err, t) ==
    [s EXCEPT !.calls[i].moved = b, !.calls[i].perr = err, !.calls[i].tm = t, !.calls[i].through = TRUE]

(* What a call may return: what the port did during it.  Without calling the
   port it may only fail while there is none (down), or have nothing to do. *)
Nothing(c) == c.dir = "w" /\ c.asked = <<>>
Passed(c, n, err, down) ==
    IF c.through THEN n = Len(c.moved) /\ err = c.perr
    ELSE n = 0 /\ (Nothing(c) \/ (err = 1 /\ down))

CallOf(s, id) == CHOOSE i \in 1..Len(s.calls) : s.calls[i].id = id
Return(s, i, t) == [s EXCEPT !.calls[i].ended = s.clock, !.calls[i].t1 = t, !.clock = @ + 1]

(* ---- the log *)
Logged(s, i) == s.calls[i].row \/ s.calls[i].moved = <<>>
Precedes(s, i, j) == s.calls[i].ended >= 0 /\ s.calls[i].ended < s.calls[j].began
Fits(s, dir, b) ==
    {i \in 1..Len(s.calls) : /\ ~Logged(s, i) /\ s.calls[i].dir = dir /\ s.calls[i].moved = b}
InTurn(s, i) == \A j \in 1..Len(s.calls) : Precedes(s, j, i) => Logged(s, j)
Unlogged(s) == {i \in 1..Len(s.calls) : ~Logged(s, i)}

(* ---- the converter: rows are [t, w (0 read, 1 write), b]; ms the number of time
   units in a millisecond.  Groups of one direction are the maximal runs of
   its rows that are less than a millisecond apart. *)
RowsOf(rows, w) == SelectSeq(rows, LAMBDA r : r.w = w)

RECURSIVE GroupsFrom(_, _, _, _)
GroupsFrom(rows, ms, i, acc) ==
    IF i > Len(rows) THEN acc
    ELSE LET r == rows[i] n == Len(acc) IN
         IF n > 0 /\ r.t - acc[n].last < ms
         THEN GroupsFrom(rows, ms, i + 1, [acc EXCEPT ![n].last = r.t, ![n].b = @ \o r.b])
         ELSE GroupsFrom(rows, ms, i + 1, Append(acc, [w |-> r.w, first |-> r.t, last |-> r.t, b |-> r.b]))
Groups(rows, ms, w) == GroupsFrom(RowsOf(rows, w), ms, 1, <<>>)

(* lines are [t (-1 if not printed), w (-1 if not printed), b] *)
Wanted(rows, ms, opt) ==
    (IF opt.read = 1 THEN Groups(rows, ms, 0) ELSE <<>>)
    \o (IF opt.write = 1 THEN Groups(rows, ms, 1) ELSE <<>>)

SameLine(l, g) ==
    /\ l.b = g.b
    /\ l.w \in {-1, g.w}
    /\ l.t = -1 \/ (g.first <= l.t /\ l.t <= g.last)

(* The lines are the wanted groups, in an order that agrees with time: take
   the lines one by one, each is the first group left of its direction, and
   no group of the other direction that was over before it began is left. *)
RECURSIVE Printed(_, _, _)
Printed(lines, a, b) ==
    IF lines = <<>> THEN a = <<>> /\ b = <<>>
    ELSE LET l == Head(lines) IN
         \/ /\ a # <<>> /\ SameLine(l, Head(a))
            /\ b # <<>> => ~(Head(b).last < Head(a).first)
            /\ Printed(Tail(lines), Tail(a), b)
         \/ /\ b # <<>> /\ SameLine(l, Head(b))
            /\ a # <<>> => ~(Head(a).last < Head(b).first)
            /\ Printed(Tail(lines), a, Tail(b))

Sorted(lines) == \A i \in 1..Len(lines) - 1 : lines[i].t <= lines[i + 1].t

ConvertOk(rows, ms, opt, lines) ==
    /\ Printed(lines, IF opt.read = 1 THEN Groups(rows, ms, 0) ELSE <<>>,
                      IF opt.write = 1 THEN Groups(rows, ms, 1) ELSE <<>>)
    /\ Sorted(lines)
=============================================================================
