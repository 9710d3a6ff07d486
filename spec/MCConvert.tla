------------------------------ MODULE MCConvert ------------------------------
(***************************************************************************)
(* A converter that joins the rows of each direction as it reads them, and *)
(* prints what it has joined sorted by time, prints what ZwRecorder wants, *)
(* for all recordings of up to five rows with gaps around the limit (two   *)
(* units of time are a millisecond here); and what ZwRecorder wants has    *)
(* what the property says, said without it.                                *)
(***************************************************************************)
EXTENDS ZwRecorder, ScriptSel, Json, SequencesExt

CONSTANT Wrong
VARIABLES sc, k, rd, wt, out
vars == <<sc, k, rd, wt, out>>

Ms == 2
Gaps == <<0, 1, 2, 3>>
Base == <<6, 2, 4, 2, 4, 2, 4, 2, 4, 2, 4>>
Total == Product(Base)
RECURSIVE Build(_, _, _, _)
Build(d, n, t, acc) ==
    IF n = 0 THEN acc
    ELSE LET u == t + Gaps[d[2] + 1] IN
         Build(SubSeq(d, 3, Len(d)), n - 1, u, Append(acc, [t |-> u, w |-> d[1], b |-> IF Len(acc) = 3 THEN <<>> ELSE <<Len(acc) + 1>>]))
Script(i) == LET d == Digits(i, Base) IN [n |-> i, rows |-> Build(Tail(d), d[1], 0, <<>>)]
ASSUME ndJsonSerialize(IOEnv.SCRIPTS_OUT, SetToSeq({Script(i) : i \in Replayed(Total)}))

None == [on |-> FALSE, w |-> 0, first |-> 0, last |-> 0, b |-> <<>>]
Init == sc \in {Script(i) : i \in Picked(Total)} /\ k = 1 /\ rd = None /\ wt = None /\ out = <<>>

Line(c) == IF c.on THEN << [t |-> c.last, w |-> c.w, b |-> c.b] >> ELSE <<>>
Join(c, x) == IF ~c.on THEN [on |-> TRUE, w |-> x.w, first |-> x.t, last |-> x.t, b |-> x.b]
              ELSE [c EXCEPT !.b = @ \o x.b, !.last = IF Wrong = "first" THEN @ ELSE x.t]
Joins(c, x) == c.on /\ x.t - c.last < Ms
Read ==
    /\ k <= Len(sc.rows)
    /\ LET x == sc.rows[k] c == IF x.w = 0 THEN rd ELSE wt
           d == IF Joins(c, x) THEN Join(c, x) ELSE Join(None, x)
       IN /\ out' = IF Joins(c, x) THEN out ELSE out \o Line(c)
          /\ IF x.w = 0 THEN rd' = d /\ UNCHANGED wt ELSE wt' = d /\ UNCHANGED rd
    /\ k' = k + 1 /\ UNCHANGED sc
Flush == k = Len(sc.rows) + 1 /\ out' = (IF Wrong = "tail" THEN out ELSE out \o Line(rd) \o Line(wt)) /\ k' = k + 1 /\ rd' = None /\ wt' = None /\ UNCHANGED sc
Next == Read \/ Flush
Spec == Init /\ [][Next]_vars

Over == k = Len(sc.rows) + 2
Lines == SortSeq(out, LAMBDA a, b : a.t < b.t)
Filter(opt) == SelectSeq(Lines, LAMBDA l : (l.w = 0 /\ opt.read = 1) \/ (l.w = 1 /\ opt.write = 1))
Agrees == Over => \A a, b \in {0, 1} : LET opt == [read |-> a, write |-> b] IN ConvertOk(sc.rows, Ms, opt, Filter(opt))

(* ---- what the lines that are wanted are like *)
RECURSIVE Bytes(_)
Bytes(s) == IF s = <<>> THEN <<>> ELSE Head(s).b \o Bytes(Tail(s))
Recorded(w) == Bytes(RowsOf(sc.rows, w))
EachByteOnce == \A w \in {0, 1} : Bytes(Groups(sc.rows, Ms, w)) = Recorded(w)
Split == \A w \in {0, 1} : LET g == Groups(sc.rows, Ms, w) IN
            /\ \A i \in 1..Len(g) - 1 : g[i + 1].first - g[i].last >= Ms
            /\ \A i \in 1..Len(g) : \A t \in g[i].first..(g[i].last - 1) :   \* no gap within a line
                  \E j \in 1..Len(sc.rows) : sc.rows[j].w = w /\ sc.rows[j].t > t /\ sc.rows[j].t <= t + Ms
(* lines that lack or repeat something are not taken *)
Strict == (Over /\ Lines # <<>>) =>
            /\ ~ConvertOk(sc.rows, Ms, [read |-> 1, write |-> 1], Tail(Lines))
            /\ ~ConvertOk(sc.rows, Ms, [read |-> 1, write |-> 1], Lines \o <<Lines[Len(Lines)]>>)
            /\ ~ConvertOk(sc.rows, Ms, [read |-> 1, write |-> 1], [Lines EXCEPT ![1].b = @ \o <<9>>])
            /\ (Len(Lines) > 1 /\ Lines[1].t < Lines[2].t) => ~ConvertOk(sc.rows, Ms, [read |-> 1, write |-> 1], <<Lines[2], Lines[1]>> \o SubSeq(Lines, 3, Len(Lines)))
=============================================================================
