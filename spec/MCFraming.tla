----------------------------- MODULE MCFraming ------------------------------
(***************************************************************************)
(* All ways in which a stream of bytes can come: cut anywhere, with a      *)
(* silence somewhere.  What is recognised does not depend on the cuts, and *)
(* a frame that comes on its own after a silence is always recognised.     *)
(* The numbered scripts are short streams over an alphabet in which frames *)
(* begin, end, nest and are damaged.                                       *)
(***************************************************************************)
EXTENDS ZwFraming, ScriptSel, Json, SequencesExt, FiniteSets, TLC

VARIABLES sc, fed, buf, items, whole

vars == <<sc, fed, buf, items, whole>>

(* 1 1 254 and 1 2 0 253 are frames, 6 and 24 control bytes *)
Alphabet == <<1, 2, 0, 254, 253, 6, 24>>
Length == 7
Whole == <<1, 3, 0, 4, 248>>    \* comes at the end, after a silence
Base == [i \in 1..Length |-> Len(Alphabet)] \o <<64, 7>>    \* cuts; silence after so many bytes (0: none)
Total == 7 * 7 * 7 * 7 * 7 * 7 * 7 * 64 * 7

Pow2 == <<1, 2, 4, 8, 16, 32>>
Script(i) ==
    LET d == Digits(i, Base) IN
    [n |-> i, b |-> [k \in 1..Length |-> Alphabet[d[k] + 1]],
     cut |-> [k \in 1..6 |-> (d[8] \div Pow2[k]) % 2], gap |-> d[9]]

(* the pieces the stream comes in, each with a mark if a silence is before it *)
Exported(i) ==
    LET x == Script(i)
        Ends == {k \in 1..6 : x.cut[k] = 1 \/ k = x.gap} \cup {Length}
        start(e) == 1 + (IF \E f \in Ends : f < e THEN CHOOSE f \in Ends : f < e /\ \A g \in Ends : g < e => g <= f ELSE 0)
    IN [n |-> i, pieces |-> [k \in 1..Cardinality(Ends) |->
            LET e == CHOOSE e \in Ends : Cardinality({f \in Ends : f <= e}) = k
            IN [b |-> SubSeq(x.b, start(e), e), silent |-> IF start(e) = x.gap + 1 /\ x.gap > 0 THEN 1 ELSE 0]],
        whole |-> Whole]
ASSUME ndJsonSerialize(IOEnv.SCRIPTS_OUT, SetToSeq({Exported(i) : i \in Replayed(Total)}))

Init == /\ sc \in {Script(i) : i \in Picked(Total)}
        /\ fed = 0 /\ buf = <<>> /\ items = <<>> /\ whole = FALSE

(* Any number of further bytes comes; not across the silence. *)
Feed ==
    \E k \in fed + 1 .. Length :
        /\ sc.gap > 0 /\ fed < sc.gap => k <= sc.gap
        /\ LET p == Parse((IF fed = sc.gap THEN <<>> ELSE buf) \o SubSeq(sc.b, fed + 1, k)) IN
           /\ buf' = p.rest
           /\ items' = items \o p.items
        /\ fed' = k
        /\ UNCHANGED <<sc, whole>>

(* One frame, after a silence. *)
FeedWhole ==
    /\ fed = Length /\ ~whole
    /\ LET p == Parse(Whole) IN buf' = p.rest /\ items' = items \o p.items
    /\ whole' = TRUE
    /\ UNCHANGED <<sc, fed>>

Next == Feed \/ FeedWhole
Spec == Init /\ [][Next]_vars

OneByOne ==   \* what is recognised without any cuts
    LET a == Parse(SubSeq(sc.b, 1, IF sc.gap = 0 THEN fed ELSE IF fed < sc.gap THEN fed ELSE sc.gap))
        c == Parse(SubSeq(sc.b, sc.gap + 1, fed))
    IN IF sc.gap = 0 \/ fed <= sc.gap THEN a.items ELSE a.items \o c.items
(* The same said without a parser: an item begins at the first place where one can. *)
FrameAt(b, p) == b[p] = SOF /\ p < Len(b) /\ p + b[p + 1] + 1 <= Len(b) /\ WellFormedFrame(SubSeq(b, p, p + b[p + 1] + 1))
OpenAt(b, p) == b[p] = SOF /\ (p = Len(b) \/ p + b[p + 1] + 1 > Len(b))
RECURSIVE Declared(_)
Declared(b) ==
    LET S == {p \in 1..Len(b) : b[p] \in Controls \/ FrameAt(b, p) \/ OpenAt(b, p)} IN
    IF S = {} THEN <<>>
    ELSE LET p == CHOOSE p \in S : \A r \in S : p <= r
             n == IF b[p] \in Controls THEN 1 ELSE b[p + 1] + 2
         IN IF OpenAt(b, p) THEN <<>>
            ELSE <<[k |-> IF n = 1 THEN "ctl" ELSE "frame", f |-> SubSeq(b, p, p + n - 1)]>> \o Declared(SubSeq(b, p + n, Len(b)))
AsDeclared == Parse(sc.b).items = Declared(sc.b)
CutsDoNotMatter == ~whole => items = OneByOne
Genuine == \A i \in 1..Len(items) : IF items[i].k = "ctl" THEN items[i].f[1] \in Controls ELSE WellFormedFrame(items[i].f)
AfterSilence == whole => items[Len(items)] = [k |-> "frame", f |-> Whole] /\ buf = <<>>
(* what is kept could still become a frame *)
KeptIsOpen == buf # <<>> => buf[1] = SOF /\ (Len(buf) < 2 \/ Len(buf) < buf[2] + 2)
=============================================================================
