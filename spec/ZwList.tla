------------------------------- MODULE ZwList -------------------------------
(***************************************************************************)
(* The node list under concurrent use: a map from node numbers to nodes,   *)
(* changed by additions only.  Additions and readings are operations with  *)
(* a beginning and an end; for each number a reading returns a node that   *)
(* the list could hold at some moment between its beginning and its end.   *)
(*                                                                         *)
(* A node is known by its token; an addition that the library makes on its *)
(* own (discovery) may have begun at any time, and is over when it tells   *)
(* about it.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Open == 1000000000

ListInit == [adds |-> {}, clock |-> 1]

Tick(s) == [s EXCEPT !.clock = @ + 1]

(* An addition by operation op begins. *)
BeginAdd(s, op, n, k) ==
    Tick([s EXCEPT !.adds = @ \cup {[op |-> op, n |-> n, k |-> k, b |-> s.clock, e |-> Open]}])
BeginAdds(s, op, S) ==
    Tick([s EXCEPT !.adds = @ \cup {[op |-> op, n |-> x[1], k |-> x[2], b |-> s.clock, e |-> Open] : x \in S}])
EndAdd(s, op) ==
    Tick([s EXCEPT !.adds = {IF a.op = op /\ a.e = Open THEN [a EXCEPT !.e = s.clock] ELSE a : a \in @}])

(* The library tells about node n: its addition is over. *)
Told(s, n) ==
    Tick([s EXCEPT !.adds = {IF a.op = -1 /\ a.n = n /\ a.e = Open THEN [a EXCEPT !.e = s.clock] ELSE a : a \in @}])

Numbers(s) == {a.n : a \in s.adds}

(* Additions of n that a reading which began at b and ends now may reflect:
   they have begun, and no other one that came wholly after them was over
   before the reading began. *)
Live(s, n, b) ==
    {a \in s.adds : a.n = n /\ ~\E o \in s.adds : o.n = n /\ a.e < o.b /\ o.e < b}

MayLack(s, n, b) == ~\E a \in s.adds : a.n = n /\ a.e < b

(* l holds pairs of number and token. *)
InList(l) == {l[i][1] : i \in 1..Len(l)}
Lost(s, ns, l, b) == \E n \in ns : n \notin InList(l) /\ ~MayLack(s, n, b)
Foreign(s, l, b) ==
    \E i \in 1..Len(l) : ~\E a \in Live(s, l[i][1], b) : a.k = l[i][2]
Twice(l) == Cardinality(InList(l)) # Len(l)
=============================================================================
