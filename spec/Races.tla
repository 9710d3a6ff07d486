------------------------------- MODULE Races -------------------------------
(***************************************************************************)
(* Where two things happen at about the same time (a control byte when the *)
(* second of its frame ends, an answer at the deadline of its request, an  *)
(* alarm when an earlier one ends, bytes after 40 ms of silence) a trace   *)
(* does not tell which of them the library saw first.  The monitors then   *)
(* go on with both: their state is a set of branches, and a property is    *)
(* broken only if no branch is left that allows what happened.             *)
(*                                                                         *)
(* A branch is a record with the fields ch (the choices made for the event *)
(* at hand), nch (how many were needed so far), bad (the properties broken *)
(* in it) and amb (why it cannot be judged any further).                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

Choice(ms) == IF ms.nch < Len(ms.ch) THEN ms.ch[ms.nch + 1] ELSE TRUE
Chosen(ms) == [ms EXCEPT !.nch = @ + 1]
ChosenIf(ms, c) == IF c THEN Chosen(ms) ELSE ms
=============================================================================
