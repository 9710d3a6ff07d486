----------------------------- MODULE ZwFraming -----------------------------
(***************************************************************************)
(* How a byte stream is cut into control bytes and frames.  Take(buf)      *)
(* looks at the front of the buffer; Parse(buf) consumes all it can.       *)
(***************************************************************************)
EXTENDS ZwBytes

(* What stands at the front of a non-empty buffer:
     [k |-> "wait"]                 an incomplete frame: wait for more bytes
     [k |-> "skip",  n |-> 1]       a byte that cannot start anything valid
     [k |-> "ctl",   n |-> 1, b]    a control byte
     [k |-> "frame", n, f]          a frame with a correct checksum          *)
Take(buf) ==
    LET b == buf[1] IN
    IF b \in Controls THEN [k |-> "ctl", n |-> 1, f |-> <<b>>]
    ELSE IF b # SOF THEN [k |-> "skip", n |-> 1, f |-> <<>>]
    ELSE IF Len(buf) < 2 THEN [k |-> "wait", n |-> 0, f |-> <<>>]
    ELSE LET n == buf[2] + 2 IN
         IF Len(buf) < n THEN [k |-> "wait", n |-> 0, f |-> <<>>]
         ELSE IF buf[2] >= 1 /\ buf[n] = Checksum(buf, 2, n - 1)
              THEN [k |-> "frame", n |-> n, f |-> SubSeq(buf, 1, n)]
              ELSE [k |-> "skip", n |-> 1, f |-> <<>>]

RECURSIVE Parse(_)
(* [items |-> the control bytes and frames, in order, rest |-> bytes kept] *)
Parse(buf) ==
    IF buf = <<>> THEN [items |-> <<>>, rest |-> <<>>]
    ELSE LET x == Take(buf) IN
         IF x.k = "wait" THEN [items |-> <<>>, rest |-> buf]
         ELSE LET r == Parse(SubSeq(buf, x.n + 1, Len(buf))) IN
              IF x.k = "skip" THEN r
              ELSE [items |-> <<[k |-> x.k, f |-> x.f]>> \o r.items, rest |-> r.rest]

(* Silence, in microseconds, after which unfinished bytes are forgotten. *)
Stale == 40000
=============================================================================
