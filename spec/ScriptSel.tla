----------------------------- MODULE ScriptSel ------------------------------
(* Picks scripts out of a numbered space: as many as asked for, from Offset on.   *)
EXTENDS Integers, Sequences, IOUtils

ModelCount  == atoi(IOEnv.SEL_MODEL)    \* explored by TLC
ReplayCount == atoi(IOEnv.SEL_REPLAY)   \* run in the real library
SelOffset   == atoi(IOEnv.SEL_OFFSET)

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE CoprimeFrom(_, _)
CoprimeFrom(k, n) == IF Gcd(k, n) = 1 THEN k ELSE CoprimeFrom(k + 1, n)
(* Evenly spread; the distance has no factor in common with n, so that every digit takes all its values. *)
Pick(n, count) ==
    IF count = 0 THEN {}
    ELSE IF count >= n THEN 0..(n - 1)
    ELSE LET step == CoprimeFrom(n \div count, n)
         IN {((SelOffset % n) + k * step) % n : k \in 0..(count - 1)}

Picked(n) == Pick(n, ModelCount)
Replayed(n) == Pick(n, ReplayCount)

(* digits of i in a mixed base, least first *)
RECURSIVE Digits(_, _)
Digits(i, base) ==
    IF base = <<>> THEN <<>> ELSE <<i % Head(base)>> \o Digits(i \div Head(base), Tail(base))
RECURSIVE Product(_)
Product(base) == IF base = <<>> THEN 1 ELSE Head(base) * Product(Tail(base))
=============================================================================
