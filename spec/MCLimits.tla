------------------------------ MODULE MCLimits ------------------------------
(* Fields of M values, cylinders counted in K: a table that keeps to the limits is recorded
   as it is, and the limits are no narrower than the fields.  Check = 0: nothing is refused. *)
EXTENDS Integers, FiniteSets
CONSTANTS L, M, K, Cyl, Check, ByCyl
VARIABLES tab, dsk
Sec == 0 .. L - 1
Aligned(s, e) == ByCyl = 0 \/ (s % Cyl = 0 /\ (e + 1) % Cyl = 0)
Fits(p) == IF ByCyl = 1 THEN p[1] \div Cyl < K /\ p[2] \div Cyl < K ELSE p[1] < M /\ p[2] - p[1] + 1 < M
Rec(p) == IF ByCyl = 1 THEN <<((p[1] \div Cyl) % K) * Cyl, ((p[2] \div Cyl) % K) * Cyl + Cyl - 1>>
          ELSE <<p[1] % M, (p[1] % M) + ((p[2] - p[1] + 1) % M) - 1>>
Free(s, e) == \A q \in tab : e < q[1] \/ q[2] < s
Init == tab = {} /\ dsk = {}
Put == \E s, e \in Sec : s <= e /\ Aligned(s, e) /\ Free(s, e) /\ (Check = 0 \/ Fits(<<s, e>>)) /\ Cardinality(tab) < 2 /\ tab' = tab \cup {<<s, e>>} /\ dsk' = dsk
Drop == \E p \in tab : tab' = tab \ {p} /\ dsk' = dsk
Commit == dsk' = {Rec(p) : p \in tab} /\ tab' = tab
Read == tab' = dsk /\ dsk' = dsk
Next == Put \/ Drop \/ Commit \/ Read
Spec == Init /\ [][Next]_<<tab, dsk>>
NoWrap == {Rec(p) : p \in tab} = tab
Tight == \A s, e \in Sec : s <= e /\ Aligned(s, e) => (Fits(<<s, e>>) <=> Rec(<<s, e>>) = <<s, e>>)
=============================================================================
