-------------------------------- MODULE Kernel --------------------------------
(* The kernel's view of a block device's partitions, the requests that change it, and what
   a table asks of it.  A view is a function from numbers to [s, l, b]: start, length (in the
   device's sectors) and whether the partition is in use (0 no, 1 for a moment, 2 for good). *)
EXTENDS Integers, Sequences, FiniteSets
Range0(f) == {f[x] : x \in DOMAIN f}
Over(a, b) == a.s < b.s + b.l /\ b.s < a.s + a.l
Clear(K, n, r) == \A m \in DOMAIN K \ {n} : ~ Over(K[m], r)
Without(K, n) == [m \in DOMAIN K \ {n} |-> K[m]]
With(K, n, r) == [m \in DOMAIN K \cup {n} |-> IF m = n THEN r ELSE K[m]]
\* what a request answers, and the view after it.  dev: [len, lim]
Answer(K, dev, op, n, s, l) ==
  LET r == [s |-> s, l |-> l, b |-> 0] IN
  CASE dev.lim < 1 \/ n < 1 -> "inval"
    [] op = "del" -> IF n \notin DOMAIN K THEN "none" ELSE IF K[n].b > 0 THEN "busy" ELSE "ok"
    [] op = "add" -> IF s < 0 \/ l < 1 \/ s + l > dev.len \/ n > dev.lim THEN "inval" ELSE IF n \in DOMAIN K \/ ~ Clear(K, n, r) THEN "busy" ELSE "ok"
    [] OTHER -> IF l < 1 THEN "inval" ELSE IF n \notin DOMAIN K THEN "none" ELSE IF K[n].s # s THEN "inval" ELSE IF ~ Clear(K, n, r) THEN "busy" ELSE "ok"
After(K, op, n, s, l) == CASE op = "del" -> Without(K, n) [] op = "add" -> With(K, n, [s |-> s, l |-> l, b |-> 0]) [] OTHER -> [K EXCEPT ![n].l = l]

\* what table T (a function from numbers to [s, l, x], x = 1: extended) wants known
Known(T, lim) == {n \in DOMAIN T : n <= lim}
Right(T, n, r) == r.s = T[n].s /\ IF T[n].x = 1 THEN r.l \in 1 .. 2 /\ r.l <= T[n].l ELSE r.l = T[n].l
Wrong(K, T, lim) == {n \in DOMAIN K \cup Known(T, lim) : ~ (n \in Known(T, lim) /\ n \in DOMAIN K /\ Right(T, n, K[n])) }
Stays(K, T, lim, n) == n \in DOMAIN K /\ n \in Known(T, lim) /\ K[n].s = T[n].s      \* not to be removed: unchanged, or resized where it is
\* the partitions whose being in use stands in the way
Stuck(K, T, lim) == {n \in DOMAIN K : K[n].b = 2 /\ ~ Stays(K, T, lim, n)}
Blamed(K, T, lim) == Stuck(K, T, lim) \cup {n \in Known(T, lim) : \E m \in Stuck(K, T, lim) : Over(K[m], [s |-> T[n].s, l |-> IF T[n].x = 1 THEN (IF T[n].l > 1 THEN 2 ELSE 1) ELSE T[n].l])}
==============================================================================
