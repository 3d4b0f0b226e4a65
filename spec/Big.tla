-------------------------------- MODULE Big --------------------------------
(* Natural numbers of any size: sequences of digits to base 10^4, lowest first, without
   leading zeros (zero is the empty sequence).  TLC's own integers have 32 bits.            *)
EXTENDS Integers, Sequences
Base == 10000
RECURSIVE Trim(_)
Trim(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE Trim(SubSeq(a, 1, Len(a) - 1))
RECURSIVE B(_)
B(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o B(n \div Base)
D(a, k) == IF k \in DOMAIN a THEN a[k] ELSE 0
RECURSIVE Carry(_, _, _, _)
Carry(f, n, k, c) == IF k > n THEN B(c) ELSE LET s == f[k] + c IN <<s % Base>> \o Carry(f, n, k + 1, s \div Base)
Norm(f, n) == Trim(Carry(f, n, 1, 0))
Add(a, b) == LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b) IN Norm([k \in 1 .. n |-> D(a, k) + D(b, k)], n)
RECURSIVE Col(_, _, _, _)
Col(a, b, k, j) == IF j > Len(a) THEN 0 ELSE a[j] * D(b, k + 1 - j) + Col(a, b, k, j + 1)
Mul(a, b) == LET n == Len(a) + Len(b) - 1 IN IF a = <<>> \/ b = <<>> THEN <<>> ELSE Norm([k \in 1 .. n |-> Col(a, b, k, 1)], n)
RECURSIVE Cmp(_, _, _)
Cmp(a, b, k) == IF k = 0 THEN 0 ELSE IF a[k] # b[k] THEN a[k] - b[k] ELSE Cmp(a, b, k - 1)
Compare(a, b) == IF Len(a) # Len(b) THEN Len(a) - Len(b) ELSE Cmp(a, b, Len(a))
Le(a, b) == Compare(a, b) <= 0
Lt(a, b) == Compare(a, b) < 0
Sub(a, b) == Norm([k \in 1 .. Len(a) |-> a[k] - D(b, k)], Len(a))    \* a >= b: floor division carries the borrow
Min(a, b) == IF Le(a, b) THEN a ELSE b
One == <<1>>
RECURSIVE Ten(_)
Ten(k) == IF k = 0 THEN One ELSE Mul(<<10>>, Ten(k - 1))
RECURSIVE HalfB(_, _, _)
HalfB(a, k, c) == IF k = 0 THEN <<>> ELSE HalfB(a, k - 1, (a[k] + c * Base) % 2) \o <<(a[k] + c * Base) \div 2>>
Half(a) == Trim(HalfB(a, Len(a), 0))
\* q is the quotient of a by b, rounded down
Quot(q, a, b) == Le(Mul(q, b), a) /\ Lt(a, Mul(Add(q, One), b))
=============================================================================
