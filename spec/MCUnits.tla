------------------------------ MODULE MCUnits ------------------------------
(* A small device and small units: every position printed and read back, every text read.  *)
EXTENDS Units, TLC
CONSTANTS L, SS, H, S
Small == [kB |-> B(6), MB |-> B(40), GB |-> B(1000), TB |-> B(9000), kiB |-> B(8), MiB |-> B(32), GiB |-> B(1024), TiB |-> B(8192)]
RECURSIVE V(_)
V(a) == IF a = <<>> THEN 0 ELSE a[1] + Base * V(Tail(a))
dev == [len |-> B(L), ss |-> B(SS), h |-> H, s |-> S, hund |-> B((L * SS) \div 100)]
UU == {"s", "B", "kB", "MB", "kiB", "MiB", "cyl", "%"}
VARIABLE x
Digits(u, b) == LET p == Places(B(b), Size(dev, u)) z == V(Size(dev, u)) t == (2 * b * 10^p + z) \div (2 * z) IN
                IF u \in {"s", "B", "cyl"} THEN <<b \div z, 0>> ELSE <<t, p>>
Q(m, k, u) == B((m * V(Size(dev, u))) \div (SS * 10^k))
Tg(neg, m, k, u) == Targets(dev, neg, B(m), k, u, Q(m, k, u))
Rg(t, u) == LET z == V(Size(dev, u)) IN Range(dev, t, Radius(dev, u, B((z + SS - 1) \div SS)))
Out(t, u) == LET z == V(Size(dev, u)) IN Outside(dev, t, Radius(dev, u, B((z + SS - 1) \div SS)))
Abs(n) == IF n < 0 THEN -n ELSE n
Init == x \in {<<"byte", b, 0, u>> : b \in 0 .. L * SS - 1, u \in UU} \cup {<<"text", m, k, u>> : m \in 0 .. 3 * L, k \in 0 .. 1, u \in UU}
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
b == x[2]
\* one text is printed, and no other
OnePrinted == x[1] = "byte" => LET d == Digits(x[4], b) IN
  /\ Printed(dev, x[4], x[4], B(b), B(d[1]), d[2])
  /\ \A t \in {d[1] - 1, d[1] + 1} \cap Nat, p \in 0 .. 2 : ~Printed(dev, x[4], x[4], B(b), B(t), p)
\* read back, it is not further off than half of its last digit, and not at all where it is exact
RoundTrip == x[1] = "byte" => LET d == Digits(x[4], b) z == V(Size(dev, x[4])) IN
  Refused(FALSE, B(d[1]), d[2]) \/ \A t \in Tg(FALSE, d[1], d[2], x[4]) :
    /\ t[1] = 1
    /\ x[4] \in {"s", "B"} => V(t[2]) = b \div SS
    /\ x[4] = "cyl" => V(t[2]) <= b \div SS /\ b \div SS < V(t[2]) + H * S
    /\ x[4] \notin {"s", "B", "cyl"} => 2 * 10^d[2] * (Abs(V(t[2]) * SS - b) - SS - 1) <= z
    /\ (x[4] # "cyl" /\ V(t[2]) < L) => ~Out(t, x[4]) /\ LET r == Rg(t, x[4]) IN Le(r[1], Clip(dev, t)) /\ Le(Clip(dev, t), r[2])
\* a text denotes a position inside what is as good, never wider than the unit; counted from the
\* end it is the mirror image
Texts == x[1] = "text" => LET m == x[2] k == x[3] u == x[4] z == V(Size(dev, u)) IN
  /\ \A t \in Tg(FALSE, m, k, u) : ~Out(t, u) => LET r == Rg(t, u) IN
       Le(r[1], r[2]) /\ (V(r[2]) - V(r[1])) * SS <= z + SS /\ Lt(r[2], dev.len) /\ Le(r[1], Clip(dev, t)) /\ Le(Clip(dev, t), r[2])
  /\ \A t \in Tg(TRUE, m, k, u) : ~Out(t, u) => LET r == Rg(t, u) IN Le(r[1], r[2]) /\ Lt(r[2], dev.len)
  /\ \A t \in Tg(FALSE, m, k, u), y \in Tg(TRUE, m, k, u) : LET w == IF y[1] = 1 THEN V(y[2]) ELSE -V(y[2]) IN
       k = 0 => w + V(t[2]) \in {L, L - 1} /\ (w + V(t[2]) = L <=> (m * z) % SS = 0)
\* the arithmetic of Big is arithmetic
Arith == x[1] = "text" => LET a == 10007 * x[2] + 9999 * x[3] c == 101 * x[2] + 7 IN
  V(Add(B(a), B(c))) = a + c /\ V(Mul(B(x[2] + 9990), B(c))) = (x[2] + 9990) * c /\ V(Half(B(a))) = a \div 2
  /\ (a >= c => V(Sub(B(a), B(c))) = a - c) /\ (Le(B(a), B(c)) <=> a <= c)
=============================================================================
