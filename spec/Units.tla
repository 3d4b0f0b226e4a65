------------------------------- MODULE Units -------------------------------
(* What sizes and positions mean.  d is the device: len sectors of ss bytes (numbers of Big),
   h heads and s sectors per track.                                                          *)
EXTENDS Big
Powers == [kB |-> Ten(3), MB |-> Ten(6), GB |-> Ten(9), TB |-> Ten(12),
           kiB |-> B(1024), MiB |-> B(1048576), GiB |-> B(1073741824), TiB |-> Mul(B(1024), B(1073741824))]
IEC == {"kiB", "MiB", "GiB", "TiB"}
Exact == IEC \cup {"s", "B", "chs"}      \* what lies between two sectors counts as the sector it is in
Cyl(d) == Mul(B(d.h), B(d.s))
Bytes(d) == Mul(d.len, d.ss)
\* how many bytes a unit has; a hundredth is rounded down to a byte: hund is the quotient
Size(d, u) == CASE u \in DOMAIN Powers -> Powers[u]
                [] u = "s" \/ u = "chs" -> d.ss
                [] u = "B" -> One
                [] u = "cyl" -> Mul(Cyl(d), d.ss)
                [] u = "%" -> d.hund
\* what a suffix says, by its first two letters in lower case; nothing known: the suggestion
Two == [k |-> "kiB", m |-> "MiB", g |-> "GiB", t |-> "TiB"]
One1 == [s |-> "s", b |-> "B", k |-> "kB", m |-> "MB", g |-> "GB", t |-> "TB", c |-> "cyl"]
Unit(c1, c2, sug, def) ==
  IF c2 = "i" /\ c1 \in DOMAIN Two THEN Two[c1]
  ELSE IF c2 # "i" /\ c1 \in DOMAIN One1 THEN One1[c1] ELSE IF c2 # "i" /\ c1 = "%" THEN "%"
  ELSE IF sug = "compact" THEN (IF def = "compact" THEN "MB" ELSE def) ELSE sug
\* sectors on each side of a position that are as good: half a unit, less the sector itself
Radius(d, u, up) == IF u \in IEC THEN <<>> ELSE LET hf == Half(up) IN IF hf = <<>> THEN <<>> ELSE Sub(hf, One)
\* integers: sign and magnitude, for positions that may lie before the device
Pos(a) == <<1, a>>
Minus(a, b) == IF Le(b, a) THEN <<1, Sub(a, b)>> ELSE <<-1, Sub(b, a)>>
Shift(t, r) == IF t[1] = 1 THEN Pos(Add(t[2], r)) ELSE Minus(r, t[2])
Back(t, r) == IF t[1] = 1 THEN Minus(t[2], r) ELSE <<-1, Add(t[2], r)>>
Clip(d, t) == IF t[1] = -1 THEN <<>> ELSE Min(t[2], Sub(d.len, One))
Outside(d, t, r) == IF t[1] = -1 THEN Lt(r, t[2]) ELSE Lt(Add(Sub(d.len, One), r), t[2])
Range(d, t, r) == <<Clip(d, Back(t, r)), Clip(d, Shift(t, r))>>
(* The position is m / 10^k units from the start, or back from the end; q is the quotient of
   the distance by the sector size.  A decimal fraction is not exact in binary: one byte off
   is allowed for.                                                                           *)
Whole(q, x, dd, slack, up) ==
  LET hi == Add(q, One) IN
  (IF up /\ Mul(q, dd) # x THEN {hi} ELSE {q})
  \cup (IF slack = <<>> THEN {} ELSE
        (IF Le(Mul(hi, dd), Add(x, slack)) THEN IF up THEN {hi, Add(hi, One)} ELSE {hi} ELSE {})
        \cup (IF Le(x, Add(Mul(q, dd), slack)) THEN IF up THEN {q, hi} ELSE IF q = <<>> THEN {} ELSE {q, Sub(q, One)} ELSE {}))
Targets(d, neg, m, k, u, q) ==
  LET x == Mul(m, Size(d, u)) dd == Mul(d.ss, Ten(k)) w == Whole(q, x, dd, IF k = 0 THEN <<>> ELSE Ten(k), neg) IN
  {IF neg THEN Minus(d.len, z) ELSE Pos(z) : z \in w}
Refused(neg, m, k) == ~neg /\ m # <<>> /\ Lt(m, Ten(k))     \* less than one unit
\* cylinder, head, sector
ChsOk(d, c, h, s) == Lt(h, B(d.h)) /\ Lt(s, B(d.s)) /\ Lt(Add(Mul(Add(Mul(c, B(d.h)), h), B(d.s)), s), d.len)
Chs(d, c, h, s) == Add(Mul(Add(Mul(c, B(d.h)), h), B(d.s)), s)
(* Printing. *)
Compact(b) == IF Le(Mul(<<10>>, Powers.TB), b) THEN "TB" ELSE IF Le(Mul(<<10>>, Powers.GB), b) THEN "GB"
              ELSE IF Le(Mul(<<10>>, Powers.MB), b) THEN "MB" ELSE IF Le(Mul(<<10>>, Powers.kB), b) THEN "kB" ELSE "B"
Prints(u, b) == IF u = "compact" THEN Compact(b) ELSE u
\* b bytes of units of z bytes: three significant digits at least, at most two decimals
Places(b, z) == IF Lt(Mul(b, B(1000)), Mul(B(9995), z)) THEN 2 ELSE IF Lt(Mul(b, B(100)), Mul(B(9995), z)) THEN 1 ELSE 0
Rounded(b, z, t, p) == LET bb == Mul(Mul(<<2>>, b), Ten(p)) tt == Mul(Mul(<<2>>, t), z) IN Le(tt, Add(bb, z)) /\ Lt(bb, Add(tt, z))
Printed(d, u0, u, b, t, p) ==   \* u0 was asked for, u is printed;  t, p: the digits and how many follow the point
  LET z == Size(d, u) IN
  IF u0 \in {"s", "cyl", "B"} THEN p = 0 /\ Quot(t, b, z)
  ELSE p = Places(b, z) /\ Rounded(b, z, t, p)
=============================================================================
