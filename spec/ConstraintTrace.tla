--------------------------- MODULE ConstraintTrace ----------------------------
(* Judges recorded calls of libparted/cs.  Numbers are as given: the driver scales and shifts
   them on the way in and back on the way out, so that the same small cases are also run with
   large ones.  con: the slots of constraints, <<>> the null one.                            *)
EXTENDS Constraint, TLC, Json, IOUtils
Hist == JsonDeserialize(IOEnv.TRACE)
None == -77777
VARIABLES h, i, con
vars == <<h, i, con>>
If(b, c) == IF b THEN {} ELSE {c}
Al(a) == IF a[2] < 0 THEN NoAlign ELSE IF a[2] = 0 THEN a ELSE <<a[1] % a[2], a[2]>>
NoGeo(e) == e.lo > e.hi
\* the aligned sectors of the range, from s up or else the last one; no range: everywhere
Up(a, lo, hi, s) == IF ~ SomeAligned(lo, hi, a) THEN None ELSE IF a[2] = 0 THEN a[1] ELSE IF UpFrom(Max2(s, lo), a) <= hi THEN UpFrom(Max2(s, lo), a) ELSE DownFrom(hi, a)
Down(a, lo, hi, s) == IF ~ SomeAligned(lo, hi, a) THEN None ELSE IF a[2] = 0 THEN a[1] ELSE IF DownFrom(Min2(s, hi), a) >= lo THEN DownFrom(Min2(s, hi), a) ELSE UpFrom(lo, a)
Lim(e) == IF NoGeo(e) THEN <<-100000, 100000>> ELSE <<e.lo, e.hi>>
JudgeAl(e) ==
  LET a == Al(<<e.o, e.g>>) L == Lim(e) IN
  If(e.al = a, "C04.normal")
  \cup UNION {LET s == e.a + j - 1 r == e.r[j] N == Nearest(L[1], L[2], a, s) IN
              If(r[1] = Up(a, L[1], L[2], s), "C04.up") \cup If(r[2] = Down(a, L[1], L[2], s), "C04.down")
              \cup If(IF N = {} THEN r[3] = None ELSE r[3] \in N, "C04.nearest")
              \cup If((r[4] = 1) <=> (Aligned(s, a) /\ L[1] <= s /\ s <= L[2]), "C04.aligned") : j \in DOMAIN e.r}
JudgeGeo(e) ==
  LET lo == Max2(e.a, e.lo) hi == Min2(e.b, e.hi) IN
  If(e.meet = (IF lo <= hi THEN <<lo, hi>> ELSE <<1, 0>>) /\ e.ln = 1, "C04.geomeet")
  \cup If((e.over = 1) <=> lo <= hi, "C04.overlap") \cup If((e.inside = 1) <=> (e.a <= e.lo /\ e.hi <= e.b), "C04.inside")
  \cup If((e.eq = 1) <=> (e.a = e.lo /\ e.b = e.hi), "C04.equal") \cup If(e.dup = 1, "C04.geodup") \cup If(e.other = <<0, 0, 0, 0, 0>>, "C04.device")
  \cup If(\A j \in DOMAIN e.sec : (e.sec[j] = 1) <=> (j - 3 >= 0 /\ e.a + j - 3 <= e.b), "C04.sector")
  \* the sector s of the second region, seen from the first
  \cup If(\A j \in DOMAIN e.map : LET s == j - 2 IN e.map[j] = IF s >= 0 /\ e.lo + s <= e.hi /\ e.a <= e.lo + s /\ e.lo + s <= e.b THEN e.lo + s - e.a ELSE -1, "C04.map")
  \cup If(e.ss = IF e.lo <= e.b THEN <<1, e.lo, e.b, 1>> ELSE <<0, e.a, e.b, 1>>, "C04.set")
  \cup If(e.se = IF e.a <= e.hi THEN <<1, e.a, e.hi, 1>> ELSE <<0, e.a, e.b, 1>>, "C04.set")
  \cup If(e.x = (IF e.lo <= e.b THEN 0 ELSE 1) + (IF e.a <= e.hi THEN 0 ELSE 1), "C04.told")
Norm(c) == [c EXCEPT !.sa = Al(@), !.ea = Al(@)]
Made(e) ==
  CASE e.op = "con" -> Norm(C(<<e.v[1], e.v[2]>>, <<e.v[3], e.v[4]>>, e.v[5], e.v[6], e.v[7], e.v[8], e.v[9], e.v[10]))
    [] e.op = "c_meet" -> Meet(con[e.v[1] + 1], con[e.v[2] + 1])
    [] e.op = "c_dup" -> con[e.v[1] + 1]
    [] e.op \in {"c_any", "c_dev"} -> CAny(e.len)
    [] e.op = "c_min" -> C(Any, Any, 0, e.v[1], e.v[2], e.len - 1, e.v[2] - e.v[1] + 1, e.len)
    [] e.op = "c_max" -> FromMax(e.v[1], e.v[2])
    [] e.op = "c_minmax" -> C(Any, Any, e.v[3], e.v[1], e.v[2], e.v[4], e.v[2] - e.v[1] + 1, e.v[4] - e.v[3] + 1)
    [] e.op = "c_exact" -> Exact(e.v[1], e.v[2], e.len)
\* the regions within the n sectors from lo, in the order in which they are tried
Region(n, j) == CHOOSE p \in {<<s, t>> \in (0 .. n - 1) \X (0 .. n - 1) : s <= t} : p[1] * n - (p[1] * (p[1] - 1)) \div 2 + p[2] - p[1] + 1 = j
AlignOK(x, y) == x = y \/ (x[2] = 1 /\ y[2] = 1)
\* Known finding: where the ends are aligned to a grain and the length is bounded, the solver can miss solutions
Loose(c) == c.ea[2] <= 1
JudgeCon(e) ==
  LET m == Made(e) n == e.n lo == e.lo0 R == [j \in 1 .. (n * (n + 1)) \div 2 |-> LET p == Region(n, j) IN <<p[1] + lo, p[2] + lo>>]
      all == {R[j] : j \in DOMAIN R}
      sols == IF IsNull(m) THEN {} ELSE {r \in all : Sat(m, r[1], r[2])} IN
  If(IF e.con = <<>> THEN IsNull(m) ELSE ~ IsNull(m) /\ LET k == e.con[1] IN AlignOK(Al(k.sa), m.sa) /\ AlignOK(Al(k.ea), m.ea) /\ [k EXCEPT !.sa = 0, !.ea = 0] = [m EXCEPT !.sa = 0, !.ea = 0],
     IF e.op = "c_meet" THEN "C04.meet" ELSE "C04.made")
  \cup If(\A j \in DOMAIN e.sol : (e.sol[j] = 1) <=> (R[j] \in sols), "C04.solution")
  \cup If(\A j \in DOMAIN e.near : LET r == e.near[j] IN r[1] # None => r \in sols, "C04.breaks")
  \cup If(\A j \in DOMAIN e.near : LET r == e.near[j] S == IF IsNull(m) THEN {} ELSE Solve(m, R[j][1], R[j][2]) IN
            IF r[1] = None THEN sols = {} \/ ~ Loose(m) ELSE IF Loose(m) THEN r \in S
            ELSE S # {} /\ (r \in S), "C04.solve")
  \cup If(e.max[1] # None => e.max \in sols, "C04.breaks")
  \cup If(e.max[1] = None => sols = {} \/ ~ Loose(m), "C04.max")
  \cup If(e.max[1] # None /\ Loose(m) => \A r \in sols : r[2] - r[1] <= e.max[2] - e.max[1], "C04.max")
Judge(e) ==
  CASE e.op = "stop" -> {"ANY.crash"}
    [] e.op = "rnd" -> If(e.r[1] = RoundUp(e.s, e.g) /\ e.r[2] = RoundDown(e.s, e.g) /\ e.r[3] \in {RoundUp(e.s, e.g), RoundDown(e.s, e.g)}
                          /\ Abs(e.s - e.r[3]) * 2 <= e.g, "C04.round")
    [] e.op = "gcd" -> If(e.r[1] = Gcd(e.s, e.g), "C04.gcd")
    [] e.op = "al" -> JudgeAl(e)
    [] e.op = "meet" -> If(AlignOK(e.al, Al(MeetAlign(Al(<<e.o, e.g>>), Al(<<e.o2, e.g2>>)))), "C04.alignmeet")
    [] e.op = "geo" -> JudgeGeo(e)
    [] e.op \in {"con", "c_meet", "c_dup", "c_any", "c_dev", "c_min", "c_max", "c_minmax", "c_exact"} -> JudgeCon(e)
    [] OTHER -> {}
Init == h \in DOMAIN Hist /\ i = 0 /\ con = [j \in 1 .. 16 |-> Null]
Next == /\ i < Len(Hist[h]) /\ i' = i + 1 /\ h' = h
        /\ LET e == Hist[h][i + 1] IN
           /\ \A c \in Judge(e) : PrintT(<<"REJ", h, i + 1, c>>)
           /\ con' = IF e.op \in {"con", "c_meet", "c_dup", "c_any", "c_dev", "c_min", "c_max", "c_minmax", "c_exact"} THEN [con EXCEPT ![e.slot + 1] = Made(e)] ELSE con
Spec == Init /\ [][Next]_vars
==============================================================================
