----------------------------- MODULE UnitTrace -----------------------------
(* Judges what libparted reads and prints.  Numbers are sequences of digits (Big); q, up are
   quotients the recorder proposes, and they are verified before use.
     parse  c1 c2 sug  suffix and suggested unit;  neg m k  the number;  lax: no number at all
            ok v g0 g1   what was returned, with the range; ok2 v2 the same without a range
     chs    c h s for a text of three numbers
     fmt    u b; t p txt  what was printed: digits, decimals, unit name; cc hh tt for CHS
     size, name, default                                                                    *)
EXTENDS Units, TLC, Json, IOUtils
Hist == JsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, d, def
vars == <<h, i, d, def>>
If(b, c) == IF b THEN {} ELSE {c}
Names == {"s", "B", "kB", "MB", "GB", "TB", "compact", "cyl", "chs", "%", "kiB", "MiB", "GiB", "TiB"}
U(e) == IF e.u = "-" THEN def ELSE e.u
Checked(b) == IF b THEN TRUE ELSE Assert(FALSE, "the proposed quotient is wrong")
JudgeNo(e) == If(e.ok = 0 /\ e.x > 0 /\ e.gn = 1, "C13.malformed") \cup If(e.ok2 = 0, "C13.malformed")
JudgeParse(e) ==
  LET u == Unit(e.c1, e.c2, U(e), def)
      z == Size(d, u)
      neg == e.neg = 1
      r == Radius(d, u, e.up)
      T == Targets(d, neg, e.m, e.k, u, e.q) IN
  IF ~Checked(Quot(e.q, Mul(e.m, z), Mul(d.ss, Ten(e.k))) /\ Quot(e.up, Sub(Add(z, d.ss), One), d.ss)) THEN {} ELSE
  IF Refused(neg, e.m, e.k) THEN If(e.ok = 0 /\ e.x > 0 /\ e.ok2 = 0, "C13.fraction") ELSE
  If(\E t \in T : e.ok = (IF Outside(d, t, r) THEN 0 ELSE 1), IF e.ok = 1 THEN "C13.outside" ELSE "C13.refused")
  \cup (IF e.ok = 1 THEN If(\E t \in T : e.v = Clip(d, t), "C13.position") \cup If(\E t \in T : e.v = Clip(d, t) /\ <<e.g0, e.g1>> = Range(d, t, r), "C13.range")
        ELSE If(e.x > 0 /\ e.gn = 1, "C13.told"))
  \cup If(e.ok2 = 1 => \E t \in T : e.v2 = Clip(d, t), "C13.position")
  \cup If(e.ok2 = 0 => e.ok = 0, "C13.refused")
JudgeChs(e) ==
  IF ChsOk(d, e.c, e.hh, e.s) THEN If(e.ok = 1 /\ e.ok2 = 1, "C13.refused")
       \cup If(e.ok = 1 => LET z == Chs(d, e.c, e.hh, e.s) IN e.v = z /\ e.v2 = z /\ e.g0 = z /\ e.g1 = z, "C13.chs")
  ELSE If(e.ok = 0 /\ e.ok2 = 0 /\ e.x > 0 /\ e.gn = 1, "C13.outside")
JudgeFmt(e) ==
  IF U(e) = "chs" THEN If(e.name = "chs" /\ Lt(e.hh, B(d.h)) /\ Lt(e.s, B(d.s)) /\ Quot(Chs(d, e.c, e.hh, e.s), e.b, d.ss), "C13.chs")
  ELSE LET u == Prints(U(e), e.b) IN If(e.name = u, "C13.unit") \cup If(e.name = u => Printed(d, U(e), u, e.b, e.t, e.p), "C13.printed")
Judge(e) ==
  CASE e.op = "stop" -> {"ANY.crash"}
    [] e.op = "parse" -> IF e.lax = 1 THEN JudgeNo(e) ELSE JudgeParse(e)
    [] e.op = "chs" -> JudgeChs(e)
    [] e.op = "fmt" -> JudgeFmt(e)
    [] e.op = "size" -> If(IF e.u = "compact" THEN e.ok = 0 /\ e.x > 0 ELSE e.ok = 1 /\ e.v = Size(d, e.u), "C13.size")
    [] e.op = "name" -> If(e.ok = (IF e.want = "-" THEN 0 ELSE 1) /\ (e.ok = 1 => e.name = e.want /\ e.name \in Names), "C13.name")
    [] OTHER -> {}
Init == h \in DOMAIN Hist /\ i = 0 /\ d = [len |-> One, ss |-> One, h |-> 1, s |-> 1, hund |-> <<>>] /\ def = "compact"
Next == /\ i < Len(Hist[h]) /\ i' = i + 1 /\ h' = h
        /\ LET e == Hist[h][i + 1] IN
           /\ \A c \in Judge(e) : PrintT(<<"REJ", h, i + 1, c>>)
           /\ d' = IF e.op = "dev" THEN (IF Checked(Quot(e.hund, Mul(e.len, e.ss), B(100))) THEN [len |-> e.len, ss |-> e.ss, h |-> e.h, s |-> e.s, hund |-> e.hund] ELSE d) ELSE d
           /\ def' = IF e.op = "default" THEN e.u ELSE def
Spec == Init /\ [][Next]_vars
==============================================================================
