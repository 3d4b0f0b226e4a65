------------------------------- MODULE Limits -------------------------------
(* What the fields of the labels can hold.  Sector numbers are sequences of digits (Big).   *)
EXTENDS Big
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN One ELSE Mul(<<2>>, P2(k - 1))
I32 == Sub(P2(31), One)
U32 == Sub(P2(32), One)
U64 == Sub(P2(64), One)
MaxLen(lab) == CASE lab \in {"gpt", "loop"} -> U64 [] lab = "atari" -> I32 [] OTHER -> U32
MaxStart(lab) == IF lab = "sun" THEN Mul(P2(7), U32) ELSE MaxLen(lab)
Count(lab) == CASE lab = "msdos" -> 64 [] lab \in {"gpt", "amiga"} -> 128 [] lab \in {"dvh", "pc98"} -> 16 [] lab \in {"sun", "bsd"} -> 8
                [] lab = "mac" -> 65536 [] lab = "atari" -> 12 [] lab = "loop" -> 1
Length(s, e) == Sub(Add(e, One), s)
\* a pc98 label counts cylinders in 16 bits, whatever the size of a cylinder
Fits(lab, cyl, s, e) == Le(s, MaxStart(lab)) /\ Le(Length(s, e), MaxLen(lab)) /\ (lab = "pc98" => Lt(e, Mul(P2(16), cyl)))
Apart(p, q) == Lt(p[4], q[3]) \/ Lt(q[4], p[3])
Within(p, q) == Le(q[3], p[3]) /\ Le(p[4], q[4])
=============================================================================
