------------------------------ MODULE Constraint ------------------------------
(* Alignments, ranges and constraints: what libparted/cs computes.

   An alignment is <<offset, grain>>: the sectors congruent to offset modulo grain, or the
   single sector offset if grain = 0.  A constraint asks that the start satisfies sa and lies
   in [sl, sh], the end satisfies ea and lies in [el, eh], and that the length lies in
   [mn, mx].  Null is the constraint nothing satisfies.                                     *)
EXTENDS Integers, Sequences, FiniteSets

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

Any == <<0, 1>>
At(p) == <<p, 0>>
NoAlign == <<-1, -1>>

Aligned(x, al) == IF al[2] < 0 THEN FALSE
                  ELSE IF al[2] = 0 THEN x = al[1] ELSE (x - al[1]) % al[2] = 0

RoundDown(x, g) == x - (x % g)
RoundUp(x, g) == IF x % g = 0 THEN x ELSE RoundDown(x, g) + g

\* least aligned sector >= lo, greatest aligned sector <= hi (for grain > 0)
UpFrom(lo, al) == IF al[2] = 0 THEN al[1] ELSE lo + ((al[1] - lo) % al[2])
DownFrom(hi, al) == IF al[2] = 0 THEN al[1] ELSE hi - ((hi - al[1]) % al[2])

SomeAligned(lo, hi, al) == IF al[2] < 0 THEN FALSE
                           ELSE IF al[2] = 0 THEN lo <= al[1] /\ al[1] <= hi
                           ELSE UpFrom(lo, al) <= hi

\* the aligned sectors of [lo, hi] that are nearest to x: one, two at a tie, or none
Nearest(lo, hi, al, x) ==
  IF ~ SomeAligned(lo, hi, al) THEN {}
  ELSE IF al[2] = 0 THEN {al[1]}
  ELSE LET first == UpFrom(lo, al)
           last == DownFrom(hi, al)
       IN IF x <= first THEN {first} ELSE IF x >= last THEN {last}
          ELSE LET u == UpFrom(x, al)
                   d == DownFrom(x, al)
               IN IF u - x < x - d THEN {u} ELSE IF u - x > x - d THEN {d} ELSE {u, d}

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

\* both alignments at once
MeetAlign(a, b) ==
  IF a[2] < 0 \/ b[2] < 0 THEN NoAlign
  ELSE IF a[2] = 0 THEN (IF Aligned(a[1], b) THEN a ELSE NoAlign)
  ELSE IF b[2] = 0 THEN (IF Aligned(b[1], a) THEN b ELSE NoAlign)
  ELSE IF a[2] = 1 THEN <<b[1] % b[2], b[2]>>
  ELSE IF b[2] = 1 THEN <<a[1] % a[2], a[2]>>
  ELSE LET g == Gcd(a[2], b[2])
           l == (a[2] \div g) * b[2]
           S == {k \in 0 .. (b[2] \div g) - 1 : Aligned(a[1] + k * a[2], b)}
       IN IF (a[1] - b[1]) % g # 0 THEN NoAlign
          ELSE <<(a[1] + (CHOOSE k \in S : TRUE) * a[2]) % l, l>>

C(sa, ea, sl, sh, el, eh, mn, mx) ==
  [sa |-> sa, ea |-> ea, sl |-> sl, sh |-> sh, el |-> el, eh |-> eh, mn |-> mn, mx |-> mx]
Null == C(NoAlign, NoAlign, 1, 0, 1, 0, 1, 0)
IsNull(c) == c.sa[2] < 0 \/ c.ea[2] < 0 \/ c.sl > c.sh \/ c.el > c.eh

FromMax(lo, hi) == IF lo > hi THEN Null ELSE C(Any, Any, lo, hi, lo, hi, 1, hi - lo + 1)
FromMin(lo, hi, len) == C(Any, Any, 0, lo, hi, len - 1, hi - lo + 1, len)
CAny(len) == C(Any, Any, 0, len - 1, 0, len - 1, 1, len)
Exact(s, e, len) == C(At(s), At(e), s, s, e, e, 1, len)

Meet(a, b) ==
  IF IsNull(a) \/ IsNull(b) THEN Null
  ELSE C(MeetAlign(a.sa, b.sa), MeetAlign(a.ea, b.ea), Max2(a.sl, b.sl), Min2(a.sh, b.sh),
         Max2(a.el, b.el), Min2(a.eh, b.eh), Max2(a.mn, b.mn), Min2(a.mx, b.mx))

Sat(c, s, e) == /\ Aligned(s, c.sa) /\ Aligned(e, c.ea)
                /\ c.sl <= s /\ s <= c.sh /\ c.el <= e /\ e <= c.eh
                /\ c.mn <= e - s + 1 /\ e - s + 1 <= c.mx

\* the ends that go with the start x
EndLo(c, x) == Max2(c.el, x + c.mn - 1)
EndHi(c, x) == Min2(c.eh, x + c.mx - 1)
HasEnd(c, x) == SomeAligned(EndLo(c, x), EndHi(c, x), c.ea)

\* the starts the solver considers: those that leave room for the shortest region before the
\* last aligned end and for the longest one after the first (libparted's "canonical" range)
StartLo(c) == Max2(c.sl, Max2(0, UpFrom(c.el, c.ea) - c.mx + 1))
StartHi(c) == Min2(c.sh, DownFrom(c.eh, c.ea) - c.mn + 1)
Starts(c, s) == IF IsNull(c) \/ c.mn > c.mx \/ ~ SomeAligned(c.el, c.eh, c.ea) THEN {}
                ELSE Nearest(StartLo(c), StartHi(c), c.sa, s)

\* What solving for the region nearest to [s, e] may return: the start nearest to s among the
\* considered ones, then the end nearest to e that goes with it.
Solve(c, s, e) ==
  UNION { { <<x, y>> : y \in Nearest(EndLo(c, x), EndHi(c, x), c.ea, e) } : x \in Starts(c, s) }

\* Solving may give up if a nearest start has no end that goes with it (only possible when
\* the ends are aligned to a grain greater than one).
MayFail(c, s) == Starts(c, s) = {} \/ \E x \in Starts(c, s) : ~ HasEnd(c, x)

\* some region satisfies c
Satisfiable(c, len) == /\ ~ IsNull(c)
                       /\ \E x \in Max2(0, c.sl) .. Min2(c.sh, len - 1) : Aligned(x, c.sa) /\ HasEnd(c, x)
===============================================================================
