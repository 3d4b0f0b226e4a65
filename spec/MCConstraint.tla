---------------------------- MODULE MCConstraint ------------------------------
(* The operators of Constraint.tla against their definition, by exhaustion: an alignment, a
   range, a constraint is what it allows.                                                   *)
EXTENDS Constraint, TLC
CONSTANTS Kind, L, G
VARIABLE v
Aligns == {a \in (0 .. L) \X (1 .. G) : a[1] < a[2]} \cup {At(p) : p \in 0 .. L - 1}
Ranges == {r \in (0 .. L - 1) \X (0 .. L - 1) : r[1] <= r[2]}
Sizes == {<<a, b>> : a, b \in 1 .. L}
Cons == {C(sa, ea, r[1], r[2], q[1], q[2], z[1], z[2]) : sa, ea \in Aligns, r, q \in Ranges, z \in Sizes}
Side == {C(sa, Any, r[1], r[2], 0, L - 1, z[1], z[2]) : sa \in Aligns \cup {NoAlign}, r \in Ranges, z \in Sizes}
Init == v \in CASE Kind = "align" -> (Aligns \cup {NoAlign}) \X (Aligns \cup {NoAlign})
                [] Kind = "range" -> Aligns \X Ranges
                [] Kind = "solve" -> Cons \X {0}
                [] Kind = "meet" -> Side \X Side
Next == FALSE /\ UNCHANGED v
Spec == Init /\ [][Next]_v
Wide == -(2 * G) .. G * G * 2 + L
MeetIsBoth == Kind = "align" => \A x \in Wide : Aligned(x, MeetAlign(v[1], v[2])) <=> Aligned(x, v[1]) /\ Aligned(x, v[2])
NearestIsNearest == Kind = "range" => LET a == v[1] r == v[2] S == {y \in r[1] .. r[2] : Aligned(y, a)} IN
  /\ SomeAligned(r[1], r[2], a) <=> S # {}
  /\ \A x \in -2 .. L + 2 : Nearest(r[1], r[2], a, x) = {y \in S : \A z \in S : Abs(y - x) <= Abs(z - x)}
Sols(c) == {r \in Ranges : Sat(c, r[1], r[2])}
\* solving finds a solution if there is one; the one whose start, then whose end, is nearest; and from the whole device a longest one
Solves == Kind = "solve" => LET c == v[1] S == Sols(c) IN
  /\ Satisfiable(c, L) <=> S # {}
  /\ \A r \in Ranges : LET T == Solve(c, r[1], r[2]) IN
       /\ T \subseteq S
       /\ c.ea[2] <= 1 => (T # {} <=> S # {}) /\ ~ (S # {} /\ MayFail(c, r[1]))
       /\ T # {} /\ ~ MayFail(c, r[1]) => \A t \in T : \A s \in S : Abs(t[1] - r[1]) <= Abs(s[1] - r[1]) /\ (s[1] = t[1] => Abs(t[2] - r[2]) <= Abs(s[2] - r[2]))
  /\ c.ea[2] <= 1 => \A t \in Solve(c, 0, L - 1) : \A s \in S : s[2] - s[1] <= t[2] - t[1]
MeetAllowsBoth == Kind = "meet" => Sols(Meet(v[1], v[2])) = Sols(v[1]) \cap Sols(v[2])
==============================================================================
