------------------------------ MODULE MCProbe ------------------------------
(* A file system of every kind laid out on a small device, and each byte of what identifies it
   set to every other value: it is recognised as what it is and as nothing else, exactly as
   long as those bytes are right; where it begins elsewhere, or its region ends before them,
   it is not.  Two of them in the same place: each as if it were alone, or overwritten.
   Samples: [t, R, sig]; sig the offsets of the bytes that identify it                      *)
EXTENDS FsProbe, TLC, Json, IOUtils
Samples == JsonDeserialize(IOEnv.SAMPLES)
CONSTANT Step
VARIABLE x
Found(R) == {t \in Types : Claim(t, R) # No}
\* the image with byte o set to v
Set(I, o, v) == LET k == CHOOSE j \in DOMAIN I : I[j][1] <= o /\ o < I[j][1] + Len(I[j][2]) IN [I EXCEPT ![k][2][o - I[k][1] + 1] = v]
Covered(I, o) == \E j \in DOMAIN I : I[j][1] <= o /\ o < I[j][1] + Len(I[j][2])
Damaged(s, o, v) == [s.R EXCEPT !.img = Set(@, o, v), !.far = Set(@, o, v), !.nil = IF s.t = "nilfs2" /\ o \notin {1030, 1031} THEN <<1, 0>> ELSE @]
\* the region cut to n sectors
Short(R, n) == [R EXCEPT !.ln = n]
Moved(R, k) == LET I == SelectSeq([j \in DOMAIN R.img |-> <<R.img[j][1] - k * R.ss, R.img[j][2]>>], LAMBDA e : e[1] >= 0) IN [R EXCEPT !.img = I, !.far = I, !.ln = @ - k, !.st = @ + k, !.nil = <<0, 0>>]
Init == x \in {<<"alone", s, 0, 0>> : s \in DOMAIN Samples}
        \cup {<<"damaged", s, o, v>> : s \in DOMAIN Samples, o \in 1 .. 20, v \in {a \in 0 .. 255 : a % Step = 0 \/ a = 255}}
        \cup {<<"short", s, 0, n>> : s \in DOMAIN Samples, n \in 1 .. 12} \cup {<<"moved", s, 0, n>> : s \in DOMAIN Samples, n \in 1 .. 4}
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
S == Samples[x[2]]
Alone == x[1] = "alone" => Found(S.R) = {S.t}
\* other magic numbers of the same family are one byte away
Near(t) == IF t \in Amiga THEN Amiga ELSE IF t \in Hfs THEN Hfs ELSE IF t \in {"sun-ufs", "hp-ufs"} THEN {"sun-ufs", "hp-ufs"} ELSE {}
Damage == x[1] = "damaged" /\ x[3] <= Len(S.sig) /\ Covered(S.R.img, S.sig[x[3]]) /\ At(S.R.img, S.sig[x[3]]) # x[4] =>
  LET f == Found(Damaged(S, S.sig[x[3]], x[4])) IN S.t \notin f /\ f \subseteq Near(S.t)
\* its signature is past the end of the region
Beyond == x[1] = "short" => LET n == x[4] IN (S.t \notin Hfs /\ \E k \in DOMAIN S.sig : S.sig[k] >= n * S.R.ss) => S.t \notin Found(Short(S.R, n))
Elsewhere == x[1] = "moved" => S.t \notin Found(Moved(S.R, x[4]))
\* which of two, three: the one whose size is nearest by more than the margin, or none
Sizes == {1, 2000, 4096, 4097, 9000, 10000}
Lst(a, b) == <<<<"a", <<>>, B(a)>>, <<"b", <<>>, B(b)>>>>
ASSUME \A n \in {4096, 9000}, a, b \in Sizes : LET R == [st |-> 0, ln |-> n] d(k) == IF k > n THEN k - n ELSE n - k IN
  Best(Lst(a, b), R) = (IF d(a) + 4096 <= d(b) THEN "a" ELSE IF d(b) + 4096 <= d(a) THEN "b" ELSE "-")
ASSUME \A a \in Sizes : Best(<<<<"a", <<>>, B(a)>>>>, [st |-> 0, ln |-> 5000]) = "a" /\ Best(<<>>, [st |-> 0, ln |-> 9]) = "-"
=============================================================================
