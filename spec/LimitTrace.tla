----------------------------- MODULE LimitTrace -----------------------------
(* Judges what a label accepts on devices of any size, and what it reads back.  Requests lie
   inside the part of the device that the label leaves to partitions and are aligned as it
   wants them; only the limits of its fields, and the other partitions, are in question.
     P  the partitions: number, type (0, 1 logical, 2 extended), start, end                  *)
EXTENDS Limits, FiniteSets, TLC, Json, IOUtils
Hist == JsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, d, P
vars == <<h, i, d, P>>
Far == <<0, 2>>
If(b, c) == IF b THEN {} ELSE {c}
Set(s) == {s[j] : j \in DOMAIN s}
Room(t, s, e, O) ==
  LET x == <<0, t, s, e>> IN
  \* logical partitions need room for their links as well, which is judged elsewhere
  IF t = 1 THEN (\E q \in O : q[2] = 2 /\ Within(x, q) /\ Lt(Add(q[3], Far), s)) /\ \A q \in O : q[2] # 2 => Lt(Add(e, Far), q[3]) \/ Lt(Add(q[4], Far), s)
  ELSE (\A q \in O : q[2] # 1 => Apart(x, q)) /\ (t = 2 => ~\E q \in O : q[2] = 2)
\* a number left for it
Slot(t, O) == t = 1 \/ Cardinality({q \in O : q[2] # 1}) < (CASE d.lab = "msdos" -> 4 [] d.lab = "sun" -> 7 [] OTHER -> 8)
New(e) == Set(e.parts) \ P
Judge(e) ==
  CASE e.op = "stop" -> {"ANY.crash"}
    [] e.op = "limits" -> If(e.ok = 1 /\ e.ml = MaxLen(d.lab) /\ e.ms = MaxStart(d.lab), "C15.reported") \cup If(e.sup = Count(d.lab), "C15.count")
    [] e.op = "new" -> If(e.ok = 1, "C15.made")
    [] e.op = "add" -> If(Fits(d.lab, d.cyl, e.s, e.e) /\ Room(e.ty, e.s, e.e, P) /\ Slot(e.ty, P) => e.ok = 1, "C15.refused")
         \cup If(e.ok = 1 => P \subseteq Set(e.parts) /\ \E q \in New(e) : New(e) = {q} /\ q[2] = e.ty /\ (e.exact = 1 => q[3] = e.s /\ q[4] = e.e), "C15.placed")
         \cup If(e.ok = 1 => \A q \in New(e) : Fits(d.lab, d.cyl, q[3], q[4]), "C15.accepted")
         \cup If(e.ok = 0 => e.x > 0 /\ Set(e.parts) = P, "C15.told") \cup If(e.ok = 0 => e.all = d.all, "C02.refusal")
    [] e.op \in {"setgeom", "max"} -> If(e.nop = 1 \/ e.ok = 1 => Set(e.parts) \ P = {} \/ \E q \in Set(e.parts) \ P : Fits(d.lab, d.cyl, q[3], q[4]), "C15.accepted")
         \cup (IF e.nop = 1 \/ e.op = "max" \/ ~\E q \in P : q[1] = e.n THEN {} ELSE
               LET old == CHOOSE q \in P : q[1] = e.n
                   q2 == <<e.n, old[2], e.s, e.e>> IN
               If(e.ok = 1 => Set(e.parts) = (P \ {old}) \cup {q2}, "C15.placed")
               \cup If(Fits(d.lab, d.cyl, e.s, e.e) /\ Room(old[2], e.s, e.e, P \ {old}) /\ old[2] = 0 => e.ok = 1, "C15.refused"))
         \cup If(e.ok = 0 => Set(e.parts) = P, "C15.told") \cup If(e.ok = 0 => e.all = d.all, "C02.refusal")
    [] e.op = "read" -> If(e.ok = 1, "C15.unreadable") \cup If(e.ok = 1 /\ d.c = 1 => {Tail(q) : q \in Set(e.parts)} = {Tail(q) : q \in P}, "C15.recorded")
    [] e.op = "commit" -> If(e.ok = 1 \/ (d.lab = "atari" /\ e.x > 0), "C15.commit")  \* atari may ask about another table
    [] OTHER -> {}
Init == h \in DOMAIN Hist /\ i = 0 /\ d = [lab |-> "gpt", cyl |-> One, c |-> 0, all |-> <<>>] /\ P = {}
Next == /\ i < Len(Hist[h]) /\ i' = i + 1 /\ h' = h
        /\ LET e == Hist[h][i + 1] IN
           /\ \A c \in Judge(e) : PrintT(<<"REJ", h, i + 1, c>>)
           /\ d' = IF e.op = "stop" THEN d ELSE [(IF e.op = "new" THEN [lab |-> e.lab, cyl |-> e.cyl, c |-> 0, all |-> <<>>] ELSE IF e.op = "commit" THEN [d EXCEPT !.c = e.ok] ELSE d) EXCEPT !.all = e.all]
           /\ P' = IF e.op \in {"stop", "limits", "commit"} THEN P ELSE Set(e.parts)
Spec == Init /\ [][Next]_vars
==============================================================================
