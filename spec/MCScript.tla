------------------------------ MODULE MCScript ------------------------------
(* Runs of commands whose outcome is certain, on a device of 10 MiB: what they make of the table is
   what Done asks of each of them, the table stays sound, and some commands undo each other.
   Gen = 1: behaviours to be replayed; "!" before a command that must be refused.             *)
EXTENDS Script, TLC
CONSTANTS LabSet, Starts, Ends, Ns, Depth, Gen, Parts
VARIABLES T, u, log
Len0 == 20480
NoPos == [ok |-> 0, neg |-> 0, n |-> 0, den |-> 1, u |-> "", big |-> 0]
W(t) == [t |-> t, ascii |-> 1, nm |-> t, num |-> -1, dg |-> 0, pos |-> NoPos, unit |-> "", uuid |-> "", id |-> ""]
N(n) == [W(ToString(n)) EXCEPT !.num = n, !.dg = 1]
\* a position: <<text, n, unit, from the end>>
P(p) == [W(p[1]) EXCEPT !.dg = 1, !.pos = [ok |-> 1, neg |-> p[4], n |-> p[2], den |-> 1, u |-> p[3], big |-> 0]]
S(n) == <<ToString(n) \o "s", n, "s", 0>>
M(n) == <<ToString(n) \o "MiB", n, "mib", 0>>
B(n) == <<"-" \o ToString(n) \o "s", n, "s", 1>>
Bare1(n) == <<ToString(n), n, "", 0>>                              \* in the unit in force
C(c, w) == [c |-> c, al |-> "none", w |-> w, free |-> 0, num |-> 0]
StartWords == CASE Starts = 0 -> {S(2048), M(1), M(5), B(6144)} [] OTHER -> {S(1), S(34), S(2048), M(1), M(4), M(5), S(10240), B(6144), B(34)}
EndWords == CASE Ends = 0 -> {S(10239), M(5), B(34), B(1)} [] OTHER -> {S(34), S(4095), M(2), M(5), S(10240), M(8), B(34), B(33), B(1), M(10)}
Ty(x) == IF T.lab = "msdos" THEN <<W(x)>> ELSE <<>>
Nm(x) == IF T.lab = "gpt" THEN <<W(x)>> ELSE <<>>
Cmds == {C("mklabel", <<W(l)>>) : l \in LabSet}
        \cup {C("mkpart", Ty(y) \o Nm("a") \o f \o <<P(s), P(e)>>) : y \in {"primary"} \cup (IF T.lab = "msdos" THEN {"extended"} ELSE {}), f \in {<<>>, <<W("ext4")>>}, s \in StartWords, e \in EndWords}
        \cup {C("rm", <<N(n)>>) : n \in Ns} \cup {C("resizepart", <<N(n), P(e)>>) : n \in Ns, e \in EndWords}
        \cup {C("toggle", <<N(n), W("hidden")>>) : n \in Ns} \cup {C("set", <<N(n), W("legacy_boot"), W(o)>>) : n \in Ns, o \in {"on", "off"}}
        \cup {C("name", <<N(n), W(x)>>) : n \in Ns, x \in {"b", "Cc"}} \cup {C("disk_toggle", <<W("pmbr_boot")>>)}
        \cup {C("unit", <<[W(x) EXCEPT !.unit = x]>>) : x \in {"s", "mib"}}
Sure(c) == Certain(T, c, u)
After(c) == Do(T, c, u)
RECURSIVE Text(_)
Text(w) == IF w = <<>> THEN "" ELSE " " \o w[1].t \o Text(Tail(w))
Init == T = [lab |-> "", len |-> Len0, ss |-> 512, d |-> {}, fk |-> FALSE, p |-> {}] /\ u = "compact" /\ log = <<>>
Step(c) ==
  /\ Sure(c) /\ Cardinality(T.p) <= Parts
  /\ IF Can(T, c, u)[1] THEN T' = After(c) /\ u' = UnitAfter(c, u) ELSE T' = T /\ u' = u
  /\ log' = IF Gen = 1 THEN Append(log, (IF Can(T, c, u)[1] THEN "" ELSE "!") \o c.c \o Text(c.w)) ELSE <<>>
Small == Cardinality(T.p) <= Parts
Next == IF Gen = 1 THEN LET G == {c \in Cmds : Sure(c) /\ Can(T, c, u)[1] /\ Cardinality(After(c).p) <= Parts /\ (T.lab # "" => c.c # "mklabel")}
                            F == {c \in Cmds : Sure(c) /\ ~Can(T, c, u)[1]}
                            k == RandomElement({x + Len(log) - Len(log) : x \in 1..4}) IN
                        \* of the commands that succeed one of a name that comes up as often as the others
                        IF k = 1 /\ F # {} THEN \E c \in {RandomElement(F)} : Step(c)
                        ELSE \E nm \in {RandomElement({c.c : c \in G})} : \E c \in {RandomElement({c \in G : c.c = nm})} : Step(c)
        ELSE \E c \in Cmds : Step(c)
Spec == Init /\ [][Next]_<<T, u, log>>
Depthly == IF Gen = 1 /\ Len(log) >= Depth THEN PrintT(<<"BEH", log>>) /\ FALSE ELSE Gen = 0 => Small
-----------------------------------------------------------------------------
Sound == /\ \A x \in Real(T) : Usable(T)[1] <= x.s /\ x.s <= x.e /\ x.e <= Usable(T)[2]
         /\ \A x, y \in Real(T) : x # y => x.n # y.n /\ ~Overlap(x, y.s, y.e)
         /\ T.lab = "msdos" => Nums(T) \subseteq 1..4 /\ Cardinality({x \in Real(T) : x.t = 2}) <= 1
\* what is carried out is what is asked of the command
Honest == \A c \in Cmds : Sure(c) /\ Can(T, c, u)[1] => Done(T, After(c), c, u) = {}
\* that which must succeed can
Firm == \A c \in Cmds : LET k == Can(T, c, u) IN k[2] => k[1]
\* a partition that is made and removed leaves nothing; what is switched twice is as it was
Undone == \A c \in Cmds : Sure(c) /\ Can(T, c, u)[1] =>
   /\ c.c \in {"toggle", "disk_toggle"} => Real(Do(After(c), c, u)) = Real(T) /\ Do(After(c), c, u).d = T.d
   /\ c.c \in {"set", "name", "resizepart", "unit", "mklabel"} => Real(Do(After(c), c, UnitAfter(c, u))) = Real(After(c))
   /\ c.c = "mkpart" => Real(Do(After(c), C("rm", <<N(Lowest(T))>>), u)) = Real(T)
   /\ c.c = "mkpart" => ~Can(After(c), c, u)[1]                   \* not in the same place again
\* a place that is written with its unit is the same whichever unit is in force
Unitless == \A s \in StartWords, e \in EndWords : Place(T, P(s).pos, "s") = Place(T, P(s).pos, "gb") /\ EndPlace(T, Place(T, P(s).pos, "s"), P(e).pos, "s") = EndPlace(T, Place(T, P(s).pos, "s"), P(e).pos, "mb")
\* n MiB up to m MiB are (m - n) MiB, next to those that end or begin there
Fence == \A a, b \in 0 .. 9 : a < b => LET st == Place(T, P(M(a)).pos, "s") en == EndPlace(T, st, P(M(b)).pos, "s") IN st.lo = a * 2048 /\ en.lo = b * 2048 - 1
=============================================================================
