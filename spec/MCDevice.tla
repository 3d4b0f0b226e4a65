------------------------------- MODULE MCDevice -------------------------------
(* The devices with the contents of the files behind them.  Sectors hold the number of the
   write that filled them; a write may stop part way, and says so or was told to ignore it.
   Gen = 1: random behaviours as commands for the driver, with what the system calls do.     *)
EXTENDS Device, TLC
CONSTANTS Paths, MaxObj, MaxOpen, MaxWrite, NSec, Depth, Gen
VARIABLES x, disk, must, w, log
vars == <<x, disk, must, w, log>>
S(n) == ToString(n)
Rnd(X) == RandomElement(X)
OS == {"rw", "ro", "no"}
Say(t) == log' = IF Gen = 1 THEN log \o t ELSE log
Keep == UNCHANGED <<disk, must, w>>
Objs == DOMAIN x.obj
\* a write of sectors a..b of which n arrive
DoWrite(k, a, b, n) ==
  /\ CanUse(x, k) /\ w < MaxWrite /\ w' = w + 1 /\ x' = x
  /\ LET p == x.obj[k].p IN
     IF x.obj[k].ro = 1 THEN UNCHANGED <<disk, must>>
     ELSE /\ disk' = [disk EXCEPT ![p] = [s \in 0 .. NSec - 1 |-> IF s \in a .. a + n - 1 THEN w + 1 ELSE @[s]]]
          \* what a reader may count on: all of it if it succeeded
          /\ must' = [must EXCEPT ![p] = [s \in 0 .. NSec - 1 |-> IF s \in a .. b THEN (IF n = b - a + 1 THEN {w + 1} ELSE @[s] \cup {w + 1}) ELSE @[s]]]
MNext ==
  \/ \E p \in Paths, os \in OS : (Len(x.obj) < MaxObj \/ Cached(x, p) # {}) /\ x' = Get(x, p, os)[1] /\ Keep
  \/ \E k \in Objs : \/ \E os \in OS : CanOpen(x, k) /\ x.obj[k].oc < MaxOpen /\ x' = Open(x, k, os) /\ Keep
                     \/ CanUse(x, k) /\ x' = Close(x, k) /\ Keep
                     \/ CanOpen(x, k) /\ (x.obj[k].oc = 0 \/ x.obj[k].fd = 1) /\ x' = Begin(x, k) /\ Keep
                     \/ \E os \in OS : CanEnd(x, k) /\ x' = End(x, k, os) /\ Keep
                     \/ x.obj[k].live = 1 /\ x' = Uncache(x, k) /\ Keep
                     \/ CanDestroy(x, k) /\ x' = Destroy(x, k) /\ Keep
                     \/ \E a, b \in 0 .. NSec - 1 : a <= b /\ \E n \in 0 .. b - a + 1 : DoWrite(k, a, b, n)

(* ---- behaviours ---- *)
Errs == {5, 4, 28}
Cuts == {64, 128, 512, 576, 1000, 1024, 100000}
RECURSIVE Spell(_)
Spell(q) == IF q = <<>> THEN "" ELSE " " \o S(Head(q)) \o Spell(Tail(q))
RndQ(m, good, z) == [j \in 1 .. m |-> IF Rnd(1 .. 3) = 1 THEN 0 - Rnd(Errs) ELSE IF Rnd(1 .. 12) = 1 THEN z ELSE Rnd(good)]
RECURSIVE Letters(_)
Letters(n) == IF n = 0 THEN "" ELSE Rnd({"r", "r", "r", "r", "i", "c", "u"}) \o Letters(n - 1)
Answers(z) == "!" \o Rnd({"rrrrrrrr", Letters(1), Letters(2), Letters(4), Letters(6)}) \o " "
Inject(c, good, z) == IF Rnd(1 .. 2) = 1 THEN <<>> ELSE <<"inj " \o c \o Spell(RndQ(Rnd(1 .. 4), good, z))>>
\* the cases that keep the model's state with the device's are those in which the system grants everything,
\* or refuses read-write (mode) or everything (gone) for good; the rest the trace specification follows
GOpen(p) == Rnd({1, 2, 3, 4, 5, 6})
Cmd(k) ==
  LET s == Rnd(0 .. NSec - 1) n == Rnd(0 .. NSec - s) IN
  CASE w % 9 = 0 -> Inject("r", Cuts, 0) \o Inject("s", {9}, 9) \o <<Answers(w) \o "read " \o S(k - 1) \o " " \o S(s) \o " " \o S(n)>>
    [] w % 9 = 1 -> Inject("r", Cuts, 0) \o <<Answers(w) \o "read " \o S(k - 1) \o " " \o S(s) \o " " \o S(n)>>
    [] w % 9 \in {2, 3} -> Inject("w", Cuts, 0) \o Inject("s", {9}, 9) \o <<Answers(w) \o "write " \o S(k - 1) \o " " \o S(s) \o " " \o S(n) \o " " \o S(w + 1)>>
    [] w % 9 = 4 -> Inject("f", {9}, 9) \o <<Answers(w) \o Rnd({"sync ", "syncf ", "gsync ", "gsyncf "}) \o S(k - 1) \o " 0 " \o S(NSec)>>
    [] w % 9 = 5 -> <<"bad " \o S(x.obj[k].p) \o " " \o S(s) \o " " \o S(s + Rnd(0 .. 3)), Answers(w) \o "check " \o S(k - 1) \o " " \o S(n) \o " " \o S(NSec - n + Rnd({0, 0, 2})), "bad " \o S(x.obj[k].p) \o " 0 0">>
    [] w % 9 = 6 -> Inject("r", Cuts, 0) \o <<Answers(w) \o "gread " \o S(k - 1) \o " " \o S(s) \o " " \o S(NSec - s) \o " " \o S(Rnd(0 .. 3)) \o " " \o S(Rnd(0 .. NSec - s))>>
    [] w % 9 = 7 -> Inject("w", Cuts, 0) \o <<Answers(w) \o "gwrite " \o S(k - 1) \o " " \o S(s) \o " " \o S(NSec - s) \o " " \o S(Rnd(0 .. 3)) \o " " \o S(Rnd(0 .. NSec - s)) \o " " \o S(w + 1)>>
    [] OTHER -> LET g == Rnd({0, 1, 3}) gl == NSec - g c == Rnd(1 .. gl) o == Rnd(0 .. gl - c) gr == Rnd({1, 2, 4}) b == Rnd(0 .. NSec - 1) IN
                <<"bad " \o S(x.obj[k].p) \o " " \o S(b) \o " " \o S(b + Rnd({0, 1, 2})), "gcheck " \o S(k - 1) \o " " \o S(g) \o " " \o S(gl) \o " " \o S(o) \o " " \o S(c) \o " " \o S(gr * Rnd(1 .. 3)) \o " " \o S(gr), "bad " \o S(x.obj[k].p) \o " 0 0">>
Fsync(z) == Inject("f", {9}, 9) \o Inject("c", {9}, 9)
GNext ==
  /\ TLCGet("level") <= Depth
  /\ \E c \in {Rnd(1 .. 22)}, k \in {IF Objs = {} THEN 0 ELSE Rnd(Objs)}, p \in {Rnd(0 .. 3)}, os \in {Rnd({"rw", "rw", "rw", "ro", "no", "once"})} :
     LET P == IF p = 3 THEN 0 ELSE p
         Os == IF os = "once" THEN "rw" ELSE os
         Set(pp) == CASE os = "rw" -> <<"mode " \o S(pp) \o " 0", "gone " \o S(pp) \o " 0">>
                      [] os = "ro" -> <<"mode " \o S(pp) \o " " \o S(Rnd({1, 2})), "gone " \o S(pp) \o " 0">>
                      [] os = "no" -> <<"gone " \o S(pp) \o " 1">>
                      [] OTHER -> <<"mode " \o S(pp) \o " 0", "gone " \o S(pp) \o " 0", "inj o -16 -16">>
         Ans == IF os = "once" THEN "!rrr " ELSE IF os = "no" THEN "!rrc " ELSE "" IN
     IF c <= 3 \/ k = 0 THEN Len(x.obj) < MaxObj /\ x' = Get(x, P, Os)[1] /\ Keep /\ Say(Set(P) \o <<Ans \o "get " \o S(p)>>)
     ELSE IF c <= 6 /\ CanOpen(x, k) THEN x' = Open(x, k, Os) /\ Keep /\ Say(Set(x.obj[k].p) \o <<Ans \o "open " \o S(k - 1)>>)
     ELSE IF c <= 9 /\ CanUse(x, k) THEN x' = Close(x, k) /\ Keep /\ Say(Fsync(w) \o <<Answers(w) \o "close " \o S(k - 1)>>)
     ELSE IF c = 10 /\ CanOpen(x, k) /\ (x.obj[k].oc = 0 \/ x.obj[k].fd = 1) THEN x' = Begin(x, k) /\ Keep /\ Say(<<"ext " \o S(k - 1)>>)
     ELSE IF c <= 12 /\ CanEnd(x, k) THEN x' = End(x, k, Os) /\ Keep /\ Say(Set(x.obj[k].p) \o <<Ans \o "unext " \o S(k - 1)>>)
     ELSE IF c = 13 /\ x.obj[k].live = 1 THEN x' = Uncache(x, k) /\ Keep /\ Say(<<"uncache " \o S(k - 1), "list">>)
     ELSE IF c = 14 /\ CanDestroy(x, k) /\ (x.obj[k].oc = 0 \/ x.obj[k].fd = 1) THEN x' = Destroy(x, k) /\ Keep /\ Say(<<"destroy " \o S(k - 1), "list">>)
     ELSE IF CanUse(x, k) THEN x' = x /\ w' = w + 1 /\ UNCHANGED <<disk, must>> /\ Say(Cmd(k))
     ELSE UNCHANGED <<x, disk, must, w, log>>
  /\ (TLCGet("level") = Depth) => PrintT(<<"BEH", log'>>)

Init == x = Fresh /\ w = 0 /\ log = <<>> /\ disk = [p \in Paths |-> [s \in 0 .. NSec - 1 |-> 0]] /\ must = [p \in Paths |-> [s \in 0 .. NSec - 1 |-> {0}]]
Next == IF Gen = 1 THEN GNext ELSE MNext /\ Say(<<>>)
Spec == Init /\ [][Next]_vars
\* a descriptor is held exactly while open and not given away (or not granted again)
FdIff == \A k \in Objs : LET o == x.obj[k] IN (o.fd = 1 => o.oc > 0 /\ o.ext = 0 /\ o.live = 1) /\ (o.live = 0 => o.oc = 0)
OnePerPath == \A p \in Paths : Cardinality(Cached(x, p)) <= 1
CacheLive == \A j \in DOMAIN x.cache : x.obj[x.cache[j]].live = 1
Reads == \A p \in Paths : \A s \in 0 .. NSec - 1 : disk[p][s] \in must[p][s]
RoSafe == [][\A p \in Paths : disk'[p] # disk[p] => \E k \in Objs : x.obj[k].p = p /\ x.obj[k].fd = 1 /\ x.obj[k].ro = 0]_vars
Counted == [][\A k \in Objs : x'.obj[k].oc - x.obj[k].oc \in {-1, 0, 1} \/ x'.obj[k].live = 0]_vars
==============================================================================
