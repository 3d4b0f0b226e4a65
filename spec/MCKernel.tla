------------------------------- MODULE MCKernel -------------------------------
(* How a table is made known to the kernel, request by request: remove what does not stay,
   resize what does, add what is missing; anybody may stop using a partition meanwhile.
   Init ranges over every view, table, kernel limit and label limit of a small device.
   Mixed = 1: resizing and adding in one pass by number; TLC shows why that is wrong.
   Gen = 1: behaviours of commands, tables and uses, for the driver.                       *)
EXTENDS Kernel, TLC
CONSTANTS Cells, Nums, Lim, MS, Gen, Mixed, Depth
VARIABLES K, T, K0, pc, i, failed, log
vars == <<K, T, K0, pc, i, failed, log>>
dev == [len |-> Cells, lim |-> Lim]
lim == IF MS < Lim THEN MS ELSE Lim
Ivs == {[s |-> a, l |-> b] : a \in 0 .. Cells - 1, b \in 1 .. Cells}
Fit(r) == r.s + r.l <= Cells
Apart(F) == \A m, n \in DOMAIN F : m # n => ~ Over(F[m], F[n])
Views == {F \in UNION {[D -> {[s |-> r.s, l |-> r.l, b |-> u] : r \in {x \in Ivs : Fit(x)}, u \in {0, 2}}] : D \in SUBSET (1 .. Lim \cap Nums)} : Apart(F)}
Tabs == {F \in UNION {[D -> {[s |-> r.s, l |-> r.l, x |-> 0] : r \in {x \in Ivs : Fit(x)}}] : D \in SUBSET {n \in Nums : n <= MS}} : Apart(F)}
Max == IF MS > Lim THEN MS ELSE Lim
Init == IF Gen = 1 THEN K = <<>> /\ T = <<>> /\ K0 = <<>> /\ pc = "gen" /\ i = 0 /\ failed = {} /\ log = <<>>
        ELSE K \in Views /\ T \in Tabs /\ K0 = K /\ pc = "del" /\ i = 1 /\ failed = {} /\ log = <<>>
Req(op, n, s, l) == Answer(K, dev, op, n, s, l)
Go(op, n, s, l) == IF Req(op, n, s, l) = "ok" THEN K' = After(K, op, n, s, l) /\ UNCHANGED failed ELSE UNCHANGED K /\ failed' = failed \cup (IF Req(op, n, s, l) \in {"none", "inval"} /\ op = "del" THEN {} ELSE {n})
Skip == UNCHANGED <<K, failed>>
Step(nextpc) == IF i < Max THEN i' = i + 1 /\ pc' = pc ELSE i' = 1 /\ pc' = nextpc
Del == pc = "del" /\ Step(IF Mixed = 1 THEN "both" ELSE "res") /\ IF Stays(K, T, lim, i) THEN Skip ELSE Go("del", i, 0, 0)
ResAt == IF i \in Known(T, lim) /\ i \in DOMAIN K /\ K[i].s = T[i].s /\ K[i].l # T[i].l THEN Go("res", i, T[i].s, T[i].l) ELSE Skip
AddAt == IF i \in Known(T, lim) /\ ~ (i \in DOMAIN K /\ Right(T, i, K[i])) THEN Go("add", i, T[i].s, T[i].l) ELSE Skip
Res == pc = "res" /\ Step("add") /\ ResAt
Add == pc = "add" /\ Step("end") /\ AddAt
Both == pc = "both" /\ Step("end") /\ IF i \in Known(T, lim) /\ i \in DOMAIN K /\ K[i].s = T[i].s THEN ResAt ELSE AddAt
Release == pc \notin {"end", "gen"} /\ \E n \in DOMAIN K : K[n].b = 2 /\ K' = [K EXCEPT ![n].b = 0] /\ UNCHANGED <<pc, i, failed>>
\* behaviours for the driver
Say(s) == log' = Append(log, s)
P(c) == ToString(100 + c * 300)
Q(c, w) == ToString(100 + (c + w) * 300 - 1)
One == LET c == RandomElement(1 .. 14) a == RandomElement(0 .. Cells - 1) w == RandomElement(1 .. 4) n == RandomElement(Nums) IN
  CASE log = <<>> -> Say("kdev")
    [] Len(log) < 1 + Cells \div 2 -> Say("kpart " \o ToString(n) \o " " \o P(a) \o " " \o ToString(w * 300) \o " " \o RandomElement({"0", "0", "0", "3", "1000000"}))
    [] Len(log) = 1 + Cells \div 2 -> Say("new")
    [] c <= 5 -> Say("add " \o RandomElement({"p", "p", "x", "l", "l"}) \o " " \o P(a) \o " " \o Q(a, w))
    [] c <= 7 -> Say("geom " \o ToString(n) \o " " \o P(a) \o " " \o Q(a, w))
    [] c = 8 -> Say("rm " \o ToString(n))
    [] c = 9 -> Say("mount " \o ToString(n) \o " " \o RandomElement({"0", "0", "1", "2", "3"}))
    [] c = 10 -> Say("busy " \o ToString(n))
    [] c = 11 -> Say(RandomElement({"devbusy", "os i", "new"}))
    [] c = 12 -> Say("kuse " \o ToString(n) \o " " \o RandomElement({"0", "0", "2", "1000000"}))
    [] OTHER -> Say("commit " \o RandomElement({"c", "i", "ci", "ii"}))
Next == IF Gen = 1 THEN One /\ UNCHANGED <<K, T, K0, pc, i, failed>> ELSE (Del \/ Res \/ Add \/ Both \/ Release) /\ UNCHANGED <<T, K0, log>>
Spec == Init /\ [][Next]_vars
\* at the end exactly what could not be done is known to have failed, and only uses are to blame
Reported == pc = "end" => Wrong(K, T, lim) = failed \cap (DOMAIN K \cup Known(T, lim)) /\ failed \subseteq Wrong(K, T, lim)
Blame == pc = "end" => Wrong(K, T, lim) \subseteq Blamed(K0, T, lim)
Safe == \A n \in DOMAIN K0 : Stays(K0, T, lim, n) => n \in DOMAIN K /\ K[n].s = K0[n].s
Sound == Apart(K)
Depthly == IF Gen = 1 /\ Len(log) >= Depth THEN PrintT(<<"BEH", log>>) /\ FALSE ELSE TRUE
==============================================================================
