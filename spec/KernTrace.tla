------------------------------ MODULE KernTrace -------------------------------
(* Commits recorded from the Linux layer, judged: the requests it made, the kernel's view
   afterwards, and what was reported.                                                       *)
EXTENDS Kernel, TLC, Json, IOUtils
Hist == JsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, dev, K, M
vars == <<h, i, dev, K, M>>
If(b, c) == IF b THEN {} ELSE {c}
View(k) == [n \in {q[1] : q \in Range0(k)} |-> LET q == CHOOSE x \in Range0(k) : x[1] = n IN [s |-> q[2], l |-> q[3], b |-> q[4]]]
Tab(p) == [n \in {q[1] : q \in Range0(p)} |-> LET q == CHOOSE x \in Range0(p) : x[1] = n IN [s |-> q[3], l |-> q[4], x |-> IF q[2] = 2 THEN 1 ELSE 0]]
RECURSIVE Run(_, _, _, _)
\* <<clauses, view>> after the requests from the j-th on.  A partition in use for a moment is
\* seen refusing and then giving way; the counts are the harness's.
Run(ops, j, V, T) ==
  IF j > Len(ops) THEN <<{}, V>> ELSE
  LET o == ops[j] a == Answer(V, dev, o[1], o[2], o[3], o[4])
      ok == o[5] = "ok"
      same == o[5] = a \/ (o[1] = "del" /\ a = "busy" /\ ok /\ V[o[2]].b = 1)
      rest == Run(ops, j + 1, IF ok /\ same THEN After(V, o[1], o[2], o[3], o[4]) ELSE V, T)
  IN <<If(same, "TOOL.kernel") \cup If(o[1] = "del" => ~ Stays(V, T.t, T.lim, o[2]), "C14.kept") \cup rest[1], rest[2]>>
Strip(V) == [n \in DOMAIN V |-> <<V[n].s, V[n].l>>]
JudgeCommit(e) ==
  LET t == IF e.lab = "loop" THEN Tab(<<>>) ELSE Tab(e.p)
      lim == IF e.ms < dev.lim THEN e.ms ELSE dev.lim
      r == Run(e.ops, 1, K, [t |-> t, lim |-> lim])
      V == View(e.k) wr == Wrong(V, t, lim)
      rep == UNION {{x.n[j] : j \in DOMAIN x.n} : x \in Range0(e.x)}
  IN r[1] \cup If(Strip(r[2]) = Strip(V), "TOOL.kernel2")
     \cup If(wr \subseteq Blamed(K, t, lim), "C14.view")
     \cup If(wr \subseteq rep /\ rep \subseteq wr \cup {n \in Blamed(K, t, lim) : n \in DOMAIN t /\ t[n].x = 1}, "C14.report")
     \cup If((e.ok = 1) <=> (rep = {} \/ e.last = "i"), "C14.result")
     \cup If(rep = {} => e.x = <<>>, "C14.quiet")
     \cup If(\A n \in DOMAIN K : K[n].b = 2 => n \in DOMAIN V /\ V[n].s = K[n].s /\ (V[n].l # K[n].l => Stays(K, t, lim, n)), "C14.inuse")
     \cup If(e.fds = 0, "C14.fds")
Mounted(p, n, m) == n \in m \/ \E q \in Range0(p) : q[1] = n /\ q[2] = 2 /\ \E z \in Range0(p) : z[2] = 1 /\ z[1] \in m
Judge(e) ==
  CASE e.op = "stop" -> {"ANY.crash"}
    [] e.op \in {"commit", "os"} /\ e.nop = 0 -> JudgeCommit(e)
    [] e.op = "busy" /\ e.nop = 0 -> If((e.ok = 1) <=> IF e.lab = "loop" THEN M # {} ELSE Mounted(e.p, e.n, M), "C14.busy")
    [] e.op = "devbusy" -> If((e.ok = 1) <=> M # {}, "C14.devbusy")
    [] OTHER -> If(e.ops = <<>>, "C14.early")
Init == h \in DOMAIN Hist /\ i = 0 /\ dev = [len |-> 0, lim |-> 0] /\ K = View(<<>>) /\ M = {}
Next == /\ i < Len(Hist[h]) /\ i' = i + 1 /\ h' = h
        /\ LET e == Hist[h][i + 1] IN
           /\ \A c \in Judge(e) : PrintT(<<"REJ", h, i + 1, c>>)
           /\ dev' = IF e.op = "kdev" THEN [len |-> e.len, lim |-> e.lim] ELSE dev
           /\ K' = IF e.op = "stop" THEN K ELSE View(e.k)
           /\ M' = IF e.op = "stop" THEN M ELSE Range0(e.m)
Spec == Init /\ [][Next]_vars
==============================================================================
