------------------------------ MODULE GptTrace ------------------------------
(* Judges what libparted reads from devices whose GPT was cut off in the middle of a commit,
   damaged or grown, and what its commits leave on the device.  The events carry the device
   as an independent decoder sees it (dec) and the table libparted shows (tab: <<>> or the
   table as <<[ents, dg, pb]>>).
     commit   the table was committed; dec is the device afterwards
     crash    a copy of the device that has only the first m of the tot sector writes of
              the last commit was read
     damage   a copy of the device was damaged (which: the copies touched) and read
     repair   what was read is committed to the copy
     own, dup what was read from a copy is committed to it, and then a duplicate of that  *)
EXTENDS GptDisk, TLC, Json, IOUtils
Hist == JsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, old, cur, alt, seen, rd
vars == <<h, i, old, cur, alt, seen, rd>>
Ev == Hist[h][i + 1]
If(b, c) == IF b THEN {} ELSE {c}

TabOf(hd, d) == [ents |-> hd.ents, dg |-> hd.dg]
Same(tab, hds, d) == IF tab = <<>> THEN <<>> \in hds
                     ELSE \E x \in hds : x # <<>> /\ TabOf(x[1], d) = [ents |-> tab[1].ents, dg |-> tab[1].dg]
\* (the boot flag of the protective MBR is in a sector of its own)
Eq(t, u) == t.ents = u.ents /\ t.dg = u.dg
Cur(e) == cur # <<>> /\ e.tab # <<>> /\ Eq(e.tab[1], cur[1])
Old(e) == old # <<>> /\ e.tab # <<>> /\ Eq(e.tab[1], old[1])
\* the copies in agreement with the version of the table t
OnDisk(d, t) == BothAt(d, alt) /\ TabOf(d.P, d) = [ents |-> t.ents, dg |-> t.dg] /\ d.pb = t.pb

\* reading writes nothing but a repair that was offered and accepted
Reading(e) == If(e.fix = 0 \/ e.x = 0 => e.quiet = 1, "C07.declined")
Judge(e) ==
  CASE e.op = "stop" -> {"ANY.crash"}
    [] e.op = "commit" ->
       If(e.ok = 1, "C08.commit") \cup If(e.tab # <<>> /\ BothAt(e.dec, e.dec.len - 1), "C08.copies")
       \cup If(e.tab # <<>> /\ TabOf(e.dec.P, e.dec) = [ents |-> e.tab[1].ents, dg |-> e.tab[1].dg] /\ e.dec.pb = e.tab[1].pb, "C08.contents")
       \cup If(e.dec.P.rev = 65536 /\ e.dec.A.rev = 65536, "C08.revision")
    [] e.op = "crash" ->
       If(Cur(e) \/ Old(e), "C08.crash")
       \cup If(Same(e.tab, Recover(e.dec), e.dec), "C08.recover")
       \cup If(seen => Cur(e), "C08.monotone") \cup Reading(e)
       \cup If(e.m = e.tot => Cur(e), "C08.crash")
    [] e.op = "damage" ->
       If(Same(e.tab, Recover(e.dec), e.dec), "C08.recover")
       \cup If(e.which \in {"p", "e"} => Cur(e), "C08.onecopy")
       \* the user is told unless both copies are valid
       \cup If(e.x > 0 \/ (PValid(e.dec) /\ OValid(e.dec)) \/ e.dec.pm = 0, "C08.told") \cup Reading(e)
    [] e.op = "repair" ->
       If(e.ok = 1 /\ BothAt(e.dec, alt), "C08.repair")
       \cup If(rd # <<>> /\ TabOf(e.dec.P, e.dec) = [ents |-> rd[1].ents, dg |-> rd[1].dg], "C08.repaired")
    [] e.op = "grown" ->
       If(Cur(e), "C08.grown")
       \* fix: the backup goes to the new end, and the new space can be used; otherwise nothing is written
       \cup (IF e.fix = 1 THEN If(BothAt(e.dec, e.dec.len - 1) /\ e.dec.P.lu = e.dec.len - 2 - ArrSectors(e.dec.P, e.dec.ss), "C08.fixed")
             ELSE If(e.quiet = 1, "C08.declined") \cup If(e.quiet = 1, "C07.declined"))
       \cup If(e.x > 0, "C08.told")
    \* what a duplicate is committed as is what the original is committed as
    [] e.op = "dup" -> IF rd = <<>> THEN {} ELSE
       If(e.ok = 1 /\ e.tab # <<>> /\ e.tab[1] = rd[1].tab, "C10.equal") \cup If(e.dec = rd[1].dec /\ e.quiet = 1, "C10.written")
    [] OTHER -> {}

Init == h \in DOMAIN Hist /\ i = 0 /\ old = <<>> /\ cur = <<>> /\ alt = -1 /\ seen = FALSE /\ rd = <<>>
Next == /\ i < Len(Hist[h]) /\ i' = i + 1 /\ h' = h
        /\ LET e == Ev J == Judge(e) IN
           /\ \A c \in J : PrintT(<<"REJ", h, i + 1, c>>)
           /\ old' = IF e.op = "commit" THEN cur ELSE old
           /\ cur' = IF e.op = "commit" THEN e.tab ELSE cur
           /\ alt' = IF e.op = "commit" THEN e.dec.len - 1 ELSE alt
           /\ seen' = IF e.op = "commit" THEN FALSE ELSE IF e.op = "crash" THEN Cur(e) /\ ~ Old(e) ELSE seen
           /\ rd' = IF e.op = "own" THEN (IF e.ok = 1 /\ e.tab # <<>> THEN <<[tab |-> e.tab[1], dec |-> e.dec]>> ELSE <<>>) ELSE IF e.op \in {"damage", "crash"} THEN e.tab ELSE rd
Spec == Init /\ [][Next]_vars
=============================================================================
