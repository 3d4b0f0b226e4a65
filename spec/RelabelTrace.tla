---------------------------- MODULE RelabelTrace ------------------------------
(* Labels committed over each other on one device.
   on: what the device carries: a label and its partitions; "none" after a clobber; "?" while
   only its leftovers are known.  tab: the tables in memory, mint: those not yet committed.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Hist == JsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, dev, on, tab, dg
vars == <<h, i, dev, on, tab, dg>>
If(b, c) == IF b THEN {} ELSE {c}
No == [lab |-> "-", ps |-> <<>>, mint |-> 0]
\* labels for sectors of 512 bytes only may refuse others; a device of 700 sectors is enough for all
\* the partitions a label has from the start: its own map, its volume header
Own(lab) == IF lab \in {"loop", "mac", "dvh"} THEN 1 ELSE 0
Any512 == {"gpt", "msdos", "loop"}
Must(e, d) == d.ss = 512 \/ e.lab \in Any512
\* A GPT's protective MBR is left where it is, and what remains of it under a mac label looks
\* like an empty msdos one to the msdos probe, which is asked after the mac one.  A loop label is what is found if nothing else is.
Only(tys, lab) == IF lab = "-" THEN tys = {} ELSE lab \in tys /\ tys \ {lab} \subseteq (IF lab = "mac" THEN {"msdos", "loop"} ELSE {"loop"})
\* Known finding: a pc98 label made on large sectors is not one
Lost(lab, d) == lab = "pc98" /\ d.ss # 512
Judge(e) ==
  LET t == tab[e.k + 1] IN
  CASE e.op = "stop" -> {"ANY.crash"}
    [] e.op = "new" -> If(e.dg = dg, "C16.quiet") \cup If(e.ok = 1 => Len(e.ps) = Own(e.lab), "C16.empty")
                       \cup If(e.lab # "aix" /\ Must(e, dev) => e.ok = 1, "C16.refused")
    [] e.op \in {"add", "state", "probe", "probeall", "read", "dup"} ->
          If(e.dg = dg, "C16.quiet")
          \cup (IF e.op = "probe" /\ on.lab # "?" THEN If(e.ty = on.lab, "C16.recognised") ELSE {})
          \cup (IF e.op = "probeall" /\ on.lab # "?" THEN If(Only({e.tys[j] : j \in DOMAIN e.tys}, on.lab), "C16.only") ELSE {})
          \cup (IF e.op = "read" /\ on.lab # "?" THEN If((e.ok = 1) <=> on.lab # "-", "C16.read") \cup If(e.ok = 1 => e.lab = on.lab /\ e.ps = on.ps, "C16.content") ELSE {})
    [] e.op = "commit" -> IF t.lab = "-" THEN {} ELSE IF t.lab = "aix" THEN If(e.ok = 0 /\ e.dg = dg, "C16.unsupported") ELSE If(e.ok = 1, "C16.commit")
    [] e.op = "clobber" -> If(e.ok = 1, "C16.clobber")
    [] OTHER -> {}
Init == h \in DOMAIN Hist /\ i = 0 /\ dev = [ss |-> 0, len |-> 0] /\ on = [lab |-> "?", ps |-> <<>>] /\ tab = [k \in 1 .. 8 |-> No] /\ dg = ""
Next == /\ i < Len(Hist[h]) /\ i' = i + 1 /\ h' = h
        /\ LET e == Hist[h][i + 1] t == tab[e.k + 1] IN
           /\ \A c \in Judge(e) : PrintT(<<"REJ", h, i + 1, c>>)
           /\ dev' = IF e.op = "dev" THEN [ss |-> e.ss, len |-> e.len] ELSE dev
           /\ dg' = IF e.dg = "" THEN dg ELSE e.dg
           /\ on' = CASE e.op \in {"dev", "poke"} -> [lab |-> "?", ps |-> <<>>]
                      [] e.op = "clobber" /\ e.ok = 1 -> [lab |-> "-", ps |-> <<>>]
                      [] e.op = "commit" /\ t.lab = "aix" -> on
                      [] e.op = "commit" /\ t.lab # "-" -> IF e.ok = 1 /\ ~ Lost(t.lab, dev) /\ (t.mint = 1 \/ on.lab = t.lab) THEN [lab |-> t.lab, ps |-> e.ps] ELSE [lab |-> "?", ps |-> <<>>]
                      [] OTHER -> on
           /\ tab' = CASE e.op = "new" -> [tab EXCEPT ![e.k + 1] = IF e.ok = 1 THEN [lab |-> e.lab, ps |-> e.ps, mint |-> 1] ELSE No]
                       [] e.op = "read" -> [tab EXCEPT ![e.k + 1] = IF e.ok = 1 THEN [lab |-> e.lab, ps |-> e.ps, mint |-> 0] ELSE No]
                       [] e.op = "dup" -> [tab EXCEPT ![e.k + 1] = IF e.ok = 1 THEN tab[e.k0 + 1] ELSE No]
                       [] e.op = "commit" /\ e.ok = 1 /\ t.lab # "-" -> [tab EXCEPT ![e.k + 1].mint = 0]
                       [] OTHER -> tab
Spec == Init /\ [][Next]_vars
==============================================================================
