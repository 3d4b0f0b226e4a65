------------------------------ MODULE FaultTrace ------------------------------
(* Judges library operations run with I/O errors injected and, some of them, inside a
   fetch-all section.  Events:
     sect, inn   inside a section; exceptions that reached the handler during the operation
     bal         the exception thrown after it reached the handler exactly once
     io, lost    transfers that failed; those not answered with retry or ignore (lostw: no reads)
     nc          the label had not been committed before: what is there is cleared first, whether
                 or not it can be read (a commit may also look for hints it can do without: the CHS
                 geometry an msdos partition suggests)
     ign         transfers whose error was ignored
     ok, x       result, exceptions that reached the handler
     st          the table afterwards, as text ("" none)                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Hist == JsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, com, mem, clab
vars == <<h, i, com, mem, clab>>
If(b, c) == IF b THEN {} ELSE {c}
Commit(e) == e.op \in {"commit", "commitfull"}
\* in memory and on the device: what each slot shows, what was committed last
Judge(e) ==
  IF e.op = "stop" THEN {"ANY.crash"} ELSE
  If(e.bal = 1, "C11.balanced")
  \cup If(e.sect = 1 => e.inn = 0, "C11.quiet")
  \* an error that is neither retried nor ignored makes the commit fail
  \cup If(Commit(e) /\ (e.lostw > 0 \/ (e.lost > 0 /\ e.nc = 0 /\ e.lab # "msdos")) => e.ok = 0, "C12.commit")
  \* retried until it works: the commit succeeds as if nothing had happened
  \cup If(Commit(e) /\ e.sect = 0 /\ e.lost = 0 /\ e.ign = 0 /\ e.io = e.x /\ e.can = 1 => e.ok = 1, "C12.retried")
  \* a failure is told
  \cup If(Commit(e) /\ e.ok = 0 /\ e.sect = 0 /\ e.nop = 0 => e.x > 0, "C12.told")
  \* committing changes nothing in memory, whatever becomes of it
  \cup If(Commit(e) /\ e.k = 0 /\ e.can = 1 /\ mem # "?" => e.st = mem, "C12.memory")
  \* a table is never read in part: reading fails, or gives all of what was committed
  \* (known finding: a pc98 label whose second sector cannot be read is taken for an msdos one)
  \cup If(e.op = "read" /\ e.ok = 1 /\ e.ign = 0 /\ e.k = 1 /\ com # "?" => e.rt = com \/ (e.lost > 0 /\ e.lab = "msdos" /\ clab = "pc98"), "C12.read")
Init == h \in DOMAIN Hist /\ i = 0 /\ com = "?" /\ mem = "?" /\ clab = ""
Next == /\ i < Len(Hist[h]) /\ i' = i + 1 /\ h' = h
        /\ LET e == Hist[h][i + 1] IN
           /\ \A c \in Judge(e) : PrintT(<<"REJ", h, i + 1, c>>)
           /\ mem' = IF e.k = 0 /\ e.op # "stop" THEN e.st ELSE mem
           /\ clab' = IF Commit(e) THEN e.lab ELSE clab
           \* after a commit that failed or went on past an error the device holds no known table
           /\ com' = IF Commit(e) THEN (IF e.ok = 1 /\ e.ign = 0 THEN e.rt ELSE "?")
                     ELSE IF e.op \in {"poke", "xor", "clobber", "new"} THEN "?" ELSE com
Spec == Init /\ [][Next]_vars
==============================================================================
