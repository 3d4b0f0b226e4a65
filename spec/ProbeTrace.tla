----------------------------- MODULE ProbeTrace -----------------------------
(* Judges what libparted found in regions whose bytes are known.
     types  the file systems it knows
     probe  found: <<type, start, length>> of those recognised, one by one; best: the one chosen
            out: the types whose search read outside the region; w: something was written;
            bx: something was asked meanwhile, or left unsaid; bal: the device is closed again
            odd: the block size an ext superblock states is beyond 64 MiB                     *)
EXTENDS FsProbe, TLC, Json, IOUtils
Hist == JsonDeserialize(IOEnv.TRACE)
VARIABLES h, i
vars == <<h, i>>
If(b, c) == IF b THEN {} ELSE {c}
Range(s) == {s[k] : k \in DOMAIN s}
Follows(R) == Has(R, 0, 1) /\ Le2(R.img, 1024 + 56) = 61267 /\ ExtCopy(R)
MayLeave(R) == Amiga \cup (IF Follows(R) THEN Ext ELSE {})
  \cup (IF HfsOn(R) /\ Bytes(R.img, 1024, 2) \in {BD, HP, HX} THEN Hfs ELSE {})
Free(R) == IF ExtMagic(R) /\ (ExtCopy(R) \/ R.odd = 1) THEN Ext ELSE {}
Free2(R) == IF FatSane(R) /\ Fat(R) = 0 THEN {"fat16", "fat32"} ELSE {}
Found(e) == {f[1] : f \in Range(e.found)}
JudgeOne(t, e) ==
  LET c == Claim(t, e)
      f == {x \in Range(e.found) : x[1] = t} IN
  IF Vast(c) THEN {} ELSE IF c # No THEN (IF f = {} THEN {"C18.missed"} ELSE If(\A x \in f : x[2] = B(e.st) /\ x[3] = c, "C18.place"))
  ELSE If(f = {}, "C18.taken")
Judge(e) ==
  CASE e.op = "stop" -> {"ANY.crash"}
    [] e.op = "types" -> If(Range(e.t) = Types /\ Len(e.t) = Cardinality(Types), "C18.types")
    [] e.op = "probe" ->
       UNION {JudgeOne(t, e) : t \in (Types \ Free(e)) \ Free2(e)}
       \cup If(e.best = Best(e.found, e), "C18.best")
       \cup If(e.w = 0, "C18.write") \cup If(e.bx = 0, "C18.quiet") \cup If(e.bal = 1, "C18.closed")
       \cup If(Range(e.out) \subseteq MayLeave(e), "C18.inside")
    [] OTHER -> {}
Init == h \in DOMAIN Hist /\ i = 0
Next == /\ i < Len(Hist[h]) /\ i' = i + 1 /\ h' = h
        /\ \A c \in Judge(Hist[h][i + 1]) : PrintT(<<"REJ", h, i + 1, c>>)
Spec == Init /\ [][Next]_vars
==============================================================================
