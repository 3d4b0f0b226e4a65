----------------------------- MODULE DeviceTrace -----------------------------
(* Judges recorded runs on scratch files through the Linux layer.  Events:
     op k p ok ret   the call, the object and path it is about (from 1), what it returned
     oc ext ro       the object's counts afterwards;   nfd  descriptors held per path
     x lost ign      exceptions; those answered neither with retry nor with ignore; ignored ones
     ow orr of io    opens granted read-write, read-only, refused; transfers and syncs that failed
     wr un cont      per path: bytes written, whether any were not synced, the contents by cells
     s n t           sectors of a transfer (s counted from the start of the device), its tag
     buf             what was read, by cells, with a sector beyond it                          *)
EXTENDS Device, TLC, Json, IOUtils
Per == 8  NSec == 16
Hist == JsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, x, disk
vars == <<h, i, x, disk>>
If(b, c) == IF b THEN {} ELSE {c}
OSof(e) == IF e.orr > 0 /\ e.ow = 0 THEN "ro" ELSE IF e.ow > 0 THEN "rw" ELSE "no"
Step(e) ==
  CASE e.op = "get" -> Get(x, e.p, IF e.ow + e.orr > 0 /\ e.ok = 1 THEN "rw" ELSE "no")[1]
    [] e.op = "open" -> Open(x, e.k, OSof(e))
    [] e.op = "close" -> Close(x, e.k)
    [] e.op = "ext" -> Begin(x, e.k)
    [] e.op = "unext" -> End(x, e.k, OSof(e))
    [] e.op = "uncache" -> Uncache(x, e.k)
    [] e.op = "destroy" -> Destroy(x, e.k)
    [] OTHER -> x
Reading(e) == e.op \in {"read", "gread"}
Writing(e) == e.op \in {"write", "gwrite"}
Syncing(e) == e.op \in {"sync", "syncf", "gsync", "gsyncf"}
Transfer(e) == Reading(e) \/ Writing(e)
Inside(e) == e.op \in {"read", "write"} \/ e.s + e.n <= e.lim    \* the region a geometry allows
C(e) == e.s * Per + 1 .. (e.s + e.n) * Per                        \* the cells of a transfer
Full(e) == e.ok = 1 /\ e.ign = 0
Bad(e) == {s \in e.s .. e.s + e.n - 1 : (s >= e.b0 /\ s < e.b1) \/ s >= NSec}
Judge(e, y) ==
  IF e.op = "stop" THEN {"ANY.crash"} ELSE
  \* objects: one per path while cached; counts; descriptors
  (IF e.op = "get" THEN If((IF e.ok = 1 THEN e.k ELSE 0) = Get(x, e.p, IF e.ok = 1 THEN "rw" ELSE "no")[2], "C12.same")
                        \cup If(e.ok = 0 => e.x > 0, "C12.told")
                        \cup If(e.of = 0 /\ e.io = 0 => e.ok = 1, "C12.opens")
   ELSE IF e.op = "list" THEN If(e.list = x.cache, "C12.cache")
   ELSE If(y.obj[e.k].live = 1 => e.oc = y.obj[e.k].oc /\ e.ext = y.obj[e.k].ext, "C12.counts")
        \cup If(y.obj[e.k].live = 1 /\ y.obj[e.k].fd = 1 => e.ro = y.obj[e.k].ro, "C12.readonly"))
  \cup If(\A p \in 1 .. 3 : e.nfd[p] = Held(y, p), "C12.descriptors")
  \cup If(e.op \in {"open", "unext"} => e.ok = (IF x.obj[e.k].oc = 0 THEN (IF e.op = "unext" \/ OSof(e) # "no" THEN 1 ELSE 0)
                                                ELSE IF e.op = "open" \/ OSof(e) # "no" THEN 1 ELSE 0), "C12.opened")
  \cup If(e.op \in {"open", "unext"} /\ e.of > 0 => e.x > 0, "C12.told")
  \cup If(e.op \in {"ext", "close"} /\ e.io = 0 => e.ok = 1, "C12.closed")
  \* nothing is written but by a write, to where it says, through a descriptor that allows it
  \cup If(\A p \in 1 .. 3 : e.wr[p] > 0 => Writing(e) /\ e.p = p /\ x.obj[e.k].ro = 0, "C12.unasked")
  \cup If(\A p \in 1 .. 3 : e.cont[p] # disk[p] =>
            Writing(e) /\ e.p = p /\ Len(e.cont[p]) = Len(disk[p]) /\ \A c \in DOMAIN disk[p] : c \notin C(e) => e.cont[p][c] = disk[p][c], "C12.elsewhere")
  \cup (IF Transfer(e) /\ e.n > 0 THEN
          IF ~Inside(e) THEN If(e.ok = 1 => e.ign > 0, "C12.outside") \cup If(e.wr[e.p] = 0 /\ e.cont[e.p] = disk[e.p] /\ (Writing(e) => e.x > 0), "C12.outside")
          ELSE IF Writing(e) /\ x.obj[e.k].ro = 1 THEN If(e.ok = 1 => e.ign > 0, "C12.readonlywrite") \cup If(e.x > 0, "C12.told")
          ELSE If(e.lost = 0 /\ e.x = e.io => e.ok = 1, "C12.retried")
               \cup If(e.lost > 0 => e.ok = 0, "C12.reported")
               \cup If(e.io > 0 => e.x > 0, "C12.told")
               \cup (IF Reading(e) THEN If(\A c \in C(e) : LET b == e.buf[c - e.s * Per] IN b = disk[e.p][c] \/ (~Full(e) /\ b \in {-1, -2}), "C12.read")
                                        \cup If(\A c \in e.n * Per + 1 .. Len(e.buf) : e.buf[c] = -2, "C12.read")
                     ELSE If(\A c \in C(e) : LET b == e.cont[e.p][c] IN b = e.t * 1000 + c - e.s * Per - 1 \/ (~Full(e) /\ b \in {-1, disk[e.p][c]}), "C12.write"))
        ELSE {})
  \* what was written has reached the device when a sync or the last close succeeds
  \cup If((Syncing(e) \/ (e.op = "close" /\ x.obj[e.k].oc = 1)) /\ x.obj[e.k].ro = 0 /\ Full(e) /\ e.lost = 0 => e.un[e.p] = 0, "C12.synced")
  \cup If(Syncing(e) => (e.lost > 0 => e.ok = 0) /\ (e.lost = 0 => e.ok = 1) /\ (e.io > 0 => e.x > 0), "C12.sync")
  \* checking for bad sectors
  \cup If(e.op = "check" => e.ret = (IF Bad(e) = {} THEN e.n ELSE (CHOOSE s \in Bad(e) : \A z \in Bad(e) : s <= z) - e.s), "C12.check")
  \cup If(e.op = "gcheck" => e.ret = (IF Bad(e) = {} THEN 0 ELSE LET f == (CHOOSE s \in Bad(e) : \A z \in Bad(e) : s <= z) - e.s IN (e.off + f) - (f % e.gr)), "C12.gcheck")
  \cup If(e.op = "gcheck" => e.x = 0, "C12.gcheck")
Init == h \in DOMAIN Hist /\ i = 0 /\ x = Fresh /\ disk = [p \in 1 .. 3 |-> [c \in 1 .. NSec * Per |-> (899 + p) * 1000 + c - 1]]
Next == /\ i < Len(Hist[h]) /\ i' = i + 1 /\ h' = h
        /\ LET e == Hist[h][i + 1] y == Step(e) IN
           /\ \A c \in Judge(e, y) : PrintT(<<"REJ", h, i + 1, c>>)
           /\ x' = IF e.op = "stop" THEN x ELSE y
           /\ disk' = IF e.op = "stop" THEN disk ELSE e.cont
Spec == Init /\ [][Next]_vars
==============================================================================
