------------------------------ MODULE FatTrace ------------------------------
(* Judges FAT file systems that libparted opened, resized and moved.
     dump    im: the file system as it was laid out, at st, ln sectors long
     open    libparted opens it in a region; fst, fln: the region it found
     con     mn: the least size it says it can be given
     resize  to ln sectors at st; w: the sectors written; x: it had something to say; bug: it met
             what it thinks impossible; mn: this is the least size; ans: what it is told
     look    im: what lies where libparted now thinks the file system is; re: it opens again,
             rx: with something to say                                                        *)
EXTENDS FatFs, TLC, Json, IOUtils
Hist == JsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, s
vars == <<h, i, s>>
If(b, c) == IF b THEN {} ELSE {c}
Inside(w, s0, e) == \A j \in DOMAIN w : \A q \in {w[j][1], w[j][2]} :
   (q >= s0.st /\ q < s0.st + s0.ln) \/ (q >= e.st /\ q < e.st + e.ln)
(* the file system as seen: its tree, and what is wrong with it *)
See(im) == IF im.ok = 0 THEN [ok |-> 0] ELSE LET V == View(im) T == Tree(V) IN [ok |-> 1, things |-> T.things, faults |-> Faults(V, T), filled |-> Filled(V), n |-> V.n, live |-> Total(V.fat), total |-> im.total, k |-> im.k]
(* libparted makes no others of type FAT16; and it wants room for a second copy of the directories *)
Usual(z) == (z.k = 32 \/ (z.n > 33200 /\ z.n < 65400)) /\ z.live < z.n - 400
Same(a, b) == [a EXCEPT !.ids = <<>>, !.dirs = <<>>] = [b EXCEPT !.ids = <<>>, !.dirs = <<>>]
Judge(e) ==
  CASE e.op = "stop" -> {"ANY.crash"}
    [] e.op = "dump" -> If(See(e.im).ok = 1 /\ See(e.im).faults = {}, "ANY.laid")
    [] e.op = "open" -> If(e.ok = 1 /\ e.x = 0, "C19.opened") \cup If(e.ok = 0 \/ (e.fst = e.st /\ e.fln = s.fl), "C19.extent")
    [] e.op = "con" -> If(e.ok = 1 /\ e.mn > 0, "C19.minimum")
    [] e.op = "resize" -> IF e.g = 0 THEN {} ELSE
         If(Inside(e.w, s, e) /\ e.stray = 0, "C19.outside") \cup If(e.bug = 0, "C19.bug")
         \cup If(e.ok = 1 \/ e.mn = 0 \/ e.x # 1 \/ e.ans = 3 \/ e.st # s.st \/ e.ln > s.ln, "C19.accepted")
         \cup If(e.ok = 1 \/ e.st # s.st \/ e.ln # s.ln \/ e.ans = 3 \/ ~Usual(s.see), "C19.same")
    [] e.op = "look" ->
       IF s.ok = 0 THEN If(e.im.ok = 1 /\ Same(e.im, s.im) /\ See(e.im).things = s.see.things, "C19.refused")
       ELSE LET n == See(e.im) IN
         IF n.ok = 0 THEN {"C19.boot"} ELSE
           If(n.things = s.see.things, "C19.files")
           \cup {"C19." \o f : f \in n.faults}
           \cup If(n.filled, "C19.entries")
           \cup If(n.total = e.ln, "C19.size")
           \cup If(e.re = 1 /\ e.rx = 0, "C19.reopened")
    [] OTHER -> {}
Step(e) ==
  CASE e.op = "dump" -> [st |-> e.st, ln |-> e.ln, fl |-> e.ln, im |-> e.im, see |-> See(e.im), ok |-> 1]
    [] e.op = "resize" -> [s EXCEPT !.ok = e.ok, !.st = IF e.ok = 1 THEN e.st ELSE @, !.ln = IF e.ok = 1 THEN e.ln ELSE @]
    [] e.op = "look" /\ s.ok = 1 /\ e.im.ok = 1 -> [s EXCEPT !.im = e.im]
    [] OTHER -> s
Init == h \in DOMAIN Hist /\ i = 0 /\ s = [st |-> 0, ln |-> 0, fl |-> 0, im |-> <<>>, see |-> <<>>, ok |-> 0]
Next == /\ i < Len(Hist[h]) /\ i' = i + 1 /\ h' = h
        /\ s' = Step(Hist[h][i + 1])
        /\ \A c \in Judge(Hist[h][i + 1]) : PrintT(<<"REJ", h, i + 1, c>>)
Spec == Init /\ [][Next]_vars
=============================================================================
