----------------------------- MODULE ScriptTrace -----------------------------
(* Judges runs of parted -s: e.cmds were given, e.rc came back, e.tab is the table read afterwards.
     same: no byte of the image changed; msg: something was said; prints: what print showed, in order *)
EXTENDS Script, TLC, Json, IOUtils
Hist == JsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, cur
vars == <<h, i, cur>>
If(b, c) == IF b THEN {} ELSE {c}
Table(t) == [lab |-> t.lab, len |-> t.len, ss |-> t.ss, d |-> Range(t.d), fk |-> TRUE,
             p |-> {[x EXCEPT !.fl = Range(@)] : x \in Range(t.p)}]
RECURSIVE Walk(_, _, _, _, _, _)
(* T before the first of cs, u the unit in force, pr the prints still to come, q: nothing was changed so far *)
Walk(T, cs, u, pr, q, e) ==
  LET U == Table(e.tab)
      left == If(Same(T, U), "C17.left") \cup If(q => e.same = 1, "C17.bytes") IN
  IF cs = <<>> THEN IF e.rc = 0 THEN If(Same(T, U), "C17.result") \cup If(q => e.same = 1, "C17.bytes") \cup If(pr = <<>>, "C17.extra") ELSE {"C17.refused"}
  ELSE IF Excess(T, cs[1]) THEN Walk(T, Cut(T, cs[1]) \o Tail(cs), u, pr, q, e)
  ELSE LET c == cs[1] k == Can(T, c, u) IN
  IF ~k[1] THEN (IF e.rc = 0 THEN {"C17.accepted"} ELSE left \cup If(e.msg = 1 \/ c.c = "align-check", "C17.silent"))
  ELSE LET shown == IF c.c # "print" \/ c.num = 1 THEN {} ELSE IF pr = <<>> THEN If(e.rc # 0, "C17.unprinted") ELSE PrintOK(T, pr[1], c.free = 1, u)
           rest == IF c.c = "print" /\ c.num = 0 /\ pr # <<>> THEN Tail(pr) ELSE pr IN
  shown \cup
  (IF Certain(T, c, u) THEN Walk(Do(T, c, u), Tail(cs), UnitAfter(c, u), rest, q /\ c.c \in Quiet, e)
   ELSE IF Len(cs) = 1 THEN
     IF e.rc = 0 THEN (IF c.c = "rescue" THEN RescueDone(T, U, c.w, u, Range(e.lost)) \cup If(q /\ Same(T, U) => e.same = 1, "C17.bytes") ELSE Done(T, U, c, u)) \cup If(rest = <<>>, "C17.extra") ELSE IF k[2] THEN {"C17.refused"} ELSE left \cup If(e.msg = 1, "C17.silent")
   ELSE {})
Judge(e) ==
  CASE e.op = "stop" -> {"ANY.crash"}
    [] e.op # "run" -> {}
    [] e.hang = 1 -> {"C17.hang"}
    [] e.rc \notin {0, 1} -> {"C17.crash"}
    [] OTHER -> Walk(cur, e.cmds, "compact", e.prints, TRUE, e)
Init == h \in DOMAIN Hist /\ i = 0 /\ cur = [lab |-> "", len |-> 0, ss |-> 512, d |-> {}, fk |-> TRUE, p |-> {}]
Next == /\ i < Len(Hist[h]) /\ i' = i + 1 /\ h' = h
        /\ \A c \in Judge(Hist[h][i + 1]) : PrintT(<<"REJ", h, i + 1, c>>)
        /\ cur' = IF Hist[h][i + 1].op = "stop" THEN cur ELSE Table(Hist[h][i + 1].tab)
Spec == Init /\ [][Next]_vars
==============================================================================
