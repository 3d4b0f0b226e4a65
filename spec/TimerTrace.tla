------------------------------ MODULE TimerTrace ------------------------------
EXTENDS Timer, TLC, Json, IOUtils
Hist == JsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, tm, now
vars == <<h, i, tm, now>>
If(b, c) == IF b THEN {} ELSE {c}
On(k, r) == IF Alive(tm, k) THEN r ELSE Nothing(tm)
Step(e) == CASE e.op = "tnew" -> New(tm, e.k, 0, 0, now)
             [] e.op = "tnest" -> IF Alive(tm, e.a) THEN New(tm, e.k, e.a, e.b, now) ELSE Nothing(tm)
             [] e.op = "tdel" -> Nothing(Del(tm, e.k))
             [] e.op = "tupd" -> On(e.k, Update(tm, e.k, e.a * (Unit \div 64), now))
             [] e.op = "treset" -> On(e.k, Reset(tm, e.k, now))
             [] e.op = "ttouch" -> On(e.k, Touch(tm, e.k, now))
             [] e.op = "tname" -> On(e.k, Name(tm, e.k, e.a, now))
             [] OTHER -> Nothing(tm)
Judge(e, r) ==
  IF e.op = "stop" THEN {"ANY.crash"} ELSE
  If(Len(e.calls) = Len(r.calls), IF Len(e.calls) > Len(r.calls) THEN "C20.extra" ELSE "C20.due")
  \cup If(\A c \in DOMAIN e.calls : e.calls[c][1] > 0, "C20.dead")
  \cup If(\A c \in DOMAIN e.calls : c \in DOMAIN r.calls => e.calls[c][1] = r.calls[c][1] /\ e.calls[c][2] = r.calls[c][2], "C20.fraction")
  \cup If(\A c \in DOMAIN e.calls : c \in DOMAIN r.calls => e.calls[c] = r.calls[c], "C20.delivered")
  \cup If(\A k \in Slots : e.tm[k + 1][1] = Len(r.tm[k]), "C20.null")
  \cup If(\A k \in Slots : Alive(r.tm, k) => e.tm[k + 1][2] = T(r.tm, k).frac, "C20.share")
  \cup If(\A k \in Slots : Alive(r.tm, k) => e.tm[k + 1][3] = T(r.tm, k).name, "C20.name")
Init == h \in DOMAIN Hist /\ i = 0 /\ tm = [k \in Slots |-> <<>>] /\ now = 0
Next == /\ i < Len(Hist[h]) /\ i' = i + 1 /\ h' = h
        /\ LET e == Hist[h][i + 1] r == Step(e) IN
           /\ \A c \in Judge(e, r) : PrintT(<<"REJ", h, i + 1, c>>)
           /\ tm' = r.tm /\ now' = now + (IF e.op = "clock" THEN e.k ELSE 0)
Spec == Init /\ [][Next]_vars
==============================================================================
