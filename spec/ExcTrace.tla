------------------------------- MODULE ExcTrace -------------------------------
(* Judges recorded runs of the exception machinery.  Events:
     op t o m     the call (m: the message, by content)
     ret, pend    what it returned; whether an exception is pending afterwards
     calls        deliveries in order, as <<handler, type, options, message, pending>>
                  (options are not visible in what the default handler prints)          *)
EXTENDS Exception, TLC, Json, IOUtils
Hist == JsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, x
vars == <<h, i, x>>
If(b, c) == IF b THEN {} ELSE {c}
InnerM == JsonDeserialize(IOEnv.TRACE)[1][1].inner
Exc(e) == [t |-> e.t, o |-> e.o, m |-> e.m]
Step(e) == CASE e.op = "throw" -> Throw(x, Exc(e))
             [] e.op = "rethrow" -> Rethrow(x)
             [] e.op = "catch" -> Catch(x)
             [] e.op = "fetch" -> Fetch(x)
             [] e.op = "leave" -> Leave(x)
             [] e.op = "set" -> Set(x, e.t)
             [] e.op = "get" -> Get(x)
             [] e.op = "reply" -> Res([x EXCEPT !.rep = e.t, !.inn = e.o], 0, <<>>)
             [] OTHER -> Res(x, 0, <<>>)
Match(c, d) == /\ c[1] = d[1] /\ c[2] = d[2].t /\ (c[1] = 0 \/ c[3] = d[2].o)
               /\ (IF d[2].m = "inner" THEN c[4] = InnerM ELSE c[4] = d[2].m) /\ c[5] = 1
Judge(e, r) ==
  CASE e.op = "stop" -> {"ANY.crash"}
    [] e.op = "names" -> If(e.ty = TypeName /\ e.on = OptionName, "C11.names")
    [] OTHER ->
       If(Len(e.calls) = Len(r.calls), IF x.cnt > 0 THEN "C11.quiet" ELSE "C11.once")
       \cup If(\A k \in DOMAIN e.calls : k \in DOMAIN r.calls => Match(e.calls[k], r.calls[k]), "C11.delivered")
       \cup If(e.ret = r.ret, "C11.answer")
       \cup If(e.pend = Len(r.x.pend), "C11.pending")
Init == h \in DOMAIN Hist /\ i = 0 /\ x = Fresh
Next == /\ i < Len(Hist[h]) /\ i' = i + 1 /\ h' = h
        /\ LET e == Hist[h][i + 1] r == Step(e) IN
           /\ \A c \in Judge(e, r) : PrintT(<<"REJ", h, i + 1, c>>)
           /\ x' = r.x
Spec == Init /\ [][Next]_vars
==============================================================================
