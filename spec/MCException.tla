----------------------------- MODULE MCException -----------------------------
(* The exception machinery as a state machine with history: the number of exceptions thrown
   (or thrown again), delivered and given up, to check that none is lost or delivered twice. *)
EXTENDS Exception, TLC
CONSTANTS MaxCnt, MaxThrown, Depth, Gen
VARIABLES x, thrown, given, dropped, log
vars == <<x, thrown, given, dropped, log>>
S(n) == ToString(n)
Rnd(X) == RandomElement(X)
Apply(r, txt) == x' = r.x /\ given' = (IF Gen = 1 THEN given ELSE given + Len(r.calls)) /\ log' = (IF Gen = 1 THEN Append(log, txt) ELSE log)
Opts == IF Gen = 1 THEN {1, 2, 4, 8, 16, 32, 64, 72, 6, 70, 96, 80, 112, 0, 40, 65} ELSE {8, 96}
Ev(t, o) == [t |-> t, o |-> o, m |-> "m"]
Count == thrown' = (IF Gen = 1 THEN thrown ELSE thrown + 1)
Lost(b) == dropped' = (IF Gen = 1 THEN dropped ELSE dropped + (IF b THEN 1 ELSE 0))
DoThrow(t, o, txt) == (Gen = 1 \/ thrown < MaxThrown) /\ Apply(Throw(x, Ev(t, o)), txt) /\ Count /\ Lost(x.pend # None)
DoRethrow == x.pend # None /\ Apply(Rethrow(x), "rethrow") /\ UNCHANGED <<thrown, dropped>>
DoCatch == Apply(Catch(x), "catch") /\ UNCHANGED thrown /\ Lost(x.pend # None)
DoFetch == x.cnt < MaxCnt /\ Apply(Fetch(x), "fetch") /\ UNCHANGED <<thrown, dropped>>
DoLeave == x.cnt > 0 /\ Apply(Leave(x), "leave") /\ UNCHANGED <<thrown, dropped>>
DoSet(h) == Apply(Set(x, h), "set " \o S(h)) /\ UNCHANGED <<thrown, dropped>>
DoGet == Apply(Get(x), "get") /\ UNCHANGED <<thrown, dropped>>
DoReply(r, i) == x' = [x EXCEPT !.rep = r, !.inn = i] /\ UNCHANGED <<thrown, given, dropped>> /\ log' = (IF Gen = 1 THEN Append(log, "reply " \o S(r) \o " " \o S(i)) ELSE log)
Init == x = Fresh /\ thrown = 0 /\ given = 0 /\ dropped = 0 /\ log = <<>>
Next == IF Gen = 0 THEN \/ \E o \in Opts : DoThrow(3, o, "")
                        \/ DoRethrow \/ DoCatch \/ DoFetch \/ DoLeave \/ (\E h \in 0 .. 2 : DoSet(h)) \/ DoReply(8, 0) \/ DoReply(0, 2)
        ELSE /\ TLCGet("level") <= Depth
             /\ \E k \in {Rnd(1 .. 20)} :
                IF k <= 7 THEN \E t \in {Rnd(1 .. 6)}, o \in {Rnd(Opts)}, m \in {Rnd(0 .. 9)}, n \in {Rnd({1, 20, 300, 997, 998, 999, 1000, 1001, 2500})} :
                                 DoThrow(t, o, "throw " \o S(t) \o " " \o S(o) \o " " \o S(m) \o " " \o S(n))
                ELSE IF k <= 10 /\ x.pend # None THEN DoRethrow
                ELSE IF k <= 11 THEN DoCatch
                ELSE IF k <= 13 /\ x.cnt < MaxCnt THEN DoFetch
                ELSE IF k <= 16 /\ x.cnt > 0 THEN DoLeave
                ELSE IF k <= 17 THEN \E h \in {Rnd(0 .. 2)} : DoSet(h)
                ELSE IF k <= 18 THEN DoGet
                ELSE \E r \in {Rnd(Options \cup {0})}, i \in {Rnd({0, 0, 1, 2})} : DoReply(r, i)
             /\ (TLCGet("level") = Depth) => PrintT(<<"BEH", log'>>)
Spec == Init /\ [][Next]_vars
Accounted == x.inn # 1 => thrown = given + dropped + Len(x.pend)     \* each is delivered once, given up, or pending
Quiet == [][x.cnt > 0 => given' = given]_vars                         \* nothing is delivered inside a section
Stays == [][x.pend # None /\ x'.pend = None => dropped' = dropped + 1 \/ given' = given + 1]_vars
Restored == [][x.cnt = 0 /\ thrown' > thrown => given' > given]_vars  \* outside, every throw is delivered
==============================================================================
