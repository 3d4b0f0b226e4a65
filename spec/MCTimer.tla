------------------------------- MODULE MCTimer -------------------------------
EXTENDS Timer, TLC
CONSTANTS NS, Fracs, MaxT, Depth, Gen
VARIABLES tm, now, log, last
vars == <<tm, now, log, last>>
S(n) == ToString(n)
Rnd(X) == RandomElement(X)
Do(r, txt) == tm' = r.tm /\ last' = (IF Gen = 1 THEN <<>> ELSE r.calls) /\ log' = (IF Gen = 1 THEN Append(log, txt) ELSE log) /\ UNCHANGED now
On(k, r, txt) == Do(IF Alive(tm, k) THEN r ELSE Nothing(tm), txt)
Tick(d) == now' = now + d /\ UNCHANGED <<tm>> /\ last' = <<>> /\ log' = (IF Gen = 1 THEN Append(log, "clock " \o S(d)) ELSE log)
UpdA(k, f) == On(k, Update(tm, k, f * (Unit \div 64), now), "tupd " \o S(k) \o " " \o S(f))
NewA(k, p, nf) == IF p = 0 THEN Do(New(tm, k, 0, 0, now), "tnew " \o S(k))
                  ELSE Do(IF Alive(tm, p) THEN New(tm, k, p, nf, now) ELSE Nothing(tm), "tnest " \o S(k) \o " " \o S(p) \o " " \o S(nf))
DelA(k) == Do(Nothing(Del(tm, k)), "tdel " \o S(k))
Free == {k \in Slots : ~ Alive(tm, k)}
Leaf == {k \in Slots : Children(tm, k) = {}}
RECURSIVE Level(_)
Level(k) == IF T(tm, k).par = 0 THEN 1 ELSE 1 + Level(T(tm, k).par)
Init == tm = [k \in Slots |-> <<>>] /\ now = 0 /\ log = <<>> /\ last = <<>>
Small == 1 .. NS
Next == IF Gen = 0 THEN \/ \E k \in Small, f \in Fracs : UpdA(k, f)
                        \/ \E k \in Small \cap Free, p \in 0 .. 3, nf \in {0, 32} : p # k /\ (p = 0 => nf = 0)
                              /\ (Alive(tm, p) => T(tm, p).frac + nf * (Unit \div 64) <= Unit /\ Level(p) < 3) /\ NewA(k, p, nf)
                        \/ \E k \in Small \cap Leaf : Alive(tm, k) /\ DelA(k)
                        \/ \E k \in Small : On(k, Reset(tm, k, now), "")
                        \/ now < MaxT /\ Tick(1)
        ELSE /\ TLCGet("level") <= Depth
             /\ \E z \in {Rnd(1 .. 20)}, k \in {Rnd(Slots)}, p \in {Rnd(Slots)} :
                IF z <= 8 THEN \E f \in {Rnd(Fracs)} : UpdA(k, f)
                ELSE IF z <= 12 /\ k \in Free /\ p # k /\ (Alive(tm, p) => Level(p) <= 2) /\ k < 7
                     THEN \E nf \in {Rnd({0, 8, 16, 24, 32, 48, 64})}, q \in {Rnd({0, p})} : NewA(k, q, nf)
                ELSE IF z <= 13 THEN On(k, Reset(tm, k, now), "treset " \o S(k))
                ELSE IF z <= 14 THEN On(k, Touch(tm, k, now), "ttouch " \o S(k))
                ELSE IF z <= 15 THEN \E n \in {Rnd(1 .. 3)} : On(k, Name(tm, k, n, now), "tname " \o S(k) \o " " \o S(n))
                ELSE IF z <= 16 /\ k \in Leaf THEN DelA(k)
                ELSE \E d \in {Rnd({0, 1, 2, 7, 30})} : Tick(d)
             /\ (TLCGet("level") = Depth) => PrintT(<<"BEH", log'>>)
Spec == Init /\ [][Next]_vars
\* each due update reaches exactly one outermost timer
OneCall == Len(last) <= 1 /\ (last # <<>> => T(tm, last[1][1]).par = 0)
\* the parent moves by exactly the part of the child's progress it covers
InUnit == \A k \in Slots : Alive(tm, k) => 0 <= T(tm, k).frac
Ordered == \A k \in Slots : Alive(tm, k) => T(tm, k).start <= T(tm, k).now /\ T(tm, k).now <= T(tm, k).pe
Share == [][ \A k \in Slots : Alive(tm, k) /\ Alive(tm', k) /\ T(tm, k).par # 0 /\ T(tm', k) # T(tm, k) /\ T(tm, k).par = T(tm', k).par
               => T(tm', T(tm', k).par).frac = T(tm, k).sf + (T(tm, k).nf * T(tm', k).frac) \div 64 ]_vars
==============================================================================
