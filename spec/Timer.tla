-------------------------------- MODULE Timer --------------------------------
(* Progress timers.  Fractions are in units of 2^-20, times in seconds since an epoch.
   tm is a function from slots to <<>> (no timer: NULL) or <<t>> with
     par   the slot of the timer it is nested in, 0 for none
     sf, nf  the fraction of the parent when it was nested, and the part of it covered (in 1/64)
     frac start now pe name                                                           *)
EXTENDS Integers, Sequences, FiniteSets
Unit == 1048576
Slots == 1 .. 7
Max2(a, b) == IF a > b THEN a ELSE b
Alive(tm, k) == k \in Slots /\ tm[k] # <<>>
T(tm, k) == tm[k][1]
Put(tm, k, t) == [tm EXCEPT ![k] = <<t>>]
Call(tm, k) == LET t == T(tm, k) IN <<k, t.frac, t.now, t.start, t.pe, t.name>>

\* touching a timer: its handler is called; a nested one passes its share on to its parent
RECURSIVE Touch(_, _, _), Update(_, _, _, _)
Touch(tm, k, now) ==
  LET t == T(tm, k)
      u == [t EXCEPT !.now = now, !.pe = Max2(t.pe, now)]
      tn == Put(tm, k, u)
  IN IF t.par = 0 THEN [tm |-> tn, calls |-> <<Call(tn, k)>>]
     ELSE Update(tn, t.par, t.sf + (t.nf * t.frac) \div 64, now)
Update(tm, k, f, now) ==
  LET t == T(tm, k)
      u == [t EXCEPT !.now = now, !.frac = f, !.pe = IF f # 0 THEN t.start + ((now - t.start) * Unit) \div f ELSE t.pe]
  IN Touch(Put(tm, k, u), k, now)
Reset(tm, k, now) ==
  Touch(Put(tm, k, [T(tm, k) EXCEPT !.start = now, !.now = now, !.pe = now, !.frac = 0, !.name = 0]), k, now)
Name(tm, k, n, now) == Touch(Put(tm, k, [T(tm, k) EXCEPT !.name = n]), k, now)
New(tm, k, par, nf, now) ==
  Reset(Put(tm, k, [par |-> par, sf |-> IF par = 0 THEN 0 ELSE T(tm, par).frac, nf |-> nf, frac |-> 0, start |-> now, now |-> now, pe |-> now, name |-> 0]), k, now)
Del(tm, k) == [tm EXCEPT ![k] = <<>>]
Nothing(tm) == [tm |-> tm, calls |-> <<>>]
Children(tm, k) == {j \in Slots : Alive(tm, j) /\ T(tm, j).par = k}
==============================================================================
