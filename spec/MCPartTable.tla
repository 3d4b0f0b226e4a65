----------------------------- MODULE MCPartTable -----------------------------
(* The partition table as a state machine on a small device: every operation with every argument
   from a small set, from every reachable table.  TLC checks that the specified operations keep
   the table well formed and disturb nothing but their target; in simulation mode the behaviours
   are printed as commands and replayed into libparted.                                        *)
EXTENDS PartTable, SequencesExt, IOUtils

CONSTANTS Lab, Len0, SS, H, SC, CylAlign, Pts, MaxParts, Depth, Gen
VARIABLES T, log
vars == <<T, log>>

Cs(k, s, e) == CASE k = "exact" -> Exact(s, e, T.len)
                 [] k = "any" -> CAny(T.len)
                 [] k = "grain" -> C(<<1, 3>>, <<2, 3>>, 0, T.len - 1, 0, T.len - 1, 2, T.len)
                 [] OTHER -> C(Any, Any, Max2(0, s - 2), Min2(T.len - 1, s + 2), Max2(0, e - 2), Min2(T.len - 1, e + 2), 2, 6)
CsText(k, s, e) == CASE k = "exact" -> "exact " \o ToString(s) \o " " \o ToString(e)
                     [] k = "any" -> "any"
                     [] k = "grain" -> "range 0 " \o ToString(T.len - 1) \o " 0 " \o ToString(T.len - 1) \o " 1 3 2 3 2 " \o ToString(T.len)
                     [] OTHER -> "range " \o ToString(Max2(0, s - 2)) \o " " \o ToString(Min2(T.len - 1, s + 2)) \o " "
                                  \o ToString(Max2(0, e - 2)) \o " " \o ToString(Min2(T.len - 1, e + 2)) \o " 0 1 0 1 2 6"
Ks == {"exact", "any", "grain", "near"}
Say(txt) == log' = IF Gen = 1 THEN Append(log, txt) ELSE log
S(n) == ToString(n)

Add == \E t \in (IF HasExt(Lab) THEN {0, 1, 2} ELSE {0}), s \in Pts, e \in Pts, k \in Ks :
  /\ s <= e /\ Cardinality(T.P) < MaxParts
  /\ LET r == Adding(T, t, s, e, Cs(k, s, e)) IN
     /\ \/ \E pl \in r.places : T' = AddTo(T, r.n, t, pl)
        \/ r.fail /\ Gen = 1 /\ T' = T
     /\ Say("add 0 " \o (CASE t = 0 -> "p" [] t = 1 -> "l" [] OTHER -> "x") \o " - " \o S(s) \o " " \o S(e) \o " " \o CsText(k, s, e))
Move == \E p \in T.P, s \in Pts, e \in Pts, k \in Ks :
  /\ s <= e /\ ~ (Lab = "mac" /\ p.n = 1)
  /\ LET r == Moving(T, p.n, s, e, Cs(k, s, e)) IN
     /\ \/ \E pl \in r.places : T' = MoveTo(T, p.n, pl)
        \/ r.fail /\ Gen = 1 /\ T' = T
     /\ Say("setgeom 0 " \o S(p.n) \o " " \o S(s) \o " " \o S(e) \o " " \o CsText(k, s, e))
Maxi == \E p \in T.P, k \in {"any", "grain"} :
  /\ ~ (Lab = "mac" /\ p.n = 1)
  /\ LET r == Maximising(T, p.n, Cs(k, 0, 0)) IN
     /\ \/ \E pl \in r.places : T' = MoveTo(T, p.n, pl)
        \/ r.fail /\ Gen = 1 /\ T' = T
     /\ Say("max 0 " \o S(p.n) \o " " \o CsText(k, 0, 0))
Rm == \E p \in T.P : /\ ~ (Lab = "mac" /\ p.n = 1) /\ T' = Without(T, p.n) /\ Say("rm 0 " \o S(p.n))
MinExt == /\ Exts(T) # {} /\ Logs(T) # {}
          /\ LET r == Moving(T, Ext(T).n, MinOf({p.s : p \in Logs(T)}), MaxOf({p.e : p \in Logs(T)}), CAny(T.len)) IN
             \/ \E pl \in r.places : T' = MoveTo(T, Ext(T).n, pl)
             \/ r.fail /\ Gen = 1 /\ T' = T
          /\ Say("minext 0")
\* committing and reading back: only the amiga label renumbers
ReRead == Gen = 1 /\ T' = ReadBack(T) /\ log' = log \o <<"commit 0", "read 0 0">>

Init == /\ T = [Fresh(Lab, Len0, SS, H, SC) EXCEPT !.cyl = CylAlign]
        /\ log = <<"dev 0 " \o S(Len0) \o " " \o S(SS) \o " " \o S(H) \o " " \o S(SC) \o " 0", "new 0 0 " \o Lab>>
                 \o (IF Lab = "msdos" /\ CylAlign = 0 THEN <<"dflag 0 cylinder_alignment 0">> ELSE <<>>)
(* Random behaviours: one operation per step with arguments drawn around what is there. *)
Rnd(X) == RandomElement(X)
Spots == {x \in Pts \cup UNION {{p.s - 1, p.s, p.s + 1, p.s + SC, p.e - 1, p.e, p.e + 1, p.e + 2, p.e + Cyl(T)} : p \in T.P}
               \cup UNION {{m[2], m[3] + 1, m[3] + 2} : m \in Meta(T)} : 0 <= x /\ x < T.len}
Wide == {Rnd(0 .. T.len - 1)} \cup Spots
GAdd == \E s0 \in {Rnd(Wide)}, w \in {Rnd({0, 1, 2, 3, Cyl(T) - 1, 2 * Cyl(T) - 1, T.len \div 5})}, k \in {Rnd(Ks)},
           t \in {IF HasExt(Lab) THEN Rnd(IF Exts(T) = {} THEN {0, 2} ELSE {0, 1, 2}) ELSE 0} :
  \E e0 \in {IF t = 2 THEN Rnd(Wide) ELSE Min2(T.len - 1, s0 + w)} : \E s \in {Min2(s0, e0)} : \E e \in {Max2(s0, e0)} :
  LET r == Adding(T, t, s, e, Cs(k, s, e)) IN
  /\ \/ \E pl \in r.places : T' = AddTo(T, r.n, t, pl)
     \/ r.fail /\ T' = T
  /\ Say("add 0 " \o (CASE t = 0 -> "p" [] t = 1 -> "l" [] OTHER -> "x") \o " - " \o S(s) \o " " \o S(e) \o " " \o CsText(k, s, e))
Movable == {p \in T.P : ~ (Lab = "mac" /\ p.n = 1)}
GMove == \E p \in {Rnd(Movable)}, s0 \in {Rnd(Wide)}, e0 \in {Rnd(Wide)}, k \in {Rnd(Ks)}, b \in {Rnd(1 .. 3)} :
  \E s1 \in {IF b = 1 THEN p.s ELSE s0} : \E e1 \in {IF b = 2 THEN p.e ELSE e0} :
  \E s \in {Min2(s1, e1)} : \E e \in {Max2(s1, e1)} :
  LET r == Moving(T, p.n, s, e, Cs(k, s, e)) IN
  /\ \/ \E pl \in r.places : T' = MoveTo(T, p.n, pl)
     \/ r.fail /\ T' = T
  /\ Say("setgeom 0 " \o S(p.n) \o " " \o S(s) \o " " \o S(e) \o " " \o CsText(k, s, e))
GMax == \E p \in {Rnd(Movable)}, k \in {Rnd({"any", "any", "grain"})} :
  LET r == Maximising(T, p.n, Cs(k, 0, 0)) IN
  /\ \/ \E pl \in r.places : T' = MoveTo(T, p.n, pl)
     \/ r.fail /\ T' = T
  /\ log' = log \o <<"maxgeom 0 " \o S(p.n) \o " " \o CsText(k, 0, 0), "max 0 " \o S(p.n) \o " " \o CsText(k, 0, 0)>>
GRm == \E p \in {Rnd(Movable)} : T' = Without(T, p.n) /\ Say("rm 0 " \o S(p.n))
GNext == \E o \in {Rnd(1 .. 20)} :
  IF o <= 9 \/ T.P = {} THEN GAdd
  ELSE IF o <= 13 /\ Movable # {} THEN GMove ELSE IF o <= 15 /\ Movable # {} THEN GMax
  ELSE IF o <= 17 /\ Movable # {} /\ Lab # "loop" THEN GRm
  ELSE IF o <= 18 /\ Exts(T) # {} /\ Logs(T) # {} THEN MinExt ELSE ReRead

Next == IF Gen = 0 THEN Add \/ Move \/ Maxi \/ Rm \/ MinExt
        ELSE /\ TLCGet("level") <= Depth
             /\ GNext
             \* a behaviour is printed when it is complete
             /\ (TLCGet("level") = Depth) => PrintT(<<"BEH", log'>>)
Spec == Init /\ [][Next]_vars

WF == WellFormed(T)
\* the only partition whose number or place an operation changes is its target
OnlyTarget == [][ \/ Cardinality(T'.P \ T.P) <= 1
                  \/ T.lab = "msdos" /\ Cardinality(T'.P) < Cardinality(T.P) ]_T
\* numbers are taken lowest first
Lowest == [][ Cardinality(T'.P) = Cardinality(T.P) + 1 =>
                LET p == CHOOSE q \in T'.P : q \notin T.P IN \A n \in Slots(T, p.t) : n < p.n => Has(T, n) ]_T
\* maximising twice changes nothing more
MaxStable == \A p \in T.P : LET r == Maximising(T, p.n, CAny(T.len)) IN
               \A pl \in r.places : LET U == MoveTo(T, p.n, pl) q == Maximising(U, p.n, CAny(T.len)) IN
                 (~ q.fail /\ T.cyl = 0 /\ T.lab # "sun" /\ p.t = 0) => q.places = {pl}
\* an exact request that fits a free gap of its class and the reserved areas is accepted as it is
ExactOK == \A s, e \in Pts : s <= e /\ T.lab \in {"gpt", "bsd", "mac"} /\ Cardinality(Prims(T)) < MaxPrim(T)
             /\ (\A p \in T.P : e < p.s \/ p.e < s) /\ (\A m \in Meta(T) : e < m[2] \/ m[3] < s) /\ e < T.len
             => Adding(T, 0, s, e, Exact(s, e, T.len)).places = {<<s, e>>}
===============================================================================
