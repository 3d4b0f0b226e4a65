------------------------------- MODULE PartTable -------------------------------
(* Partition tables and the operations on them, per label type: who may sit where, which
   number a partition gets, which areas are reserved, and what an operation may result in.

   A table is a record
     lab          label type ("gpt", "msdos", ...)
     len, ss      device length in sectors, sector size in bytes
     h, sc        heads and sectors per track of the device geometry
     cyl          1 if partitions are aligned to cylinders (msdos only)
     P            set of partitions [n |-> number, t |-> 0 primary / 1 logical / 2 extended,
                                     s |-> first sector, e |-> last sector]                *)
EXTENDS Constraint, TLC

BIG == 1000000000
Cyl(T) == T.h * T.sc
DivUp(a, b) == (a + b - 1) \div b

Labels == {"gpt", "msdos", "sun", "mac", "dvh", "bsd", "amiga", "pc98", "loop"}
HasExt(lab) == lab \in {"msdos", "dvh", "atari"}

Prims(T) == {p \in T.P : p.t # 1}
Logs(T) == {p \in T.P : p.t = 1}
Exts(T) == {p \in T.P : p.t = 2}
Ext(T) == CHOOSE p \in T.P : p.t = 2
ByNum(T, n) == CHOOSE p \in T.P : p.n = n
Has(T, n) == \E p \in T.P : p.n = n
Nums(T) == {p.n : p \in T.P}
Class(T, t) == IF t = 1 THEN Logs(T) ELSE Prims(T)
ByStart(S, s) == CHOOSE p \in S : p.s = s

GptPtes(T) == DivUp(128 * 128, T.ss)
SunLen(T) == RoundDown(T.len, Cyl(T))
Pc98Len(T) == IF T.len \div Cyl(T) < 65536 THEN T.len ELSE 65536 * Cyl(T)
AMIGA_RDB == 274

--------------------------------------------------------------------------------
(* Numbers *)

\* gaps a mac map needs an entry for: behind every active partition, before the next or the end
MacGaps(T) == Cardinality({p \in T.P : p.e < T.len - 1 /\ ~ \E q \in T.P : q.s = p.e + 1})

\* candidates in the order in which the label hands them out
Slots(T, t) ==
  CASE T.lab = "gpt"   -> 1 .. 128
    [] T.lab = "msdos" -> IF t = 1 THEN 5 .. 64 ELSE 1 .. 4
    [] T.lab = "sun"   -> (1 .. 8) \ {3}
    [] T.lab = "mac"   -> 1 .. 63 - MacGaps(T) + 1
    [] T.lab = "dvh"   -> IF t = 1 THEN 17 .. 31 ELSE IF t = 2 THEN {9} ELSE (1 .. 16) \ {11}
    [] T.lab = "bsd"   -> 1 .. 8
    [] T.lab = "amiga" -> 1 .. 128
    [] T.lab = "pc98"  -> 1 .. 16
    [] T.lab = "loop"  -> {1}
    [] OTHER           -> 1 .. 64

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
FreeSlots(T, t) == Slots(T, t) \ Nums(T)
NewNum(T, t) == IF FreeSlots(T, t) = {} THEN -1 ELSE MinOf(FreeSlots(T, t))

\* every partition and every gap needs an entry of the map, which has 63
CanRecord(T) == T.lab = "mac" => Cardinality(T.P) + MacGaps(T) <= 63

MaxPrim(T) ==
  CASE T.lab = "gpt" -> 128 [] T.lab = "msdos" -> 4 [] T.lab = "sun" -> 8
    [] T.lab = "mac" -> 63 - MacGaps(T) + 1 [] T.lab = "dvh" -> 16 [] T.lab = "bsd" -> 8
    [] T.lab = "amiga" -> 128 [] T.lab = "pc98" -> 16 [] T.lab = "loop" -> 1 [] OTHER -> 64

--------------------------------------------------------------------------------
(* Reserved areas: what the table shows as metadata, as a set of <<type, start, end>>
   (type 8, or 9 inside the extended partition). *)

FirstPrim(T) == MinOf({p.s : p \in Prims(T)})
LastPrimEnd(T) == MaxOf({p.e : p \in Prims(T)})

\* msdos: metadata before logical partition p inside the extended partition x
LogPrevEnd(T, x, p) == LET B == {q \in Logs(T) : q.e < p.s} IN IF B = {} THEN x.s ELSE MaxOf({q.e : q \in B})
LogMetaStart(T, x, p) == Max2(RoundDown(p.s - 1, Cyl(T)), LogPrevEnd(T, x, p) + 1)
DosLogMeta(T, x) ==
  { <<9, LogMetaStart(T, x, p), p.s - 1>> :
      p \in {q \in Logs(T) : ~ (q.n = 5 /\ q.s - LogMetaStart(T, x, q) < T.sc)} }
DosExtMeta(T, x) ==
  LET M == DosLogMeta(T, x)
      firsts == {p.s : p \in Logs(T)} \cup {m[2] : m \in M}
      lim == IF firsts = {} THEN x.e ELSE MinOf(firsts) - 1
  IN M \cup { <<9, x.s, Min2(Min2(x.s + T.sc - 1, lim), x.e)>> }

DosMeta(T) ==
  LET ie == IF Prims(T) = {} THEN T.sc - 1 ELSE Min2(T.sc - 1, FirstPrim(T) - 1)
      fs == IF T.cyl = 0 THEN T.len - 1
            ELSE IF Prims(T) = {} THEN RoundDown(T.len, Cyl(T))
            ELSE Max2(LastPrimEnd(T) + 1, RoundDown(T.len, Cyl(T)))
  IN (IF 0 < ie /\ ie < T.len THEN {<<8, 0, ie>>} ELSE {})
     \cup (IF fs < T.len - 1 /\ ie < fs THEN {<<8, fs, T.len - 1>>} ELSE {})
     \cup (IF Exts(T) = {} THEN {} ELSE DosExtMeta(T, Ext(T)))

Meta(T) ==
  CASE T.lab = "gpt" -> { <<8, 0, 1 + GptPtes(T)>>, <<8, T.len - 1 - GptPtes(T), T.len - 1>> }
    [] T.lab = "msdos" -> DosMeta(T)
    [] T.lab = "sun" -> IF SunLen(T) < T.len THEN {<<8, SunLen(T), T.len - 1>>} ELSE {}
    [] T.lab = "mac" -> { <<8, 0, 0>> }
    [] T.lab = "dvh" -> IF Exts(T) # {} /\ Ext(T).s = 0 THEN { <<9, 0, 0>> } ELSE { <<8, 0, 0>> }
    [] T.lab = "bsd" -> { <<8, 0, 0>> }
    [] T.lab = "amiga" -> { <<8, 0, AMIGA_RDB>> }
    [] T.lab = "pc98" -> { <<8, 0, Cyl(T) - 1>> }
    [] OTHER -> {}

--------------------------------------------------------------------------------
(* Placement *)

\* The gap of its class that a partition at [s, ..] goes to: behind every partition that starts
\* before s and those that follow it without a gap, up to the next one.
RECURSIVE GapFrom(_, _)
GapFrom(S, m) == LET B == {q \in S : q.s <= m} IN
                 IF B = {} THEN m ELSE GapFrom(S \ B, MaxOf({q.e : q \in B}) + 1)
Overlap(T, p, s) ==
  LET S == {q \in Class(T, p.t) : q.n # p.n}
      lo0 == IF p.t = 1 THEN Ext(T).s ELSE 0
      hi0 == IF p.t = 1 THEN Ext(T).e ELSE BIG
      before == {q \in S : q.s < s}
      lo1 == IF before = {} THEN lo0 ELSE MaxOf({q.e : q \in before}) + 1
      lo == GapFrom(S \ before, lo1)
      after == {q \in S : q.s > lo /\ q.s >= s}
      hi == IF after = {} THEN hi0 ELSE MinOf({q.s : q \in after}) - 1
  IN FromMax(lo, hi)

\* msdos: room for the logical partitions' own records
DosLogRoom(T, p, s) ==
  LET x == Ext(T)
      n5 == IF p.n = 5 THEN 0 ELSE 1
      k(q) == IF q.n = 5 THEN 0 ELSE 1
      S == {q \in Logs(T) : q.n # p.n}
      \* walk in order of position; stop at the first that lies wholly behind
      lo0 == x.s + 1 + n5
      RECURSIVE Walk(_, _)
      Walk(R, lo) ==
        IF R = {} THEN <<lo, x.e>>
        ELSE LET q == ByStart(R, MinOf({r.s : r \in R})) IN
             IF q.s - k(q) < s - n5 \/ q.s - k(q) <= lo THEN Walk(R \ {q}, q.e + 1 + n5)
             ELSE <<lo, q.s - 1 - k(q)>>
      w == Walk(S, lo0)
  IN IF w[1] >= w[2] THEN Null ELSE FromMax(w[1], w[2])

\* msdos: what the extended partition has to contain (head: sectors per track, or 1)
DosExtMin(T, head) ==
  LET f == ByNum(T, 5)
      s0 == Max2(f.s - Max2(head, 2), 0)
      RECURSIVE Low(_, _)
      Low(R, lo) == IF R = {} THEN lo
                    ELSE LET q == ByStart(R, MinOf({r.s : r \in R})) IN
                         Low(R \ {q}, IF q.s - 2 * head < lo THEN Max2(q.s - 2 * head, 0) ELSE lo)
  IN <<Low(Logs(T) \ {f}, s0), MaxOf({q.e : q \in Logs(T)})>>

CylAl(T) == <<0, Cyl(T)>>
CylEnd(T) == <<Cyl(T) - 1, Cyl(T)>>

\* cylinder-aligned places for a primary or extended partition p asked for at s
DosCylPrimary(T, p, s) ==
  LET min == p.t = 2 /\ Has(T, 5)
      m == IF min THEN DosExtMin(T, T.sc) ELSE <<0, 0>>
      sp == IF s = 2048 THEN 2048 ELSE T.sc
      st == IF Cyl(T) < T.len THEN Cyl(T) ELSE 1
      el == IF min THEN m[2] ELSE 0
      c1 == IF sp >= T.len \/ (min /\ sp > m[1]) THEN Null
            ELSE C(At(sp), CylEnd(T), sp, IF min THEN sp ELSE T.len - 1, el, T.len - 1, 1, T.len)
      c2 == IF min THEN (IF m[1] < Cyl(T) THEN Null
                         ELSE C(CylAl(T), CylEnd(T), Cyl(T), m[1], el, T.len - 1, 1, T.len))
            ELSE C(CylAl(T), CylEnd(T), st, T.len - 1, 0, T.len - 1, 1, T.len)
  IN <<c1, c2>>

DosCylLogical(T, p, s) ==
  LET x == Ext(T)
      n5 == IF p.n = 5 THEN 0 ELSE 1
      min0 == n5
      min1 == 1 + ((x.s % Cyl(T)) \div T.sc) + n5
      base == RoundDown(s, Cyl(T))
      ms == RoundUp(x.s + 1, Cyl(T))
      one(hd) == LET al == <<(base + hd * T.sc) % Cyl(T), Cyl(T)>> IN
                 IF hd >= min1 THEN C(al, CylEnd(T), x.s, x.e, x.s, x.e, 1, T.len)
                 ELSE IF ms >= x.e THEN Null ELSE C(al, CylEnd(T), ms, x.e, ms, x.e, 1, T.len)
  IN [i \in 1 .. Max2(0, Min2(5, T.h) - min0) |-> one(min0 + i - 1)]

Meets(seq, u) == [i \in 1 .. Len(seq) |-> Meet(u, seq[i])]

\* The constraints the label tries, best first, each a sequence of alternatives; p has its number,
\* u is the caller's constraint met with the gap, s the wanted start.
Attempts(T, p, u, s) ==
  CASE T.lab = "gpt" -> << <<Meet(u, FromMax(2 + GptPtes(T), T.len - 2 - GptPtes(T)))>> >>
    [] T.lab = "msdos" ->
       IF p.t = 1
       THEN LET v == Meet(u, DosLogRoom(T, p, s)) IN
            IF T.cyl = 1 THEN << Meets(DosCylLogical(T, p, s), v), <<v>> >> ELSE << <<v>> >>
       ELSE LET plain == IF p.t = 2 /\ Has(T, 5)
                         THEN LET m == DosExtMin(T, 1) IN C(Any, Any, 1, m[1], m[2], T.len - 1, 1, T.len)
                         ELSE IF p.t = 2 THEN C(Any, Any, 1, T.len - 1, 1, T.len - 1, 1, T.len)
                         ELSE FromMax(1, T.len - 1)
            IN IF T.cyl = 1 THEN << Meets(DosCylPrimary(T, p, s), u), <<Meet(u, plain)>> >>
               ELSE << <<Meet(u, plain)>> >>
    [] T.lab = "sun" -> << <<Meet(u, C(CylAl(T), CylEnd(T), 0, SunLen(T) - 1, 0, SunLen(T) - 1, 1, T.len))>>,
                           <<Meet(u, C(CylAl(T), Any, 0, SunLen(T) - 1, 0, SunLen(T) - 1, 1, T.len))>> >>
    [] T.lab = "mac" -> << <<Meet(u, C(Any, Any, 1, T.len - 1, 1, T.len - 1, 1, T.len))>> >>
    [] T.lab = "dvh" -> IF p.t = 2 THEN << <<Meet(u, FromMin(0, 0, T.len))>> >>
                        ELSE << <<Meet(u, FromMax(1, T.len - 1))>> >>
    [] T.lab = "bsd" -> << <<Meet(u, FromMax(1, T.len - 1))>> >>
    [] T.lab = "amiga" -> << <<Meet(u, C(CylAl(T), CylEnd(T), AMIGA_RDB + 1, T.len - 1, AMIGA_RDB + 1, T.len - 1, 1, T.len))>> >>
    [] T.lab = "pc98" -> << <<Meet(u, C(CylAl(T), CylEnd(T), Cyl(T), Pc98Len(T) - 1, Cyl(T), Pc98Len(T) - 1, 1, T.len))>> >>
    [] OTHER -> << <<u>> >>

\* all places the attempts may lead to, and whether they may all fail
AltSolve(alts, s, e) == UNION { Solve(alts[i], s, e) : i \in DOMAIN alts }
AltMayFail(alts, s) == \A i \in DOMAIN alts : MayFail(alts[i], s)
RECURSIVE TrySolve(_, _, _)
TrySolve(att, s, e) ==
  IF att = <<>> THEN [ places |-> {}, fail |-> TRUE ]
  ELSE LET here == AltSolve(Head(att), s, e)
       IN IF ~ AltMayFail(Head(att), s) THEN [ places |-> here, fail |-> FALSE ]
          ELSE LET rest == TrySolve(Tail(att), s, e)
               IN [ places |-> here \cup rest.places, fail |-> rest.fail ]

Inside(a, b) == b.s <= a.s /\ a.e <= b.e
\* the rules every label has
PlaceOK(T, p) ==
  /\ p.e < T.len
  /\ p.t = 1 => Inside(p, Ext(T))
  /\ p.t = 0 /\ Exts(T) # {} => ~ Inside(p, Ext(T))
  /\ p.t = 2 => \A q \in Logs(T) : Inside(q, p)

\* Where partition p (with its number) may end up when asked for [s, e] under the caller's
\* constraint u: the places, and whether a refusal is possible.
Place(T, p, u, s, e) ==
  LET g == Overlap(T, p, s)
      m == Meet(u, g)
  IN IF IsNull(u) \/ IsNull(m) THEN [ places |-> {}, fail |-> TRUE ]
     ELSE LET r == TrySolve(Attempts(T, p, m, s), s, e)
              good == {pl \in r.places : PlaceOK(T, [p EXCEPT !.s = pl[1], !.e = pl[2]])}
          IN [ places |-> good, fail |-> r.fail \/ good # r.places ]

Refused == [ places |-> {}, fail |-> TRUE, n |-> -1 ]

Adding(T, t, s, e, u) ==
  IF (t # 0 /\ ~ HasExt(T.lab)) \/ (t = 1 /\ Exts(T) = {}) \/ (t = 2 /\ Exts(T) # {})
     \/ (t # 1 /\ Cardinality(Prims(T)) + 1 > MaxPrim(T))
  THEN Refused
  ELSE LET n == NewNum(T, t) IN
       IF n = -1 THEN Refused
       ELSE LET r == Place(T, [n |-> n, t |-> t, s |-> s, e |-> e], u, s, e)
            IN [ places |-> r.places, fail |-> r.fail, n |-> n ]

Moving(T, n, s, e, u) == IF e < s \/ s < 0 THEN Refused
                         ELSE Place(T, ByNum(T, n), u, s, e) @@ [n |-> n]

\* what a partition is grown to when it is maximised: everything between its neighbours
MaxWish(T, n) ==
  LET p == ByNum(T, n)
      S == Class(T, p.t) \ {p}
      before == {q \in S : q.s < p.s}
      after == {q \in S : q.s > p.s}
  IN << IF before # {} THEN MaxOf({q.e : q \in before}) + 1 ELSE IF p.t = 1 THEN Ext(T).s ELSE 0,
        IF after # {} THEN MinOf({q.s : q \in after}) - 1 ELSE IF p.t = 1 THEN Ext(T).e ELSE T.len - 1 >>
Maximising(T, n, u) == LET w == MaxWish(T, n) IN Moving(T, n, w[1], w[2], u)

--------------------------------------------------------------------------------
(* Table changes *)

AddTo(T, n, t, pl) == [T EXCEPT !.P = @ \cup {[n |-> n, t |-> t, s |-> pl[1], e |-> pl[2]]}]
MoveTo(T, n, pl) == [T EXCEPT !.P = {IF p.n = n THEN [p EXCEPT !.s = pl[1], !.e = pl[2]] ELSE p : p \in @}]

\* msdos logical partitions stay consecutive from 5
Renumber(T, n) == [p \in T.P |-> IF T.lab = "msdos" /\ n >= 5 /\ p.n > n THEN p.n - 1 ELSE p.n]
Without(T, n) ==
  LET p == ByNum(T, n)
      gone == IF p.t = 2 THEN {p} \cup Logs(T) ELSE {p}
      rest == T.P \ gone
  IN [T EXCEPT !.P = {[q EXCEPT !.n = Renumber(T, n)[q]] : q \in rest}]
\* which number a partition had before partition n was removed
OldNum(T, n, m) == IF T.lab = "msdos" /\ n >= 5 /\ m >= n THEN m + 1 ELSE m

Empty(lab, len, ss, h, sc) ==
  [ lab |-> lab, len |-> len, ss |-> ss, h |-> h, sc |-> sc,
    cyl |-> IF lab = "msdos" THEN 1 ELSE 0, P |-> {} ]
Fresh(lab, len, ss, h, sc) ==
  LET T == Empty(lab, len, ss, h, sc) IN
  CASE lab = "mac" -> AddTo(T, 1, 0, <<1, 63>>)
    [] lab = "dvh" -> AddTo(T, 9, 2, <<0, Min2(4096, len) - 1>>)
    [] lab = "loop" -> AddTo(T, 1, 0, <<0, len - 1>>)
    [] OTHER -> T
CanCreate(lab, len, ss, h, sc) ==
  CASE lab = "mac" -> len >= 256
    [] lab = "loop" -> len >= 256
    [] OTHER -> TRUE

\* after the table was committed and read back
ReadBack(T) ==
  CASE T.lab = "amiga" ->   \* numbers are not recorded: partitions are numbered in the order of the blocks
         [T EXCEPT !.P = {[p EXCEPT !.n = Cardinality({q \in T.P : q.s <= p.s})] : p \in @}]
    [] T.lab = "loop" -> Fresh(T.lab, T.len, T.ss, T.h, T.sc)   \* the label records no partition at all
    [] OTHER -> T

--------------------------------------------------------------------------------
(* What has to hold of every table *)

Disjoint(T) == \A p, q \in T.P : p # q /\ ~ (p.t = 2 /\ q.t = 1) /\ ~ (p.t = 1 /\ q.t = 2)
                                   => p.e < q.s \/ q.e < p.s
InDevice(T) == \A p \in T.P : 0 <= p.s /\ p.s <= p.e /\ p.e < T.len
LogsInExt(T) == Logs(T) # {} => Cardinality(Exts(T)) = 1 /\ \A p \in Logs(T) : Inside(p, Ext(T))
OneExt(T) == Cardinality(Exts(T)) <= 1
MetaFree(T) == \A m \in Meta(T) : \A p \in T.P : p.t = 2 \/ p.e < m[2] \/ m[3] < p.s
NumsOK(T) == /\ \A p, q \in T.P : p.n = q.n => p = q
             /\ \A p \in T.P : p.n \in Slots(T, p.t) \cup (IF T.lab = "sun" THEN {3} ELSE IF T.lab = "mac" THEN 1 .. 64 ELSE {})
             /\ T.lab = "msdos" => {p.n : p \in Logs(T)} = 5 .. 4 + Cardinality(Logs(T))
             \* (a gap that opens in a full mac map leaves less room than there are partitions)
             /\ Cardinality(Prims(T)) <= (IF T.lab = "mac" THEN 64 ELSE MaxPrim(T))
WellFormed(T) == Disjoint(T) /\ InDevice(T) /\ LogsInExt(T) /\ OneExt(T) /\ MetaFree(T) /\ NumsOK(T)
================================================================================
