------------------------------ MODULE TableTrace ------------------------------
(* Checks histories recorded from libparted against PartTable.  The trace file holds several
   histories; TLC picks each one as an initial state and follows it.  Every event is judged by
   all clauses; a clause that fails is printed as <<"REJ", history, event, clause>> and the
   model takes over what was observed, so that the rest of the history is judged as well.    *)
EXTENDS PartTable, Flags, Json, IOUtils, SequencesExt

Hist == JsonDeserialize(IOEnv.TRACE)

VARIABLES h, i,      \* history, events consumed
          D,         \* table slots: <<>> or <<[T, A, df, du, di, nc]>>
          V,         \* devices: <<>> or <<[len, ss, h, sc, dg, nw, cont]>>; cont is what a read finds:
                     \* <<>> unknown, <<[T, A, df, du, p]>> (p: 1 = recorded, 0 = exact attributes unknown)
          bad        \* clauses the last event failed
vars == <<h, i, D, V, bad>>

Slots8 == 0 .. 7
Ev == Hist[h][i + 1]

\* observed table
ObsP(st) == { [n |-> q[1], t |-> q[2], s |-> q[3], e |-> q[4]] : q \in {r \in ToSet(st.p) : r[2] < 4} }
ObsMeta(st) == { <<q[2], q[3], q[4]>> : q \in {r \in ToSet(st.p) : r[2] >= 8} }
ObsT(T, st) == [T EXCEPT !.P = ObsP(st), !.cyl = st.cyl]
ObsA(st) == st.a      \* sequence of records [n, k, rk, fl, av, fs, nm, ti, tu, u]
ANums(A) == {A[j].n : j \in DOMAIN A}
AOf(A, n) == A[CHOOSE j \in DOMAIN A : A[j].n = n]

\* the enumeration tiles the device: top level and inside the extended partition
Tiles(seq, lo, hi) ==
  /\ \A j \in DOMAIN seq : seq[j][3] <= seq[j][4]
  /\ Len(seq) > 0 => seq[1][3] = lo /\ seq[Len(seq)][4] = hi
  /\ \A j \in 1 .. Len(seq) - 1 : seq[j + 1][3] = seq[j][4] + 1
  /\ \A j \in 1 .. Len(seq) - 1 : ~ (seq[j][2] \in {4, 5} /\ seq[j + 1][2] \in {4, 5})
Top(st) == SelectSeq(st.p, LAMBDA q : q[2] % 2 = 0)
Sub(st) == SelectSeq(st.p, LAMBDA q : q[2] % 2 = 1)
TilingOK(st) ==
  /\ Tiles(Top(st), 0, st.len - 1) /\ Len(Top(st)) > 0
  /\ LET X == {q \in ToSet(st.p) : q[2] = 2} IN
     IF X = {} THEN Sub(st) = <<>>
     ELSE LET x == CHOOSE q \in X : TRUE IN
          /\ Tiles(Sub(st), x[3], x[4]) /\ (x[3] < x[4] => Len(Sub(st)) > 0)
          \* the logical entries directly follow the extended partition in the enumeration
          /\ \A j \in DOMAIN st.p : st.p[j] = x => \A m \in 1 .. Len(Sub(st)) :
                j + m \in DOMAIN st.p /\ st.p[j + m] = Sub(st)[m]

\* C01: the observed table is well formed
WFClauses(T, st) ==
  LET O == ObsT(T, st) IN
  (IF Disjoint(O) THEN {} ELSE {"C01.overlap"})
  \cup (IF InDevice(O) THEN {} ELSE {"C01.device"})
  \cup (IF OneExt(O) /\ LogsInExt(O) THEN {} ELSE {"C01.extended"})
  \cup (IF TilingOK(st) THEN {} ELSE {"C01.tiling"})
  \cup (IF T.lab = "atari" \/ ~ (Disjoint(O) /\ InDevice(O) /\ OneExt(O) /\ LogsInExt(O)) THEN {}
        ELSE IF ObsMeta(st) = Meta(O) /\ MetaFree(O) THEN {} ELSE {"C01.reserved"})
  \cup (IF T.lab = "atari" \/ NumsOK(O) THEN {} ELSE {"C03.numbers"})
  \cup (IF st.pc = Cardinality(Prims(O)) /\ (T.lab \in {"atari"} \/ st.mp = MaxPrim(O))
           /\ st.lp = (IF O.P = {} THEN -1 ELSE MaxOf(Nums(O))) THEN {} ELSE {"C03.counts"})

If(b, c) == IF b THEN {} ELSE {c}

\* C07: one write [a, b] of a commit; nc: a new label replaces what was there
EndArea(T) == LET a == (9 * 1024) \div T.ss + 1 IN IF a < 16 THEN 16 ELSE a
InRange(w, lo, hi) == lo <= w[1] /\ w[2] <= hi
WriteOK(T, w, nc) ==
  \/ nc = 1 /\ (InRange(w, 0, EndArea(T)) \/ InRange(w, T.len - 1 - EndArea(T), T.len - 1))
  \/ CASE T.lab = "gpt" -> \E m \in Meta(T) : InRange(w, m[2], m[3])
       [] T.lab = "msdos" -> \/ InRange(w, 0, 0)
                             \/ Exts(T) # {} /\ (InRange(w, Ext(T).s, Ext(T).s) \/ \E m \in DosExtMeta(T, Ext(T)) : InRange(w, m[2], m[3]))
       [] T.lab = "mac" -> InRange(w, 0, 0) \/ \E p \in T.P : p.n = 1 /\ InRange(w, p.s, p.e)
       [] T.lab = "amiga" -> InRange(w, 0, AMIGA_RDB)
       [] T.lab = "pc98" -> InRange(w, 0, 1)
       [] T.lab = "atari" -> \A p \in T.P : p.t = 2 \/ w[2] < p.s \/ p.e < w[1]
       [] OTHER -> InRange(w, 0, 0)

\* nothing is written, and the device holds what it held
Quiet(e, v) == If(e.dg = v.dg /\ e.nw = v.nw, "C07.write") \cup If(e.dg = v.dg /\ e.nw = v.nw, "C02.write")
\* the observed table is the given one
\* (the atari label renumbers whenever it likes: its tables are compared without the numbers)
Loose(T) == T.lab = "atari"
NoNum(P) == {[p EXCEPT !.n = 0] : p \in P}
NoNumL(L) == [j \in DOMAIN L |-> SubSeq(L[j], 2, 4)]
NoNumA(A) == [j \in DOMAIN A |-> A[j].k]
SameAll(o, d) == /\ IF Loose(d.T) THEN NoNumL(o.p) = NoNumL(d.pl) /\ NoNumA(o.a) = NoNumA(d.A)
                    ELSE ObsP(o) = d.T.P /\ o.p = d.pl /\ o.a = d.A
                 /\ o.df = d.df /\ o.du = d.du
SameP(T, P, Q) == IF Loose(T) THEN NoNum(P) = NoNum(Q) ELSE P = Q

Slot(T, st, di) == [T |-> ObsT(T, st), A |-> st.a, df |-> st.df, du |-> st.du, di |-> di, pl |-> st.p]

\* Attributes of partitions other than n are unchanged; ren maps a new number to the old one
OthersSame(A, B, n, ren(_)) ==
  \A j \in DOMAIN B : B[j].n # n => \E m \in DOMAIN A : A[m].n = ren(B[j].n) /\ A[m].k = B[j].k
Id(n) == n

\* grain 0 keeps its offset
CsX(e, len) == IF e.cs = <<>> THEN Null
               ELSE C(IF e.cs[2] = 0 THEN At(e.cs[1]) ELSE <<e.cs[1] % e.cs[2], e.cs[2]>>,
                      IF e.cs[4] = 0 THEN At(e.cs[3]) ELSE <<e.cs[3] % e.cs[4], e.cs[4]>>,
                      e.cs[5], e.cs[6], e.cs[7], e.cs[8], e.cs[9], e.cs[10])

\* An operation on slot e.k that may move or add one partition: r is what the model allows.
\* tgt(pl): the table that results from the place pl.
PlaceJudge(e, d, r, tgt(_)) ==
  LET u == CsX(e, d.T.len)
      got == <<e.gs, e.ge>>
  IN IF e.ok = 1
     THEN If(Loose(d.T) \/ got \in r.places, "C05.place")
          \cup If(IsNull(u) \/ Sat(u, e.gs, e.ge), "C05.constraint")
          \cup If(Loose(d.T) \/ r.n = -1 \/ e.n = -1 \/ e.n = r.n, "C03.number")
          \cup If(SameP(d.T, ObsP(e.st[1]), tgt(got).P), "C02.others")
     ELSE If(Loose(d.T) \/ r.fail, "C05.refused")
          \cup If(SameAll(e.st[1], d), "C02.failed")
          \cup If(e.x > 0, "C05.silent")

WithSlot3(T, e, r) ==   \* sun: the whole-disk slot is handed out last, and only if the user insists
  IF T.lab = "sun" /\ e.op = "add" /\ FreeSlots(T, e.t) = {} /\ ~ Has(T, 3) /\ e.ans = "i"
     /\ Cardinality(Prims(T)) + 1 <= MaxPrim(T) /\ e.t = 0
  THEN Place(T, [n |-> 3, t |-> 0, s |-> e.s, e |-> e.e], CsX(e, T.len), e.s, e.e) @@ [n |-> 3]
  ELSE r

\* C09: an attribute of partition e.n of slot d is changed; exp is what it should be afterwards
FA(r) == [fl |-> ToSet(r.fl), fs |-> r.fs, nm |-> r.nm, ti |-> r.ti, tu |-> r.tu]
AttrOthers(d, e, st, drop) ==   \* the other partitions keep everything, but lose the flags in drop
  /\ Len(st.a) = Len(d.A)
  /\ \A j \in DOMAIN d.A : /\ st.a[j].n = d.A[j].n
                           /\ d.A[j].n # e.n => /\ st.a[j].u = d.A[j].u
                                                /\ FA(st.a[j]) = [FA(d.A[j]) EXCEPT !.fl = @ \ drop]
AttrJudge(d, e, st, exp, drop, what) ==
  LET a == AOf(d.A, e.n) b == AOf(st.a, e.n) IN
  If(e.ok = 1, "C09.refused")
  \cup If(FA(b) = exp /\ a.u = b.u /\ a.t = b.t, what)
  \cup If(AttrOthers(d, e, st, drop), "C09.others")
  \cup If(st.p = d.pl /\ st.df = d.df /\ st.du = d.du, "C09.others")
Refuse(d, e, st, loud) == If(e.ok = 0, "C09.accepted") \cup If(SameAll(st, d), "C09.refusal") \cup If(loud => e.x > 0, "C09.silent")

AttrOp(d, e, st) ==
  IF e.nop = 1 \/ ~ Has(d.T, e.n) THEN If(SameAll(st, d), "C09.refusal")
  ELSE LET a == AOf(d.A, e.n) A == FA(a) lab == d.T.lab IN
  CASE e.op = "flag" ->
         IF e.f \notin Avail(lab, a.t, a.ti) \/ NotHere(lab, a.t, e.f, e.v) THEN Refuse(d, e, st, TRUE)
         ELSE LET drop == IF e.v = 1 /\ e.f \in PerDisk(lab) THEN {e.f} ELSE {} IN
              AttrJudge(d, e, st, SetFlag(lab, a.t, A, e.f, e.v), drop, "C09.flag")
              \cup If(e.f \in ToSet(AOf(st.a, e.n).fl) \/ e.v = 0, "C09.on")
              \cup If(e.v = 1 \/ e.f \notin ToSet(AOf(st.a, e.n).fl) \/ SetFlag(lab, a.t, A, e.f, 0).fl \cap {e.f} # {}, "C09.off")
    [] e.op = "system" ->
         IF lab = "atari" THEN If(AttrOthers(d, e, st, {}), "C09.others")
         ELSE AttrJudge(d, e, st, SetFs(lab, a.t, A, e.f), {}, "C09.fs")
    [] e.op = "name" /\ Unnamed(lab, a.t, A, e.ans) -> Refuse(d, e, st, TRUE)
    [] e.op = "name" -> AttrJudge(d, e, st, SetName(lab, a.t, A, e.f, e.ans), {}, "C09.name")
    [] e.op = "typeid" -> IF (a.t = 2) # (e.v \in DosExtIds) \/ e.v = 0 THEN Refuse(d, e, st, TRUE)
                          ELSE AttrJudge(d, e, st, WithId(A, a.t, e.v), {}, "C09.type")
    [] e.op = "typeuuid" -> AttrJudge(d, e, st, WithGuid(A, e.f), {}, "C09.type")

MeaningOK(lab, A) == /\ \A j \in DOMAIN A : /\ Meaning(lab, A[j].t, FA(A[j]))
                                           /\ ToSet(A[j].av) = Avail(lab, A[j].t, A[j].ti)
                     /\ \A f \in PerDisk(lab) : Cardinality({j \in DOMAIN A : f \in ToSet(A[j].fl)}) <= 1

Judge(e) ==
  LET d == IF e.k >= 0 /\ D[e.k] # <<>> THEN D[e.k][1] ELSE [di |-> e.di]
      di == IF e.di >= 0 THEN e.di ELSE d.di
      v == IF di >= 0 /\ V[di] # <<>> THEN V[di][1] ELSE [dg |-> ""]
      st == IF e.st # <<>> THEN e.st[1] ELSE [p |-> <<>>]
      u == CsX(e, IF e.k >= 0 /\ D[e.k] # <<>> THEN d.T.len ELSE 1)
      wf(T) == IF e.st # <<>> THEN WFClauses(T, st) ELSE {}
      quiet == Quiet(e, v)
  IN (IF e.st # <<>> /\ "lab" \in DOMAIN st THEN If(MeaningOK(st.lab, st.a), "C09.meaning") ELSE {}) \cup
  CASE e.op = "dev" -> {}
    [] e.op = "crash" -> {"ANY.crash"}
    [] e.nop = 2 -> {}
    [] e.op = "new" ->
       quiet \cup If((e.ok = 1) = CanCreate(e.lab, v.len, v.ss, v.h, v.sc), "C16.create")
       \cup (IF e.ok = 1 THEN wf(Empty(e.lab, v.len, v.ss, v.h, v.sc))
                              \cup If(Loose([lab |-> e.lab]) \/ ObsP(st) = Fresh(e.lab, v.len, v.ss, v.h, v.sc).P, "C16.fresh")
             ELSE {})
    [] e.op = "add" ->
       LET r0 == IF Loose(d.T) THEN Refused ELSE Adding(d.T, e.t, e.s, e.e, u)
           r == WithSlot3(d.T, e, r0) IN
       quiet \cup wf(d.T)
       \cup PlaceJudge([e EXCEPT !.n = e.pn], d, r, LAMBDA pl : AddTo(d.T, e.pn, e.t, pl))
       \cup (IF e.ok = 1 THEN If(Loose(d.T) \/ OthersSame(d.A, st.a, e.pn, Id), "C02.attrs") ELSE {})
    [] e.op \in {"setgeom", "max"} ->
       IF ~ Has(d.T, e.n) THEN If(e.ok = 0 /\ SameAll(st, d), "C02.failed") \cup quiet
       ELSE LET r == IF Loose(d.T) THEN Refused
                     ELSE IF e.op = "max" THEN Maximising(d.T, e.n, u) ELSE Moving(d.T, e.n, e.s, e.e, u) IN
       quiet \cup wf(d.T)
       \cup PlaceJudge(e, d, r, LAMBDA pl : MoveTo(d.T, e.n, pl))
       \cup If(Loose(d.T) \/ OthersSame(d.A, st.a, -5, Id), "C02.attrs")
    [] e.op = "maxgeom" ->
       IF ~ Has(d.T, e.n) THEN quiet \cup If(SameAll(st, d), "C02.failed")
       ELSE LET r == IF Loose(d.T) THEN Refused ELSE Maximising(d.T, e.n, u) IN
       quiet \cup If(SameAll(st, d), "C02.query")
       \cup (IF Loose(d.T) THEN {} ELSE IF e.ok = 1 THEN If(<<e.gs, e.ge>> \in r.places, "C05.maxgeom") ELSE If(r.fail, "C05.maxgeom"))
    [] e.op = "minext" ->
       IF Exts(d.T) = {} THEN quiet \cup If(SameAll(st, d) /\ e.ok = 1, "C02.failed")
       ELSE IF Logs(d.T) = {}
       THEN quiet \cup wf(d.T) \cup If(e.ok = 1 /\ ObsP(st) = Without(d.T, Ext(d.T).n).P, "C05.minext")
       ELSE LET x == Ext(d.T)
                a == MinOf({p.s : p \in Logs(d.T)})
                b == MaxOf({p.e : p \in Logs(d.T)})
                r == Moving(d.T, x.n, a, b, CAny(d.T.len)) IN
       quiet \cup wf(d.T) \cup If(Loose(d.T) \/ OthersSame(d.A, st.a, -5, Id), "C02.attrs")
       \cup (IF Loose(d.T) THEN {}
             ELSE IF e.ok = 1 THEN If(\E pl \in r.places : ObsP(st) = MoveTo(d.T, x.n, pl).P, "C05.minext")
             ELSE If(r.fail, "C05.minext") \cup If(SameAll(st, d), "C02.failed"))
    [] e.op = "rm" ->
       IF ~ Has(d.T, e.n) THEN quiet \cup If(e.ok = 0 /\ SameAll(st, d), "C02.failed")
       ELSE quiet \cup wf(d.T) \cup If(e.ok = 1, "C02.removed")
       \cup (IF Loose(d.T) THEN {} ELSE
             If({[p EXCEPT !.n = 0] : p \in ObsP(st)} = {[p EXCEPT !.n = 0] : p \in Without(d.T, e.n).P}, "C02.others")
             \cup If(ObsP(st) = Without(d.T, e.n).P, "C03.kept")
             \cup If(OthersSame(d.A, st.a, -5, LAMBDA m : OldNum(d.T, e.n, m)), "C02.attrs"))
    [] e.op = "delall" -> quiet \cup wf(d.T) \cup If(e.ok = 1 /\ ObsP(st) = {}, "C02.removed")
    [] e.op = "state" -> quiet \cup If(SameAll(st, d), "C02.state") \cup If(SameAll(st, d), "C10.independent")
    [] e.op = "bysec" ->
       LET hit == {q \in ToSet(st.p) : q[3] <= e.s /\ e.s <= q[4] /\ q[2] # 2} IN
       quiet \cup If(SameAll(st, d), "C02.state")
       \cup If(IF hit = {} THEN e.r[1] = -2 ELSE e.r \in hit, "C01.bysector")
    [] e.op = "dup" ->
       LET s == D[e.k0][1] IN
       Quiet(e, V[s.di][1]) \cup If(e.ok = 1 /\ (e.ok = 1 => SameAll(st, s)), "C10.equal")
    [] e.op = "destroy" -> quiet
    [] e.op \in {"check"} -> quiet \cup If(SameAll(st, d), "C02.state")
    [] e.op = "commit" ->
       If((e.ok = 1) = CanRecord(d.T), "C06.commit") \cup If(e.ok = 0 => e.x > 0, "C06.silent") \cup If(SameAll(st, d), "C02.state")
       \cup If(SameAll(st, d), "C06.commitchanged")
       \cup If(\A j \in DOMAIN e.wr : WriteOK(d.T, e.wr[j], d.nc), "C07.footprint")
       \cup (IF v.cont # <<>> /\ v.cont[1].eq = 1 /\ v.cont[1].slot = d THEN If(e.dg = v.dg, "C06.idempotent") ELSE {})
    [] e.op = "read" ->
       quiet \cup
       (IF v.cont = <<>> THEN {}
        ELSE LET c == v.cont[1].slot
                 R == ReadBack(c.T)
                 attrs(A) == [j \in DOMAIN A |-> A[j].rk] IN
        \* a dvh label without a volume header is only read if the user lets one be made
        If((e.ok = 1 /\ (e.ok = 1 => st.lab = c.T.lab)) \/ (c.T.lab = "dvh" /\ Exts(c.T) = {} /\ e.x > 0)
           \* a loop label with a file system is that file system
           \/ (c.T.lab = "loop" /\ \E j \in DOMAIN c.A : c.A[j].fs # "-"), "C06.label")
        \cup (IF e.ok = 0 THEN {} ELSE
              wf(c.T)
              \cup If(NoNum(ObsP(st)) = NoNum(R.P), "C06.geometry")
              \cup If(SameP(c.T, ObsP(st), R.P), "C06.numbers") \cup If(SameP(c.T, ObsP(st), R.P), "C03.reread")
              \* the loop label records no partition; what it shows is found by probing
              \cup If(c.T.lab = "loop" \/ attrs(c.A) = attrs(st.a), "C06.attributes")
              \cup If(c.dfr = st.dfr /\ c.du = st.du, "C06.disk")))
    [] e.op \in {"flag", "system", "name", "typeid", "typeuuid"} -> quiet \cup AttrOp(d, e, st)
    [] e.op = "dflag" ->
         LET av == e.f \in (CASE d.T.lab = "msdos" -> {"cylinder_alignment"} [] d.T.lab = "gpt" -> {"pmbr_boot"} [] OTHER -> {}) IN
         quiet \cup (IF av THEN If(e.ok = 1 /\ ToSet(st.df) = (IF e.v = 1 THEN ToSet(d.df) \cup {e.f} ELSE ToSet(d.df) \ {e.f})
                                   /\ ObsP(st) = d.T.P /\ st.a = d.A /\ st.du = d.du, "C09.disk")
                    ELSE If(e.ok = 0 /\ SameAll(st, d), "C09.disk"))
    [] e.op = "peek" -> If(v.boot = <<>> \/ v.boot = <<e.hex>>, "C07.bootcode")
    [] OTHER -> {}

Changing == {"add", "setgeom", "max", "minext", "rm", "delall", "flag", "system", "name", "typeid", "typeuuid", "dflag"}
Dev0(e) == [len |-> e.len, ss |-> e.ss, h |-> e.h, sc |-> e.sc, dg |-> e.dg, nw |-> e.nw, cont |-> <<>>, boot |-> <<>>]

Step(e) ==
  IF e.op = "crash" THEN UNCHANGED <<D, V>>
  ELSE IF e.nop = 2 THEN D' = (IF e.op = "dup" THEN [D EXCEPT ![e.k] = <<>>] ELSE D) /\ V' = V
  ELSE
  LET di == IF e.di >= 0 THEN e.di ELSE IF e.op = "dup" THEN D[e.k0][1].di ELSE D[e.k][1].di
      st == e.st[1]
      v == V[di][1]
      base == IF e.op = "new" THEN Empty(e.lab, v.len, v.ss, v.h, v.sc)
              ELSE IF e.op = "read" /\ e.ok = 1 THEN Empty(st.lab, v.len, v.ss, v.h, v.sc)
              ELSE IF e.op = "dup" THEN D[e.k0][1].T
              ELSE D[e.k][1].T
      slot == Slot(base, st, di) @@ [dfr |-> st.dfr, nc |-> st.nc]
      nd == CASE e.op \in {"dev", "jlist"} \/ e.k < 0 -> D
              [] e.op = "destroy" \/ e.st = <<>> -> [D EXCEPT ![e.k] = <<>>]
              [] OTHER -> [D EXCEPT ![e.k] = <<slot>>]
      nv == CASE e.op = "dev" -> [V EXCEPT ![di] = <<Dev0(e)>>]
              [] e.op = "commit" -> [V EXCEPT ![di] = <<[v EXCEPT !.dg = e.dg, !.nw = e.nw,
                       !.boot = IF D[e.k][1].nc = 1 THEN <<>> ELSE @,
                       !.cont = IF e.ok = 1 THEN <<[slot |-> slot, eq |-> 1]>> ELSE <<>>]>>]
              [] e.op = "read" /\ e.ok = 1 -> [V EXCEPT ![di] = <<[v EXCEPT !.dg = e.dg, !.nw = e.nw,
                       !.cont = <<[slot |-> slot, eq |-> 1]>>]>>]
              \* eq: nothing was changed since (setting what is already set may still choose another type)
              [] e.op \in Changing /\ e.ok = 1 /\ v.cont # <<>> ->
                   [V EXCEPT ![di] = <<[v EXCEPT !.dg = e.dg, !.nw = e.nw, !.cont[1].eq = 0]>>]
              [] e.op = "poke" -> [V EXCEPT ![di] = <<[v EXCEPT !.dg = e.dg, !.nw = e.nw, !.boot = <<e.hex>>]>>]
              [] OTHER -> [V EXCEPT ![di] = <<[v EXCEPT !.dg = e.dg, !.nw = e.nw]>>]
  IN D' = nd /\ V' = nv

Init == /\ h \in DOMAIN Hist /\ i = 0 /\ bad = {}
        /\ D = [k \in Slots8 |-> <<>>] /\ V = [k \in Slots8 |-> <<>>]
Next == /\ i < Len(Hist[h]) /\ i' = i + 1 /\ h' = h
        /\ bad' = Judge(Ev)
        /\ Step(Ev)
        /\ \A c \in bad' : PrintT(<<"REJ", h, i + 1, c>>)
Spec == Init /\ [][Next]_vars
\* every event of every history was consumed
Total == LET RECURSIVE Sum(_)
             Sum(j) == IF j = 0 THEN 0 ELSE Len(Hist[j]) + Sum(j - 1)
         IN Sum(Len(Hist))
AllRead == TLCGet("stats").distinct = Total + Len(Hist)
===============================================================================
