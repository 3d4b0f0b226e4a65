------------------------------- MODULE FatFs -------------------------------
(* FAT16 and FAT32 file systems as they lie on a device, and what resizing may make of them.
   An image I has
     k      16 or 32           spc   sectors in a cluster      res   sectors before the tables
     nf     tables             fsz   sectors in a table        rd    entries of the FAT16 root
     total  sectors in all     root  first cluster of the FAT32 root
     fat    the entries of the first table that are not zero, as runs <<cluster, n, value>>: n
            clusters, each followed by the next, the last one with that value
     same   the tables are all equal    media, bk, free  the media byte fits, the copy of the
            boot sector is equal, the clusters said to be free (-1: not said, -2: damaged)
     ids    <<sector, n, id>>: n sectors of files, each with contents of its own, id, id + 1, ..
     dirs   <<sector, entries>>: the other sectors of the data, read as directory entries
            [t: file/dir/label/long/end, n: name, c: first cluster, z: bytes, m: the rest]      *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL Up(a, b) == IF a <= 0 THEN 0 ELSE (a - 1) \div b + 1
Range(s) == {s[j] : j \in DOMAIN s}
Map(ps) == [x \in {p[1] : p \in Range(ps)} |-> (CHOOSE p \in Range(ps) : p[1] = x)[2]]
RootSecs(I) == Up(I.rd * 32, 512)
Data(I) == I.res + I.nf * I.fsz + (IF I.k = 16 THEN RootSecs(I) ELSE 0)
Fits(I) == (I.fsz * 512) \div (I.k \div 8) - 2              \* the clusters the tables have room for
Least(a, b) == IF a < b THEN a ELSE b
Count(I) == Least((I.total - Data(I)) \div I.spc, Fits(I))
Bad(I) == IF I.k = 32 THEN 268435447 ELSE 65527              \* 0x0ffffff7, 0xfff7
End(I, v) == v > Bad(I)
First(I, c) == Data(I) + (c - 2) * I.spc
(* a view holds the maps once, so that they are not made again for each look-up *)
View(I) == [I |-> I, fat |-> Range(I.fat), id |-> Range(I.ids), dir |-> Map(I.dirs), n |-> Count(I)]
At(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Over(rs, x) == {r \in rs : r[1] <= x /\ x < r[1] + r[2]}         \* the run x is in, if any
Valid(V, c) == c >= 2 /\ c < V.n + 2
(* the clusters from c on, as intervals <<first, last>>, ended by <<0, 0>> if the chain does not end where it should *)
RECURSIVE Chain(_, _, _)
Chain(V, c, left) ==
  LET R == Over(V.fat, c) IN
  IF ~Valid(V, c) \/ left = 0 \/ R = {} THEN <<<<0, 0>>>>
  ELSE LET r == CHOOSE x \in R : TRUE
           z == r[1] + r[2] - 1 IN
       IF ~Valid(V, z) THEN <<<<0, 0>>>>
       ELSE IF End(V.I, r[3]) THEN <<<<c, z>>>> ELSE <<<<c, z>>>> \o Chain(V, r[3], left - 1)
Whole(V, ch) == ch = <<>> \/ ch[Len(ch)] # <<0, 0>>
ChainOf(V, c) == IF c = 0 THEN <<>> ELSE Chain(V, c, 900)
RECURSIVE Size(_)
Size(ch) == IF ch = <<>> THEN 0 ELSE ch[1][2] - ch[1][1] + 1 + Size(Tail(ch))
RECURSIVE SecsOf(_, _)
SecsOf(V, ch) == IF ch = <<>> THEN <<>> ELSE
  [j \in 1..((ch[1][2] - ch[1][1] + 1) * V.I.spc) |-> First(V.I, ch[1][1]) + j - 1] \o SecsOf(V, Tail(ch))
(* what is in n sectors from x on, as pieces <<id, n>>; what is not known is -1 *)
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Pieces(_, _, _)
Pieces(V, x, n) ==
  IF n <= 0 THEN <<>> ELSE
  LET R == Over(V.id, x) IN
  IF R # {} THEN LET r == CHOOSE q \in R : TRUE k == Least(n, r[1] + r[2] - x) IN <<<<r[3] + x - r[1], k>>>> \o Pieces(V, x + k, n - k)
  ELSE LET k == Min({n} \cup {r[1] - x : r \in {q \in V.id : q[1] > x}}) IN <<<<-1, k>>>> \o Pieces(V, x + k, n - k)
RECURSIVE PiecesOf(_, _, _)
PiecesOf(V, ch, n) ==
  IF ch = <<>> \/ n <= 0 THEN <<>> ELSE
  LET k == (ch[1][2] - ch[1][1] + 1) * V.I.spc IN Pieces(V, First(V.I, ch[1][1]), Least(k, n)) \o PiecesOf(V, Tail(ch), n - k)
Joins(a, b) == IF a[1] = -1 THEN b[1] = -1 ELSE a[1] + a[2] = b[1]
RECURSIVE Joined(_, _)
Joined(done, ps) ==                 \* the same in as few pieces as can be
  IF ps = <<>> THEN done
  ELSE IF done # <<>> /\ Joins(done[Len(done)], ps[1])
       THEN Joined([done EXCEPT ![Len(done)] = <<@[1], @[2] + ps[1][2]>>], Tail(ps))
       ELSE Joined(Append(done, ps[1]), Tail(ps))
(* the entries of a directory: those of its sectors up to the first that is zero *)
RECURSIVE Entries(_, _)
Entries(V, ss) ==
  IF ss = <<>> THEN <<>>
  ELSE LET es == At(V.dir, ss[1], <<[t |-> "end"]>>)
           k == IF es # <<>> /\ es[Len(es)].t = "end" THEN Len(es) - 1 ELSE Len(es) IN
       SubSeq(es, 1, k) \o (IF k < Len(es) THEN <<>> ELSE Entries(V, Tail(ss)))
Dots(e) == e.n \in {".", ".."}
(* what a file is to its user: its entry but for where it lies, and its contents *)
Contents(V, e, ch) == LET n == Up(e.z, 512) IN
  IF n > Size(ch) * V.I.spc THEN <<<<0, 0>>>> ELSE Joined(<<>>, PiecesOf(V, ch, n))
(* the tree below a directory: its things, the clusters it uses, the links that are wrong *)
RECURSIVE Walk(_, _, _, _, _, _)
Walk(V, path, ss, me, up, deep) ==
  LET es == IF deep = 0 THEN <<>> ELSE Entries(V, ss)
      One(j) ==
        LET e == es[j]
            p == Append(path, j) IN
        IF e.t \in {"label", "long"} THEN [things |-> {<<p, e.t, e.m>>}, used |-> <<>>, wrong |-> {}]
        ELSE IF e.t = "dir" /\ Dots(e) THEN
          [things |-> {<<p, e.n>>}, used |-> <<>>, wrong |-> IF e.c = (IF e.n = "." THEN me ELSE up) THEN {} ELSE {"links"}]
        ELSE LET ch == ChainOf(V, e.c) IN
          IF ~Whole(V, ch) THEN [things |-> {<<p, e.t, e.m, "broken">>}, used |-> <<>>, wrong |-> {"chain"}]
          ELSE IF e.t = "file" THEN
            [things |-> {<<p, "file", e.m, e.z, Contents(V, e, ch)>>}, used |-> ch,
             wrong |-> IF Size(ch) = Up(e.z, 512 * V.I.spc) THEN {} ELSE {"length"}]
          ELSE LET w == Walk(V, p, SecsOf(V, ch), e.c, IF path = <<>> THEN 0 ELSE me, deep - 1) IN
            [things |-> {<<p, "dir", e.m>>} \cup w.things, used |-> ch \o w.used,
             wrong |-> w.wrong \cup (IF ch = <<>> THEN {"chain"} ELSE {})]
      RECURSIVE All(_)
      All(j) == IF j > Len(es) THEN [things |-> {}, used |-> <<>>, wrong |-> {}]
                ELSE LET a == One(j) b == All(j + 1) IN
                     [things |-> a.things \cup b.things, used |-> a.used \o b.used, wrong |-> a.wrong \cup b.wrong]
  IN All(1)
Tree(V) ==
  IF V.I.k = 16 THEN Walk(V, <<>>, [j \in 1..RootSecs(V.I) |-> V.I.res + V.I.nf * V.I.fsz + j - 1], 0, 0, 6)
  ELSE LET ch == ChainOf(V, V.I.root)
           w == Walk(V, <<>>, SecsOf(V, ch), V.I.root, 0, 6) IN
       [w EXCEPT !.used = ch \o @, !.wrong = @ \cup (IF Whole(V, ch) /\ ch # <<>> THEN {} ELSE {"root"})]
BadOnes(V) == {r[1] + r[2] - 1 : r \in {q \in V.fat : q[3] = Bad(V.I)}}
RECURSIVE Total(_)
Total(rs) == IF rs = {} THEN 0 ELSE LET r == CHOOSE x \in rs : TRUE IN r[2] + Total(rs \ {r})
(* what is wrong with a file system as such *)
Faults(V, T) ==
  LET I == V.I
      used == T.used
      live == Total(V.fat)
      n == Size(used) IN
  T.wrong
  \cup (IF \A j, k \in DOMAIN used : j = k \/ used[j][2] < used[k][1] \/ used[k][2] < used[j][1] THEN {} ELSE {"crossed"})
  \cup (IF \A j \in DOMAIN used : \A c \in BadOnes(V) : c < used[j][1] \/ c > used[j][2] THEN {} ELSE {"bad"})
  \cup (IF live = n + Cardinality(BadOnes(V)) THEN {} ELSE {"lost"})
  \cup (IF I.same = 1 THEN {} ELSE {"tables"})
  \cup (IF I.media = 1 THEN {} ELSE {"media"})
  \cup (IF I.bk = 1 THEN {} ELSE {"copy"})
  \cup (IF I.free \in {-1, V.n - live} THEN {} ELSE {"free"})
  \cup (IF V.n >= 1 /\ Data(I) < I.total THEN {} ELSE {"room"})
  \cup (IF I.k = 32 \/ (V.n > 4084 /\ V.n < 65525) THEN {} ELSE {"kind"})
(* no more clusters than there is room for, and none without an entry in the tables *)
Filled(V) == (V.I.total - Data(V.I)) \div V.I.spc <= Fits(V.I)
============================================================================
