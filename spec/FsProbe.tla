------------------------------ MODULE FsProbe ------------------------------
(* What identifies each file system, byte by byte, in a region of a device.
     R.img   the bytes of the region that are not zero: <<offset, bytes>>
     R.rdb   the same of the start of the device (an amiga disk describes its partitions there)
     R.ss, R.st, R.ln, R.dl   sector size; start and length of the region, length of the device
   Claim(t, R): the length, in sectors, of the file system of type t that starts with the
   region (a Big number, <<>> if there is none).                                             *)
EXTENDS Big, FiniteSets
Cap == 1073741824
At(I, o) == LET k == {j \in DOMAIN I : I[j][1] <= o /\ o < I[j][1] + Len(I[j][2])} IN
            IF k = {} THEN 0 ELSE LET j == CHOOSE j \in k : TRUE IN I[j][2][o - I[j][1] + 1]
Bytes(I, o, n) == [j \in 1 .. n |-> At(I, o + j - 1)]
\* numbers of up to 4 bytes as integers, Cap if they are larger
Le2(I, o) == At(I, o) + 256 * At(I, o + 1)
Be2(I, o) == At(I, o + 1) + 256 * At(I, o)
Le4(I, o) == IF At(I, o + 3) >= 64 THEN Cap ELSE Le2(I, o) + 65536 * Le2(I, o + 2)
Be4(I, o) == IF At(I, o) >= 64 THEN Cap ELSE Be2(I, o + 2) + 65536 * Be2(I, o)
\* and of any size, lowest byte first
RECURSIVE Num(_, _, _, _)
Num(I, o, n, be) == IF n = 0 THEN <<>> ELSE Add(Mul(<<256>>, IF be THEN Num(I, o, n - 1, be) ELSE Num(I, o + 1, n - 1, be)), B(IF be THEN At(I, o + n - 1) ELSE At(I, o)))
RECURSIVE Shift(_, _)
Shift(a, k) == IF k = 1 THEN a ELSE Shift(Half(a), k \div 2)            \* k a power of two
Has(R, sec, n) == sec + n <= R.ln                                       \* sectors sec .. sec + n - 1 are there
Up(a, b) == (a + b - 1) \div b
Whole(R) == B(R.ln)
No == <<>>

\* ---- ext2, ext3, ext4 -------------------------------------------------------------------
Bit(x, b) == (x \div b) % 2 = 1
ExtMagic(R) == Has(R, 0, Up(4096, R.ss)) /\ Le2(R.img, 1024 + 56) = 61267
ExtKind(R) == LET c == Le2(R.img, 1024 + 92) i == Le2(R.img, 1024 + 96) o == Le2(R.img, 1024 + 100) IN
  IF Bit(o, 8) \/ Bit(o, 16) \/ Bit(o, 32) \/ Bit(i, 64) \/ Bit(i, 128) \/ Bit(i, 512) THEN 4 ELSE IF Bit(c, 4) THEN 3 ELSE 2
ExtCopy(R) == Le4(R.img, 1024 + 76) > 0 /\ Le2(R.img, 1024 + 90) > 0    \* a backup of the superblock
ExtClaim(k, R) == IF ~ExtMagic(R) \/ ExtKind(R) # k THEN No
                  ELSE Mul(B((1024 * 2 ^ Le4(R.img, 1024 + 24)) \div R.ss), Num(R.img, 1024 + 4, 4, FALSE))
\* ---- those with one superblock ----------------------------------------------------------
Much == <<0, 0, 0, 0, 1>>                                               \* for sizes with the sign bit set: not judged
Word(R, o, w) == Has(R, o \div R.ss, 1) /\ Bytes(R.img, o, Len(w)) = w
F2fs == <<16, 32, 245, 242>>
Btrfs == <<95, 66, 72, 82, 102, 83, 95, 77>>
Xfs == <<88, 70, 83, 66>>
XfsLE == <<66, 83, 70, 88>>
Jfs == <<74, 70, 83, 49>>
Ntfs == <<78, 84, 70, 83>>
XfsClaim(R) == IF Word(R, 0, Xfs) THEN Mul(Shift(Num(R.img, 4, 4, TRUE), R.ss), Num(R.img, 8, 8, TRUE))
               ELSE IF Word(R, 0, XfsLE) THEN Mul(Shift(Num(R.img, 4, 4, FALSE), R.ss), Num(R.img, 8, 8, FALSE)) ELSE No
JfsClaim(R) == IF ~Has(R, 32768 \div R.ss, 1) \/ Bytes(R.img, 32768, 4) # Jfs THEN No ELSE IF At(R.img, 32768 + 27) > 127 THEN Much
               ELSE Shift(Mul(Num(R.img, 32768 + 24, 4, FALSE), Num(R.img, 32768 + 8, 8, FALSE)), R.ss)
ReiserAt(R, o) == Has(R, o \div R.ss, 1) /\
  LET w == Bytes(R.img, o + 52, 9) IN SubSeq(w, 1, 8) = <<82, 101, 73, 115, 69, 114, 70, 115>> \/ w \in {<<82, 101, 73, 115, 69, 114, 50, 70, 115>>, <<82, 101, 73, 115, 69, 114, 51, 70, 115>>}
ReiserClaim(R) == LET o == IF ReiserAt(R, 65536) THEN 65536 ELSE 8192 IN
  IF ~ReiserAt(R, o) THEN No ELSE Mul(B(Le2(R.img, o + 44) \div R.ss), Num(R.img, o, 4, FALSE))
\* ---- ufs --------------------------------------------------------------------------------
SunUfs == {<<0, 1, 25, 84>>}
HpUfs == {<<0, 9, 80, 20>>, <<0, 25, 86, 18>>, <<5, 35, 25, 148>>}   \* 0x00095014, 0x00195612, 0x05231994
Rev(w) == [j \in 1 .. Len(w) |-> w[Len(w) + 1 - j]]
UfsClaim(ms, R) == LET m == Bytes(R.img, 8192 + 1372, 4) IN
  IF R.ln < 5 \/ ~Has(R, 8192 \div R.ss, Up(1536, R.ss)) THEN No
  ELSE IF m \in ms THEN Mul(Shift(Num(R.img, 8192 + 48, 4, TRUE), R.ss), Num(R.img, 8192 + 36, 4, TRUE))
  ELSE IF Rev(m) \in ms THEN IF At(R.img, 8192 + 51) > 127 THEN Much ELSE Mul(Shift(Num(R.img, 8192 + 48, 4, FALSE), R.ss), Num(R.img, 8192 + 36, 4, FALSE)) ELSE No
\* ---- FAT --------------------------------------------------------------------------------
FatSane(R) == /\ R.ln > 0 /\ Le2(R.img, 510) = 43605
              /\ Le2(R.img, 11) # 0 /\ Le2(R.img, 11) % 512 = 0 /\ At(R.img, 13) # 0 /\ Le2(R.img, 14) # 0 /\ At(R.img, 16) \in 1 .. 4
Fat(R) == LET l == Le2(R.img, 11) \div 512
              first == Le2(R.img, 14) * l + 2 * Le2(R.img, 22) * l + Le2(R.img, 17) \div 16
              room == R.ln * (R.ss \div 512) - first IN
          IF Le2(R.img, 17) = 0 THEN 32 ELSE IF room < 0 THEN 0 ELSE IF room > 0 /\ (room \div At(R.img, 13)) \div l > 4086 THEN 16 ELSE 12
\* (0: not even its tables have room; what that is, is not judged)
FatClaim(k, R) == IF ~FatSane(R) \/ Fat(R) # k THEN No
  ELSE Shift(Mul(B(Le2(R.img, 11) \div 512), IF Le2(R.img, 19) # 0 THEN B(Le2(R.img, 19)) ELSE Num(R.img, 32, 4, FALSE)), R.ss \div 512)
\* ---- swap: the signature ends a page ----------------------------------------------------
Page == 4096
Pages(R) == Page \div R.ss
SwapSig(R, w) == Pages(R) > 0 /\ Has(R, 0, Pages(R)) /\ Bytes(R.img, Page - 10, Len(w)) = w
Swap0 == <<83, 87, 65, 80, 45, 83, 80, 65, 67, 69>>
Swap1 == <<83, 87, 65, 80, 83, 80, 65, 67, 69, 50>>
Susp == <<83, 49, 83, 85, 83, 80, 69, 78, 68>>
\* ---- nilfs2: two superblocks, each with a checksum (R.nil: whether those are right) --------
NilAt(R) == ((R.ln * (R.ss \div 512)) \div 8 - 1) * 8
NilSb(R, o, k) == Bytes(R.img, o + 6, 2) = <<52, 52>> /\ Le2(R.img, o + 8) \in 20 .. 1024 /\ R.nil[k] = 1
NilClaim(R) == LET s2 == NilAt(R) \div (R.ss \div 512) IN
  IF s2 <= 2 \/ ~Has(R, 0, Up(4096, R.ss)) \/ ~Has(R, s2, Up(1024, R.ss)) \/ ~NilSb(R, 1024, 1) \/ ~NilSb(R, s2 * R.ss, 2) THEN No ELSE B(s2 + Up(4096, R.ss))
\* ---- udf: a volume recognition sequence and an anchor ------------------------------------
Nsr == {<<78, 83, 82, 48, 50>>, <<78, 83, 82, 48, 51>>}
Vsd == {<<66, 69, 65, 48, 49>>, <<84, 69, 65, 48, 49>>, <<66, 79, 79, 84, 50>>, <<67, 68, 48, 48, 49>>, <<67, 68, 87, 48, 50>>}
InBytes(R, o, n) == Has(R, 0, Up(o + n, R.ss))
RECURSIVE Vrs(_, _, _)
Vrs(R, z, j) == LET o == 32768 + j * z + 1 w == Bytes(R.img, o, 5) IN
  IF j = 64 \/ ~InBytes(R, o, 5) THEN FALSE ELSE IF w \in Nsr THEN TRUE ELSE IF w \in Vsd THEN Vrs(R, z, j + 1) ELSE FALSE
Anchor(R, z, k) ==
  LET n == (R.ln * R.ss) \div z
      b == IF k > 0 THEN k ELSE n + k IN
  /\ k > 0 \/ b >= 257
  /\ InBytes(R, b * z, 16) /\ Le2(R.img, b * z) = 2 /\ Le4(R.img, b * z + 12) = b
Udf(R) == \/ Vrs(R, 2048, 0) /\ \E z \in {512, 1024, 2048} : \E k \in {256, -257, -1, 512} : Anchor(R, z, k)
          \/ \E z \in {4096, 8192, 16384, 32768} : Vrs(R, z, 0) /\ \E k \in {256, -257, -1, 512} : Anchor(R, z, k)
\* ---- hfs, hfs+, hfsx: the header is repeated before the end -------------------------------
HfsOn(R) == R.ss = 512 /\ R.ln >= 5
SigAt(R, s, w) == Bytes(R.far, s * 512, 2) = w                          \* sector s, maybe past the region
FirstAt(R, lo, hi, w) == LET k == {s \in lo .. hi : s + 1 <= R.dl - R.st /\ SigAt(R, s, w)} IN
                         IF k = {} THEN -1 ELSE CHOOSE s \in k : \A q \in k : s <= q
BD == <<66, 68>>
HP == <<72, 43>>
HX == <<72, 88>>
HfsEnd(R) == LET b == Be4(R.img, 1024 + 20) \div 512
                 s == Be2(R.img, 1024 + 28) + Be2(R.img, 1024 + 18) * b IN
             IF ~HfsOn(R) \/ Bytes(R.img, 1024, 2) # BD THEN -1 ELSE FirstAt(R, s, s + b - 1, BD)
Embedded(R) == Bytes(R.img, 1024 + 124, 2) = HP
PlusEnd(R, w) == LET b == Be4(R.img, 1024 + 40) \div 512
                     n == Be4(R.img, 1024 + 44)
                     m == (n + 1) * b - 2
                     lo == IF w = HP THEN m - 2 * b + 2 ELSE m - b
                     a == FirstAt(R, lo, m - 1, w)
                     z == (n - 1) * b - 1 IN
                 IF ~HfsOn(R) \/ Bytes(R.img, 1024, 2) # w \/ lo < 0 THEN -1
                 ELSE IF a >= 0 THEN a
                 ELSE IF w = HP /\ z >= 0 /\ FirstAt(R, z, z, w) = z THEN z ELSE -1
EndClaim(s) == IF s < 0 THEN No ELSE B(s + 2)
\* ---- amiga ------------------------------------------------------------------------------
RECURSIVE AmPart(_, _, _, _)
AmPart(R, p, seen, n) ==          \* the block that describes the region
  IF n = 128 \/ p >= R.dl \/ p \in seen \/ Bytes(R.rdb, p * 512, 4) # <<80, 65, 82, 84>> THEN -1
  ELSE LET f(k) == Num(R.rdb, p * 512 + k, 4, TRUE)
           cyl == Mul(f(140), f(148))
           s == Mul(f(164), cyl)
           e == Mul(Add(f(168), One), cyl) IN
       IF s = B(R.st) /\ e = B(R.st + R.ln) THEN p ELSE AmPart(R, Be4(R.rdb, p * 512 + 16), seen \cup {p}, n + 1)
Rdb(R) == LET k == {j \in 0 .. 15 : j < R.dl /\ Bytes(R.rdb, j * 512, 4) = <<82, 68, 83, 75>>} IN
          IF k = {} THEN -1 ELSE AmPart(R, Be4(R.rdb, 28 + 512 * (CHOOSE j \in k : \A q \in k : j <= q)), {}, 1)
\* block size in sectors (0: none that is possible) and reserved blocks
AmGeo(R) == LET p == Rdb(R) IN
  IF p < 0 THEN [b |-> 1, r |-> 2]
  ELSE LET z == Mul(Num(R.rdb, p * 512 + 132, 4, TRUE), Num(R.rdb, p * 512 + 144, 4, TRUE)) IN
       [b |-> IF Le(z, <<6511, 1>>) THEN (IF z = <<>> THEN 0 ELSE (IF Len(z) = 1 THEN z[1] ELSE z[1] + 10000 * z[2]) \div 128) ELSE 0, r |-> Be4(R.rdb, p * 512 + 152)]
AmHas(R, s, n) == s >= 0 /\ n > 0 /\ s + n <= R.ln
RECURSIVE Sums(_, _, _)
Sums(I, o, n) == IF n = 0 THEN <<0, 0>> ELSE LET s == Sums(I, o + 4, n - 1) IN <<s[1] + Be2(I, o), s[2] + Be2(I, o + 2)>>
Sum0(I, o, n, add) == LET s == Sums(I, o, n) IN (s[2] + add) % 65536 = 0 /\ (s[1] + (s[2] + add) \div 65536) % 65536 = 0
Affs(R, kind) ==
  LET g == AmGeo(R)  b == g.b
      r == IF g.r = 0 THEN 1 ELSE g.r
      pos == (R.ln \div b - r - 1)
      root == ((IF pos < 0 THEN -((-pos) \div 2) ELSE pos \div 2) + r) * b
      o == root * 512 IN
  R.ss = 512 /\ b > 0 /\ AmHas(R, 0, b) /\ Bytes(R.img, 0, 4) = kind /\ r < R.ln /\ AmHas(R, root, b)
  /\ Bytes(R.img, o, 4) = <<0, 0, 0, 2>> /\ Bytes(R.img, o + 512 * b - 4, 4) = <<0, 0, 0, 1>> /\ Sum0(R.img, o, 128 * b, 0)
Apfs(R, kind) ==
  LET g == AmGeo(R) IN R.ss = 512 /\ g.b > 0 /\ AmHas(R, 0, g.b) /\ Bytes(R.img, 0, 4) = kind
    /\ g.r < R.ln /\ AmHas(R, g.r * g.b, g.b) /\ Bytes(R.img, g.r * g.b * 512, 4) = kind
AsfsRoot(R, b, s) ==
  LET o == s * 512
      own == Mul(Num(R.img, o + 8, 4, TRUE), B(b)) IN
  /\ Bytes(R.img, o, 4) = <<83, 70, 83, 0>> /\ Sum0(R.img, o, 128 * b, 1) /\ own = B(s)
  /\ Shift(Num(R.img, o + 32, 8, TRUE), 512) = B(R.st) /\ Shift(Num(R.img, o + 40, 8, TRUE), 512) = B(R.st + R.ln)
Asfs(R) ==
  LET b == AmGeo(R).b
      s == (R.ln - b) - (R.ln % b) IN
  R.ss = 512 /\ b > 0 /\ AmHas(R, 0, b) /\ Bytes(R.img, 0, 4) = <<83, 70, 83, 0>>
  /\ s >= 0 /\ (AsfsRoot(R, b, 0) \/ AsfsRoot(R, b, s))
AffsKind == [affs0 |-> <<68, 79, 83, 0>>, affs1 |-> <<68, 79, 83, 1>>, affs2 |-> <<68, 79, 83, 2>>, affs3 |-> <<68, 79, 83, 3>>,
  affs4 |-> <<68, 79, 83, 4>>, affs5 |-> <<68, 79, 83, 5>>, affs6 |-> <<68, 79, 83, 6>>, affs7 |-> <<68, 79, 83, 7>>,
  amufs |-> <<109, 117, 70, 83>>, amufs0 |-> <<109, 117, 70, 0>>, amufs1 |-> <<109, 117, 70, 1>>, amufs2 |-> <<109, 117, 70, 2>>,
  amufs3 |-> <<109, 117, 70, 3>>, amufs4 |-> <<109, 117, 70, 4>>, amufs5 |-> <<109, 117, 70, 5>>]
Amiga == DOMAIN AffsKind \cup {"apfs1", "apfs2", "asfs"}
\* ---- all of them ------------------------------------------------------------------------
Ext == {"ext2", "ext3", "ext4"}
Hfs == {"hfs", "hfs+", "hfsx"}
Types == Amiga \cup Ext \cup Hfs \cup {"btrfs", "f2fs", "xfs", "jfs", "ntfs", "reiserfs", "sun-ufs", "hp-ufs", "fat16", "fat32",
         "linux-swap(v0)", "linux-swap(v1)", "swsusp", "nilfs2", "udf"}
Claim(t, R) ==
  CASE t = "ext2" -> ExtClaim(2, R) [] t = "ext3" -> ExtClaim(3, R) [] t = "ext4" -> ExtClaim(4, R)
    [] t = "btrfs" -> IF Word(R, 65536 + 64, Btrfs) THEN Whole(R) ELSE No
    [] t = "f2fs" -> IF Word(R, 1024, F2fs) THEN Whole(R) ELSE No
    [] t = "xfs" -> XfsClaim(R) [] t = "jfs" -> JfsClaim(R)
    [] t = "ntfs" -> IF Word(R, 3, Ntfs) THEN Num(R.img, 40, 8, FALSE) ELSE No
    [] t = "reiserfs" -> ReiserClaim(R) [] t = "sun-ufs" -> UfsClaim(SunUfs, R) [] t = "hp-ufs" -> UfsClaim(HpUfs, R)
    [] t = "fat16" -> FatClaim(16, R) [] t = "fat32" -> FatClaim(32, R)
    [] t = "linux-swap(v0)" -> IF SwapSig(R, Swap0) THEN Whole(R) ELSE No
    [] t = "linux-swap(v1)" -> IF SwapSig(R, Swap1) THEN Mul(B(Pages(R)), Num(R.img, 1028, 4, FALSE)) ELSE No
    [] t = "swsusp" -> IF SwapSig(R, Susp) THEN B((R.ln \div Pages(R)) * Pages(R)) ELSE No
    [] t = "nilfs2" -> NilClaim(R) [] t = "udf" -> IF Udf(R) THEN Whole(R) ELSE No
    [] t = "hfs" -> IF Embedded(R) THEN No ELSE EndClaim(HfsEnd(R))
    [] t = "hfs+" -> IF HfsEnd(R) >= 0 THEN (IF Embedded(R) THEN EndClaim(HfsEnd(R)) ELSE No) ELSE EndClaim(PlusEnd(R, HP))
    [] t = "hfsx" -> EndClaim(PlusEnd(R, HX))
    [] t \in DOMAIN AffsKind -> IF Affs(R, AffsKind[t]) THEN Whole(R) ELSE No
    [] t = "apfs1" -> IF Apfs(R, <<80, 70, 49, 1>>) THEN Whole(R) ELSE No
    [] t = "apfs2" -> IF Apfs(R, <<80, 70, 49, 2>>) THEN Whole(R) ELSE No
    [] t = "asfs" -> IF Asfs(R) THEN Whole(R) ELSE No
\* 2^50 sectors and more are not judged: such a number may not have fit the arithmetic
Vast(c) == Le(<<2624, 4268, 8999, 1125>>, c)
\* ---- which of several -------------------------------------------------------------------
Err(f, R) == LET s == B(R.st) e == B(R.st + R.ln)  fe == Add(f[2], f[3])
                 d(a, b) == IF Le(a, b) THEN Sub(b, a) ELSE Sub(a, b) IN Add(d(s, f[2]), d(e, fe))
Best(F, R) == LET marg == IF R.ln \div 100 > 4096 THEN B(R.ln \div 100) ELSE B(4096)
                  w == {j \in DOMAIN F : \A k \in DOMAIN F \ {j} : Le(Add(Err(F[j], R), marg), Err(F[k], R))} IN
              IF w = {} THEN "-" ELSE F[CHOOSE j \in w : TRUE][1]
=============================================================================
