------------------------------- MODULE Script -------------------------------
(* What parted's commands do to a disk when it is run with -s: the table that is left, whether the
   command can or must succeed, and what it prints.  A table T is
     [lab |-> type of label or "", len |-> sectors, ss |-> bytes of a sector, d |-> flags of the disk,
      p |-> the set of its partitions, and of its free regions as far as fk says that they are known]
   each of them [n, t (0 primary, 1 logical, 2 extended, +4 free), s, e, nm, fs, id, fl (set)].
   A command is a sequence of words; a word is [t |-> its text, nm |-> what a name is recorded as,
   num |-> the number it is or -1, dg |-> it starts as a position does, pos |-> position].         *)
EXTENDS Integers, Sequences, FiniteSets
Range(s) == {s[k] : k \in DOMAIN s}
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a < b THEN b ELSE a
Clip(T, x) == Hi(0, Lo(x, T.len - 1))
-----------------------------------------------------------------------------
(* Positions.  pos is [ok, neg, n, den, u, big]: -n/den or n/den units u ("" for the one in force);
   big: so many that they lie far outside of any device here.                                     *)
Units == {"s", "b", "kb", "mb", "gb", "kib", "mib", "gib", "%"}
IEC == {"kib", "mib", "gib"}
Unit(u) == IF u = "compact" THEN "mb" ELSE u
Size(T, u) == CASE u = "s" -> T.ss [] u = "b" -> 1 [] u = "kb" -> 1000 [] u = "mb" -> 1000000 [] u = "gb" -> 1000000000
                [] u = "kib" -> 1024 [] u = "mib" -> 1048576 [] u = "gib" -> 1073741824 [] OTHER -> (T.len * T.ss) \div 100
UnitOf(a, u) == IF a.u = "" THEN Unit(u) ELSE a.u
(* the sector and the region that a word stands for; FALSE in ok: no place on the device *)
Place(T, a, u) ==
  LET w == UnitOf(a, u)
      z == Size(T, w)
      bytes == a.n * z
      sec == IF a.neg = 1 THEN T.len - ((bytes + a.den * T.ss - 1) \div (a.den * T.ss)) ELSE bytes \div (a.den * T.ss)
      r == IF w \in IEC THEN 0 ELSE Hi(0, ((z + T.ss - 1) \div T.ss) \div 2 - 1)
      lo == Clip(T, sec - r) hi == Clip(T, sec + r) IN
  IF a.ok = 0 \/ a.big = 1 \/ (a.neg = 0 /\ 0 < a.n /\ a.n < a.den) THEN [ok |-> FALSE, sec |-> 0, lo |-> 0, hi |-> 0]
  ELSE [ok |-> ~(sec - hi > r \/ lo - sec > r), sec |-> Clip(T, sec), lo |-> lo, hi |-> hi]
(* An end given in a power of two is the place just before it, but for a region of one sector. *)
EndPlace(T, st, a, u) ==
  LET x == Place(T, a, u) IN
  IF UnitOf(a, u) \in IEC /\ x.sec # st.sec THEN [x EXCEPT !.sec = @ - 1, !.lo = @ - 1, !.hi = @ - 1] ELSE x
(* where only the neighbourhood of a place matters, what lies outside is the first or the last sector *)
Hint(T, a, u) == [ok |-> a.ok = 1 /\ ~(a.neg = 0 /\ 0 < a.n /\ a.n < a.den), sec |-> IF a.ok = 1 /\ a.big = 1 THEN (IF a.neg = 1 THEN 0 ELSE T.len - 1) ELSE Place(T, a, u).sec]
-----------------------------------------------------------------------------
Labels == {"aix", "amiga", "atari", "bsd", "dasd", "dvh", "gpt", "loop", "mac", "msdos", "pc98", "sun"}
Plain == {"amiga", "bsd", "gpt", "msdos", "pc98", "sun"}          \* a new one has no partition
Named == {"amiga", "gpt", "mac", "pc98", "dvh"}
Typed == {"msdos", "dvh"}                                         \* mkpart is told the type of partition
FsTypes == {"ext2", "ext3", "ext4", "fat16", "fat32", "ntfs", "linux-swap", "xfs", "btrfs", "hfs", "hfs+", "jfs", "reiserfs", "udf", "nilfs2"}
Real(T) == {x \in T.p : x.t < 4}
Nums(T) == {x.n : x \in Real(T)}
At(T, n) == CHOOSE x \in Real(T) : x.n = n
Bare(x) == <<x.n, x.t, x.s, x.e, x.nm>>                            \* what no flag of another one touches
Overlap(x, s, e) == x.s <= e /\ s <= x.e
(* sectors that a partition may have, for the labels where that is simple *)
Usable(T) == CASE T.lab = "gpt" -> LET a == (16384 + T.ss - 1) \div T.ss IN <<2 + a, T.len - 2 - a>>
               [] T.lab = "msdos" -> <<1, T.len - 1>>
               [] OTHER -> <<0, T.len - 1>>
Simple == {"gpt", "msdos"}
Clear(T, s, e) == /\ s <= e /\ Usable(T)[1] <= s /\ e <= Usable(T)[2]
                  /\ \A x \in Real(T) : ~Overlap(x, s, e)
Max(T) == IF T.lab = "gpt" THEN 128 ELSE 4
Lowest(T) == CHOOSE n \in 1..200 : n \notin Nums(T) /\ \A m \in 1..(n - 1) : m \in Nums(T)
Grain(T) == 1048576 \div T.ss
-----------------------------------------------------------------------------
(* mkpart [type] [name] [file system] start end *)
Words(T, w) ==                                                    \* the words by what they are, or "bad"
  LET k1 == IF T.lab \in Typed THEN 1 ELSE 0
      ty == IF k1 = 1 /\ Len(w) >= 1 THEN w[1].t ELSE "primary"
      nmd == T.lab \in Named /\ (T.lab = "dvh" => ty = "logical")
      k2 == k1 + IF nmd THEN 1 ELSE 0
      fsd == ty # "extended" /\ Len(w) > k2 /\ w[k2 + 1].dg = 0
      k3 == k2 + IF fsd THEN 1 ELSE 0 IN
  [k |-> k3 + 2, ok |-> (nmd /\ T.lab = "gpt" /\ Len(w) > k1 => w[k1 + 1].ascii = 1) /\ Len(w) = k3 + 2 /\ ty \in {"primary", "logical", "extended"} /\ (fsd => w[k2 + 1].t \in FsTypes),
   ty |-> ty, nm |-> IF nmd /\ Len(w) > k1 THEN w[k1 + 1].nm ELSE "", fs |-> IF fsd THEN w[k2 + 1].t ELSE "",
   st |-> IF Len(w) > k3 THEN w[k3 + 1].pos ELSE 0, en |-> IF Len(w) > k3 + 1 THEN w[k3 + 2].pos ELSE 0]
(* words that mkpart has no use for are the next command *)
Excess(T, cmd) == cmd.c = "mkpart" /\ T.lab # "" /\ Len(cmd.w) > Words(T, cmd.w).k
Cut(T, cmd) == <<[cmd EXCEPT !.w = SubSeq(@, 1, Words(T, @).k)], [cmd EXCEPT !.c = "bad"]>>
TypeNo(ty) == CASE ty = "logical" -> 1 [] ty = "extended" -> 2 [] OTHER -> 0
(* what the file system asked for is recorded as *)
FsFlags(lab, ty, fs) == IF lab = "gpt" THEN CASE fs \in {"fat16", "fat32", "ntfs", "udf"} -> {"msftdata"} [] fs = "linux-swap" -> {"swap"} [] OTHER -> {}
                   ELSE IF lab = "msdos" THEN CASE ty = "extended" \/ fs \in {"fat16", "fat32"} -> {"lba"} [] fs = "linux-swap" -> {"swap"} [] OTHER -> {}
                   ELSE {}
FsId(lab, ty, fs) ==
  IF lab = "gpt" THEN CASE fs \in {"fat16", "fat32", "ntfs", "udf"} -> "ebd0a0a2-b9e5-4433-87c0-68b6b72699c7" [] fs = "linux-swap" -> "0657fd6d-a4ab-43c4-84e5-0933c84b4f4f"
                        [] fs \in {"hfs", "hfs+"} -> "48465300-0000-11aa-aa11-00306543ecac" [] OTHER -> "0fc63daf-8483-4772-8e79-3d69d8477de4"
  ELSE IF lab # "msdos" THEN "" ELSE CASE ty = "extended" -> "0f" [] fs = "fat16" -> "0e" [] fs = "fat32" -> "0c" [] fs \in {"ntfs", "udf"} -> "07"
                     [] fs = "linux-swap" -> "82" [] fs \in {"hfs", "hfs+"} -> "af" [] OTHER -> "83"
Knows(T, x, c) == (T.lab = "gpt" => x.fl = FsFlags("gpt", c.ty, c.fs)) /\ (T.lab \in {"gpt", "msdos"} => x.id = FsId(T.lab, c.ty, c.fs))
NoPrimary(T) == T.lab = "msdos" /\ Cardinality({x \in Real(T) : x.t \in {0, 2}}) >= 4
Mkpart(T, w, u) ==
  LET c == Words(T, w)
      st == Place(T, c.st, u) en == EndPlace(T, st, c.en, u) IN
  IF T.lab = "" \/ ~c.ok THEN [can |-> FALSE, must |-> FALSE] ELSE
  IF ~st.ok \/ ~Place(T, c.en, u).ok \/ st.lo > en.hi
     \/ (T.lab = "msdos" /\ c.ty # "logical" /\ NoPrimary(T)) \/ (c.ty = "logical" /\ \A x \in Real(T) : x.t # 2)
     \/ (c.ty = "extended" /\ T.lab = "msdos" /\ \E x \in Real(T) : x.t = 2)
  THEN [can |-> FALSE, must |-> FALSE]
  ELSE IF st.lo = st.hi /\ en.lo = en.hi /\ T.lab \in Simple /\ c.ty # "logical"       \* exactly one place
  THEN [can |-> Clear(T, st.lo, en.lo) /\ Cardinality(Nums(T)) < 128, must |-> Clear(T, st.lo, en.lo) /\ Cardinality(Nums(T)) < 128]
  ELSE [can |-> TRUE, must |-> FALSE]
(* amiga partitions are numbered as they lie on the disk *)
Numbered(T, S) == IF T.lab = "amiga" THEN {[y EXCEPT !.n = 0] : y \in S} ELSE S
Others(T, U, x) == Numbered(T, {y \in Real(U) : y # x}) = Numbered(T, Real(T))
Aligned(T, x) == x.s % Grain(T) = 0 /\ (x.e + 1) % Grain(T) = 0
(* some place of that region is aligned and free *)
MayAlign(T, st, en) ==
  \E a \in (st.lo \div Grain(T))..(st.hi \div Grain(T)), b \in ((en.lo + 1) \div Grain(T))..((en.hi + 1) \div Grain(T)) :
     LET s == a * Grain(T) e == b * Grain(T) - 1 IN
     st.lo <= s /\ s <= st.hi /\ en.lo <= e /\ e <= en.hi /\ Clear(T, s, e)
MkpartDone(T, U, w, u, al) ==
  LET c == Words(T, w)
      st == Place(T, c.st, u) en == EndPlace(T, st, c.en, u)
      new == {x \in Real(U) : Numbered(T, {x}) \cap Numbered(T, Real(T)) = {}} IN
  (IF Cardinality(new) = 1 /\ Others(T, U, CHOOSE x \in new : TRUE) THEN
     LET x == CHOOSE y \in new : TRUE IN
     (IF st.lo <= x.s /\ x.s <= st.hi /\ en.lo <= x.e /\ x.e <= en.hi THEN {} ELSE {"C17.place"})
     \cup (IF x.t = TypeNo(c.ty) /\ (x.nm = c.nm \/ (T.lab = "mac" /\ c.fs = "linux-swap") \/ (T.lab = "pc98" /\ c.nm = "")) THEN {} ELSE {"C17.kind"})
     \cup (IF x.t # 1 /\ T.lab \in {"gpt", "msdos"} => x.n = Lowest(T) THEN {} ELSE {"C17.number"})
     \cup (IF Knows(T, x, c) THEN {} ELSE {"C17.filesystem"})
     \cup (IF al = "optimal" /\ T.lab \in Simple /\ c.ty # "logical" /\ MayAlign(T, st, en) => Aligned(T, x) THEN {} ELSE {"C17.aligned"})
   ELSE {"C17.mkpart"})
-----------------------------------------------------------------------------
(* the other commands that change the table *)
Exists(T, w) == Len(w) >= 1 /\ w[1].num >= 0 /\ w[1].num \in Nums(T)
Renumber(T, n) == T.lab \in {"msdos", "dvh"} /\ At(T, n).t = 1
RmTo(T, n) ==
  LET x == At(T, n)
      left == {y \in Real(T) : y # x /\ ~(x.t = 2 /\ y.t = 1)} IN
  IF T.lab = "msdos" /\ x.t = 1 THEN {[y EXCEPT !.n = IF y.t = 1 /\ y.n > n THEN @ - 1 ELSE @] : y \in left} ELSE left
GptFlags == {"hidden", "legacy_boot", "no_automount"}             \* those that touch nothing else
TypeFlags == {"boot", "esp", "swap", "raid", "lvm", "bios_grub", "prep", "irst", "msftres", "msftdata", "diag", "atvrecv", "hp-service", "chromeos_kernel", "bls_boot", "linux-home"}
Flags(T) == CASE T.lab = "gpt" -> GptFlags \cup TypeFlags [] T.lab = "msdos" -> {"boot"} [] OTHER -> {}
OnWords == {"on", "off"}
IsHex(x) == x \in {"1","2","3","4","5","6","7","8","9","a","b","c","d","e","f"}
DiskFlag(w) == IF Len(w) = 0 THEN "pmbr_boot" ELSE w[1].t
(* whether the state that set is given, or the other one if it is given none, is on *)
Wanted(w, k, on) == IF Len(w) < k THEN ~on ELSE w[k].t = "on"
Can(T, cmd, u) ==                                                 \* <<can succeed, must succeed>>
  LET w == cmd.w IN
  CASE cmd.c = "bad" -> <<FALSE, FALSE>>
    [] cmd.c = "mklabel" -> IF Len(w) = 1 /\ w[1].t \in Labels THEN <<TRUE, w[1].t \in Plain \cup {"mac", "dvh", "loop"}>> ELSE <<FALSE, FALSE>>
    [] cmd.c = "unit" -> LET g == Len(w) = 1 => w[1].unit # "" IN <<g, g>>
    [] cmd.c \in {"help", "version"} -> <<TRUE, TRUE>>
    [] cmd.c = "print" -> LET g == T.lab # "" /\ (cmd.num = 1 => Exists(T, w)) IN <<g, g>>
    [] T.lab = "" -> <<FALSE, FALSE>>
    [] cmd.c = "mkpart" -> LET m == Mkpart(T, w, u) IN <<m.can, m.must>>
    [] cmd.c = "rm" -> IF ~Exists(T, w) THEN <<FALSE, FALSE>> ELSE <<TRUE, T.lab \in {"gpt", "msdos", "bsd", "sun", "amiga", "pc98"}>>
    [] cmd.c = "name" -> IF T.lab \notin Named \/ ~Exists(T, w) \/ (T.lab = "dvh" /\ At(T, w[1].num).t # 1) THEN <<FALSE, FALSE>> ELSE LET x == At(T, w[1].num) IN
           IF Len(w) > 1 /\ w[2].ascii = 0 /\ T.lab = "gpt" THEN <<FALSE, FALSE>>     \* not in this character set
           ELSE IF T.lab = "mac" /\ x.fl \cap {"root", "swap"} # {} THEN <<FALSE, FALSE>>  \* that is what its name is for
           ELSE <<TRUE, T.lab \in {"gpt", "amiga", "mac"}>>
    [] cmd.c \in {"set", "toggle"} ->
         IF ~Exists(T, w) THEN <<FALSE, FALSE>>
         ELSE IF Len(w) < 2 THEN <<T.lab \notin {"gpt", "msdos"}, FALSE>>          \* where there is only one flag it is that one
         ELSE IF cmd.c = "set" /\ Len(w) > 2 /\ w[3].t \notin OnWords THEN <<FALSE, FALSE>>
         ELSE IF w[2].t \in Flags(T) THEN <<TRUE, TRUE>> ELSE <<T.lab # "gpt", FALSE>>
    [] cmd.c \in {"disk_set", "disk_toggle"} ->
         IF cmd.c = "disk_set" /\ Len(w) > 1 /\ w[2].t \notin OnWords THEN <<FALSE, FALSE>>
         ELSE IF T.lab = "gpt" THEN (IF DiskFlag(w) = "pmbr_boot" THEN <<TRUE, TRUE>> ELSE <<FALSE, FALSE>>) ELSE <<TRUE, FALSE>>
    [] cmd.c = "type" ->
         IF ~Exists(T, w) \/ T.lab \notin {"gpt", "msdos"} THEN <<FALSE, FALSE>>
         ELSE IF Len(w) = 1 THEN <<TRUE, FALSE>>
         ELSE IF T.lab = "gpt" THEN LET g == w[2].uuid # "" IN <<g, g>>
         ELSE LET g == w[2].id # "" /\ w[2].id # "00" IN <<g, g /\ w[2].id \notin {"05", "0f", "85"} /\ At(T, w[1].num).t # 2>>
    [] cmd.c = "resizepart" ->
         IF ~Exists(T, w) THEN <<FALSE, FALSE>> ELSE IF Len(w) = 1 THEN <<TRUE, T.lab \in Simple>> ELSE
         LET x == At(T, w[1].num)
             st == [ok |-> TRUE, sec |-> x.s, lo |-> x.s, hi |-> x.s]
             en == EndPlace(T, st, w[2].pos, u) IN
         IF ~Place(T, w[2].pos, u).ok \/ en.hi < x.s THEN <<FALSE, FALSE>>
         ELSE IF en.lo = en.hi /\ T.lab \in Simple /\ x.t = 0 THEN
           LET g == en.lo >= x.e /\ en.lo <= Usable(T)[2] /\ \A y \in Real(T) : y = x \/ ~Overlap(y, x.s, en.lo) IN <<g, g>>
         ELSE <<en.hi >= x.e, FALSE>>
    [] cmd.c = "align-check" ->
         IF Len(w) < 2 \/ w[1].t \notin {"optimal", "minimal", "opt", "min"} \/ w[2].num \notin Nums(T) THEN <<FALSE, FALSE>>
         ELSE IF w[1].t \in {"optimal", "opt"} THEN LET g == At(T, w[2].num).s % Grain(T) = 0 IN <<g, g>> ELSE <<TRUE, FALSE>>
    [] cmd.c = "rescue" ->
         IF Len(w) < 2 THEN <<FALSE, FALSE>> ELSE LET g == Hint(T, w[1].pos, u).ok /\ Hint(T, w[2].pos, u).ok IN <<g, g>>
    [] OTHER -> <<FALSE, FALSE>>
Quiet == {"print", "unit", "help", "version", "align-check"}
OneOther(T, U, n) == {Bare(y) : y \in {z \in Real(U) : z.n # n}} = {Bare(y) : y \in {z \in Real(T) : z.n # n}}
NoFs(S) == {[x EXCEPT !.fs = ""] : x \in S}
Same(T, U) == T.lab = U.lab /\ NoFs(Real(T)) = NoFs(Real(U)) /\ T.d = U.d
(* words that may be left out: what is there stays, or is inverted *)
Defaults(cmd) == \/ cmd.c \in {"name", "type", "resizepart"} /\ Len(cmd.w) = 1
(* what is wrong with U as what the command made of T *)
Done(T, U, cmd, u) ==
  LET w == cmd.w
      bad(b, c) == IF b THEN {} ELSE {c} IN
  CASE cmd.c \in Quiet -> bad(Same(T, U), "C17.quiet")
    [] cmd.c = "mklabel" -> bad(U.lab = w[1].t, "C17.label") \cup bad(w[1].t \in Plain => Real(U) = {} /\ U.d = {}, "C17.empty")
    [] cmd.c = "rm" /\ T.lab = "loop" -> {}                    \* its partition is the device
    [] U.lab # T.lab -> {"C17.relabelled"}
    [] Defaults(cmd) -> bad(Same(T, U), "C17.default")
    [] cmd.c \in {"set", "toggle"} /\ Len(w) = 1 -> bad(OneOther(T, U, w[1].num) /\ w[1].num \in Nums(U) /\ Bare(At(U, w[1].num)) = Bare(At(T, w[1].num)), "C17.others")
    [] cmd.c = "mkpart" -> MkpartDone(T, U, w, u, cmd.al) \cup bad(T.d = U.d, "C17.disk")
    [] cmd.c = "rm" -> bad(Numbered(T, Real(U)) = Numbered(T, RmTo(T, w[1].num)) /\ T.d = U.d, "C17.rm")   
    [] cmd.c = "name" -> bad(Real(U) = {IF y.n = w[1].num THEN [y EXCEPT !.nm = w[2].nm] ELSE y : y \in Real(T)} /\ T.d = U.d, "C17.name")
    [] cmd.c \in {"set", "toggle"} ->
         LET x == At(T, w[1].num)
             want == IF cmd.c = "set" THEN Wanted(w, 3, w[2].t \in x.fl) ELSE w[2].t \notin x.fl IN
         IF w[1].num \notin Nums(U) THEN {"C17.set"} ELSE
         LET y == At(U, w[1].num) IN       \* (mac knows root and swap by their names)
         bad(Bare(x) = Bare(IF T.lab = "mac" THEN [y EXCEPT !.nm = x.nm] ELSE y), "C17.set") \cup bad(((w[2].t \in y.fl) <=> want) \/ (~want /\ x.fs # "") \/ T.lab \in {"bsd", "dvh"}, "C17.flag")
         \cup (IF T.lab = "gpt" THEN bad({z \in Real(U) : z.n # w[1].num} = {z \in Real(T) : z.n # w[1].num}, "C17.others")
               ELSE bad(OneOther(T, U, w[1].num), "C17.others"))
         \cup (IF T.lab = "gpt" /\ w[2].t \in GptFlags THEN bad(y = [x EXCEPT !.fl = IF want THEN @ \cup {w[2].t} ELSE @ \ {w[2].t}], "C17.set") ELSE {})
         \cup bad(T.d = U.d, "C17.disk")
    [] cmd.c \in {"disk_set", "disk_toggle"} ->
         LET f == DiskFlag(w) want == IF cmd.c = "disk_set" THEN Wanted(w, 2, f \in T.d) ELSE f \notin T.d IN
         bad(Real(T) = Real(U) /\ (f # "cylinder_alignment" /\ (Len(w) > 0 \/ T.lab = "gpt") => U.d = IF want THEN T.d \cup {f} ELSE T.d \ {f}), "C17.diskflag")
    [] cmd.c = "type" ->
         bad(T.d = U.d /\ OneOther(T, U, w[1].num) /\ w[1].num \in Nums(U) /\ Bare(At(U, w[1].num)) = Bare(At(T, w[1].num))
             /\ {z \in Real(U) : z.n # w[1].num} = {z \in Real(T) : z.n # w[1].num}, "C17.type")
         \cup bad(w[1].num \in Nums(U) => At(U, w[1].num).id = IF T.lab = "gpt" THEN w[2].uuid ELSE w[2].id, "C17.typeid")
    [] cmd.c = "resizepart" ->
         LET x == At(T, w[1].num)
             st == [ok |-> TRUE, sec |-> x.s, lo |-> x.s, hi |-> x.s]
             en == EndPlace(T, st, w[2].pos, u) IN
         IF w[1].num \notin Nums(U) THEN {"C17.resize"} ELSE
         LET y == At(U, w[1].num) IN
         bad([y EXCEPT !.e = 0, !.fs = ""] = [x EXCEPT !.e = 0, !.fs = ""] /\ {z \in Real(U) : z.n # x.n} = {z \in Real(T) : z.n # x.n} /\ T.d = U.d, "C17.resize")
         \cup bad(en.lo <= y.e /\ y.e <= en.hi, "C17.end") \cup bad(y.e >= x.e, "C17.shrunk")
    [] OTHER -> {}
(* rescue start end: the first file system that starts within 16 MB of start and lies in free space
   before the end of what is within 16 MB of end becomes a partition (or, where there is none, nothing
   changes).  L: the file systems that are there, [s, n, fs].                                       *)
Fuzz(T) == 16 * (1000000 \div T.ss)
Near(T, x) == [lo |-> Hi(x - Fuzz(T), 0), hi |-> Hi(x - Fuzz(T), 0) + Lo(2 * Fuzz(T), T.len - (x - Fuzz(T))) - 1]
Spots(T, L, st, en) ==
  IF NoPrimary(T) THEN {} ELSE
  {x \in L : Near(T, st).lo <= x.s /\ x.s <= Near(T, st).hi /\ x.s + x.n - 1 <= Near(T, en).hi /\ Clear(T, x.s, x.s + x.n - 1)}
(* where a position is not given in sectors the last sectors of a range are left open *)
Sharp(T, L, st, en) == \A d \in {-2, 2}, f \in {-2, 2} : Spots(T, L, st + d, en + f) = Spots(T, L, st, en)
RescueDone(T, U, w, u, L) ==
  LET st == Hint(T, w[1].pos, u).sec en == Hint(T, w[2].pos, u).sec
      S == Spots(T, L, st, en)
      first == CHOOSE x \in S : \A y \in S : x.s <= y.s
      new == {y \in Real(U) : Numbered(T, {y}) \cap Numbered(T, Real(T)) = {}} IN
  IF T.d # U.d THEN {"C17.disk"}
  ELSE IF T.lab \notin Simple \/ (\E x \in Real(T) : x.t = 2)
     THEN IF Same(T, U) \/ (Cardinality(new) = 1 /\ \A y \in new : Others(T, U, y) /\ (\E x \in L : y.s = x.s /\ y.e = x.s + x.n - 1)) THEN {} ELSE {"C17.rescued"}
  ELSE IF UnitOf(w[1].pos, u) # "s" \/ UnitOf(w[2].pos, u) # "s" => Sharp(T, L, st, en)
     THEN IF S = {} THEN (IF Same(T, U) THEN {} ELSE {"C17.rescued"})
     ELSE IF Cardinality(new) # 1 THEN {"C17.lost"}
     ELSE LET y == CHOOSE z \in new : TRUE c == [ty |-> "primary", fs |-> first.fs] IN
       IF Others(T, U, y) /\ y = [n |-> Lowest(T), t |-> 0, s |-> first.s, e |-> first.s + first.n - 1, nm |-> "", fs |-> first.fs,
                                  id |-> FsId(T.lab, "primary", first.fs), fl |-> FsFlags(T.lab, "primary", first.fs)] THEN {} ELSE {"C17.rescued"}
  ELSE {}
UnitAfter(cmd, u) == IF cmd.c = "unit" /\ Len(cmd.w) = 1 /\ cmd.w[1].unit # "" THEN cmd.w[1].unit ELSE u
-----------------------------------------------------------------------------
(* Several commands in one run: those whose outcome is certain, carried out here. *)
Mk(T, c, st, en) == [n |-> Lowest(T), t |-> TypeNo(c.ty), s |-> st.lo, e |-> en.lo, nm |-> c.nm, fs |-> "", id |-> FsId(T.lab, c.ty, c.fs), fl |-> FsFlags(T.lab, c.ty, c.fs)]
Certain(T, cmd, u) ==
  LET k == Can(T, cmd, u) IN
  \/ k[1] = k[2] /\ \/ ~k[1]
                    \/ cmd.c \in Quiet \cup {"name", "disk_set", "disk_toggle"}
                    \/ cmd.c = "mklabel" /\ cmd.w[1].t \in Plain
                    \/ cmd.c = "rm" /\ T.lab \in Simple
                    \/ cmd.c \in {"set", "toggle"} /\ T.lab = "gpt" /\ Len(cmd.w) > 1 /\ cmd.w[2].t \in GptFlags
                    \/ cmd.c = "mkpart" /\ T.lab \in Simple
                    \/ cmd.c = "resizepart" /\ T.lab \in Simple
At1(T, n, y) == [T EXCEPT !.p = {z \in Real(T) : z.n # n} \cup {y}, !.fk = FALSE]
Do(T, cmd, u) ==
  LET w == cmd.w
      x == At(T, w[1].num) IN
  CASE cmd.c \in Quiet -> T
    [] cmd.c = "mklabel" -> [T EXCEPT !.lab = w[1].t, !.p = {}, !.d = {}, !.fk = FALSE]
    [] cmd.c = "mkpart" -> LET c == Words(T, w) st == Place(T, c.st, u) IN
         [T EXCEPT !.p = Real(T) \cup {Mk(T, c, st, EndPlace(T, st, c.en, u))}, !.fk = FALSE]
    [] cmd.c = "rm" -> [T EXCEPT !.p = RmTo(T, w[1].num), !.fk = FALSE]
    [] Defaults(cmd) -> T
    [] cmd.c = "name" -> At1(T, x.n, [x EXCEPT !.nm = w[2].nm])
    [] cmd.c = "set" -> At1(T, x.n, [x EXCEPT !.fl = IF Wanted(w, 3, w[2].t \in @) THEN @ \cup {w[2].t} ELSE @ \ {w[2].t}])
    [] cmd.c = "toggle" -> At1(T, x.n, [x EXCEPT !.fl = IF w[2].t \notin @ THEN @ \cup {w[2].t} ELSE @ \ {w[2].t}])
    [] cmd.c = "disk_set" -> [T EXCEPT !.d = IF Wanted(w, 2, DiskFlag(w) \in @) THEN @ \cup {DiskFlag(w)} ELSE @ \ {DiskFlag(w)}]
    [] cmd.c = "disk_toggle" -> [T EXCEPT !.d = IF DiskFlag(w) \notin @ THEN @ \cup {DiskFlag(w)} ELSE @ \ {DiskFlag(w)}]
    [] cmd.c = "resizepart" -> At1(T, x.n, [x EXCEPT !.e = EndPlace(T, [ok |-> TRUE, sec |-> x.s, lo |-> x.s, hi |-> x.s], w[2].pos, u).lo])
    [] OTHER -> T
-----------------------------------------------------------------------------
(* What print shows.  A number shown is [m, den, u]: m/den units. *)
Abs(x) == IF x < 0 THEN -x ELSE x
Compact(b) == IF b >= 10000000 THEN "mb" ELSE IF b >= 10000 THEN "kb" ELSE "b"
Shown(T, v, b, u) ==
  LET w == IF u = "compact" THEN Compact(b) ELSE u
      z == Size(T, w) IN
  /\ v.u = w
  /\ IF w \in {"s", "b"} /\ u # "compact" THEN v.den = 1 /\ v.m = b \div z
     ELSE LET left == b - (v.m \div v.den) * z IN      \* rounded to the digits that are shown
          v.m \div v.den <= 2000000000 \div z /\ Abs(left) <= z + 1 /\ 2 * Abs(left * v.den - (v.m % v.den) * z) <= z + z \div 100 + 2 * v.den
RowOf(T, r, x, u, mode) ==
  /\ Shown(T, r.s, x.s * T.ss, u) /\ Shown(T, r.e, (x.e + 1) * T.ss - 1, u) /\ Shown(T, r.z, (x.e - x.s + 1) * T.ss, u)
  /\ r.free = (IF x.t >= 4 THEN 1 ELSE 0)
  /\ x.t < 4 => /\ r.n = x.n /\ Range(r.fl) = x.fl
                /\ (T.lab \in Named => r.nm = x.nm)
                /\ (T.fk => r.fs = x.fs)
                /\ (mode = "json" \/ (mode = "human" /\ T.lab \in Typed)) => r.t = x.t
                /\ (mode = "json" /\ T.lab \in Simple) => r.id = x.id
PrintOK(T, pr, free, u) ==
  LET due == IF free THEN T.p ELSE Real(T) IN
  (IF pr.bad = 0 THEN {} ELSE {"C17.garbled"})
  \cup (IF pr.lab = T.lab /\ pr.ss = T.ss /\ Range(pr.d) = T.d /\ Shown(T, pr.len, T.len * T.ss, u) THEN {} ELSE {"C17.head"})
  \cup (IF free /\ ~T.fk THEN {}
        ELSE IF Len(pr.rows) # Cardinality(due) THEN {"C17.rows"}
        ELSE IF /\ \A x \in due : \E k \in DOMAIN pr.rows : RowOf(T, pr.rows[k], x, u, pr.mode)
                /\ \A k \in DOMAIN pr.rows : \E x \in due : RowOf(T, pr.rows[k], x, u, pr.mode) THEN {} ELSE {"C17.shown"})
=============================================================================
