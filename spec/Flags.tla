-------------------------------- MODULE Flags --------------------------------
(* What the flags, types and names of a partition mean on each label type.
   An attribute record a: fl (set of flags that are on), fs (file system type, "-" if none),
   nm (name, hexadecimal), ti (msdos type id), tu (type GUID).  t is the partition's kind:
   0 primary, 1 logical, 2 extended.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

LOCAL Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
SwapFs == {"linux-swap(v0)", "linux-swap(v1)", "linux-swap", "linux-swap(old)", "linux-swap(new)", "swsusp"}
IsSwap(fs) == Starts(fs, "linux-swap")

--------------------------------------------------------------------------------
(* msdos: one type id, and the boot mark *)
DosType == [ bls_boot |-> {234}, diag |-> {18, 222}, esp |-> {239}, irst |-> {132}, lvm |-> {142, 254},
             msftres |-> {39}, palo |-> {240}, prep |-> {65}, raid |-> {253}, swap |-> {130} ]
DosTypeId == [ bls_boot |-> 234, diag |-> 18, esp |-> 239, irst |-> 132, lvm |-> 142,
               msftres |-> 39, palo |-> 240, prep |-> 65, raid |-> 253, swap |-> 130 ]
DosTypeFlags == DOMAIN DosType
DosKeep == {15, 5, 18, 39, 142, 130, 253, 240, 65, 132, 239, 234}   \* not overridden by a file system
DosHidden == {17, 22, 30, 20, 27, 28, 23}
DosHideable == {1, 6, 14, 4, 11, 12, 7} \cup DosHidden
DosLbaOf == [ i \in {6, 11, 5, 22, 27} |-> CASE i = 6 -> 14 [] i = 11 -> 12 [] i = 5 -> 15 [] i = 22 -> 30 [] i = 27 -> 28 ]
DosNoLbaOf == [ i \in {14, 12, 15, 30, 28} |-> CASE i = 14 -> 6 [] i = 12 -> 11 [] i = 15 -> 5 [] i = 30 -> 22 [] i = 28 -> 27 ]
DosLba == DOMAIN DosNoLbaOf
DosHasLba == DosLba \cup DOMAIN DosLbaOf
DosExtIds == {5, 15, 133}

DosFlagsOf(t, ti) ==
  (IF t = 2 THEN {} ELSE {f \in DosTypeFlags : ti \in DosType[f]})
  \cup (IF ti \in DosHidden THEN {"hidden"} ELSE {}) \cup (IF ti \in DosLba THEN {"lba"} ELSE {})
DosAvail(t, ti) ==
  {"boot"} \cup (IF t = 2 THEN {} ELSE DosTypeFlags)
  \cup (IF ti \in DosHideable THEN {"hidden"} ELSE {}) \cup (IF ti \in DosHasLba THEN {"lba"} ELSE {})
DosFsId(t, fs) ==
  IF t = 2 THEN 15
  ELSE CASE fs = "fat16" -> 6 [] fs = "fat32" -> 11 [] fs \in {"ntfs", "hpfs", "udf"} -> 7
         [] fs \in {"hfs", "hfs+"} -> 175 [] fs = "sun-ufs" -> 191 [] IsSwap(fs) -> 130 [] OTHER -> 131

--------------------------------------------------------------------------------
(* gpt: one type GUID, and three independent bits *)
GptType == [ atvrecv |-> "5265636f766511aaaa1100306543ecac", bios_grub |-> "2168614864496e6f744e656564454649",
  bls_boot |-> "bc13c2ff59e64262a352b275fd6f7172", boot |-> "c12a7328f81f11d2ba4b00a0c93ec93b",
  chromeos_kernel |-> "fe3a2a5d4f3241a7b725accc3285a309", diag |-> "de94bba406d14d40a16abfd50179d6ac",
  esp |-> "c12a7328f81f11d2ba4b00a0c93ec93b", irst |-> "d3bfe2de3daf11dfba40e3a556d89593",
  lvm |-> "e6d6d379f50744c2a23c238f2a3df928", msftdata |-> "ebd0a0a2b9e5443387c068b6b72699c7",
  msftres |-> "e3c9e3160b5c4db8817df92df00215ae", prep |-> "9e1a2d38c6124316aa268b49521e5a8b",
  raid |-> "a19d880f05fc4d3ba006743f0f84911e", swap |-> "0657fd6da4ab43c484e50933c84b4f4f" ]
  @@ ("hp-service" :> "e2a1e72832e311d6a6827b03a0000000") @@ ("linux-home" :> "933ac7e12eb44f13b8440e14e2aef915")
GptTypeFlags == DOMAIN GptType
GptBits == {"hidden", "legacy_boot", "no_automount"}
GptLinux == "0fc63daf848347728e793d69d8477de4"
GptHfs == "48465300000011aaaa1100306543ecac"
GptKeep == {GptType[f] : f \in GptTypeFlags \ {"linux-home"}}
GptFsType(fs) == IF Starts(fs, "fat") \/ fs \in {"udf", "ntfs"} THEN GptType["msftdata"]
                 ELSE IF Starts(fs, "hfs") THEN GptHfs
                 ELSE IF IsSwap(fs) THEN GptType["swap"] ELSE GptLinux
GptFlagsOf(tu) == {f \in GptTypeFlags : GptType[f] = tu}

--------------------------------------------------------------------------------
Avail(lab, t, ti) ==
  CASE lab = "msdos" -> DosAvail(t, ti)
    [] lab = "gpt" -> GptTypeFlags \cup GptBits
    [] lab = "sun" -> {"boot", "root", "lvm", "raid"}
    [] lab = "mac" -> {"boot", "root", "swap", "lvm", "raid"}
    [] lab = "dvh" -> {"root", "swap", "boot"}
    [] lab = "bsd" -> {"boot", "raid", "lvm"}
    [] lab = "amiga" -> {"boot", "hidden", "raid", "lvm"}
    [] lab = "pc98" -> {"boot", "hidden"}
    [] lab = "atari" -> {"boot"}
    [] OTHER -> {}

\* what the state's types say about its flags
Meaning(lab, t, a) ==
  CASE lab = "msdos" -> a.fl \ {"boot"} = DosFlagsOf(t, a.ti)
    [] lab = "gpt" -> a.fl \ GptBits = GptFlagsOf(a.tu)
    [] lab \in {"sun"} -> Cardinality(a.fl) <= 1
    [] lab = "mac" -> Cardinality(a.fl \cap {"boot", "lvm", "raid"}) <= 1 /\ Cardinality(a.fl \cap {"root", "swap"}) <= 1
    [] lab = "bsd" -> Cardinality(a.fl \cap {"lvm", "raid"}) <= 1
    [] OTHER -> TRUE
\* at most one partition of the table has it
PerDisk(lab) == CASE lab = "msdos" -> {"boot"} [] lab = "dvh" -> {"root", "swap", "boot"} [] OTHER -> {}

WithId(a, t, ti) == [a EXCEPT !.ti = ti, !.fl = (a.fl \cap {"boot"}) \cup DosFlagsOf(t, ti)]
WithGuid(a, tu) == [a EXCEPT !.tu = tu, !.fl = (a.fl \cap GptBits) \cup GptFlagsOf(tu)]

\* the file system type is set
SetFs(lab, t, a, fs) ==
  LET b == [a EXCEPT !.fs = fs] IN
  CASE lab = "msdos" -> IF a.ti \in DosKeep THEN b ELSE WithId(b, t, DosFsId(t, fs))
    [] lab = "gpt" -> IF a.tu \in GptKeep THEN b ELSE WithGuid(b, GptFsType(fs))
    [] lab = "mac" -> IF IsSwap(fs) THEN [b EXCEPT !.fl = (@ \ {"root"}) \cup {"swap"}, !.nm = "73776170"] ELSE b
    [] lab = "pc98" -> IF fs \in {"-", "fat16", "fat32", "ntfs"} \/ Starts(fs, "ufs") THEN b
                       ELSE [b EXCEPT !.fl = @ \cup {"boot"}]   \* such partitions are always marked boot
    [] OTHER -> b

\* a flag that is available is switched; NotHere: the kind of partition can't have it
NotHere(lab, t, f, v) == lab = "dvh" /\ v = 1 /\ (IF f = "boot" THEN t # 1 ELSE t # 0)
Untitled == "756e7469746c6564"
SetFlag(lab, t, a, f, v) ==
  LET on == f \in a.fl
      free == [a EXCEPT !.fl = IF v = 1 THEN @ \cup {f} ELSE @ \ {f}]
      group(G) == [a EXCEPT !.fl = IF v = 1 THEN (@ \ G) \cup {f} ELSE @ \ {f}]
  IN CASE lab = "msdos" ->
            (CASE f \in DosTypeFlags -> IF v = 1 THEN WithId(a, t, DosTypeId[f])
                                        ELSE IF on THEN WithId(a, t, DosFsId(t, a.fs)) ELSE a
               [] f = "hidden" -> IF (v = 1) = on THEN a ELSE WithId(a, t, IF v = 1 THEN a.ti + 16 ELSE a.ti - 16)
               [] f = "lba" -> IF (v = 1) = on THEN a ELSE WithId(a, t, IF v = 1 THEN DosLbaOf[a.ti] ELSE DosNoLbaOf[a.ti])
               [] OTHER -> free)
       [] lab = "gpt" -> IF f \in GptBits THEN free
                         ELSE IF v = 1 THEN WithGuid(a, GptType[f])
                         ELSE IF on THEN WithGuid(a, GptFsType(a.fs)) ELSE a
       [] lab = "sun" -> group({"boot", "root", "lvm", "raid"})
       [] lab = "bsd" -> IF f = "boot" THEN free ELSE group({"lvm", "raid"})
       [] lab = "mac" ->
            IF f \in {"root", "swap"}
            THEN [group({"root", "swap"}) EXCEPT !.nm = IF v = 1 THEN (IF f = "root" THEN "726f6f74" ELSE "73776170")
                                                        ELSE IF on THEN Untitled ELSE @]
            ELSE IF v = 0 /\ ~ on THEN a ELSE SetFs(lab, t, group({"boot", "lvm", "raid"}), a.fs)
       [] lab = "pc98" -> SetFs(lab, t, free, a.fs)
       [] OTHER -> free

--------------------------------------------------------------------------------
Cut(h, n) == IF Len(h) > 2 * n THEN SubSeq(h, 1, 2 * n) ELSE h
RECURSIVE Trim(_)
Trim(h) == IF Len(h) >= 2 /\ SubSeq(h, Len(h) - 1, Len(h)) = "20" THEN Trim(SubSeq(h, 1, Len(h) - 2)) ELSE h
HasNames(lab) == lab \in {"gpt", "mac", "dvh", "amiga", "pc98"}
\* ans: the user insists on renaming a mac root or swap partition
\* partitions that have no name of their own
Unnamed(lab, t, a, ans) == (lab = "dvh" /\ t # 1) \/ (lab = "mac" /\ a.fl \cap {"root", "swap"} # {} /\ ans # "i")
SetName(lab, t, a, h, ans) ==
  CASE lab = "gpt" -> [a EXCEPT !.nm = Cut(h, 36)]
    [] lab = "amiga" -> [a EXCEPT !.nm = Cut(h, 31)]
    [] lab = "pc98" -> [a EXCEPT !.nm = Trim(Cut(h, 16))]
    [] lab = "dvh" -> IF t = 1 THEN [a EXCEPT !.nm = Cut(h, 8)] ELSE a
    [] lab = "mac" -> IF a.fl \cap {"root", "swap"} # {}
                      THEN IF ans = "i" THEN [a EXCEPT !.nm = Trim(Cut(h, 31)), !.fl = @ \ {"root", "swap"}] ELSE a
                      ELSE [a EXCEPT !.nm = Trim(Cut(h, 31))]
    [] OTHER -> a
===============================================================================
