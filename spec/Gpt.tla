-------------------------------- MODULE Gpt --------------------------------
(* The life of a GPT on a device: commits that may be cut off after any sector write, damage
   to either copy, reading and repair.  Order is the order in which a commit writes: sector
   names ph (primary header), bh (backup header), p1.. (primary array), b1.. (backup array).
   A version names the contents of a table; 0 is garbage.  In the worst case every sector of
   the array differs between two versions.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NA,          \* sectors of an entry array
          Order,       \* the order of a commit's writes
          MaxVer, MaxDamage
VARIABLES ph, bh,      \* headers: [v: version whose array it checksums, ok]
          pa, ba,      \* arrays: 1..NA -> version
          old, new, pc,  \* a commit of version new over old has done pc writes; pc = 0: none under way
          dam,         \* damage done since both copies were last written
          got          \* what the last reader saw
vars == <<ph, bh, pa, ba, old, new, pc, dam, got>>

\* the order libparted writes in, and one that would not do
LibOrder == <<<<"ph">>>> \o [k \in 1 .. NA |-> <<"p", k>>] \o <<<<"bh">>>> \o [k \in 1 .. NA |-> <<"b", k>>]
BadOrder == <<<<"ph">>, <<"bh">>>> \o [k \in 1 .. NA |-> <<"p", k>>] \o [k \in 1 .. NA |-> <<"b", k>>]

HV(hd, ar) == hd.ok /\ hd.v # 0 /\ \A i \in 1 .. NA : ar[i] = hd.v
Read == IF HV(ph, pa) THEN ph.v ELSE IF HV(bh, ba) THEN bh.v ELSE 0

Init == /\ ph = [v |-> 1, ok |-> TRUE] /\ bh = ph
        /\ pa = [i \in 1 .. NA |-> 1] /\ ba = pa
        /\ old = 1 /\ new = 1 /\ pc = 0 /\ dam = {} /\ got = 1

Good(v) == [v |-> v, ok |-> TRUE]
Put(s) ==
  /\ ph' = IF s = <<"ph">> THEN Good(new') ELSE ph
  /\ bh' = IF s = <<"bh">> THEN Good(new') ELSE bh
  /\ pa' = IF s[1] = "p" THEN [pa EXCEPT ![s[2]] = new'] ELSE pa
  /\ ba' = IF s[1] = "b" THEN [ba EXCEPT ![s[2]] = new'] ELSE ba

Start == /\ pc = 0 /\ new < MaxVer /\ dam = {} /\ old' = old /\ new' = new + 1
         /\ Put(Order[1]) /\ pc' = 1 /\ UNCHANGED <<dam, got>>
Write == /\ pc > 0 /\ pc < Len(Order) /\ new' = new
         /\ Put(Order[pc + 1]) /\ pc' = pc + 1 /\ UNCHANGED <<old, dam, got>>
Done == /\ pc = Len(Order) /\ pc' = 0 /\ old' = new /\ UNCHANGED <<ph, bh, pa, ba, new, dam, got>>
\* power fails; the disk is read again, and what was read is then written back to both copies
Crash == /\ pc > 0 /\ got' = Read /\ old' = Read /\ new' = (IF Read = 0 THEN new ELSE new) /\ pc' = 0
         /\ IF Read = 0 THEN UNCHANGED <<ph, bh, pa, ba, dam>>
            ELSE /\ ph' = Good(Read) /\ bh' = Good(Read) /\ dam' = {}
                 /\ pa' = [i \in 1 .. NA |-> Read] /\ ba' = pa'
Damage == /\ pc = 0 /\ Cardinality(dam) < MaxDamage
          /\ \E c \in {"p", "b"} : \/ /\ dam' = dam \cup {<<c, 0>>}
                                      /\ IF c = "p" THEN ph' = [ph EXCEPT !.ok = FALSE] /\ UNCHANGED <<bh, pa, ba>>
                                         ELSE bh' = [bh EXCEPT !.ok = FALSE] /\ UNCHANGED <<ph, pa, ba>>
                                   \/ \E i \in 1 .. NA :
                                      /\ dam' = dam \cup {<<c, i>>}
                                      /\ IF c = "p" THEN pa' = [pa EXCEPT ![i] = 0] /\ UNCHANGED <<ph, bh, ba>>
                                         ELSE ba' = [ba EXCEPT ![i] = 0] /\ UNCHANGED <<ph, bh, pa>>
          /\ UNCHANGED <<old, new, pc, got>>
Repair == /\ pc = 0 /\ dam # {} /\ Read # 0 /\ got' = Read
          /\ ph' = Good(Read) /\ bh' = Good(Read) /\ pa' = [i \in 1 .. NA |-> Read] /\ ba' = pa' /\ dam' = {}
          /\ UNCHANGED <<old, new, pc>>
Next == Start \/ Write \/ Done \/ Crash \/ Damage \/ Repair
Spec == Init /\ [][Next]_vars

\* a commit that was cut off leaves the old or the new table, whole
CrashSafe == pc > 0 => Read \in {old, new}
\* once the new table is what a reader gets, it stays so
Monotone == [][pc > 0 /\ pc' > 0 /\ Read = new => Read' = new]_vars
\* a finished commit is on the device, in both copies
Finished == pc = Len(Order) => Read = new /\ HV(bh, ba) /\ bh.v = new
\* damage to one copy only never loses the table
OneCopy == (pc = 0 /\ Cardinality({x[1] : x \in dam}) <= 1) => Read = old
\* never a table that was not committed
NoInvention == Read \in 0 .. new
=============================================================================
