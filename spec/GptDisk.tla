------------------------------ MODULE GptDisk ------------------------------
(* What a GUID partition table on a device means (UEFI specification): when a copy of it
   is valid, and which table a reader gets from two copies that may both be damaged.
   A decoded device d has
     len, ss, pm (a protective MBR is there)
     P, A, E: the header at sector 1, at the sector P names as its alternate, at the last one,
       in (inside the device), sig, rev, szok, crc, my, alt, fu, lu, el, cnt, es, acrc (the
       checksum of the entry array holds), dg (disk GUID), ents (the entries in use)        *)
EXTENDS Integers, Sequences, FiniteSets

Ceil(a, b) == (a + b - 1) \div b
HdrValid(h, pos) ==
  /\ h.in = 1 /\ h.sig = 1 /\ h.szok = 1 /\ h.crc = 1 /\ h.acrc = 1
  /\ h.es >= 128 /\ h.es % 8 = 0 /\ h.cnt \in 1 .. 8192
  /\ h.my = pos /\ h.alt # pos /\ (pos # 1 => h.alt = 1)
  /\ 3 <= h.fu /\ h.fu <= h.lu
ArrSectors(h, ss) == LET b == h.cnt * h.es IN Ceil(IF b < 16384 THEN 16384 ELSE b, ss)

PValid(d) == HdrValid(d.P, 1)
\* the header a reader takes for the second copy
Other(d) == IF PValid(d) THEN d.A ELSE d.E
OValid(d) == IF PValid(d) THEN HdrValid(d.A, d.P.alt) ELSE HdrValid(d.E, d.len - 1)
Recognised(d) == d.pm = 1 /\ (d.P.sig = 1 \/ (d.E.in = 1 /\ d.E.sig = 1))
Usable(d, h) == h.lu < d.len /\ h.fu <= h.lu /\ h.fu <= d.len - 2 - ArrSectors(h, d.ss)

\* The tables a reader may come up with: <<header>>, or nothing.  Where the second copy would be
\* outside the device (the device has shrunk) a reader may also refuse.
Recover(d) ==
  IF ~ Recognised(d) THEN {<<>>}
  ELSE IF PValid(d) THEN IF Usable(d, d.P) THEN {<<d.P>>} \cup (IF d.A.in = 0 THEN {<<>>} ELSE {}) ELSE {<<>>}
  ELSE IF OValid(d) /\ Usable(d, d.E) THEN {<<d.E>>}
  ELSE {<<>>}

\* both copies are there, at their right places, and say the same
BothAt(d, alt) ==
  /\ d.pm = 1 /\ PValid(d) /\ d.P.alt = alt /\ HdrValid(d.A, alt)
  /\ d.P.el = 2 /\ d.A.el = alt - Ceil(d.P.cnt * d.P.es, d.ss)
  /\ d.P.fu > 1 + Ceil(d.P.cnt * d.P.es, d.ss) /\ d.P.lu < d.A.el
  /\ d.A.fu = d.P.fu /\ d.A.lu = d.P.lu /\ d.A.dg = d.P.dg /\ d.A.cnt = d.P.cnt /\ d.A.es = d.P.es
  /\ d.A.ents = d.P.ents
=============================================================================
