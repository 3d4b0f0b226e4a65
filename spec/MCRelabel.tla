------------------------------ MODULE MCRelabel -------------------------------
(* What makes a device carry exactly the label that was last committed: where each type of
   label leaves its marks, what clobbering erases, what writing a label leaves alone, and in
   which order the types are asked.  The device is its first sector (what lies in its boot
   code, its MBR table), the rest of its head, and its tail; the rest plays no part.
   With Gen = 1 the module writes behaviours out, as commands for the table driver.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Depth, Gen, KeepS0
Types == {"amiga", "bsd", "dvh", "gpt", "mac", "msdos", "pc98", "sun", "atari", "loop"}
Order == <<"aix", "amiga", "bsd", "dvh", "gpt", "mac", "msdos", "pc98", "sun", "atari", "loop">>
Foreign == {"aix", "bsd", "mac", "dvh", "loop"}     \* what another program may leave in the boot code of the first sector
VARIABLES boot, mbr, head, tail, last, tab, log
vars == <<boot, mbr, head, tail, last, tab, log>>
\* the types that would accept device d
Has(t, d) == CASE t = "gpt" -> d.mbr = "pm" /\ ("gpt" \in d.head \/ d.tail = "gpt")
               [] t = "msdos" -> d.mbr \in {"dos", "rest"} /\ d.boot \notin {"aix", "pc98"}
               [] t = "pc98" -> d.mbr \in {"dos", "rest"} /\ d.boot = "pc98"
               [] t = "amiga" -> t \in d.head
               [] OTHER -> d.boot = t
Probe(d) == LET J == {j \in DOMAIN Order : Has(Order[j], d)} IN IF J = {} THEN "-" ELSE Order[CHOOSE j \in J : \A k \in J : j <= k]
Dev == [boot |-> boot, mbr |-> mbr, head |-> head, tail |-> tail]
Blank == [boot |-> "-", mbr |-> "-", head |-> {}, tail |-> "-"]
\* Clobbering erases the head and the tail, but not the first sector of a GPT unless that is
\* taken for another label then.  (KeepS0 = 1: it never does so; TLC shows why that is wrong.)
Cleared == LET d == [Dev EXCEPT !.head = {}, !.tail = "-"] IN IF Has("gpt", Dev) /\ (KeepS0 = 1 \/ Probe(d) = "-") THEN d ELSE Blank
\* writing label t over d
Write(t, d) ==
  CASE t = "gpt" -> [d EXCEPT !.mbr = "pm", !.head = @ \cup {"gpt"}, !.tail = "gpt"]
    [] t = "msdos" -> [d EXCEPT !.mbr = "dos", !.boot = "dos"]
    [] t = "pc98" -> [d EXCEPT !.mbr = "dos", !.boot = "pc98"]
    [] t = "mac" -> [d EXCEPT !.boot = "mac", !.mbr = IF @ = "-" THEN "-" ELSE "rest", !.head = @ \cup {"mac"}]
    [] t = "amiga" -> [d EXCEPT !.head = @ \cup {"amiga"}]
    [] t = "bsd" -> [d EXCEPT !.boot = "bsd"]
    [] t = "loop" -> [d EXCEPT !.boot = "loop"]
    [] OTHER -> [boot |-> t, mbr |-> "-", head |-> d.head, tail |-> d.tail]
Put(d) == boot' = d.boot /\ mbr' = d.mbr /\ head' = d.head /\ tail' = d.tail
Init == boot = "-" /\ mbr = "-" /\ head = {} /\ tail = "-" /\ last = "?" /\ tab = [k \in 0 .. 1 |-> <<"-", 0>>] /\ log = <<"dev 0 9000 512 8 17 0">>
Say(s) == log' = IF Gen = 1 THEN Append(log, s) ELSE log
Made(t, k) == tab' = [tab EXCEPT ![k] = <<t, 1>>] /\ Say("new " \o ToString(k) \o " 0 " \o t) /\ UNCHANGED <<boot, mbr, head, tail, last>>
Commit(k) == /\ tab[k][1] # "-" /\ tab[k][2] = 1
             /\ Put(Write(tab[k][1], Cleared)) /\ last' = tab[k][1] /\ tab' = [tab EXCEPT ![k][2] = 0] /\ Say("commit " \o ToString(k))
\* a table that is not fresh any more is committed only where it lies
Again(k) == /\ tab[k][1] # "-" /\ tab[k][2] = 0 /\ last = tab[k][1]
            /\ Put(Write(tab[k][1], Dev)) /\ Say("commit " \o ToString(k)) /\ UNCHANGED <<last, tab>>
Clobber == Put(Cleared) /\ last' = "-" /\ Say("clobber 0") /\ UNCHANGED tab
Left(t) == boot' = t /\ last' = "?" /\ UNCHANGED <<mbr, head, tail, tab>>
           /\ Say("poke 0 0 " \o (CASE t = "aix" -> "0 c9c2d4c1" [] t = "bsd" -> "64 57455682" [] t = "mac" -> "0 4552" [] t = "dvh" -> "0 0be5a941" [] OTHER -> "0 474e5520506172746564204c6f6f706261636b2030"))
Read(k) == /\ last \in Types /\ tab' = [tab EXCEPT ![k] = <<last, 0>>] /\ Say("read " \o ToString(k) \o " 0") /\ UNCHANGED <<boot, mbr, head, tail, last>>
Look == Gen = 1 /\ log' = Append(Append(log, "probe 0"), "probeall 0") /\ log[Len(log)] # "probeall 0" /\ UNCHANGED <<boot, mbr, head, tail, last, tab>>
Next == \/ \E k \in 0 .. 1 : (\E t \in Types : Made(t, k)) \/ Commit(k) \/ Again(k) \/ Read(k)
        \/ Clobber \/ Look \/ \E t \in Foreign : Left(t)
One == LET c == RandomElement(1 .. 12) k == RandomElement(0 .. 1) IN
       CASE c <= 3 -> \E t \in {RandomElement(Types)} : Made(t, k)
         [] c <= 6 -> IF ENABLED Commit(k) THEN Commit(k) ELSE IF ENABLED Again(k) THEN Again(k) ELSE \E t \in {RandomElement(Types)} : Made(t, k)
         [] c = 7 -> IF ENABLED Read(k) THEN Read(k) ELSE Clobber
         [] c = 8 -> Clobber
         [] c = 9 -> \E t \in {RandomElement(Foreign)} : Left(t)
         [] OTHER -> IF ENABLED Look THEN Look ELSE \E t \in {RandomElement(Types)} : Made(t, k)
Spec == Init /\ [][IF Gen = 1 THEN One ELSE Next]_vars
Recognised == last # "?" => Probe(Dev) = last
Depthly == IF Gen = 1 /\ Len(log) >= Depth THEN PrintT(<<"BEH", log>>) /\ FALSE ELSE TRUE
View == <<boot, mbr, head, tail, last, tab>>
==============================================================================
