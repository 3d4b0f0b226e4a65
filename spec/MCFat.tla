------------------------------- MODULE MCFat -------------------------------
(* How a FAT file system is resized in place, on a device of N sectors with clusters of one
   sector. The old and the new file system overlap in any way. What is in use and would not be in
   the data area of the new one, and every directory, is copied to clusters that are free in both;
   then the directories are written with the new numbers, then the tables, the boot sector last. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Meta, Used            \* sectors of the device, of the tables (at most), clusters in use
VARIABLES disk, phase, old, new, files, place, todo
vars == <<disk, phase, old, new, files, place, todo>>
Region(f) == f.st .. (f.st + f.ln - 1)
Data(f) == (f.st + f.ml) .. (f.st + f.ln - 1)
Tables(f) == f.st .. (f.st + f.ml - 1)
FSs == {f \in [st : 0..(N - 2), ml : 1..Meta, ln : 2..N] : f.st + f.ln <= N /\ f.ml < f.ln}
(* files: the sectors in use, each one a piece of the directory or of a file *)
What(s) == IF files[s] = "dir" THEN <<"dir", "old">> ELSE <<files[s], s>>
Junk == <<"junk">>
Init ==
  /\ old \in FSs /\ new \in FSs
  /\ \E U \in {x \in SUBSET Data(old) : x # {} /\ Cardinality(x) <= Used} :
       files \in {g \in [U -> {"dir", "file"}] : Cardinality({s \in U : g[s] = "dir"}) <= 1}
  /\ disk = [s \in 0..(N - 1) |-> IF s \in Tables(old) THEN <<"old", s - old.st>>
                                   ELSE IF s \in DOMAIN files THEN What(s) ELSE Junk]
  /\ phase = "plan" /\ place = <<>> /\ todo = {}
Moves == {s \in DOMAIN files : files[s] = "dir" \/ s \notin Data(new)}
Room == Data(new) \ (Region(old) \cap (Tables(old) \cup DOMAIN files))      \* nothing of the old one is there
Plan ==
  /\ phase = "plan"
  /\ IF Cardinality(Moves) > Cardinality(Room) THEN phase' = "refused" /\ UNCHANGED <<place, todo>>
     ELSE /\ \E m \in {g \in [Moves -> Room] : \A a, b \in Moves : a # b => g[a] # g[b]} :
               place' = [s \in DOMAIN files |-> IF s \in Moves THEN m[s] ELSE s]
          /\ phase' = "copy" /\ todo' = Moves
  /\ UNCHANGED <<disk, old, new, files>>
Copy ==
  /\ phase = "copy" /\ todo # {}
  /\ \E s \in todo : disk' = [disk EXCEPT ![place[s]] = disk[s]] /\ todo' = todo \ {s}
  /\ UNCHANGED <<phase, old, new, files, place>>
Dirs ==
  /\ phase = "copy" /\ todo = {}
  /\ disk' = [s \in DOMAIN disk |-> IF \E d \in DOMAIN files : files[d] = "dir" /\ place[d] = s THEN <<"dir", "new">> ELSE disk[s]]
  /\ phase' = "tables" /\ todo' = 1..new.ml
  /\ UNCHANGED <<old, new, files, place>>
Table ==
  /\ phase = "tables"
  /\ LET j == CHOOSE x \in todo : \A y \in todo : y <= x IN           \* the boot sector is the last one
       disk' = [disk EXCEPT ![new.st + j - 1] = <<"new", j - 1>>] /\ todo' = todo \ {j}
  /\ phase' = IF Cardinality(todo) = 1 THEN "done" ELSE phase
  /\ UNCHANGED <<old, new, files, place>>
Next == Plan \/ Copy \/ Dirs \/ Table
Spec == Init /\ [][Next]_vars
(* the file system as it was is there until the tables are written *)
Intact == phase \in {"plan", "refused", "copy"} \/ (phase = "tables" /\ todo = 1..new.ml) =>
  /\ \A s \in Tables(old) : disk[s] = <<"old", s - old.st>>
  /\ \A s \in DOMAIN files : disk[s] = What(s)
(* from then on its contents are where the new one has them *)
Held == phase \in {"tables", "done"} =>
  \A s \in DOMAIN files : place[s] \in Data(new) /\ disk[place[s]] = IF files[s] = "dir" THEN <<"dir", "new">> ELSE What(s)
Apart == place # <<>> => \A a, b \in DOMAIN files : a # b => place[a] # place[b]
Whole == phase = "done" => \A s \in Tables(new) : disk[s] = <<"new", s - new.st>>
Fence == \A s \in 0..(N - 1) : s \notin Region(old) \cup Region(new) => disk[s] = Junk
(* the device starts to be one the new file system can be opened on when all else is in place *)
Last == disk[new.st] = <<"new", 0>> => phase = "done"
=============================================================================
