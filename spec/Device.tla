-------------------------------- MODULE Device --------------------------------
(* Devices of a program: objects on paths, their open counts and external-access sections,
   and the cache by path.  State x:
     obj    the objects, in the order in which they came to be:
              [p, oc, ext, fd, ro, live]    path; open count; external access; whether a
                                            descriptor is held; whether it is read-only
     cache  the objects that are found by path, oldest first
   Steps take what the operating system granted: "rw", "ro" or "no".                       *)
EXTENDS Integers, Sequences, FiniteSets
Fresh == [obj |-> <<>>, cache |-> <<>>]
Cached(x, p) == {k \in DOMAIN x.obj : x.obj[k].p = p /\ \E j \in DOMAIN x.cache : x.cache[j] = k}
Without(s, k) == SelectSeq(s, LAMBDA a : a # k)
New(p) == [p |-> p, oc |-> 0, ext |-> 0, fd |-> 0, ro |-> 0, live |-> 1]
\* <<state, object or 0>>
Get(x, p, os) ==
  IF Cached(x, p) # {} THEN <<x, CHOOSE k \in Cached(x, p) : TRUE>>
  ELSE IF os = "no" THEN <<x, 0>>
  ELSE <<[obj |-> Append(x.obj, New(p)), cache |-> Append(x.cache, Len(x.obj) + 1)], Len(x.obj) + 1>>
Grant(o, os) == [o EXCEPT !.fd = IF os = "no" THEN 0 ELSE 1, !.ro = IF os = "no" THEN @ ELSE IF os = "ro" THEN 1 ELSE 0]
CanOpen(x, k) == x.obj[k].live = 1 /\ x.obj[k].ext = 0
Open(x, k, os) == LET o == x.obj[k] IN
  IF o.oc > 0 THEN [x EXCEPT !.obj[k].oc = @ + 1]
  ELSE IF os = "no" THEN x ELSE [x EXCEPT !.obj[k] = [Grant(o, os) EXCEPT !.oc = 1]]
CanUse(x, k) == x.obj[k].live = 1 /\ x.obj[k].ext = 0 /\ x.obj[k].oc > 0 /\ x.obj[k].fd = 1
Close(x, k) == [x EXCEPT !.obj[k] = [@ EXCEPT !.oc = @ - 1, !.fd = IF x.obj[k].oc = 1 THEN 0 ELSE @]]
Begin(x, k) == [x EXCEPT !.obj[k] = [@ EXCEPT !.ext = 1, !.fd = 0]]
CanEnd(x, k) == x.obj[k].live = 1 /\ x.obj[k].ext = 1
End(x, k, os) == [x EXCEPT !.obj[k] = [(IF @.oc > 0 THEN Grant(@, os) ELSE @) EXCEPT !.ext = 0]]
Uncache(x, k) == [x EXCEPT !.cache = Without(@, k)]
CanDestroy(x, k) == x.obj[k].live = 1 /\ (x.obj[k].ext = 0 \/ x.obj[k].oc = 0)
Destroy(x, k) == [cache |-> Without(x.cache, k), obj |-> [x.obj EXCEPT ![k] = [New(@.p) EXCEPT !.live = 0]]]
\* descriptors held on a path
Held(x, p) == Cardinality({k \in DOMAIN x.obj : x.obj[k].p = p /\ x.obj[k].fd = 1})
==============================================================================
