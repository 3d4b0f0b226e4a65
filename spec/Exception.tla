------------------------------ MODULE Exception ------------------------------
(* Exceptions between a thrower and the installed handler.  State x:
     cnt   depth of fetch-all sections
     pend  <<>> or <<e>>, the exception that is pending; e = [t, o, m]
     hd    the handler installed: 0 the default one, 1 and 2 ours
     rep, inn  what ours answer, and whether they throw themselves
   A step gives the new state, the value the thrower gets and the deliveries made, in order,
   as <<handler, type, options, message>>.                                                *)
EXTENDS Integers, Sequences, FiniteSets

Options == {1, 2, 4, 8, 16, 32, 64}
Single(o) == o \in {8, 32, 64}
None == <<>>
Fresh == [cnt |-> 0, pend |-> None, hd |-> 0, rep |-> 0, inn |-> 0]
Res(x, r, d) == [x |-> x, ret |-> r, calls |-> d]

\* what a handler that throws itself while it handles passes on (inn = 1), or keeps to itself (inn = 2)
Inner(x) == IF x.inn = 1 THEN <<[t |-> 3, o |-> 64, m |-> "inner"]>> ELSE <<>>
Deliver(x, e) ==
  IF x.cnt > 0 THEN Res([x EXCEPT !.pend = <<e>>], 0, <<>>)
  ELSE IF x.hd = 0 THEN Res([x EXCEPT !.pend = None], IF Single(e.o) THEN e.o ELSE 0, <<<<0, e>>>>)
  ELSE Res([x EXCEPT !.pend = None], x.rep, <<<<x.hd, e>>>> \o [k \in DOMAIN Inner(x) |-> <<x.hd, Inner(x)[k]>>])

Throw(x, e) == Deliver(x, e)
Rethrow(x) == Deliver(x, x.pend[1])           \* only with an exception pending
Catch(x) == Res([x EXCEPT !.pend = None], 0, <<>>)
Fetch(x) == Res([x EXCEPT !.cnt = @ + 1], 0, <<>>)
Leave(x) == Res([x EXCEPT !.cnt = @ - 1], 0, <<>>)   \* only inside a section
Set(x, h) == Res([x EXCEPT !.hd = h], 0, <<>>)
Get(x) == Res(x, x.hd, <<>>)

TypeName == <<"Information", "Warning", "Error", "Fatal", "Bug", "No Implementation">>
OptionName == <<"Fix", "Yes", "No", "OK", "Retry", "Ignore", "Cancel">>
==============================================================================
