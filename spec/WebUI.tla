------------------------------- MODULE WebUI -------------------------------
(***************************************************************************)
(* The web user interface over the event log: visitors page through the    *)
(* events of an aggregate type or of a stream by following the links the   *)
(* pages offer, and watch live feeds. Walks and feeds are functions from   *)
(* names to their states.                                                  *)
(***************************************************************************)
EXTENDS EventLog

VARIABLES
    walks,  \* visitors: what they look at and where
    feeds   \* live feeds: what they watch and what they showed

uiVars == <<walks, feeds>>
NoFun == [x \in {} |-> 0]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
UIInit == walks = NoFun /\ feeds = NoFun

Least(a, b) == IF a < b THEN a ELSE b

\* events per page that are shown for what was asked (-1: something that is no number)
PerPage(n) == IF n <= 0 THEN 10 ELSE Least(n, 1000)

\* kind "a": events of an aggregate type by global position, "s": of a stream by position there
Sel(kind, name, from) == IF kind = "a" THEN ReadTypes({name}, from) ELSE ReadStream(name, from)
Index(kind, r) == IF kind = "a" THEN r.g ELSE r.q

\* the total a page shows: all events of the type ever, or what is in the stream
Total(kind, name) == IF kind = "a" THEN Len(SelectSeq(hist, LAMBDA r : r.at = name)) ELSE LastSeq(name)

NewWalk(kind, name, per) == [kind |-> kind, name |-> name, per |-> PerPage(per), from |-> 0, back |-> <<>>, next |-> 0,
                             low |-> 0, tlow |-> 0, open |-> FALSE, fail |-> FALSE]
\* following a link of the page
Along(w, how) ==
    CASE how = "next" -> [w EXCEPT !.from = w.next, !.back = Append(@, w.from)]
      [] how = "prev" -> [w EXCEPT !.from = w.back[Len(w.back)], !.back = SubSeq(@, 1, Len(@) - 1)]
      [] OTHER        -> w
MayGo(w, how) == CASE how = "next" -> w.next > 0 [] how = "prev" -> w.back # <<>> [] OTHER -> TRUE

\* What a page of w shows if m of the events R from there on are looked at.
Shown(w, R, m)   == SubSeq(R, 1, Least(m, w.per))
NextOf(w, R, m)  == IF m > w.per THEN Index(w.kind, R[w.per + 1]) ELSE 0
=============================================================================
