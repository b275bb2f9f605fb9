----------------------------- MODULE WebUITrace -----------------------------
(***************************************************************************)
(* Validates what the real web interface shows. Facts:                     *)
(*   save   one event is in the log (g, at, st, q)                         *)
(*   del    a stream was deleted (no page is being fetched)                *)
(*   pbeg   walk w fetches a page: how open/next/prev/again; calm: the     *)
(*          statistics have caught up; fail: the store fails meanwhile     *)
(*   pend   the page: shown, the links it has, the total                   *)
(*   types  the page of aggregate types, when everything has arrived       *)
(*   wbeg   live feed id is opened; calm as above                          *)
(*   wconn  the visitor is connected                                       *)
(*   wrec   the feed shows an event, and a running count                   *)
(*   wsum   the live page of aggregate types shows its totals              *)
(*   wslow  the connection of a live feed makes no progress from now on    *)
(*   wfate  and whether the feed ended, or went on, after that             *)
(*   wcalm  everything has arrived: feeds are complete                     *)
(*   link   a link of a page was followed: what it says and where it leads *)
(***************************************************************************)
EXTENDS WebUI, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
vars == <<logVars, uiVars, l>>

Init == LogInit /\ UIInit /\ l = 1

Reset(t) ==
    /\ t.e = "reset"
    /\ hist' = <<>> /\ dead' = {} /\ gmax' = 0
    /\ walks' = NoFun /\ feeds' = NoFun

Save(t) ==
    /\ t.e = "save"
    /\ AppendBatch(t.st, <<[k |-> t.g, g |-> t.g, st |-> t.st, at |-> t.at, q |-> t.q, x |-> t.x]>>)
    /\ UNCHANGED uiVars

Del(t) ==
    /\ t.e = "del"
    /\ \A w \in DOMAIN walks : ~walks[w].open
    /\ DeleteStream(t.st)
    /\ UNCHANGED uiVars

PBeg(t) ==
    /\ t.e = "pbeg"
    /\ LET w == IF t.how = "open" THEN NewWalk(t.kind, t.name, t.per) ELSE Along(walks[t.w], t.how)
       IN /\ t.how # "open" => MayGo(walks[t.w], t.how)
          /\ walks' = Put(walks, t.w, [w EXCEPT !.open = TRUE, !.fail = t.fail,
                                        !.low = Len(Sel(w.kind, w.name, w.from)),
                                        !.tlow = IF t.calm \/ w.kind = "s" THEN Total(w.kind, w.name) ELSE 0])
    /\ UNCHANGED <<logVars, feeds>>

\* x: type of the event, its data and date, as they are shown
Same(x, r) == x.g = r.g /\ x.st = r.st /\ x.at = r.at /\ x.q = r.q /\ x.x = r.x

\* saves meanwhile may have been seen or not, later ones only with the earlier ones
PEnd(t) ==
    /\ t.e = "pend"
    /\ LET w == walks[t.w]
           R == Sel(w.kind, w.name, w.from)
       IN /\ w.open
          /\ IF t.r = "ok"
             THEN /\ t.title = w.name
                  /\ t.total >= w.tlow /\ t.total <= Total(w.kind, w.name)
                  /\ \E m \in w.low..Len(R) :
                       LET S == Shown(w, R, m) IN
                       /\ Len(t.shown) = Len(S)
                       /\ \A i \in 1..Len(S) : Same(t.shown[i], S[i])
                       /\ t.next = (NextOf(w, R, m) > 0)
                       /\ t.prev = (w.back # <<>>)
                       /\ walks' = [walks EXCEPT ![t.w] = [w EXCEPT !.open = FALSE, !.next = NextOf(w, R, m)]]
             ELSE /\ t.r = "err" /\ w.fail
                  /\ walks' = [walks EXCEPT ![t.w] = [w EXCEPT !.open = FALSE, !.next = 0, !.back = <<>>]]
    /\ UNCHANGED <<logVars, feeds>>

AllTypes == {r.at : r \in ToSet(hist)}
Listed(t) ==
    /\ {x.at : x \in ToSet(t.types)} = AllTypes
    /\ Len(t.types) = Cardinality(AllTypes)
    /\ \A x \in ToSet(t.types) : x.n = Total("a", x.at)
    /\ t.total = Len(hist)

Types(t) == t.e = "types" /\ Listed(t) /\ UNCHANGED <<logVars, uiVars>>

Link(t) ==
    /\ t.e = "link"
    /\ t.r = "ok" /\ t.says = t.leads
    /\ UNCHANGED <<logVars, uiVars>>

\* every event from the latest one at the opening is on the feed, or from an earlier one on
WBeg(t) ==
    /\ t.e = "wbeg"
    /\ feeds' = Put(feeds, t.id, [kind |-> t.kind, name |-> t.name, last |-> 0, count |-> 0, must |-> gmax + 1, sum |-> 0, slow |-> FALSE])
    /\ UNCHANGED <<logVars, walks>>

WConn(t) ==
    /\ t.e = "wconn"
    /\ feeds' = [feeds EXCEPT ![t.id].must = gmax + 1]
    /\ UNCHANGED <<logVars, walks>>

Of(f) == SelectSeq(hist, LAMBDA r : r.at = f.name)
WRec(t) ==
    /\ t.e = "wrec"
    /\ LET f == feeds[t.id]
           later == {i \in 1..Len(Of(f)) : Of(f)[i].g > f.last}
       IN /\ f.kind = "a"
          /\ \E i \in later :
                /\ Same(t.rec, Of(f)[i])
                /\ \A j \in later : j >= i \/ (f.last = 0 /\ Of(f)[j].g < f.must)
          /\ f.last > 0 => t.total = f.count + 1
          /\ feeds' = [feeds EXCEPT ![t.id].last = t.rec.g, ![t.id].count = t.total]
    /\ UNCHANGED <<logVars, walks>>

\* totals never go back, never exceed what was saved
WSum(t) ==
    /\ t.e = "wsum"
    /\ LET f == feeds[t.id] IN
       /\ f.kind = "all"
       /\ t.total >= f.sum /\ t.total <= Len(hist)
       /\ \A x \in ToSet(t.types) : x.n <= Total("a", x.at)
       /\ feeds' = [feeds EXCEPT ![t.id].sum = t.total, ![t.id].last = IF Listed(t) THEN gmax ELSE 0]
    /\ UNCHANGED <<logVars, walks>>

Complete(f) == \A r \in ToSet(Of(f)) : r.g >= f.must => r.g <= f.last
WSlow(t) ==
    /\ t.e = "wslow"
    /\ feeds' = [feeds EXCEPT ![t.id].slow = TRUE]
    /\ UNCHANGED <<logVars, walks>>

\* a feed that misses something has ended
WFate(t) ==
    /\ t.e = "wfate"
    /\ t.told \/ Complete(feeds[t.id])
    /\ UNCHANGED <<logVars, uiVars>>

WCalm(t) ==
    /\ t.e = "wcalm"
    /\ \A i \in DOMAIN feeds : LET f == feeds[i] IN
         IF f.slow THEN TRUE
         ELSE IF f.kind = "a"
         THEN Complete(f)
         ELSE gmax > 0 => f.last = gmax
    /\ UNCHANGED <<logVars, uiVars>>

\* the count a feed shows with its first event
WTotal(t) ==
    /\ t.e = "wtotal"
    /\ t.total = Len(SelectSeq(hist, LAMBDA r : r.at = t.name /\ r.g <= t.g))
    /\ UNCHANGED <<logVars, uiVars>>

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET t == Trace[l] IN
       \/ Reset(t) \/ Save(t) \/ Del(t) \/ PBeg(t) \/ PEnd(t) \/ Types(t) \/ Link(t)
       \/ WBeg(t) \/ WConn(t) \/ WRec(t) \/ WSum(t) \/ WCalm(t) \/ WTotal(t) \/ WSlow(t) \/ WFate(t)

Spec == Init /\ [][Next]_vars

Progress ==
    /\ (IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE)
    /\ (IF l = Len(Trace) + 1 THEN PrintT("TRACE-ACCEPTED") /\ TLCSet("exit", TRUE) ELSE TRUE)
ASSUME TLCSet(1, 0)
Report == PrintT(<<"MAXLINE", TLCGet(1)>>)
=============================================================================
