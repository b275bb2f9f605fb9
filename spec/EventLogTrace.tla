--------------------------- MODULE EventLogTrace ---------------------------
(***************************************************************************)
(* Validates recorded executions of the real stores against EventLog.      *)
(* Every line of the trace is one observable fact:                         *)
(*   reset            a fresh store (and the table of all records seen)    *)
(*   op               an operation that ran alone, with its result         *)
(*   inv / ret        start and end of an operation that ran concurrently; *)
(*                    the moment it takes effect is inferred (Linearize)   *)
(*   crash            the process was killed: unfinished operations took   *)
(*                    effect before, completely, or never                  *)
(*   bye              the server was asked to stop, and did               *)
(*   subinv / subret / dlv / stop / halt / quiet / fate    subscriptions   *)
(*   corrupt          stored records made unreadable by the environment    *)
(*   op forget        a subject's encryption key was deleted               *)
(* The trace is accepted iff some behaviour of the log explains it.        *)
(* PROP selects the property whose side conditions are enforced.           *)
(***************************************************************************)
EXTENDS EventLog, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop  == IOEnv.PROP
Chk(ps, c) == (Prop \in ps \/ Prop = "ALL") => c

VARIABLES
    l,      \* next line of the trace
    base,   \* line of the last reset
    open,   \* started operations that have not taken effect yet (line numbers)
    done,   \* started operations that took effect but did not return yet
    subs,   \* subscriptions
    badk,   \* identities of records that can not be read any more
    gone,   \* subjects whose key was deleted: lines where the deletion began and returned
    calm    \* everything up to this position was delivered to everyone

vars == <<hist, dead, gmax, l, base, open, done, subs, badk, gone, calm>>

Rec(k) == Trace[base].recs[k]
Ks(x)  == [i \in 1..Len(x) |-> x[i].k]
Big    == 2000000000

\* how an operation may be cut short: "no" not at all, "pre" context cancelled before,
\* "mid" cancelled meanwhile, "dl" deadline, "cut" connection fails
Broken == {"dl", "cut"}

\* Was the key of the subject deleted?  To an operation that began at line n:
\* certainly, if the deletion had returned; possibly, once it began.
MaybeGone(u)   == u \in DOMAIN gone
SurelyGone(u, n) == u \in DOMAIN gone /\ gone[u].ret < n

-----------------------------------------------------------------------------
(* Saves *)
Mixed(o) == \E i, j \in 1..Len(o.evs) : o.evs[i].at # o.evs[j].at \/ o.evs[i].aid # o.evs[j].aid
Bad(o)   == \E i \in 1..Len(o.evs) : o.evs[i].bad
NoData(o) == \E i \in 1..Len(o.evs) : o.evs[i].nul  \* a store may refuse these
Stale(o) == o.exp >= 0 /\ o.exp # LastSeq(o.st)

ContentProps == {"P01", "P06", "P08", "P13", "P14", "P16", "P17", "P20", "P25"}

\* the record an event became; an event nobody ever saw gets a ghost
Became(o, n, i) ==
    LET e == o.evs[i] IN
    IF e.k > 0
    THEN LET r == Rec(e.k) IN [k |-> e.k, g |-> r.g, st |-> r.st, at |-> r.at, q |-> r.q, sub |-> e.sub]
    ELSE [k |-> -(n * 100 + i), g |-> gmax + i, st |-> o.st, at |-> e.at, q |-> LastSeq(o.st) + i, sub |-> e.sub]

ContentOK(o, i) ==
    LET e == o.evs[i] IN
    e.k > 0 =>
      LET r == Rec(e.k) IN
      /\ r.at = e.at
      /\ r.aid = e.aid
      /\ Chk(ContentProps, r.et = e.et /\ r.d = e.d /\ r.m = e.m /\ r.ts >= o.ts /\ r.ts <= o.tsx)
      /\ Chk({"P01", "P02"}, r.id # "" /\ \A j \in 1..Len(hist) : hist[j].k > 0 => Rec(hist[j].k).id # r.id)

SaveTakesEffect(o, n) ==
    /\ o.evs # <<>>
    /\ Chk({"P03", "P07", "P13", "P14"}, ~Mixed(o) /\ ~Bad(o) /\ o.cx # "pre")
    /\ Chk({"P03", "P04", "P07", "P13", "P14", "P02"}, ~Stale(o))
    /\ Chk({"P17"}, \A i \in 1..Len(o.evs) : ~SurelyGone(o.evs[i].sub, n))
    /\ \A i \in 1..Len(o.evs) : ContentOK(o, i)
    /\ AppendBatch(o.st, [i \in 1..Len(o.evs) |-> Became(o, n, i)])
    /\ (o.r = "ok" => Chk({"P01", "P02", "P04", "P07", "P13", "P14"}, o.n = LastSeq(o.st) + Len(o.evs)))

SaveFails(o) ==
    \/ /\ o.r = "seq"
       /\ Stale(o)
       /\ Chk({"P04", "P07", "P13"}, o.ex = o.exp /\ o.ac = LastSeq(o.st))
    \/ o.r = "can" /\ o.cx # "no"
    \/ o.r = "oth" /\ o.cx \in Broken
    \/ o.r = "oth" /\ (o.evs = <<>> \/ Mixed(o) \/ Bad(o) \/ NoData(o))
    \/ o.r = "conflict" /\ Stale(o)
    \/ o.r = "del" /\ \E i \in 1..Len(o.evs) : MaybeGone(o.evs[i].sub)

-----------------------------------------------------------------------------
(* Deletions *)
DelTakesEffect(o) ==
    /\ Chk({"P05", "P07", "P13", "P14"}, o.cx # "pre" /\ o.exp = LastSeq(o.st))
    /\ DeleteStream(o.st)

DelFails(o) ==
    \/ /\ o.r = "seq"
       /\ Exists(o.st)
       /\ o.exp # LastSeq(o.st)
       /\ Chk({"P05", "P07", "P13"}, o.ex = o.exp /\ o.ac = LastSeq(o.st))
    \/ o.r = "nf" /\ ~Exists(o.st)
    \/ o.r = "can" /\ o.cx # "no"
    \/ o.r = "oth" /\ o.cx \in Broken
    \/ o.r = "oth" /\ \E r \in ToSet(StreamEvents(o.st)) : r.k \in badk
    \/ o.r = "conflict" /\ Exists(o.st) /\ o.exp # LastSeq(o.st)

-----------------------------------------------------------------------------
(* Reads and counts change nothing *)
Full(o) ==
    CASE o.op = "all"    -> ReadAll(o.from)
      [] o.op = "types"  -> ReadTypes(ToSet(o.ts), o.from)
      [] o.op = "stream" -> ReadStream(o.st, o.from)

\* the records a read may have to look at, and so may fail on
Scope(o) ==
    CASE o.op = "all"    -> ReadAll(0)
      [] o.op = "types"  -> ReadTypes(ToSet(o.ts), 0)
      [] o.op = "stream" -> ReadStream(o.st, 0)

FirstBad(x) ==  \* number of records before the first unreadable one
    IF \E i \in 1..Len(x) : x[i].k \in badk
    THEN (CHOOSE i \in 1..Len(x) : x[i].k \in badk /\ \A j \in 1..(i-1) : x[j].k \notin badk) - 1
    ELSE Len(x)

\* nothing of a subject that was already removed is given out
NoneGone(x, m, n) == \A i \in 1..m : ~SurelyGone(x[i].sub, n)

ReadOK(o, n) ==
    CASE o.r = "ok"  -> /\ (o.op = "stream" => Exists(o.st) \/ o.list)
                        /\ o.out = Ks(Full(o))
                        /\ Chk({"P11"}, FirstBad(Full(o)) = Len(Full(o)))
                        /\ Chk({"P17"}, NoneGone(Full(o), Len(Full(o)), n))
      [] o.r = "del" /\ Len(o.out) < Len(Full(o)) /\ MaybeGone(Full(o)[Len(o.out) + 1].sub) ->
                        /\ IsPrefix(o.out, Ks(Full(o)))
                        /\ NoneGone(Full(o), Len(o.out), n)
      [] o.r = "nf"  -> o.op = "stream" /\ ~o.list /\ ~Exists(o.st) /\ o.out = <<>>
      [] o.r = "can" -> o.cx # "no" /\ IsPrefix(o.out, Ks(Full(o)))
      [] o.r = "oth" /\ o.cx \in Broken -> IsPrefix(o.out, Ks(Full(o)))
      [] o.r \in {"oth", "del"} ->
                        /\ FirstBad(Scope(o)) < Len(Scope(o))
                        /\ IsPrefix(o.out, Ks(Full(o)))
                        /\ Len(o.out) <= FirstBad(Full(o))
      [] OTHER -> FALSE

\* the number of events ever saved, per aggregate type; of those deleted before
\* they were counted (rough), there may be less
TotalsOK(o) ==
    LET ever(t) == Len(SelectSeq(hist, LAMBDA r : r.at = t))
        live(t) == Len(SelectSeq(Live, LAMBDA r : r.at = t))
        shown   == {x.at : x \in ToSet(o.totals)} IN
    /\ o.r = "ok"
    /\ o.n <= Len(hist) /\ o.n >= (IF o.rough THEN Len(Live) ELSE Len(hist))
    /\ shown \subseteq {r.at : r \in ToSet(hist)}
    /\ {r.at : r \in ToSet(IF o.rough THEN Live ELSE hist)} \subseteq shown
    /\ \A x \in ToSet(o.totals) : x.n <= ever(x.at) /\ x.n >= (IF o.rough THEN live(x.at) ELSE ever(x.at))

\* What is at rest: the same events, and no protected text, nor two equal cipher texts.
RawOK(o) ==
    /\ o.r = "ok"
    /\ o.out = Ks(ReadAll(0))
    /\ ~o.leak
    /\ ~o.twins

TotalOK(o) ==
    \/ o.r = "ok" /\ o.n = LastSeq(o.st)
    \/ o.r = "can" /\ o.cx # "no"
    \/ o.r = "oth" /\ o.cx \in Broken

-----------------------------------------------------------------------------
(* An operation that leaves the log as it is and whose result fits the     *)
(* current state.                                                          *)
FitsQuietly(o, n) ==
    CASE o.op = "save" -> SaveFails(o)
      [] o.op = "del"  -> DelFails(o)
      [] o.op \in {"all", "types", "stream"} -> ReadOK(o, n)
      [] o.op = "tot"  -> TotalOK(o)
      [] o.op = "totals" -> TotalsOK(o)
      [] o.op = "raw" -> RawOK(o)
      [] o.op = "reopen" -> o.r = "ok"
      [] o.op = "second" -> o.r = "refused"  \* a second server on the same directory
      [] OTHER -> FALSE

Effective(o) == o.op \in {"save", "del"} /\ o.r \in {"ok", "?"}

TakesEffect(o, n) ==
    \/ o.op = "save" /\ SaveTakesEffect(o, n)
    \/ o.op = "del" /\ DelTakesEffect(o)

\* only the pending save with the lowest position can be next
KOf(i) == IF Trace[i].op = "save" /\ Trace[i].evs # <<>> THEN Trace[i].evs[1].k ELSE 0
NotOvertaking(i) ==
    KOf(i) > 0 => \A j \in open \ {i} : (Effective(Trace[j]) /\ KOf(j) > 0) => Rec(KOf(i)).g <= Rec(KOf(j)).g

-----------------------------------------------------------------------------
(* Subscriptions.  lo: first eligible position (a subscription started      *)
(* without a position may begin with events whose delivery was still under *)
(* way); live: highest position                                             *)
(* assigned when the start returned; from >= 0: everything from there on   *)
(* is due, from = -1: everything saved after the start returned is due.    *)
DeliveryProps == {"P09", "P10", "P13", "P15", "P16", "P12", "P17"}
Matches(s, r) == r.g >= s.lo /\ (s.all \/ r.at \in ToSet(s.types))
\* several aggregate types are registered one after the other, so without a
\* position only what is saved after the start returned is promised for all
AtOnce(s) == s.all \/ Len(s.types) <= 1
Due(s, r) ==  \* may not be skipped
    /\ r.g \notin dead
    /\ r.g > s.live \/ s.from >= 0 \/ (s.last > 0 /\ AtOnce(s))

Deliver(id, k, red) ==
    LET s == subs[id] IN
    /\ \E i \in 1..Len(hist) : hist[i].k = k
    /\ Chk({"P10"}, s.ph # "halted")
    \* without its protected data exactly if the subject was removed
    /\ LET u == (CHOOSE r \in ToSet(hist) : r.k = k).sub IN
       /\ red => MaybeGone(u)
       /\ Chk({"P17"}, ~red => ~SurelyGone(u, s.at))
    /\ Chk(DeliveryProps,
         LET r == Rec(k) IN
         /\ Matches(s, r)
         /\ r.g > s.last
         /\ \A i \in 1..Len(hist) :
               (Matches(s, hist[i]) /\ hist[i].g > s.last /\ hist[i].g < r.g) => ~Due(s, hist[i]))
    \* what was only needed for the first delivery is forgotten
    /\ subs' = [subs EXCEPT ![id].last = IF @ > Rec(k).g THEN @ ELSE Rec(k).g,
                             ![id].live = IF s.from >= 0 \/ AtOnce(s) THEN 0 ELSE @,
                             ![id].lo = IF s.from >= 0 THEN @ ELSE 0]

Complete(id) ==
    LET s == subs[id] IN
    \A i \in 1..Len(hist) : (Matches(s, hist[i]) /\ hist[i].g > s.last) => ~Due(s, hist[i])

-----------------------------------------------------------------------------
Init == LogInit /\ l = 1 /\ base = 1 /\ open = {} /\ done = {} /\ subs = <<>> /\ badk = {} /\ gone = <<>> /\ calm = 0

Reset(t) ==
    /\ t.e = "reset"
    /\ hist' = <<>> /\ dead' = {} /\ gmax' = 0
    /\ base' = l /\ open' = {} /\ done' = {} /\ subs' = <<>> /\ badk' = {} /\ gone' = <<>> /\ calm' = 0

Op(t) ==
    /\ t.e = "op" /\ t.op # "forget"
    /\ IF Effective(t)
       THEN TakesEffect(t, l)
       ELSE FitsQuietly(t, l) /\ UNCHANGED logVars
    /\ UNCHANGED <<base, open, done, subs, badk, gone, calm>>

\* Deleting a key: what it has in common with other operations it may
\* affect one by one, so it has a beginning and an end instead of a moment.
Forget(t) ==
    /\ t.op = "forget"
    /\ (t.r = "ok" \/ (t.r = "oth" /\ t.cx \in Broken))
    /\ LET old == IF t.who \in DOMAIN gone THEN gone[t.who] ELSE [inv |-> l, ret |-> Big]
           ret == IF t.e = "op" /\ t.r = "ok" THEN l ELSE Big
       IN gone' = (t.who :> [inv |-> old.inv, ret |-> IF old.ret < ret THEN old.ret ELSE ret]) @@ gone

ForgetOp(t) ==
    /\ t.e = "op" /\ Forget(t)
    /\ UNCHANGED <<logVars, base, open, done, subs, badk, calm>>

ForgetInv(t) ==
    /\ t.e = "inv" /\ Forget(t)
    /\ done' = done \cup {l}
    /\ UNCHANGED <<logVars, base, open, subs, badk, calm>>

Inv(t) ==
    /\ t.e = "inv" /\ t.op # "forget"
    /\ open' = open \cup {l}
    /\ UNCHANGED <<logVars, base, done, subs, badk, gone, calm>>

Ret(t) ==
    /\ t.e = "ret"
    /\ \E i \in done :
         /\ Trace[i].id = t.id
         /\ done' = done \ {i}
         /\ LET o == Trace[i] IN
            gone' = IF o.op = "forget" /\ o.r = "ok" /\ gone[o.who].ret = Big
                    THEN [gone EXCEPT ![o.who].ret = l] ELSE gone
    /\ UNCHANGED <<logVars, base, open, subs, badk, calm>>

Crash(t) ==
    /\ t.e = "crash"
    /\ open' = {} /\ done' = {}
    /\ UNCHANGED <<logVars, base, subs, badk, gone, calm>>

\* a server that is asked to stop does so, and says that all went well
Bye(t) ==
    /\ t.e = "bye" /\ t.code = 0
    /\ open' = {} /\ done' = {}
    /\ UNCHANGED <<logVars, base, subs, badk, gone, calm>>

Damage(t) ==
    /\ t.e = "corrupt"
    /\ badk' = ToSet(t.ks)
    /\ UNCHANGED <<logVars, base, open, done, subs, gone, calm>>

SubInv(t) ==
    /\ t.e = "subinv"
    /\ subs' = (t.sub :> [at |-> l, from |-> t.from, all |-> t.all, types |-> t.types,
                          lo |-> IF t.from >= 0 THEN t.from ELSE calm + 1,
                          live |-> Big, last |-> 0, g0 |-> IF t.from >= 0 /\ ~t.async THEN gmax ELSE 0, ph |-> "starting"]) @@ subs
    /\ UNCHANGED <<logVars, base, open, done, badk, gone, calm>>

SubRet(t) ==
    /\ t.e = "subret"
    /\ LET s == subs[t.sub]
           ahead == SelectSeq(hist, LAMBDA r : r.g \notin dead /\ s.from >= 0 /\ Matches(s, r))
       IN \/ t.r = "ok" /\ Chk({"P11"}, /\ FirstBad(ahead) = Len(ahead)
                                             /\ \A i \in 1..Len(ahead) : ahead[i].g <= s.g0 => ahead[i].g <= s.last)
          \/ t.r = "can" /\ t.cx # "no"
          \/ t.r \in {"oth", "del"} /\ FirstBad(ReadAll(0)) < Len(ReadAll(0))
    /\ subs' = [subs EXCEPT ![t.sub].live = IF subs[t.sub].from >= 0 \/ (subs[t.sub].last > 0 /\ AtOnce(subs[t.sub])) THEN 0 ELSE gmax,
                             ![t.sub].g0 = 0, ![t.sub].ph = "live"]
    /\ UNCHANGED <<logVars, base, open, done, badk, gone, calm>>

Dlv(t) ==
    /\ t.e = "dlv"
    /\ Deliver(t.sub, t.k, t.red)
    /\ UNCHANGED <<logVars, base, open, done, badk, gone, calm>>

Stop(t) ==
    /\ t.e \in {"stop", "halt"}
    /\ subs' = [subs EXCEPT ![t.sub].ph = IF t.e = "stop" THEN "stopping" ELSE "halted"]
    /\ UNCHANGED <<logVars, base, open, done, badk, gone, calm>>

Quiet(t) ==
    /\ t.e = "quiet"
    /\ Chk(DeliveryProps, \A i \in 1..Len(t.subs) : Complete(t.subs[i]))
    /\ calm' = IF t.calm THEN gmax ELSE calm
    /\ UNCHANGED <<logVars, base, open, done, subs, badk, gone>>

\* a subscription that misses something, or was stopped, ends visibly
Fate(t) ==
    /\ t.e = "fate"
    /\ Chk({"P10", "P15"}, t.told \/ (subs[t.sub].ph = "live" /\ Complete(t.sub)))
    /\ UNCHANGED <<logVars, base, open, done, subs, badk, gone, calm>>

Consume ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET t == Trace[l] IN
       Reset(t) \/ Op(t) \/ Inv(t) \/ ForgetOp(t) \/ ForgetInv(t) \/ Ret(t) \/ Crash(t) \/ Bye(t) \/ Damage(t)
       \/ SubInv(t) \/ SubRet(t) \/ Dlv(t) \/ Stop(t) \/ Quiet(t) \/ Fate(t)

Fitting == {i \in open : ~Effective(Trace[i]) /\ FitsQuietly(Trace[i], i)}

\* reads and failing operations take effect as soon as their result fits
LinearizeQuiet ==
    /\ done' = done \cup Fitting
    /\ open' = open \ Fitting
    /\ UNCHANGED <<logVars, l, base, subs, badk, gone, calm>>

Linearize ==
    \E i \in open :
        /\ Effective(Trace[i])
        /\ NotOvertaking(i)
        /\ TakesEffect(Trace[i], i)
        /\ open' = open \ {i}
        /\ done' = done \cup {i}
        /\ UNCHANGED <<l, base, subs, badk, gone, calm>>

Next == IF Fitting # {} THEN LinearizeQuiet ELSE (Linearize \/ Consume)

Spec == Init /\ [][Next]_vars

\* bookkeeping: report acceptance and progress
Progress ==
    /\ (IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE)
    /\ (IF l = Len(Trace) + 1 THEN PrintT("TRACE-ACCEPTED") /\ TLCSet("exit", TRUE) ELSE TRUE)
ASSUME TLCSet(1, 0)
Report == PrintT(<<"MAXLINE", TLCGet(1)>>)

LogInvariants == GaplessStreams /\ GlobalUnique
=============================================================================
