-------------------------- MODULE ProjectionTrace --------------------------
(***************************************************************************)
(* Validates what the statistics of the real service show.  Facts:         *)
(*   save   one event is in the log (g, at, st, q)                         *)
(*   del    a stream was deleted                                           *)
(*   start  the service starts (concurrent saves are logged after it);     *)
(*          said: it reported a problem with the snapshot                  *)
(*   stop   the service ended                                              *)
(*   snap   the snapshot was written, r ok/oth; least: events counted when *)
(*          that began                                                     *)
(*   tear   the snapshot file was cut, damaged or removed (gone)           *)
(*   peek   what a reader finds in the snapshot: r ok/err, contents        *)
(*   stats  what the service shows, when everything has arrived            *)
(***************************************************************************)
EXTENDS Projection, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
vars == <<logVars, projVars, l>>

Init == LogInit /\ ProjInit /\ l = 1

\* totals, counts per type and latest position of the events X
Shows(t, X) ==
    /\ t.total = Cardinality(X)
    /\ t.latest = Top(X)
    /\ {x.at : x \in ToSet(t.types)} = TypesOf(X)
    /\ \A x \in ToSet(t.types) : x.n = Count(X, x.at)
    /\ Len(t.types) = Cardinality(TypesOf(X))

Reset(t) ==
    /\ t.e = "reset"
    /\ hist' = <<>> /\ dead' = {} /\ gmax' = 0
    /\ on' = FALSE /\ run' = {} /\ disk' = NoSnap /\ full' = {}

Save(t) ==
    /\ t.e = "save"
    /\ AppendBatch(t.st, <<[k |-> t.g, g |-> t.g, st |-> t.st, at |-> t.at, q |-> t.q]>>)
    /\ Count1(t.g) /\ UNCHANGED full

Del(t) ==
    /\ t.e = "del"
    /\ DeleteStream(t.st)
    /\ UNCHANGED projVars

\* starting from what X says
Begin(t, X) ==
    /\ StartFrom(X)
    /\ IF t.saves THEN Written(run') ELSE UNCHANGED disk

Start(t) ==
    /\ t.e = "start" /\ ~on /\ t.r = "ok"
    /\ \/ disk.st \in {"ok", "torn"} /\ Begin(t, disk.seen)
       \/ disk.st = "none" /\ Begin(t, {})
       \/ disk.st = "torn" /\ t.said /\ Begin(t, {})
    /\ UNCHANGED <<logVars, full>>

Stop(t) ==
    /\ t.e = "stop"
    /\ on' = FALSE /\ run' = {}
    /\ UNCHANGED <<logVars, disk, full>>

\* the snapshot was written by request
Snap(t) ==
    /\ t.e = "snap"
    /\ IF t.r = "ok"
       THEN ~t.cut /\ on /\ Written(Firsts(run, t.least))
       ELSE /\ t.cut
            /\ disk' = [st |-> "torn", seen |-> disk.seen]
    /\ UNCHANGED <<logVars, on, run, full>>

Tear(t) ==
    /\ t.e = "tear"
    /\ disk' = IF t.gone THEN NoSnap ELSE [st |-> "torn", seen |-> disk.seen]
    /\ UNCHANGED <<logVars, on, run, full>>

Peek(t) ==
    /\ t.e = "peek"
    /\ CASE t.r = "err" -> disk.st \in {"none", "torn"} /\ disk' = NoSnap
         [] t.r = "ok" ->
              LET X == IF disk.st = "some" THEN Firsts(run, t.total) ELSE disk.seen IN
              /\ disk.st # "none"
              /\ disk.seen \subseteq X
              /\ Shows(t, X)
              /\ disk' = [st |-> "ok", seen |-> X]
    /\ UNCHANGED <<logVars, on, run, full>>

Stats(t) ==
    /\ t.e = "stats"
    /\ on
    /\ Shows(t, run)
    /\ UNCHANGED <<logVars, projVars>>

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET t == Trace[l] IN
       Reset(t) \/ Save(t) \/ Del(t) \/ Start(t) \/ Stop(t) \/ Snap(t) \/ Tear(t) \/ Peek(t) \/ Stats(t)

Spec == Init /\ [][Next]_vars

Progress ==
    /\ (IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE)
    /\ (IF l = Len(Trace) + 1 THEN PrintT("TRACE-ACCEPTED") /\ TLCSet("exit", TRUE) ELSE TRUE)
ASSUME TLCSet(1, 0)
Report == PrintT(<<"MAXLINE", TLCGet(1)>>)
=============================================================================
