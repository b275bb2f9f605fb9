------------------------------- MODULE Reads -------------------------------
(***************************************************************************)
(* Design model of reading next to writing: a store's lock lets waiting    *)
(* writers go before new readers; a reader takes a view of the log and is  *)
(* then consumed, at any pace, or never (abandoned), or until its context  *)
(* is cancelled; a read of several types is one reader per type, begun one *)
(* after the other.  Checked: every write, every read that is consumed and *)
(* every close of the store ends, and reads of several types are a cut of  *)
(* the log.                                                                *)
(* Bug selects a design that was or would be wrong:                        *)
(*   "hold"     the read lock is held until the last event is consumed     *)
(*   "relock"   as hold, and the second type's reader takes the lock again *)
(*   "apart"    the parts of a read take their views one by one, unlocked  *)
(*   "waitall"  closing waits for readers without telling them             *)
(*   "silent"   a read that is cut off by closing ends as if complete      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Readers, Writers, Writes, Bug

VARIABLES
    log,        \* types "a"/"b" of the events
    readLocks,  \* number of read locks held, per reader
    writer,     \* writer holding the lock, or "none"
    waiting,    \* writers that wait for the lock (new readers queue behind)
    wpc,        \* writers: "idle" "wait" "done"
    pc,         \* readers: "idle" "view1" "view2" "open" "left" "ended"
    view,       \* what a reader will hand out: <<of a, of b>>
    got,        \* number handed out
    result,     \* "", "ok", "err"
    store       \* "up" "closing" "closed"

vars == <<log, readLocks, writer, waiting, wpc, pc, view, got, result, store>>
Holds == Bug \in {"hold", "relock"}

Init ==
    /\ log = <<>> /\ readLocks = [r \in Readers |-> 0] /\ writer = "none" /\ waiting = {}
    /\ wpc = [w \in Writers |-> "idle"] /\ pc = [r \in Readers |-> "idle"]
    /\ view = [r \in Readers |-> <<0, 0>>] /\ got = [r \in Readers |-> 0] /\ result = [r \in Readers |-> ""]
    /\ store = "up"

NoReadLock == \A r \in Readers : readLocks[r] = 0
\* Go's RWMutex: a waiting writer keeps new readers out
MayReadLock == writer = "none" /\ waiting = {}

Ask(w) == wpc[w] = "idle" /\ store = "up" /\ Len(log) < Writes
          /\ wpc' = [wpc EXCEPT ![w] = "wait"] /\ waiting' = waiting \cup {w}
          /\ UNCHANGED <<log, readLocks, writer, pc, view, got, result, store>>
Write(w, t) == wpc[w] = "wait" /\ writer = "none" /\ NoReadLock
          /\ log' = (IF store = "up" THEN Append(log, t) ELSE log)
          /\ wpc' = [wpc EXCEPT ![w] = "idle"] /\ waiting' = waiting \ {w}
          /\ UNCHANGED <<readLocks, writer, pc, view, got, result, store>>

CountOf(t) == Cardinality({i \in DOMAIN log : log[i] = t})
Begin(r) == pc[r] = "idle" /\ store = "up" /\ (MayReadLock \/ Bug = "apart")
          /\ view' = [view EXCEPT ![r] = (IF Bug \in {"apart", "relock"} THEN <<CountOf("a"), 0>> ELSE <<CountOf("a"), CountOf("b")>>)]
          /\ readLocks' = [readLocks EXCEPT ![r] = IF Holds THEN 1 ELSE 0]
          /\ pc' = [pc EXCEPT ![r] = IF Bug \in {"apart", "relock"} THEN "view2" ELSE "open"]
          /\ UNCHANGED <<log, writer, waiting, wpc, got, result, store>>
Second(r) == pc[r] = "view2" /\ (MayReadLock \/ Bug = "apart")
          /\ view' = [view EXCEPT ![r][2] = CountOf("b")]
          /\ readLocks' = [readLocks EXCEPT ![r] = IF Holds THEN 2 ELSE 0]
          /\ pc' = [pc EXCEPT ![r] = "open"]
          /\ UNCHANGED <<log, writer, waiting, wpc, got, result, store>>
Size(r) == view[r][1] + view[r][2]
Consume(r) == pc[r] = "open" /\ got[r] < Size(r)
          /\ got' = [got EXCEPT ![r] = @ + 1]
          /\ UNCHANGED <<log, readLocks, writer, waiting, wpc, pc, view, result, store>>
End(r) == pc[r] = "open" /\ got[r] = Size(r)
          /\ pc' = [pc EXCEPT ![r] = "ended"] /\ result' = [result EXCEPT ![r] = "ok"]
          /\ readLocks' = [readLocks EXCEPT ![r] = 0]
          /\ UNCHANGED <<log, writer, waiting, wpc, view, got, store>>
Abandon(r) == pc[r] = "open" /\ pc' = [pc EXCEPT ![r] = "left"]
          /\ UNCHANGED <<log, readLocks, writer, waiting, wpc, view, got, result, store>>

\* closing: readers that are not done are told (and end with an error)
Close == store = "up" /\ waiting = {} /\ store' = "closing"
          /\ UNCHANGED <<log, readLocks, writer, waiting, wpc, pc, view, got, result>>
CutOff(r) == store = "closing" /\ pc[r] \in {"open", "left", "view2"} /\ Bug # "waitall"
          /\ pc' = [pc EXCEPT ![r] = "ended"]
          /\ result' = [result EXCEPT ![r] = IF got[r] = Size(r) \/ Bug = "silent" THEN "ok" ELSE "err"]
          /\ readLocks' = [readLocks EXCEPT ![r] = 0]
          /\ UNCHANGED <<log, writer, waiting, wpc, view, got, store>>
Closed == store = "closing" /\ \A r \in Readers : pc[r] \in {"idle", "ended"}
          /\ store' = "closed"
          /\ UNCHANGED <<log, readLocks, writer, waiting, wpc, pc, view, got, result>>

Next ==
    \/ \E w \in Writers : Ask(w) \/ \E t \in {"a", "b"} : Write(w, t)
    \/ \E r \in Readers : Begin(r) \/ Second(r) \/ Consume(r) \/ End(r) \/ Abandon(r) \/ CutOff(r)
    \/ Close \/ Closed
Spec == /\ Init /\ [][Next]_vars
        /\ \A w \in Writers : WF_vars(Write(w, "a"))
        /\ \A r \in Readers : WF_vars(Second(r)) /\ WF_vars(Consume(r) \/ Abandon(r)) /\ WF_vars(End(r)) /\ WF_vars(CutOff(r))
        /\ WF_vars(Closed)

\* a view is what the log held at one moment
Moment(r) == \E n \in 0..Len(log) : /\ view[r][1] = Cardinality({i \in 1..n : log[i] = "a"})
                                    /\ view[r][2] = Cardinality({i \in 1..n : log[i] = "b"})
WholeViews == \A r \in Readers : pc[r] \in {"open", "ended"} => Moment(r)
Honest == \A r \in Readers : result[r] = "ok" => got[r] = Size(r)
Inv == WholeViews /\ Honest

WritersGetIn == \A w \in Writers : wpc[w] = "wait" ~> wpc[w] # "wait"
CloseEnds == store = "closing" ~> store = "closed"
ReadsGoOn == \A r \in Readers : pc[r] = "view2" ~> pc[r] # "view2"
=============================================================================
