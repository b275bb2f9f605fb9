----------------------------- MODULE Projection -----------------------------
(***************************************************************************)
(* The statistics of a service: it counts every event delivered to it, may *)
(* be stopped and started again, and then continues from its snapshot.     *)
(* Extends the event log: run and disk are sets of counted positions.      *)
(***************************************************************************)
EXTENDS EventLog

VARIABLES
    on,     \* is the service running?
    run,    \* positions of the events it counted
    disk,   \* the snapshot: st "none" | "ok" | "some" | "torn", seen, and (for
            \* "some": written while events arrived) the least it contains
    full    \* what a service that never stopped since the first start would have counted

projVars == <<on, run, disk, full>>
NoSnap == [st |-> "none", seen |-> {}]

ProjInit == on = FALSE /\ run = {} /\ disk = NoSnap /\ full = {}

LiveG  == {r.g : r \in ToSet(Live)}
Top(X) == IF X = {} THEN 0 ELSE CHOOSE g \in X : \A h \in X : h <= g
\* continuing from a snapshot: everything in the log after its latest position
Resume(X) == X \cup {g \in LiveG : g > Top(X)}

RecOf(g) == CHOOSE r \in ToSet(hist) : r.g = g
Count(X, t) == Cardinality({g \in X : RecOf(g).at = t})
TypesOf(X)  == {RecOf(g).at : g \in X}
Firsts(X, n) == {g \in X : Cardinality({h \in X : h <= g}) <= n}

\* an event is saved; a running service counts it
Count1(g) ==
    /\ run' = IF on THEN run \cup {g} ELSE run
    /\ UNCHANGED <<on, disk>>

\* the service starts: from an exact snapshot, or from nothing
StartFrom(X) ==
    /\ on' = TRUE
    /\ run' = Resume(X)

\* a snapshot was written while the service runs: at least X is in it
Written(X) == disk' = [st |-> "some", seen |-> X]
=============================================================================
