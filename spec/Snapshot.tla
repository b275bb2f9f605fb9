------------------------------ MODULE Snapshot ------------------------------
(***************************************************************************)
(* Design model of a projection with snapshots: events are saved and come  *)
(* in one by one through a subscription; a snapshot is written while they  *)
(* come in, in two steps (the counts, the file); the process may be killed *)
(* at any step, and then continues from the file, or from nothing if the   *)
(* file can not be read.  Checked: when the service is at rest it counted  *)
(* every event exactly once, however often it was started.                 *)
(* Bug: "lastfirst"  the latest position is taken before the counts        *)
(*      "countfirst" the counts are taken before the latest position       *)
(*      "again"      continuing at the latest position, not after it       *)
(*      "keep"       an unreadable snapshot leaves its part in the counts  *)
(*      "trust"      an unreadable snapshot's position is believed         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Types, Saves, Kills, Bug

VARIABLES log, counts, last, on, tmp, file, kills
vars == <<log, counts, last, on, tmp, file, kills>>

Zero == [t \in Types |-> 0]
NoFile == [ok |-> FALSE, part |-> Zero, counts |-> Zero, last |-> 0]
Init == log = <<>> /\ counts = Zero /\ last = 0 /\ on = FALSE /\ tmp = <<>> /\ file = NoFile /\ kills = 0

Save(t) == Len(log) < Saves /\ log' = Append(log, t) /\ UNCHANGED <<counts, last, on, tmp, file, kills>>

Start ==
    /\ ~on /\ on' = TRUE
    /\ counts' = IF file.ok THEN file.counts ELSE IF Bug = "keep" THEN file.part ELSE Zero
    /\ last' = IF file.ok THEN (IF Bug = "again" /\ file.last > 0 THEN file.last - 1 ELSE file.last)
               ELSE IF Bug = "trust" THEN file.last ELSE 0
    /\ tmp' = <<>> /\ UNCHANGED <<log, file, kills>>

Accept ==
    /\ on /\ last < Len(log)
    /\ last' = last + 1
    /\ counts' = [counts EXCEPT ![log[last + 1]] = @ + 1]
    /\ UNCHANGED <<log, on, tmp, file, kills>>

\* taking a snapshot: from here the file is torn
Take ==
    /\ on /\ tmp = <<>>
    /\ tmp' = <<counts, last>>
    /\ file' = [ok |-> FALSE, part |-> counts, counts |-> Zero, last |-> last]
    /\ UNCHANGED <<log, counts, last, on, kills>>
Write ==
    /\ on /\ tmp # <<>>
    /\ file' = [ok |-> TRUE, part |-> Zero,
                counts |-> IF Bug = "lastfirst" THEN counts ELSE tmp[1],
                last   |-> IF Bug = "countfirst" THEN last ELSE tmp[2]]
    /\ tmp' = <<>> /\ UNCHANGED <<log, counts, last, on, kills>>

Kill == on /\ kills < Kills /\ kills' = kills + 1 /\ on' = FALSE /\ tmp' = <<>> /\ UNCHANGED <<log, counts, last, file>>

Next == (\E t \in Types : Save(t)) \/ Start \/ Accept \/ Take \/ Write \/ Kill
Spec == Init /\ [][Next]_vars
Sum == [t \in Types |-> Cardinality({i \in 1..Len(log) : log[i] = t})]
Exact == (on /\ last = Len(log)) => counts = Sum
Live == Spec /\ WF_vars(Start) /\ WF_vars(Accept)
CatchesUp == <>[](on /\ last = Len(log))
Perms == Permutations(Types)
=============================================================================
