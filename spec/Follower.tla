------------------------------ MODULE Follower ------------------------------
(***************************************************************************)
(* Design model of a program that follows a log over connections that      *)
(* break: it connects again and asks for what it does not have. Deleted    *)
(* events need not be delivered; everything else is, once and in order.    *)
(* Bug selects a design that was or would be wrong:                        *)
(*   "last"    it asks from the last event it has (the original program)   *)
(*   "forget"  it counts what was sent as received                         *)
(*   "skip"    it asks from after the event following the last one         *)
(*   "reset"   it asks from the beginning                                  *)
(*   "live"    it asks for what is saved from now on                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Saves, Deletes, Breaks, Room, Bug

VARIABLES log, gmax, saves, deletes, breaks,
    cursor,  \* what the server sends next on the connection; 0: no connection
    wire,    \* sent and not yet received
    pos,     \* what the program asks for when it connects
    out      \* what it printed

vars == <<log, gmax, saves, deletes, breaks, cursor, wire, pos, out>>

Init == /\ log = {} /\ gmax = 0 /\ saves = Saves /\ deletes = Deletes /\ breaks = Breaks
        /\ cursor = 0 /\ wire = <<>> /\ pos = 1 /\ out = <<>>

Save == /\ saves > 0 /\ saves' = saves - 1
        /\ gmax' = gmax + 1 /\ log' = log \cup {gmax + 1}
        /\ UNCHANGED <<deletes, breaks, cursor, wire, pos, out>>
Delete == /\ deletes > 0 /\ deletes' = deletes - 1
          /\ \E g \in log : log' = log \ {g}
          /\ UNCHANGED <<gmax, saves, breaks, cursor, wire, pos, out>>
Connect == /\ cursor = 0
           /\ cursor' = IF Bug = "live" /\ out # <<>> THEN gmax + 1 ELSE pos
           /\ UNCHANGED <<log, gmax, saves, deletes, breaks, wire, pos, out>>
\* the connection is lost, with what is on its way (or the server is)
Break == /\ cursor # 0 /\ breaks > 0 /\ breaks' = breaks - 1
         /\ cursor' = 0 /\ wire' = <<>>
         /\ pos' = IF Bug = "reset" THEN 1 ELSE pos
         /\ UNCHANGED <<log, gmax, saves, deletes, out>>
Ahead == {g \in log : g >= cursor}
Send == /\ cursor # 0 /\ Ahead # {} /\ Len(wire) < Room
        /\ LET g == CHOOSE x \in Ahead : \A y \in Ahead : x <= y IN
           /\ wire' = Append(wire, g) /\ cursor' = g + 1
           /\ pos' = IF Bug = "forget" THEN g + 1 ELSE pos
        /\ UNCHANGED <<log, gmax, saves, deletes, breaks, out>>
Receive == /\ wire # <<>>
           /\ wire' = Tail(wire) /\ out' = Append(out, Head(wire))
           /\ pos' = CASE Bug = "last" -> Head(wire) [] Bug = "skip" -> Head(wire) + 2 [] Bug = "forget" -> pos [] OTHER -> Head(wire) + 1
           /\ UNCHANGED <<log, gmax, saves, deletes, breaks, cursor>>

Next == Save \/ Delete \/ Connect \/ Break \/ Send \/ Receive
Spec == Init /\ [][Next]_vars /\ WF_vars(Connect) /\ WF_vars(Send) /\ WF_vars(Receive)

Once == \A i, j \in 1..Len(out) : i < j => out[i] < out[j]
\* what comes before something printed was printed or is deleted
NoGap == out # <<>> => \A g \in log : g < out[Len(out)] => \E i \in 1..Len(out) : out[i] = g
CaughtUp == []<>(\A g \in log : (\E i \in 1..Len(out) : out[i] = g) \/ saves > 0)
=============================================================================
