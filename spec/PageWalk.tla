------------------------------ MODULE PageWalk ------------------------------
(***************************************************************************)
(* Design model of paging through a growing and shrinking log: a visitor   *)
(* follows Next and Previous between any saves and deletions of streams.   *)
(* A page is computed from where it begins and the pages before; the links *)
(* are all the memory there is. Checked exhaustively.                      *)
(* Bug selects a design that was or would be wrong:                        *)
(*   "offset"    pages begin after a number of events, not at a position   *)
(*   "full"      Next is offered when the page is full                     *)
(*   "shownlast" the next page begins at the last event shown              *)
(*   "recompute" Previous leads to as many events before this page         *)
(*   "oneback"   only the page before is remembered                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Streams, Saves, Deletes, Steps, Per, Bug

VARIABLES log, gmax, saves, deletes, steps,
    from, back, page, next,  \* where the page begins, pages before, what it shows, Next or 0
    seen,      \* shown by following Next since the walk began, in order
    began,     \* events there were when the walk began
    trail,     \* where the pages of the walk began (what Previous must lead back to)
    fits       \* the last page agreed with the log

vars == <<log, gmax, saves, deletes, steps, from, back, page, next, seen, began, trail, fits>>

Init == /\ log = <<>> /\ gmax = 0 /\ saves = Saves /\ deletes = Deletes /\ steps = Steps
        /\ from = -1 /\ back = <<>> /\ page = <<>> /\ next = 0 /\ seen = <<>> /\ began = {} /\ trail = <<>> /\ fits = TRUE

Min(a, b) == IF a < b THEN a ELSE b
G(s) == {s[i].g : i \in 1..Len(s)}

Save == /\ saves > 0 /\ saves' = saves - 1 /\ gmax' = gmax + 1
        /\ \E s \in Streams : log' = Append(log, [g |-> gmax + 1, s |-> s])
        /\ UNCHANGED <<deletes, steps, from, back, page, next, seen, began, trail, fits>>
Delete == /\ deletes > 0 /\ deletes' = deletes - 1
          /\ \E s \in Streams : log' = SelectSeq(log, LAMBDA x : x.s # s)
          /\ UNCHANGED <<gmax, saves, steps, from, back, page, next, seen, began, trail, fits>>

Rest(f) == IF Bug = "offset" THEN SubSeq(log, f + 1, Len(log)) ELSE SelectSeq(log, LAMBDA x : x.g >= f)
Show(f) == SubSeq(Rest(f), 1, Min(Per, Len(Rest(f))))
NextOf(f) ==
    LET R == Rest(f) IN
    IF Bug = "offset" THEN (IF Len(R) > Per THEN f + Per ELSE 0)
    ELSE IF Bug = "full" THEN (IF Len(R) >= Per THEN R[Per].g + 1 ELSE 0)
    ELSE IF Len(R) > Per THEN (IF Bug = "shownlast" THEN R[Per].g ELSE R[Per + 1].g) ELSE 0

Visit(f, b) ==
    /\ steps > 0 /\ steps' = steps - 1
    /\ from' = f /\ back' = b /\ page' = Show(f) /\ next' = NextOf(f)
    \* Next is offered exactly if there is more than the page shows
    /\ fits' = ((NextOf(f) # 0) = (\E i \in 1..Len(log) : log[i].g > (IF Show(f) = <<>> THEN gmax ELSE Show(f)[Len(Show(f))].g)))
    /\ UNCHANGED <<log, gmax, saves, deletes>>

Open == /\ Visit(0, <<>>) /\ seen' = Show(0) /\ began' = G(log) /\ trail' = <<0>>
Forward == /\ next # 0 /\ Visit(next, IF Bug = "oneback" THEN <<from>> ELSE Append(back, from))
           /\ seen' = seen \o Show(next) /\ trail' = Append(trail, next) /\ UNCHANGED began
\* going back, the walk is over as far as completeness goes
Backward == /\ IF Bug = "recompute" THEN Len(trail) > 1 ELSE back # <<>>
            /\ LET B == SelectSeq(log, LAMBDA x : x.g < from)
                   f == IF Bug = "recompute" THEN (IF Len(B) <= Per THEN 0 ELSE B[Len(B) - Per + 1].g) ELSE back[Len(back)]
               IN Visit(f, IF Bug = "recompute" THEN back ELSE SubSeq(back, 1, Len(back) - 1))
            /\ trail' = SubSeq(trail, 1, Len(trail) - 1)
            /\ seen' = <<>> /\ began' = {}

Next == Save \/ Delete \/ Open \/ Forward \/ Backward
Spec == Init /\ [][Next]_vars

Fits == fits
\* in order, nothing twice
Once == \A i \in 1..Len(seen), j \in 1..Len(seen) : i < j => seen[i].g < seen[j].g
\* at the end nothing that was and is there was skipped
Everything == (from >= 0 /\ next = 0 /\ seen # <<>>) => \A g \in began \cap G(log) : g \in G(seen)
\* Previous leads to the page before, and there is one exactly if the visitor came from one
BackAgain == from >= 0 => (from = trail[Len(trail)] /\ (Bug # "recompute" => (back # <<>>) = (Len(trail) > 1)))
=============================================================================
