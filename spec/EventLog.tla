------------------------------ MODULE EventLog ------------------------------
(***************************************************************************)
(* The abstract event log every store provides: a history of events in     *)
(* global order, of which some were deleted again (with their stream).     *)
(* A record has at least the fields                                        *)
(*    g  global position     st  stream name     at  aggregate type        *)
(*    q  position in stream  k   identity                                  *)
(* All reads are functions of this state; all stores, layers and services  *)
(* of rangedb are checked against it.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

VARIABLES
    hist,   \* sequence of records, in the order their saves took effect
    dead,   \* global positions of deleted events
    gmax    \* highest global position ever assigned

logVars == <<hist, dead, gmax>>

LogInit == hist = <<>> /\ dead = {} /\ gmax = 0

Live            == SelectSeq(hist, LAMBDA r : r.g \notin dead)
StreamEvents(s) == SelectSeq(hist, LAMBDA r : r.g \notin dead /\ r.st = s)
LastSeq(s)      == Len(StreamEvents(s))
Exists(s)       == LastSeq(s) > 0

(* What reads return. *)
ReadAll(n)       == SelectSeq(hist, LAMBDA r : r.g \notin dead /\ r.g >= n)
ReadTypes(T, n)  == SelectSeq(hist, LAMBDA r : r.g \notin dead /\ r.g >= n /\ r.at \in T)
ReadStream(s, n) == SelectSeq(hist, LAMBDA r : r.g \notin dead /\ r.st = s /\ r.q >= n)

(* A batch is well formed if it continues its stream and the global order. *)
Continues(s, recs) ==
    \A i \in 1..Len(recs) :
        /\ recs[i].st = s
        /\ recs[i].q = LastSeq(s) + i
        /\ recs[i].g > (IF i = 1 THEN gmax ELSE recs[i-1].g)

(* A save taking effect: the whole batch, at once. *)
AppendBatch(s, recs) ==
    /\ recs # <<>>
    /\ Continues(s, recs)
    /\ hist' = hist \o recs
    /\ gmax' = recs[Len(recs)].g
    /\ UNCHANGED dead

(* Deleting a stream taking effect. Positions are not released. *)
DeleteStream(s) ==
    /\ Exists(s)
    /\ dead' = dead \cup {r.g : r \in ToSet(StreamEvents(s))}
    /\ UNCHANGED <<hist, gmax>>

(*************************** properties of the log *************************)
Ordered(x) == \A i, j \in 1..Len(x) : i < j => x[i].g < x[j].g

\* P01: every live event is in the whole read, its stream and its type exactly once
ViewsAgree ==
    /\ Ordered(ReadAll(0))
    /\ \A r \in ToSet(Live) :
         /\ Cardinality({i \in DOMAIN ReadAll(0) : ReadAll(0)[i].g = r.g}) = 1
         /\ Cardinality({i \in DOMAIN ReadStream(r.st, 0) : ReadStream(r.st, 0)[i].g = r.g}) = 1
         /\ Cardinality({i \in DOMAIN ReadTypes({r.at}, 0) : ReadTypes({r.at}, 0)[i].g = r.g}) = 1
    /\ \A r \in ToSet(Live) : \A n \in 0..(gmax + 1) :
         /\ (r \in ToSet(ReadAll(n))) = (r.g >= n)
         /\ (r \in ToSet(ReadStream(r.st, n))) = (r.q >= n)

\* P02: gapless stream positions, unique global positions bounded by gmax
GaplessStreams ==
    \A r \in ToSet(Live) : LET x == StreamEvents(r.st) IN \A i \in 1..Len(x) : x[i].q = i
GlobalUnique ==
    /\ Ordered(hist)
    /\ \A r \in ToSet(hist) : r.g <= gmax

LogInv == ViewsAgree /\ GaplessStreams /\ GlobalUnique

\* history is append only, deletions are final, positions never decrease
LogStep == [][/\ IsPrefix(hist, hist')
              /\ dead \subseteq dead'
              /\ gmax <= gmax'
              /\ \A g \in dead : \A i \in (Len(hist)+1)..Len(hist') : hist'[i].g # g]_logVars
=============================================================================
