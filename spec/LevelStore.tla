----------------------------- MODULE LevelStore -----------------------------
(***************************************************************************)
(* Design model of the LevelDB store: what it keeps on disk (a counter,    *)
(* the events by stream and position, and two indexes that point there),   *)
(* the writes a save or delete consists of, a crash between any two steps, *)
(* and readers that follow an index while others write.  It refines        *)
(* EventLog: the abstract log steps exactly when a transaction commits,    *)
(* and what is on disk always reads like the abstract log (Agrees).        *)
(* Bug selects a design that was or would be wrong:                        *)
(*   "split"      the counter is written after the commit                  *)
(*   "direct"     a save writes event by event without a transaction       *)
(*   "chunks"     a delete commits after each event                        *)
(*   "recount"    the next position is the number of events                *)
(*   "noindex"    a delete leaves the type index                           *)
(*   "nodiscard"  a delete that is refused keeps the transaction open      *)
(*   "liveread"   a reader looks events up in the present state            *)
(*   "bare"       no lock: sequence numbers are read before               *)
(***************************************************************************)
EXTENDS EventLog, TLC

CONSTANTS Clients, Streams, Types, Saves, MaxBatch, Bug, Readers

VARIABLES
    disk,     \* committed: [ctr, ev, all, typ]
    tx,       \* the open transaction: "none" or a disk state and who owns it
    lock,     \* holder of the store's mutex or "free"
    pc, arg,  \* clients: step and arguments of their call
    rd,       \* readers: [idx, snap, out, want, left], see Read
    up,       \* the process is running
    n         \* saves begun

ghost == <<hist, dead, gmax>>
vars == <<hist, dead, gmax, disk, tx, lock, pc, arg, rd, up, n>>

Empty == [ctr |-> 0, ev |-> {}, all |-> {}, typ |-> {}]
\* ev: records; all: <<g, st, q>>; typ: <<at, g, st, q>>

Init ==
    /\ LogInit /\ disk = Empty /\ tx = <<>> /\ lock = "free" /\ up = TRUE /\ n = 0
    /\ pc = [c \in Clients |-> "idle"]
    /\ arg = [c \in Clients |-> [s |-> 0, t |-> 0, m |-> 0, exp |-> -1, q |-> 0, recs |-> <<>>]]
    /\ rd = [r \in Readers |-> [on |-> FALSE]]

PosIn(d, s) == Cardinality({r \in d.ev : r.st = s})
Put(d, r) == [d EXCEPT !.ctr = IF Bug = "split" THEN @ ELSE r.g, !.ev = @ \cup {r},
                       !.all = @ \cup {<<r.g, r.st, r.q>>}, !.typ = @ \cup {<<r.at, r.g, r.st, r.q>>}]
Drop(d, rs) == [d EXCEPT !.ev = @ \ rs,
                         !.all = {x \in @ : \A r \in rs : <<r.g, r.st, r.q>> # x},
                         !.typ = IF Bug = "noindex" THEN @ ELSE {x \in @ : \A r \in rs : <<r.at, r.g, r.st, r.q>> # x}]
NextG(d) == IF Bug = "recount" THEN Cardinality(d.ev) + 1 ELSE d.ctr + 1

-----------------------------------------------------------------------------
\* A call begins: it needs the mutex, and LevelDB has one transaction at a time.
BeginSave(c, s, t, m, exp) ==
    /\ up /\ pc[c] = "idle" /\ n < Saves /\ tx = <<>>
    /\ lock = "free" \/ Bug = "bare"
    /\ n' = n + 1
    /\ lock' = IF Bug = "bare" THEN lock ELSE c
    /\ arg' = [arg EXCEPT ![c] = [s |-> s, t |-> t, m |-> m, exp |-> exp, q |-> PosIn(disk, s), recs |-> <<>>]]
    /\ pc' = [pc EXCEPT ![c] = "open"]
    /\ UNCHANGED <<ghost, disk, tx, rd, up>>

Open(c) ==
    /\ up /\ pc[c] = "open" /\ tx = <<>>
    /\ tx' = <<c, disk>>
    /\ pc' = [pc EXCEPT ![c] = "save"]
    /\ UNCHANGED <<ghost, disk, lock, arg, rd, up, n>>

\* the next event of the batch; or the call is refused or fails here
SaveOne(c) ==
    /\ up /\ pc[c] = "save" /\ Len(arg[c].recs) < arg[c].m
    /\ LET a == arg[c]
           d == tx[2]
           q == IF Bug = "bare" THEN a.q + Len(a.recs) ELSE PosIn(d, a.s)
           g == NextG(IF Bug = "split" THEN [d EXCEPT !.ctr = @ + Len(a.recs)] ELSE d)
           r == [k |-> g, g |-> g, st |-> a.s, at |-> a.t, q |-> q + 1]
       IN IF a.exp >= 0 /\ a.exp + Len(a.recs) # q
          THEN /\ pc' = [pc EXCEPT ![c] = "abort"] /\ UNCHANGED <<tx, arg, disk>>
          ELSE /\ arg' = [arg EXCEPT ![c].recs = Append(@, r)]
               /\ tx' = <<c, Put(d, r)>>
               /\ disk' = IF Bug = "direct" THEN Put(d, r) ELSE disk
               /\ UNCHANGED pc
    /\ UNCHANGED <<ghost, lock, rd, up, n>>

Fail(c) ==  \* an event that can not be serialized, a cancelled context
    /\ up /\ pc[c] = "save" /\ Len(arg[c].recs) < arg[c].m
    /\ pc' = [pc EXCEPT ![c] = "abort"]
    /\ UNCHANGED <<ghost, disk, tx, lock, arg, rd, up, n>>

Abort(c) ==
    /\ up /\ pc[c] = "abort"
    /\ tx' = IF Bug = "nodiscard" /\ arg[c].m = 0 THEN tx ELSE <<>>
    /\ lock' = IF lock = c THEN "free" ELSE lock
    /\ pc' = [pc EXCEPT ![c] = "idle"]
    /\ UNCHANGED <<ghost, disk, arg, rd, up, n>>

Commit(c) ==
    /\ up /\ pc[c] = "save" /\ Len(arg[c].recs) = arg[c].m
    /\ disk' = tx[2] /\ tx' = <<>>
    /\ hist' = hist \o arg[c].recs /\ gmax' = arg[c].recs[arg[c].m].g /\ UNCHANGED dead
    /\ IF Bug = "split" THEN pc' = [pc EXCEPT ![c] = "count"] /\ UNCHANGED lock
       ELSE pc' = [pc EXCEPT ![c] = "idle"] /\ lock' = IF lock = c THEN "free" ELSE lock
    /\ UNCHANGED <<arg, rd, up, n>>

Count(c) ==
    /\ up /\ pc[c] = "count"
    /\ disk' = [disk EXCEPT !.ctr = @ + arg[c].m]
    /\ pc' = [pc EXCEPT ![c] = "idle"] /\ lock' = IF lock = c THEN "free" ELSE lock
    /\ UNCHANGED <<ghost, tx, arg, rd, up, n>>

-----------------------------------------------------------------------------
BeginDel(c, s, exp) ==
    /\ up /\ pc[c] = "idle" /\ lock = "free" /\ tx = <<>> /\ PosIn(disk, s) > 0
    /\ lock' = c
    /\ arg' = [arg EXCEPT ![c] = [s |-> s, t |-> 0, m |-> 0, exp |-> exp, q |-> 0, recs |-> <<>>]]
    /\ pc' = [pc EXCEPT ![c] = IF exp = PosIn(disk, s) THEN "del" ELSE "abort"]
    /\ tx' = <<c, disk>>
    /\ UNCHANGED <<ghost, disk, rd, up, n>>

Del(c) ==
    /\ up /\ pc[c] = "del"
    /\ LET all == {r \in disk.ev : r.st = arg[c].s}
           rs  == IF Bug = "chunks" THEN {CHOOSE r \in all : \A x \in all : r.q <= x.q} ELSE all
       IN /\ disk' = Drop(disk, rs)
          /\ IF rs = all
             THEN /\ pc' = [pc EXCEPT ![c] = "idle"] /\ lock' = "free" /\ tx' = <<>>
                  /\ dead' = dead \cup {r.g : r \in ToSet(StreamEvents(arg[c].s))} /\ UNCHANGED <<hist, gmax>>
             ELSE UNCHANGED <<pc, lock, tx, ghost>>
    /\ UNCHANGED <<arg, rd, up, n>>

-----------------------------------------------------------------------------
\* The process is killed, what was committed remains, all calls are gone.
Crash ==
    /\ up /\ up' = FALSE
    /\ tx' = <<>> /\ lock' = "free"
    /\ pc' = [c \in Clients |-> "idle"]
    /\ rd' = [r \in Readers |-> [on |-> FALSE]]
    /\ UNCHANGED <<ghost, disk, arg, n>>
Restart == ~up /\ up' = TRUE /\ UNCHANGED <<ghost, disk, tx, lock, pc, arg, rd, n>>

-----------------------------------------------------------------------------
\* A reader takes the index of a type while it holds the read lock, and looks
\* the events up one by one, in the snapshot or (liveread) in what is there now.
Find(d, x) == {r \in d.ev : r.st = x[3] /\ r.q = x[4]}
StartRead(r, t) ==
    /\ up /\ ~rd[r].on /\ lock = "free"
    /\ LET idx == SetToSortSeq({x \in disk.typ : x[1] = t}, LAMBDA a, b : a[2] < b[2]) IN
       rd' = [rd EXCEPT ![r] = [on |-> TRUE, t |-> t, left |-> idx, snap |-> disk, out |-> <<>>,
                                want |-> ReadTypes({t}, 0), bad |-> FALSE]]
    /\ UNCHANGED <<ghost, disk, tx, lock, pc, arg, up, n>>
ReadOne(r) ==
    /\ up /\ rd[r].on /\ rd[r].left # <<>>
    /\ LET x == Head(rd[r].left)
           f == Find(IF Bug = "liveread" THEN disk ELSE rd[r].snap, x) IN
       rd' = [rd EXCEPT ![r].left = Tail(@), ![r].bad = @ \/ f = {},
                        ![r].out = IF f = {} THEN @ ELSE Append(@, CHOOSE y \in f : TRUE)]
    /\ UNCHANGED <<ghost, disk, tx, lock, pc, arg, up, n>>
EndRead(r) ==
    /\ up /\ rd[r].on /\ rd[r].left = <<>>
    /\ rd' = [rd EXCEPT ![r] = [on |-> FALSE]]
    /\ UNCHANGED <<ghost, disk, tx, lock, pc, arg, up, n>>

-----------------------------------------------------------------------------
Next ==
    \/ \E c \in Clients :
         \/ \E s \in Streams, t \in Types, m \in 1..MaxBatch : \E exp \in {-1, PosIn(disk, s)} \cup (IF m = 1 THEN {PosIn(disk, s) + 1} ELSE {}) :
                BeginSave(c, s, t, m, exp)
         \/ Open(c) \/ SaveOne(c) \/ Fail(c) \/ Abort(c) \/ Commit(c) \/ Count(c) \/ Del(c)
         \/ \E s \in Streams : \E exp \in {PosIn(disk, s), PosIn(disk, s) + 1} : BeginDel(c, s, exp)
    \/ Crash \/ Restart
    \/ \E r \in Readers : ReadOne(r) \/ EndRead(r) \/ \E t \in Types : StartRead(r, t)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* the disk reads like the log, by every way
ByIndex(ix) == UNION {Find(disk, <<0, 0, x[Len(x) - 1], x[Len(x)]>>) : x \in ix}
Agrees ==
    /\ disk.ev = ToSet(Live)
    /\ ByIndex(disk.all) = ToSet(Live) /\ Cardinality(disk.all) = Cardinality(ToSet(Live))
    /\ ByIndex(disk.typ) = ToSet(Live) /\ Cardinality(disk.typ) = Cardinality(ToSet(Live))
CounterAhead == (\A c \in Clients : pc[c] # "count") => disk.ctr = gmax

\* the abstract log takes its own steps only
IsLogStep ==
    \/ UNCHANGED ghost
    \/ \E s \in Streams : AppendBatch(s, SubSeq(hist', Len(hist) + 1, Len(hist')))
    \/ \E s \in Streams : DeleteStream(s)
Refines == [][IsLogStep]_ghost

\* a finished read is what the log was at some moment of it
ReadsWhole == \A r \in Readers : (rd[r].on /\ rd[r].left = <<>>) => (~rd[r].bad /\ rd[r].out = rd[r].want)

\* whoever wants to write can do so at some time
Usable == (lock = "free" /\ (\A c \in Clients : pc[c] \in {"idle"})) => tx = <<>>

Inv == LogInv /\ Agrees /\ CounterAhead /\ ReadsWhole /\ Usable
Perms == Permutations(Clients) \cup Permutations(Streams) \cup Permutations(Types)
=============================================================================
