---------------------------- MODULE Subscription ----------------------------
(***************************************************************************)
(* Design model of the subscriptions of a store, one step per thing that   *)
(* another goroutine can get in between: savers notify one broadcaster,    *)
(* which sends to the buffers of its subscribers; a subscriber first reads,*)
(* registers, reads again and then follows its buffer.  Checked            *)
(* exhaustively against the reading of the log in EventLogTrace: what a    *)
(* subscriber received is a gapless run of the events it matches.          *)
(* Bug selects a design that was or would be wrong:                        *)
(*   "notifylate"   savers notify after releasing the lock                 *)
(*   "reglast"      registering after the second read                      *)
(*   "onceread"     no second read                                         *)
(*   "nofilter"     what was read is not filtered from the buffer          *)
(*   "notreached"   a position not reached yet counts as passed            *)
(*   "onetype"      a subscriber that is too slow leaves one type only     *)
(*   "drop"         a subscriber that is too slow misses the event only    *)
(*   "keepgoing"    the position moves on although consuming failed        *)
(*   "laggard"      one that was given up still follows its buffer (found  *)
(*                  by this model, and then in the code)                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

CONSTANTS Savers, Subs, Types, Saves, BCap, QCap, Bug, MayFail

VARIABLES
    log,      \* aggregate types of the events, by position
    lock,     \* who holds the store: a saver, or "free"
    spc,      \* savers: "idle", "notify" (saved, still to be told to the broadcaster)
    mine,     \* position a saver has to announce
    queue,    \* positions on their way to the broadcaster
    cur,      \* position being sent, 0 none
    todo,     \* subscriptions <<sub, type>> it still has to be sent to
    reg,      \* registrations <<sub, type>>
    pc,       \* subscribers: "idle" "read1" "reg" "read2" "live" "done"
    from,     \* position asked for
    want,     \* sequence of types asked for
    left,     \* types still to be registered
    rd,       \* positions still to be handed over from a read
    last,     \* position handed over last
    buf,      \* buffer
    stopped,  \* subscriber was told to stop
    recv      \* what it received

vars == <<log, lock, spc, mine, queue, cur, todo, reg, pc, from, want, left, rd, last, buf, stopped, recv>>

Init ==
    /\ log = <<>> /\ lock = "free"
    /\ spc = [s \in Savers |-> "idle"] /\ mine = [s \in Savers |-> 0]
    /\ queue = <<>> /\ cur = 0 /\ todo = {} /\ reg = {}
    /\ pc = [u \in Subs |-> "idle"] /\ from = [u \in Subs |-> 0]
    /\ want = [u \in Subs |-> <<>>] /\ left = [u \in Subs |-> <<>>]
    /\ rd = [u \in Subs |-> <<>>] /\ last = [u \in Subs |-> 0]
    /\ buf = [u \in Subs |-> <<>>] /\ stopped = [u \in Subs |-> FALSE]
    /\ recv = [u \in Subs |-> <<>>]

subVars == <<pc, from, want, left, rd, last, buf, stopped, recv>>
netVars == <<queue, cur, todo, reg>>

-----------------------------------------------------------------------------
Save(s, t) ==
    /\ spc[s] = "idle" /\ lock = "free" /\ Len(log) < Saves
    /\ log' = Append(log, t)
    /\ lock' = IF Bug = "notifylate" THEN "free" ELSE s
    /\ spc' = [spc EXCEPT ![s] = "notify"]
    /\ mine' = [mine EXCEPT ![s] = Len(log) + 1]
    /\ UNCHANGED <<netVars, subVars>>

Notify(s) ==
    /\ spc[s] = "notify" /\ Len(queue) < QCap
    /\ queue' = Append(queue, mine[s])
    /\ spc' = [spc EXCEPT ![s] = "idle"]
    /\ lock' = IF lock = s THEN "free" ELSE lock
    /\ UNCHANGED <<log, mine, cur, todo, reg, subVars>>

-----------------------------------------------------------------------------
Take ==
    /\ cur = 0 /\ queue # <<>>
    /\ cur' = Head(queue) /\ queue' = Tail(queue)
    /\ todo' = {r \in reg : r[2] = log[Head(queue)]}
    /\ UNCHANGED <<log, lock, spc, mine, reg, subVars>>

Sent ==
    /\ cur # 0 /\ todo = {}
    /\ cur' = 0
    /\ UNCHANGED <<log, lock, spc, mine, queue, todo, reg, subVars>>

Send(r) ==
    /\ r \in todo
    /\ Len(buf[r[1]]) < BCap
    /\ buf' = [buf EXCEPT ![r[1]] = Append(@, cur)]
    /\ todo' = todo \ {r}
    /\ UNCHANGED <<log, lock, spc, mine, queue, cur, reg, pc, from, want, left, rd, last, stopped, recv>>

GiveUp(r) ==
    /\ r \in todo
    /\ Len(buf[r[1]]) = BCap
    /\ todo' = todo \ {r}
    /\ reg' = CASE Bug = "onetype" -> reg \ {r}
                [] Bug = "drop" -> reg
                [] OTHER -> {x \in reg : x[1] # r[1]}
    /\ stopped' = IF Bug = "drop" THEN stopped ELSE [stopped EXCEPT ![r[1]] = TRUE]
    /\ UNCHANGED <<log, lock, spc, mine, queue, cur, pc, from, want, left, rd, last, buf, recv>>

-----------------------------------------------------------------------------
Matching(u, n) == SelectSeq([i \in 1..Len(log) |-> i], LAMBDA i : i >= n /\ Contains(want[u], log[i]))

Begin(u, w, f) ==
    /\ pc[u] = "idle" /\ lock = "free"
    /\ want' = [want EXCEPT ![u] = w] /\ left' = [left EXCEPT ![u] = w]
    /\ from' = [from EXCEPT ![u] = f]
    /\ last' = [last EXCEPT ![u] = IF f > 0 /\ Bug # "notreached" THEN f - 1
                                   ELSE IF f > 0 /\ f > Len(log) THEN f ELSE 0]
    /\ rd' = [rd EXCEPT ![u] = SelectSeq([i \in 1..Len(log) |-> i], LAMBDA i : i >= f /\ Contains(w, log[i]))]
    /\ pc' = [pc EXCEPT ![u] = "read1"]
    /\ UNCHANGED <<log, lock, spc, mine, netVars, buf, stopped, recv>>

\* the next event of a read is handed over; or consuming it fails
HandOver(u) ==
    /\ pc[u] \in {"read1", "read2"} /\ rd[u] # <<>>
    /\ rd' = [rd EXCEPT ![u] = Tail(@)]
    /\ last' = [last EXCEPT ![u] = Head(rd[u])]
    /\ \/ recv' = [recv EXCEPT ![u] = Append(@, Head(rd[u]))] /\ UNCHANGED <<pc, reg>>
       \/ /\ MayFail /\ UNCHANGED recv
          /\ IF Bug = "keepgoing" THEN UNCHANGED <<pc, reg>>
             ELSE /\ pc' = [pc EXCEPT ![u] = "done"]
                  /\ reg' = reg
    /\ UNCHANGED <<log, lock, spc, mine, queue, cur, todo, from, want, left, buf, stopped>>

ReadDone(u) ==
    /\ rd[u] = <<>>
    /\ \/ /\ pc[u] = "read1" /\ Bug # "reglast" /\ UNCHANGED rd
          /\ pc' = [pc EXCEPT ![u] = "reg"]
       \/ /\ pc[u] = "read1" /\ Bug = "reglast" /\ lock = "free"
          /\ rd' = [rd EXCEPT ![u] = Matching(u, last[u] + 1)]
          /\ pc' = [pc EXCEPT ![u] = "read2"]
       \/ /\ pc[u] = "read2" /\ UNCHANGED rd
          /\ pc' = [pc EXCEPT ![u] = IF Bug = "reglast" THEN "reg" ELSE "live"]
    /\ UNCHANGED <<log, lock, spc, mine, netVars, from, want, left, last, buf, stopped, recv>>

\* the broadcaster registers a type only between two events
Register(u) ==
    /\ pc[u] = "reg" /\ left[u] # <<>> /\ cur = 0
    /\ reg' = reg \cup {<<u, Head(left[u])>>}
    /\ left' = [left EXCEPT ![u] = Tail(@)]
    /\ UNCHANGED <<log, lock, spc, mine, queue, cur, todo, pc, from, want, rd, last, buf, stopped, recv>>

Registered(u) ==
    /\ pc[u] = "reg" /\ left[u] = <<>>
    /\ IF Bug \in {"reglast", "onceread"}
       THEN pc' = [pc EXCEPT ![u] = "live"] /\ UNCHANGED rd
       ELSE /\ lock = "free"
            /\ rd' = [rd EXCEPT ![u] = Matching(u, last[u] + 1)]
            /\ pc' = [pc EXCEPT ![u] = "read2"]
    /\ UNCHANGED <<log, lock, spc, mine, netVars, from, want, left, last, buf, stopped, recv>>

Follow(u) ==
    /\ pc[u] = "live" /\ buf[u] # <<>>
    /\ Bug \in {"laggard", "onetype"} \/ ~stopped[u]
    /\ buf' = [buf EXCEPT ![u] = Tail(@)]
    /\ IF Head(buf[u]) <= last[u] /\ Bug # "nofilter"
       THEN UNCHANGED <<last, recv, pc>>
       ELSE /\ last' = [last EXCEPT ![u] = Head(buf[u])]
            /\ \/ recv' = [recv EXCEPT ![u] = Append(@, Head(buf[u]))] /\ UNCHANGED pc
               \/ /\ MayFail /\ UNCHANGED recv
                  /\ pc' = IF Bug = "keepgoing" THEN pc ELSE [pc EXCEPT ![u] = "done"]
    /\ UNCHANGED <<log, lock, spc, mine, netVars, from, want, left, rd, stopped>>

Notice(u) ==
    /\ pc[u] = "live" /\ stopped[u]
    /\ pc' = [pc EXCEPT ![u] = "done"]
    /\ UNCHANGED <<log, lock, spc, mine, netVars, from, want, left, rd, last, buf, stopped, recv>>

\* one that is done leaves, when the broadcaster is between two events
Leave(u) ==
    /\ pc[u] = "done" /\ cur = 0 /\ \E r \in reg : r[1] = u
    /\ reg' = {r \in reg : r[1] # u}
    /\ UNCHANGED <<log, lock, spc, mine, queue, cur, todo, subVars>>

Wants == {w \in UNION {[1..n -> Types] : n \in 1..2} : \A i, j \in DOMAIN w : i # j => w[i] # w[j]}

Next ==
    \/ \E s \in Savers : Notify(s) \/ \E t \in Types : Save(s, t)
    \/ Take \/ Sent \/ \E r \in todo : Send(r) \/ GiveUp(r)
    \/ \E u \in Subs : \/ \E w \in Wants : \E f \in 0..(Len(log) + 2) : Begin(u, w, f)
                       \/ HandOver(u) \/ ReadDone(u) \/ Register(u) \/ Registered(u)
                       \/ Follow(u) \/ Notice(u) \/ Leave(u)

Fairness ==
    /\ \A s \in Savers : WF_vars(Notify(s))
    /\ WF_vars(Take) /\ WF_vars(Sent) /\ \A r \in Subs \X Types : WF_vars(Send(r)) /\ WF_vars(GiveUp(r))
    /\ \A u \in Subs : WF_vars(HandOver(u)) /\ WF_vars(ReadDone(u)) /\ WF_vars(Registered(u))
                    /\ SF_vars(Register(u)) /\ WF_vars(Follow(u)) /\ WF_vars(Notice(u)) /\ WF_vars(Leave(u))

Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ Fairness

-----------------------------------------------------------------------------
\* P09, P10: what was received is a beginning of what is matched, in order, once
Gapless == \A u \in Subs : pc[u] # "idle" => IsPrefix(recv[u], Matching(u, from[u]))

\* P09: nothing is missing when everything came to rest
AtRest == /\ queue = <<>> /\ cur = 0 /\ \A s \in Savers : spc[s] = "idle"
Complete == \A u \in Subs :
    (AtRest /\ pc[u] = "live" /\ buf[u] = <<>> /\ ~stopped[u]) => recv[u] = Matching(u, from[u])

\* P12: nobody waits forever; P09: everything is received in the end, or the subscriber is done
SaversReturn == \A s \in Savers : spc[s] = "notify" ~> spc[s] = "idle"
Served == \A u \in Subs : \A i \in 1..Saves :
    (pc[u] \notin {"idle"} /\ i <= Len(log) /\ Contains(Matching(u, from[u]), i)) ~> (Contains(recv[u], i) \/ pc[u] = "done")

Perms == Permutations(Savers) \cup Permutations(Subs) \cup Permutations(Types)
=============================================================================
