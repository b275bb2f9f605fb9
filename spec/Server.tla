------------------------------- MODULE Server -------------------------------
(***************************************************************************)
(* The server program: requests over HTTP and gRPC on one store, kills,    *)
(* an orderly stop on interrupt, and the next start on what is left.       *)
(*   A request is sent, accepted by a handler, saved, answered.            *)
(*   The stop closes gRPC (requests under way are cut off), waits for the  *)
(*   HTTP requests under way, closes the store, and ends with status 0.    *)
(*   The statistics count what is stored, starting from their snapshot,    *)
(*   which is written when they have caught up at the start.               *)
(* Bug # "none" switches in one design mistake:                            *)
(*   fatal      the HTTP server ending is taken for a failure              *)
(*   nowait     HTTP requests under way are cut off                        *)
(*   storefirst the store is closed before the services                    *)
(*   early      a request is answered before it is saved                   *)
(*   nocatchup  the statistics take up with what is saved from now on      *)
(*   ahead      the snapshot names a later position than it counted        *)
(*   shared     a second program may use the directory of a running one    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Web, Rpc,     \* requests
          Lives,        \* how often the program is started
          Bug

Requests == Web \cup Rpc

VARIABLES
    req,     \* request -> "new", "accepted", "saved", "ok", "cut"
    log,     \* what is stored: sequence of requests
    phase,   \* "up", "norpc", "noweb", "closed", "down"
    code,    \* exit status of the latest end: 0, 1, or -1 (killed)
    life,
    count,   \* what the statistics counted
    seen,    \* position up to which they did
    snap,    \* [count, pos] on disk
    second   \* a second program runs on the same directory
vars == <<req, log, phase, code, life, count, seen, snap, second>>

Init ==
    /\ req = [r \in Requests |-> "new"] /\ log = <<>>
    /\ phase = "up" /\ code = 0 /\ life = 1
    /\ count = 0 /\ seen = 0 /\ snap = [count |-> 0, pos |-> 0] /\ second = FALSE

Up(r) == IF r \in Web THEN phase \in {"up", "norpc"} ELSE phase = "up"
Running(r) == IF r \in Web THEN phase \notin {"down"} ELSE phase = "up"
StoreOpen == phase \notin {"closed", "down"} /\ ~(Bug = "storefirst" /\ phase # "up")

Accept(r) ==
    /\ req[r] = "new" /\ Up(r)
    /\ req' = [req EXCEPT ![r] = "accepted"]
    /\ UNCHANGED <<log, phase, code, life, count, seen, snap, second>>

\* (a handler whose connection is gone may still save)
Save(r) ==
    /\ req[r] \in {"accepted"} \/ (req[r] = "cut" /\ r \notin {log[i] : i \in 1..Len(log)} /\ phase # "up")
    /\ phase # "down"
    /\ IF StoreOpen
       THEN /\ log' = Append(log, r)
            /\ req' = [req EXCEPT ![r] = IF @ = "cut" THEN "cut" ELSE IF Bug = "early" /\ @ = "accepted" THEN "ok" ELSE "saved"]
       ELSE /\ req[r] = "accepted"
            /\ req' = [req EXCEPT ![r] = "cut"]
            /\ UNCHANGED log
    /\ UNCHANGED <<phase, code, life, count, seen, snap, second>>

Answer(r) ==
    /\ req[r] = (IF Bug = "early" THEN "accepted" ELSE "saved") /\ Running(r)
    /\ req' = [req EXCEPT ![r] = "ok"]
    /\ UNCHANGED <<log, phase, code, life, count, seen, snap, second>>

\* the statistics follow the store
Count ==
    /\ phase \in {"up", "norpc"} /\ seen < Len(log)
    /\ count' = count + 1 /\ seen' = seen + 1
    /\ UNCHANGED <<req, log, phase, code, life, snap, second>>

Snapshot ==
    /\ phase = "up" /\ snap.pos < seen
    /\ snap' = [count |-> count, pos |-> IF Bug = "ahead" THEN Len(log) ELSE seen]
    /\ UNCHANGED <<req, log, phase, code, life, count, seen, second>>

Cut(rs) == [r \in Requests |-> IF r \in rs /\ req[r] \in {"accepted", "saved"} THEN "cut" ELSE req[r]]

\* interrupted
StopRpc ==
    /\ phase = "up" /\ phase' = "norpc" /\ req' = Cut(Rpc)
    /\ UNCHANGED <<log, code, life, count, seen, snap, second>>
StopWeb ==
    /\ phase = "norpc"
    /\ Bug \in {"nowait"} \/ \A r \in Web : req[r] \notin {"accepted", "saved"}
    /\ phase' = "noweb" /\ req' = Cut(Web)
    /\ UNCHANGED <<log, code, life, count, seen, snap, second>>
CloseStore ==
    /\ phase = "noweb" /\ phase' = "closed"
    /\ UNCHANGED <<req, log, code, life, count, seen, snap, second>>
Exit ==
    /\ phase = "closed" /\ phase' = "down" /\ code' = 0
    /\ UNCHANGED <<req, log, life, count, seen, snap, second>>
Fatal ==
    /\ Bug = "fatal" /\ phase \in {"norpc", "noweb"}
    /\ phase' = "down" /\ code' = 1 /\ req' = Cut(Requests)
    /\ UNCHANGED <<log, life, count, seen, snap, second>>
Kill ==
    /\ phase # "down" /\ life < Lives
    /\ phase' = "down" /\ code' = -1 /\ req' = Cut(Requests)
    /\ UNCHANGED <<log, life, count, seen, snap, second>>

Start ==
    /\ phase = "down" /\ life < Lives /\ phase' = "up" /\ life' = life + 1
    /\ count' = snap.count
    /\ seen' = IF Bug = "nocatchup" THEN Len(log) ELSE snap.pos
    /\ UNCHANGED <<req, log, code, snap, second>>

StartSecond ==
    /\ ~second /\ phase = "up"
    /\ second' = (Bug = "shared")
    /\ UNCHANGED <<req, log, phase, code, life, count, seen, snap>>

Next ==
    \/ \E r \in Requests : Accept(r) \/ Save(r) \/ Answer(r)
    \/ Count \/ Snapshot \/ StopRpc \/ StopWeb \/ CloseStore \/ Exit \/ Fatal \/ Kill \/ Start \/ StartSecond

Fair ==
    /\ \A r \in Requests : WF_vars(Save(r)) /\ WF_vars(Answer(r))
    /\ WF_vars(Count) /\ WF_vars(StopWeb) /\ WF_vars(CloseStore) /\ WF_vars(Exit)
Spec == Init /\ [][Next]_vars /\ Fair

Stored(r) == \E i \in 1..Len(log) : log[i] = r

\* what was answered is stored, once
Kept == \A r \in Requests : req[r] = "ok" => Stored(r)
Once == \A i, j \in 1..Len(log) : log[i] = log[j] => i = j
\* an orderly stop cuts off no HTTP request, and says that all went well
Orderly == code \in {0, -1}
WebServed == [][\A r \in Web : (req[r] \in {"accepted", "saved"} /\ req'[r] = "cut") => code' = -1]_vars
Alone == ~second
\* the statistics never run ahead, and catch up
Counted == count <= Len(log) /\ (seen = Len(log) => count = Len(log))
Inv == Kept /\ Once /\ Orderly /\ Alone /\ Counted
Stops == (phase = "norpc") ~> (phase = "down")
CatchesUp == \A n \in 1..Cardinality(Requests) : (phase = "up" /\ Len(log) >= n) ~> (count >= n \/ phase # "up")
=============================================================================
