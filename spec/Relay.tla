------------------------------- MODULE Relay -------------------------------
(***************************************************************************)
(* Design model of the live feeds of a server: a store gives every new     *)
(* event to the subscription of the server (the relay), which hands it to  *)
(* the server's broadcaster, which gives it to every client. All buffers   *)
(* are bounded. Whoever waits too long for a full buffer gives up the one  *)
(* behind it; how long that is is left open, so the store may give up the  *)
(* relay although the relay only waits for a client that will be given up. *)
(* Clients may stop reading for good. Checked exhaustively, with fairness. *)
(* Bug selects a design that was or would be wrong:                        *)
(*   "norestart" the relay is not started again                            *)
(*   "fromnow"   the relay continues with what is saved from now on        *)
(*   "onceread"  the relay does not read again after it has registered     *)
(*   "refeed"    the relay starts again from the beginning, without filter *)
(*   "silentend" clients stay when the store has nothing more to offer     *)
(*   "silentcut" a client that was given up stays connected                *)
(*   "keep"      a client that missed an event continues with the next     *)
(*   "patient"   the server waits for a stalled client as long as it takes *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Clients, Stuck, Saves, RCap, BCap, CCap, Bug

VARIABLES
    saved,   \* events saved: 1..saved
    sent,    \* given to subscriptions by the store
    stopped, \* the store was stopped
    relay,   \* "live", "down", "read1" before and "read2" after it registered, "ended"
    reg,     \* known to the store
    rbuf,    \* buffer of the relay
    last,    \* last event the relay forwarded
    sbuf,    \* queue of the server's broadcaster
    st,      \* clients: "off", "on", "cut" (given up), "told" (connection closed)
    cbuf,    \* buffers of clients
    got,     \* last event a client received
    bad      \* a client received an event out of order

vars == <<saved, sent, stopped, relay, reg, rbuf, last, sbuf, st, cbuf, got, bad>>

Init ==
    /\ saved = 0 /\ sent = 0 /\ stopped = FALSE
    /\ relay = "live" /\ reg = TRUE /\ rbuf = <<>> /\ last = 0 /\ sbuf = <<>>
    /\ st = [c \in Clients |-> "off"] /\ cbuf = [c \in Clients |-> <<>>]
    /\ got = [c \in Clients |-> 0] /\ bad = FALSE

Save ==
    /\ saved < Saves /\ ~stopped /\ saved' = saved + 1
    /\ UNCHANGED <<sent, stopped, relay, reg, rbuf, last, sbuf, st, cbuf, got, bad>>

StoreSends ==
    /\ sent < saved /\ (reg => Len(rbuf) < RCap)
    /\ sent' = sent + 1
    /\ rbuf' = IF reg THEN Append(rbuf, sent + 1) ELSE rbuf
    /\ UNCHANGED <<saved, stopped, relay, reg, last, sbuf, st, cbuf, got, bad>>

StoreGivesUp ==
    /\ sent < saved /\ reg /\ Len(rbuf) = RCap
    /\ reg' = FALSE /\ rbuf' = <<>> /\ relay' = "down"
    /\ UNCHANGED <<saved, sent, stopped, last, sbuf, st, cbuf, got, bad>>

StopStore ==
    /\ ~stopped /\ stopped' = TRUE /\ sent' = saved
    /\ reg' = FALSE /\ rbuf' = <<>> /\ relay' = IF relay = "ended" THEN relay ELSE "down"
    /\ UNCHANGED <<saved, last, sbuf, st, cbuf, got, bad>>

Forward(r) ==
    /\ Len(sbuf) < BCap
    /\ sbuf' = Append(sbuf, r) /\ last' = r

RelayForwards ==
    /\ relay = "live" /\ rbuf # <<>>
    /\ rbuf' = Tail(rbuf)
    /\ IF Head(rbuf) > last \/ Bug = "refeed" THEN Forward(Head(rbuf)) ELSE UNCHANGED <<sbuf, last>>
    /\ UNCHANGED <<saved, sent, stopped, relay, reg, st, cbuf, got, bad>>

RelayRestarts ==
    /\ relay = "down" /\ ~stopped /\ Bug # "norestart"
    /\ relay' = "read1"
    /\ last' = CASE Bug = "fromnow" -> saved [] Bug = "refeed" -> 0 [] OTHER -> last
    /\ UNCHANGED <<saved, sent, stopped, reg, rbuf, sbuf, st, cbuf, got, bad>>

RelayEnds ==
    /\ relay = "down" /\ stopped
    /\ relay' = "ended"
    /\ st' = [c \in Clients |-> IF st[c] = "on" /\ Bug # "silentend" THEN "cut" ELSE st[c]]
    /\ UNCHANGED <<saved, sent, stopped, reg, rbuf, last, sbuf, cbuf, got, bad>>

RelayReads ==
    /\ relay \in {"read1", "read2"} /\ last < saved
    /\ Forward(last + 1)
    /\ UNCHANGED <<saved, sent, stopped, relay, reg, rbuf, st, cbuf, got, bad>>

RelayReadAll ==
    /\ relay \in {"read1", "read2"} /\ last = saved
    /\ IF relay = "read1"
       THEN relay' = (IF Bug = "onceread" THEN "late" ELSE "late2") /\ UNCHANGED reg
       ELSE relay' = "live" /\ UNCHANGED reg
    /\ UNCHANGED <<saved, sent, stopped, rbuf, last, sbuf, st, cbuf, got, bad>>

\* reading to the end and being registered are two moments
RelayRegisters ==
    /\ relay \in {"late", "late2"}
    /\ reg' = TRUE /\ relay' = IF relay = "late" THEN "live" ELSE "read2"
    /\ UNCHANGED <<saved, sent, stopped, rbuf, last, sbuf, st, cbuf, got, bad>>

\* a client joins, and is given what there is already
Join(c) ==
    /\ st[c] = "off"
    /\ st' = [st EXCEPT ![c] = IF relay = "ended" THEN "cut" ELSE "on"]
    /\ got' = [got EXCEPT ![c] = saved]
    /\ UNCHANGED <<saved, sent, stopped, relay, reg, rbuf, last, sbuf, cbuf, bad>>

On == {c \in Clients : st[c] = "on"}
Full == {c \in On : Len(cbuf[c]) = CCap}

ServerSends ==
    /\ sbuf # <<>>
    /\ (Full = {} \/ Bug = "keep")
    /\ sbuf' = Tail(sbuf)
    /\ cbuf' = [c \in Clients |-> IF c \in On \ Full THEN Append(cbuf[c], Head(sbuf)) ELSE cbuf[c]]
    /\ UNCHANGED <<saved, sent, stopped, relay, reg, rbuf, last, st, got, bad>>

ServerGivesUp(c) ==
    /\ sbuf # <<>> /\ c \in Full /\ Bug \notin {"keep", "patient"}
    /\ st' = [st EXCEPT ![c] = "cut"]
    /\ UNCHANGED <<saved, sent, stopped, relay, reg, rbuf, last, sbuf, cbuf, got, bad>>

Receive(c) ==
    /\ st[c] = "on" /\ c \notin Stuck /\ cbuf[c] # <<>>
    /\ LET r == Head(cbuf[c]) IN
       /\ cbuf' = [cbuf EXCEPT ![c] = Tail(@)]
       /\ got' = [got EXCEPT ![c] = IF r > @ \/ Bug = "refeed" THEN r ELSE @]
       /\ bad' = (bad \/ (r > got[c] + 1) \/ (Bug = "refeed" /\ r <= got[c]))
    /\ UNCHANGED <<saved, sent, stopped, relay, reg, rbuf, last, sbuf, st>>

IsTold(c) ==
    /\ st[c] = "cut" /\ Bug # "silentcut"
    /\ st' = [st EXCEPT ![c] = "told"]
    /\ UNCHANGED <<saved, sent, stopped, relay, reg, rbuf, last, sbuf, cbuf, got, bad>>

Next ==
    \/ Save \/ StoreSends \/ StoreGivesUp \/ StopStore
    \/ RelayForwards \/ RelayRestarts \/ RelayEnds \/ RelayReads \/ RelayReadAll \/ RelayRegisters
    \/ ServerSends
    \/ \E c \in Clients : Join(c) \/ ServerGivesUp(c) \/ Receive(c) \/ IsTold(c)

Fairness ==
    /\ WF_vars(StoreSends) /\ WF_vars(StoreGivesUp)
    /\ WF_vars(RelayForwards) /\ WF_vars(RelayRestarts) /\ WF_vars(RelayEnds)
    /\ WF_vars(RelayReads) /\ WF_vars(RelayReadAll) /\ WF_vars(RelayRegisters)
    /\ WF_vars(ServerSends)
    /\ \A c \in Clients : WF_vars(Receive(c)) /\ WF_vars(IsTold(c)) /\ SF_vars(ServerGivesUp(c))

Spec == Init /\ [][Next]_vars /\ Fairness

\* what a client receives has no gaps and no repetitions
InOrder == ~bad
\* saving never waits for clients for ever
StoreIsFree == (sent < saved) ~> (sent = saved)
\* a client has everything, read or waiting to be read, or it knows that it has not
Given(c) == IF cbuf[c] = <<>> THEN got[c] ELSE cbuf[c][Len(cbuf[c])]
NeverSilent == \A c \in Clients : []<>(st[c] \in {"off", "told"} \/ (Given(c) >= saved /\ ~stopped))
=============================================================================
