-------------------------------- MODULE Cqrs --------------------------------
(***************************************************************************)
(* Commands dispatched to event sourced aggregates.                        *)
(*   logs      stream -> the events that are in it                         *)
(*   registry  command type -> the aggregate that handles it; the          *)
(*             registration made last counts                               *)
(*   run       the commands under way: a command's aggregate is loaded     *)
(*             from everything in the command's stream, handles it once,   *)
(*             and its events are saved one by one, each to its stream;    *)
(*             an event that can not be saved is left out                  *)
(*   insts     aggregates (constructed for one command) that were used     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

VARIABLES logs, registry, run, insts
cqrsVars == <<logs, registry, run, insts>>

CqrsInit == logs = <<>> /\ registry = <<>> /\ run = <<>> /\ insts = {}

Stream(s) == IF s \in DOMAIN logs THEN logs[s] ELSE <<>>
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

SaveTo(s, ids) == logs' = Put(logs, s, Stream(s) \o ids)
DeleteLog(s) == logs' = Put(logs, s, <<>>)

\* a registration: agg (0: none), fresh: constructed for every command
Register(types, agg, fresh) ==
    registry' = [t \in DOMAIN registry \cup types |-> IF t \in types THEN [agg |-> agg, fresh |-> fresh] ELSE registry[t]]

Begin(p, c, ct, st) ==
    /\ p \notin DOMAIN run
    /\ run' = Put(run, p, [pc |-> "begun", c |-> c, ct |-> ct, st |-> st, inst |-> 0, seen |-> <<>>, whole |-> TRUE, todo |-> <<>>, saved |-> <<>>])

Known(p) == run[p].ct \in DOMAIN registry

\* the command's stream is read from its beginning; whole: up to its end
ReadStream(p, st, from, out, whole) ==
    /\ run[p].pc = "begun" /\ Known(p)
    /\ st = run[p].st
    /\ from <= 1
    /\ IF whole THEN out = Stream(st) ELSE IsPrefix(out, Stream(st))
    /\ run' = [run EXCEPT ![p].pc = "read", ![p].seen = out, ![p].whole = whole]

\* the aggregate is given what was read; it may stop looking at any time
Load(p, agg, inst, out, whole, stopped) ==
    /\ run[p].pc = "read"
    /\ registry[run[p].ct].agg = agg
    /\ registry[run[p].ct].fresh => inst \notin insts
    /\ IF stopped THEN IsPrefix(out, run[p].seen) ELSE out = run[p].seen /\ whole = run[p].whole
    /\ insts' = insts \cup {inst}
    /\ run' = [run EXCEPT ![p].pc = "loaded", ![p].inst = inst]

Handle(p, inst, c, emits) ==
    /\ run[p].pc = "loaded"
    /\ inst = run[p].inst
    /\ c = run[p].c
    /\ run' = [run EXCEPT ![p].pc = "handled", ![p].todo = emits]

\* the next event is saved; emits holds [id, st]
SaveNext(p, st, id, ok) ==
    /\ run[p].pc = "handled" /\ run[p].todo # <<>>
    /\ LET e == Head(run[p].todo) IN
       /\ e.id = id /\ e.st = st
       /\ IF ok THEN SaveTo(st, <<id>>) ELSE UNCHANGED logs
       /\ run' = [run EXCEPT ![p].todo = Tail(@), ![p].saved = IF ok THEN Append(@, id) ELSE @]

Return(p, out) ==
    /\ \/ run[p].pc = "handled" /\ run[p].todo = <<>>
       \/ run[p].pc = "begun" /\ ~Known(p)
    /\ out = run[p].saved
    /\ run' = Without(run, p)
=============================================================================
