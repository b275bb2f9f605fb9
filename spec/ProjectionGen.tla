--------------------------- MODULE ProjectionGen ---------------------------
(***************************************************************************)
(* Generates histories of a service with a snapshot: saves, deletions,     *)
(* starts, stops, snapshots and damage at any moment.  On the way it is a  *)
(* model of the design: however often the service was restarted from       *)
(* whatever snapshot, it shows what one that never stopped would show.     *)
(***************************************************************************)
EXTENDS Projection, Json, TLC

CONSTANTS NS, NT, Depth, Mode

VARIABLE script
genVars == <<logVars, projVars, script>>

Pick(S) == RandomElement(S)
Weighted(seq) == seq[Pick(1..Len(seq))]
TypeOf(s) == ((s - 1) % NT) + 1

Line(op, s, n) == [op |-> op, s |-> s, t |-> 0, n |-> n, exp |-> 0, fail |-> "none", pos |-> 0]
Kinds == IF Mode = "pdel"
         THEN <<"save", "save", "save", "del", "start", "startc", "stop", "stop", "snap", "tear", "gone", "cut">>
         ELSE <<"save", "save", "save", "start", "startc", "startc", "stop", "stop", "snap", "snapc", "tear", "cut", "gone">>

GenInit == LogInit /\ ProjInit /\ script = <<>>

SaveN(s, n) ==
    LET rs == [i \in 1..n |-> [k |-> gmax + i, g |-> gmax + i, st |-> s, at |-> TypeOf(s), q |-> LastSeq(s) + i]]
        gs == {r.g : r \in ToSet(rs)}
    IN /\ AppendBatch(s, rs)
       /\ run' = IF on THEN run \cup gs ELSE run
       /\ full' = full \cup gs
       /\ UNCHANGED <<on, disk>>

Do(op, s, n) == script' = Append(script, Line(op, s, n))

Step(kind, s, n) ==
    CASE kind \in {"save", "snapc"} -> SaveN(s, n) /\ Do(IF on THEN kind ELSE "save", s, n)
      [] kind = "del" /\ Exists(s) -> DeleteStream(s) /\ UNCHANGED projVars /\ Do("del", s, 0)
      [] kind \in {"start", "startc"} /\ ~on ->
            /\ StartFrom(disk.seen) /\ disk' = [st |-> "ok", seen |-> run']
            /\ UNCHANGED <<logVars, full>>
            /\ Do(kind, s, n)
      [] kind = "stop" /\ on -> on' = FALSE /\ run' = {} /\ UNCHANGED <<logVars, disk, full>> /\ Do("stop", s, n)
      [] kind = "snap" /\ on -> disk' = [st |-> "ok", seen |-> run] /\ UNCHANGED <<logVars, on, run, full>> /\ Do("snap", s, n)
      [] kind \in {"tear", "gone", "cut"} /\ disk.st = "ok" ->
            /\ disk' = NoSnap /\ UNCHANGED <<logVars, on, run, full>> /\ Do(kind, s, n)
      [] OTHER -> SaveN(s, n) /\ Do("save", s, n)

GenNext ==
    /\ Len(script) < Depth
    /\ \E kind \in {Weighted(Kinds)} : \E s \in {Pick(1..NS)} : \E n \in {Pick(1..4)} : Step(kind, s, n)

GenSpec == GenInit /\ [][GenNext]_genVars

Emit == (Len(script) = Depth) => PrintT("SCRIPT " \o ToJson(script))
\* counted: everything that is in the log, and nothing that was not saved
GenInv == /\ GaplessStreams
          /\ on => LiveG \subseteq run
          /\ run \subseteq full
          /\ (dead = {} /\ on) => run = full
=============================================================================
