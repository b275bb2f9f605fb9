------------------------------ MODULE CqrsGen ------------------------------
(***************************************************************************)
(* Generates histories of commands and writes by others, with failures at  *)
(* any point.  On the way it is a model of the design: see GenInv.         *)
(***************************************************************************)
EXTENDS Cqrs, Json, TLC

CONSTANTS NS, NT, Depth, Mode

VARIABLES script,
          told     \* every event a command returned
genVars == <<cqrsVars, script, told>>

Pick(S) == RandomElement(S)
Weighted(seq) == seq[Pick(1..Len(seq))]
Line(op, s, t, n, fail, pos) == [op |-> op, s |-> s, t |-> t, n |-> n, exp |-> 0, fail |-> fail, pos |-> pos]

\* command types 1..NT have aggregates, NT + 1 has none
GenInit ==
    /\ logs = <<>> /\ run = <<>> /\ insts = {} /\ script = <<>> /\ told = {}
    /\ registry = [t \in 1..NT |-> [agg |-> t, fresh |-> TRUE]]

Fresh == Len(script) * 10 + 1
Ext(s, n) == SaveTo(s, [i \in 1..n |-> Fresh + i]) /\ UNCHANGED <<registry, run, insts, told>>

\* the whole run of a command at once
Command(s, t, n, fail, pos) ==
    LET other == (s % NS) + 1
        emits == [i \in 1..n |-> [id |-> Fresh + i, st |-> IF fail = "other" /\ i >= pos THEN other ELSE s]]
        ok(i) == ~(fail \in {"ser", "save"} /\ i = pos)
        kept(x) == SelectSeq([i \in 1..n |-> IF ok(i) /\ emits[i].st = x THEN emits[i].id ELSE 0], LAMBDA v : v > 0)
    IN /\ logs' = IF t \notin DOMAIN registry THEN logs ELSE [x \in DOMAIN logs \cup {s, other} |-> Stream(x) \o kept(x)]
       /\ told' = IF t \notin DOMAIN registry THEN told ELSE told \cup {emits[i].id : i \in {j \in 1..n : ok(j)}}
       /\ UNCHANGED <<registry, run, insts>>

Fails == IF Mode = "cfault" THEN <<"none", "ser", "save", "save", "read", "other", "stop">> ELSE <<"none", "none", "none", "other", "stop">>

GenNext ==
    /\ Len(script) < Depth
    /\ \E kind \in {Weighted(<<"cmd", "cmd", "cmd", "cmd", "ext", "del", "conc">>)} :
       \E s \in {Pick(1..NS)} : \E t \in {Pick(1..(NT + 1))} : \E n \in {Pick(0..4)} : \E fail \in {Weighted(Fails)} :
       \E pos \in {Pick(1..4)} :
         /\ script' = Append(script, Line(kind, s, t, n, fail, pos))
         /\ CASE kind = "cmd" -> Command(s, t, n, fail, pos)
              [] kind = "ext" -> Ext(s, n)
              [] kind = "del" -> DeleteLog(s) /\ UNCHANGED <<registry, run, insts, told>>
              [] OTHER        -> UNCHANGED <<cqrsVars, told>>

GenSpec == GenInit /\ [][GenNext]_genVars

Emit == (Len(script) = Depth) => PrintT("SCRIPT " \o ToJson(script))
\* nothing is recorded twice
GenInv == \A s \in DOMAIN logs : \A i, j \in 1..Len(logs[s]) : i # j => logs[s][i] # logs[s][j]
=============================================================================
