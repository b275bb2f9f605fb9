---------------------------- MODULE EventLogGen ----------------------------
(***************************************************************************)
(* Generates behaviours of the event log as scripts of client operations,  *)
(* to be replayed against the real stores.  Run with tlc -simulate; every  *)
(* simulated behaviour of the log becomes one script.  Expected positions  *)
(* in the scripts come from the log's state, so stale, exact and too high  *)
(* expectations are produced in every reachable situation.                 *)
(***************************************************************************)
EXTENDS EventLog, Json, TLC

CONSTANTS NS, NT, Depth, Mode

VARIABLE script
genVars == <<hist, dead, gmax, script>>

Streams == 1..NS
Types   == 1..NT
Pick(S) == RandomElement(S)
Weighted(seq) == seq[Pick(1..Len(seq))]

Kinds ==
    CASE Mode = "save"  -> <<"ok","ok","ok","opt","opt","stale","fail","fail","fail","fail","del">>
      [] Mode = "opt"   -> <<"ok","ok","opt","opt","opt","opt","stale","stale","stale","stale","fail","del">>
      [] Mode = "del"   -> <<"ok","ok","ok","ok","opt","del","del","delstale","delmissing","delcancel","reopen">>
      [] OTHER          -> <<"ok","ok","ok","ok","opt","opt","stale","fail","del","del","delstale","delmissing","delcancel","reopen">>

FailKinds == <<"type", "aid", "ser", "meta", "pre", "mid", "empty", "ser", "type">>

NewRecs(s, t, n) ==
    [i \in 1..n |-> [k |-> gmax + i, g |-> gmax + i, st |-> s, at |-> t, q |-> LastSeq(s) + i]]

SaveOp(s, t, n, exp, fail, at) ==
    [op |-> "save", s |-> s, t |-> t, n |-> n, exp |-> exp, fail |-> fail, pos |-> at]
DelOp(s, exp, fail) == [op |-> "del", s |-> s, t |-> 0, n |-> 0, exp |-> exp, fail |-> fail, pos |-> 0]

GenInit == LogInit /\ script = <<>>

Step(kind, s, t, n) ==
    CASE kind = "ok" ->
           /\ AppendBatch(s, NewRecs(s, t, n))
           /\ script' = Append(script, SaveOp(s, t, n, -1, "none", 0))
      [] kind = "opt" ->
           /\ AppendBatch(s, NewRecs(s, t, n))
           /\ script' = Append(script, SaveOp(s, t, n, LastSeq(s), "none", 0))
      [] kind = "stale" ->
           /\ UNCHANGED logVars
           /\ \E e \in {Pick((0..(LastSeq(s) + 3)) \ {LastSeq(s)})} :
                 script' = Append(script, SaveOp(s, t, n, e, "none", 0))
      [] kind = "fail" ->
           /\ UNCHANGED logVars
           /\ \E f \in {Weighted(FailKinds)} :
              \E m \in {IF f = "empty" THEN 0 ELSE IF f \in {"type", "aid"} THEN n + 1 ELSE n} :
              \E e \in {IF Pick(1..3) = 1 THEN LastSeq(s) ELSE -1} :
              \E p \in {IF m = 0 THEN 0 ELSE IF f \in {"type", "aid"} THEN Pick(2..m) ELSE Pick(1..m)} :
                 script' = Append(script, SaveOp(s, t, m, e, f, p))
      [] kind = "reopen" ->
           /\ UNCHANGED logVars
           /\ script' = Append(script, [op |-> "reopen", s |-> 0, t |-> 0, n |-> 0, exp |-> 0, fail |-> "none", pos |-> 0])
      [] OTHER ->
           LET have == {x \in Streams : Exists(x)}
               miss == Streams \ have
           IN IF kind = "delmissing" /\ miss # {} THEN
                   /\ UNCHANGED logVars
                   /\ \E x \in {Pick(miss)} : \E e \in {Pick(0..2)} : script' = Append(script, DelOp(x, e, "none"))
              ELSE IF have = {} THEN
                   /\ UNCHANGED logVars
                   /\ script' = Append(script, DelOp(s, 0, "none"))
              ELSE \E x \in {Pick(have)} :
                   IF kind = "del" THEN
                      DeleteStream(x) /\ script' = Append(script, DelOp(x, LastSeq(x), "none"))
                   ELSE IF kind = "delcancel" THEN
                      UNCHANGED logVars /\ script' = Append(script, DelOp(x, LastSeq(x), "pre"))
                   ELSE
                      /\ UNCHANGED logVars
                      /\ \E e \in {Pick((0..(LastSeq(x) + 2)) \ {LastSeq(x)})} :
                            script' = Append(script, DelOp(x, e, "none"))

GenNext ==
    /\ Len(script) < Depth
    /\ \E kind \in {Weighted(Kinds)} : \E s \in {Pick(Streams)} : \E t \in {Pick(Types)} :
       \E n \in {Weighted(<<1, 1, 1, 2, 2, 3, 4>>)} : Step(kind, s, t, n)

GenSpec == GenInit /\ [][GenNext]_genVars

Emit == (Len(script) = Depth) => PrintT("SCRIPT " \o ToJson(script))
GenInv == LogInv
=============================================================================
