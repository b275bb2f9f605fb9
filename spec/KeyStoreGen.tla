----------------------------- MODULE KeyStoreGen -----------------------------
(* Generates histories of calls of a key store, to be replayed on real ones. *)
EXTENDS KeyStore, Json, TLC

CONSTANTS NS, NT, Depth, Mode

VARIABLE script
genVars == <<key, half, used, script>>

Pick(S) == RandomElement(S)
Weighted(seq) == seq[Pick(1..Len(seq))]

Call(op, s, k) == [op |-> op, s |-> s, key |-> k, fail |-> ""]
Kinds == IF Mode = "kfault" THEN <<"get", "get", "set", "set", "set", "del", "getF", "setF", "delF", "delF">>
                            ELSE <<"get", "get", "set", "set", "set", "used", "empty", "del">>
K(i) == "k" \o ToString(i)

GenInit == KeyInit /\ script = <<>>

Step(kind, s, k) ==
    CASE kind = "get"   -> UNCHANGED keyVars /\ script' = Append(script, Call("get", s, ""))
      [] kind = "set"   -> /\ (SetKey(s, k) \/ (~MaySet(s, k) /\ UNCHANGED keyVars))
                           /\ script' = Append(script, Call("set", s, k))
      [] kind = "used"  -> /\ \E u \in {IF used = {} THEN k ELSE Pick(used)} :
                                /\ (SetKey(s, u) \/ (~MaySet(s, u) /\ UNCHANGED keyVars))
                                /\ script' = Append(script, Call("set", s, u))
      [] kind = "empty" -> UNCHANGED keyVars /\ script' = Append(script, Call("set", s, ""))
      [] kind = "del"   -> EndRemoval(s) /\ script' = Append(script, Call("kdel", s, ""))
      [] OTHER          -> \* a layer fails at its first or a later call
                           /\ UNCHANGED keyVars
                           /\ \E f \in {Pick(1..3)} :
                                script' = Append(script, [Call(IF kind = "getF" THEN "get" ELSE IF kind = "setF" THEN "set" ELSE "kdel",
                                                             s, IF kind = "setF" THEN k ELSE "") EXCEPT !.fail = ToString(f)])

GenNext ==
    /\ Len(script) < Depth
    /\ \E kind \in {Weighted(Kinds)} : \E s \in {Pick(1..NS)} : Step(kind, s, K(Len(script) + 1))

GenSpec == GenInit /\ [][GenNext]_genVars

Emit == (Len(script) = Depth) => PrintT("SCRIPT " \o ToJson(script))
GenInv == KeyInv
=============================================================================
