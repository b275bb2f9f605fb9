--------------------------- MODULE KeyStoreTrace ---------------------------
(***************************************************************************)
(* Validates recorded calls of key stores against KeyStore.                *)
(* Lines: reset; op (ran alone); inv / ret (ran concurrently).             *)
(*   get: s, r in ok nf del oth, out     set: s, key, r in ok exists used  *)
(*   invalid del oth      kdel: s, r in ok oth                             *)
(* cx = "cut": a layer of the store fails during the call: the call may    *)
(* have had its effect, a part of it, or none.                             *)
(* reset.strict: removals happen at one moment (a single layer).           *)
(* reset.reuse: the store does not remember keys of other subjects (vault, *)
(* DynamoDB): using a key again is then not refused.                       *)
(***************************************************************************)
EXTENDS KeyStore, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
    l, base,
    open,   \* calls that have not taken effect yet
    done    \* calls that took effect
vars == <<key, half, used, l, base, open, done>>

Strict == Trace[base].strict
Reuse  == Trace[base].reuse

\* removals under way: their invocation lines
Removing(s) == {i \in open : Trace[i].op = "kdel" /\ Trace[i].s = s}

(* calls that change nothing *)
FitsQuietly(o, n) ==
    CASE o.op = "get" ->
          (CASE o.r = "ok"  -> MayBeFound(o.s, o.out)
             [] o.r = "nf"  -> MayBeUnknown(o.s) /\ o.out = ""
             [] o.r = "del" -> MayBeRemoved(o.s) /\ o.out = ""
             [] o.r = "oth" -> o.cx = "cut" /\ o.out = ""
             [] OTHER -> FALSE)
      [] o.op = "set" ->
          (CASE o.r = "exists"  -> Known(o.s) \/ o.s \in half
             [] o.r = "used"    -> o.key \in used
             [] o.r = "invalid" -> o.key = ""
             \* a cached store may notice the removal in a different layer
             [] o.r = "del"     -> ~Strict /\ MayBeRemoved(o.s)
             [] o.r = "oth"     -> o.cx = "cut"
             [] OTHER -> FALSE)
      [] o.op = "kdel" -> o.r = "oth" /\ o.cx = "cut"
      [] OTHER -> FALSE

\* a set that may have had its effect: success, or cut short, or overtaken by a removal
Sets(o) == o.op = "set" /\ (o.r = "ok" \/ (o.r = "oth" /\ o.cx = "cut") \/ (o.r = "del" /\ ~Strict))

SetEffect(o) == IF Reuse /\ o.key \in used
                THEN o.key # "" /\ ~Known(o.s) /\ o.s \notin half
                     /\ key' = (o.s :> o.key) @@ key /\ UNCHANGED <<half, used>>
                ELSE SetKey(o.s, o.key)

(* Removing a key: at one moment, or begun and then ended.  A removal of an *)
(* unknown subject may do nothing.                                          *)
Removes(o) == o.op = "kdel" /\ (o.r = "ok" \/ (o.r = "oth" /\ o.cx = "cut"))

Remove(o) ==
    \/ EndRemoval(o.s)
    \/ ~Known(o.s) /\ o.s \notin half /\ UNCHANGED keyVars
    \/ ~Strict /\ o.r = "oth" /\ BeginRemoval(o.s)

Effect(o) == (Sets(o) /\ SetEffect(o)) \/ (Removes(o) /\ Remove(o))

-----------------------------------------------------------------------------
Init == KeyInit /\ l = 1 /\ base = 1 /\ open = {} /\ done = {}

Reset(t) ==
    /\ t.e = "reset"
    /\ key' = <<>> /\ half' = {} /\ used' = {} /\ base' = l /\ open' = {} /\ done' = {}

Op(t) ==
    /\ t.e = "op"
    /\ Effect(t) \/ (FitsQuietly(t, l) /\ UNCHANGED keyVars)
    /\ UNCHANGED <<base, open, done>>

Inv(t) ==
    /\ t.e = "inv"
    /\ open' = open \cup {l}
    /\ UNCHANGED <<keyVars, base, done>>

Ret(t) ==
    /\ t.e = "ret"
    /\ \E i \in done :
         /\ Trace[i].id = t.id /\ done' = done \ {i}
         \* told that the key was removed: it was
         /\ (Trace[i].op = "set" /\ Trace[i].r = "del") => MayBeRemoved(Trace[i].s)
    /\ UNCHANGED <<keyVars, base, open>>

Consume ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET t == Trace[l] IN Reset(t) \/ Op(t) \/ Inv(t) \/ Ret(t)

\* what can only fit and change nothing takes effect at once
Fitting == {i \in open : FitsQuietly(Trace[i], i) /\ ~Sets(Trace[i]) /\ ~Removes(Trace[i])}

Quietly ==
    /\ done' = done \cup Fitting
    /\ open' = open \ Fitting
    /\ UNCHANGED <<keyVars, l, base>>

Linearize ==
    \E i \in open :
        /\ Effect(Trace[i]) \/ (FitsQuietly(Trace[i], i) /\ UNCHANGED keyVars)
        /\ open' = open \ {i}
        /\ done' = done \cup {i}
        /\ UNCHANGED <<l, base>>

\* the first layer of several is reached by a removal
Begin ==
    /\ ~Strict
    /\ \E i \in open : Removes(Trace[i]) /\ Trace[i].s \notin half /\ ~Removed(Trace[i].s) /\ BeginRemoval(Trace[i].s)
    /\ UNCHANGED <<l, base, open, done>>

Next == IF Fitting # {} THEN Quietly ELSE (Linearize \/ Begin \/ Consume)

Spec == Init /\ [][Next]_vars

Progress ==
    /\ (IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE)
    /\ (IF l = Len(Trace) + 1 THEN PrintT("TRACE-ACCEPTED") /\ TLCSet("exit", TRUE) ELSE TRUE)
ASSUME TLCSet(1, 0)
Report == PrintT(<<"MAXLINE", TLCGet(1)>>)
=============================================================================
