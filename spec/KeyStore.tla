------------------------------ MODULE KeyStore ------------------------------
(***************************************************************************)
(* The abstract key store: every subject has no key yet, exactly one key,  *)
(* or had its key removed, for ever.  A key is never used twice.  A        *)
(* removal may take some time ("removing"): a layered store removes the    *)
(* key from one layer after the other, and meanwhile gives either answer.  *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

VARIABLES
    key,    \* subject :> "" (removed) or its key; absent: never had one
    half,   \* subjects whose removal has begun but not (successfully) ended
    used    \* keys that were ever set

keyVars == <<key, half, used>>

KeyInit == key = <<>> /\ half = {} /\ used = {}

Known(s)   == s \in DOMAIN key
HasKey(s)  == Known(s) /\ key[s] # ""
Removed(s) == Known(s) /\ key[s] = ""

(* set a key: refused for a known subject, a used key, an empty key *)
MaySet(s, k) == k # "" /\ ~Known(s) /\ s \notin half /\ k \notin used
SetKey(s, k) ==
    /\ MaySet(s, k)
    /\ key' = [x \in DOMAIN key \cup {s} |-> IF x = s THEN k ELSE key[x]]
    /\ used' = used \cup {k}
    /\ UNCHANGED half

BeginRemoval(s) ==
    /\ half' = half \cup {s}
    /\ UNCHANGED <<key, used>>

EndRemoval(s) ==
    /\ key' = [x \in DOMAIN key \cup {s} |-> IF x = s THEN "" ELSE key[x]]
    /\ half' = half \ {s}
    /\ UNCHANGED used

(* what get may answer *)
MayBeFound(s, k)  == HasKey(s) /\ key[s] = k
MayBeUnknown(s)   == ~Known(s)
MayBeRemoved(s)   == Removed(s) \/ s \in half

(* a key is never given to two subjects, and a removed subject never gets one *)
NoSharing == \A s, t \in DOMAIN key : s # t /\ key[s] # "" => key[s] # key[t]
UsedKeys  == \A s \in DOMAIN key : key[s] # "" => key[s] \in used
KeyInv    == NoSharing /\ UsedKeys
KeyStep   == [][/\ DOMAIN key \subseteq DOMAIN key'
                /\ used \subseteq used'
                /\ \A s \in DOMAIN key : key'[s] \in {key[s], ""}]_keyVars
=============================================================================
