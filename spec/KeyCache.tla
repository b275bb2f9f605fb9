------------------------------ MODULE KeyCache ------------------------------
(***************************************************************************)
(* Design model of the cached key store, one step per call of a layer:     *)
(* callers get, set and delete keys through one cache of one store, while  *)
(* either layer is itself atomic.  Checked exhaustively: the observable    *)
(* results are those of one key store.                                     *)
(* Bug selects a design that was or would be wrong:                        *)
(*   "strictcache"  caching fails if another caller cached the key first   *)
(*   "firstdelete"  a deletion empties the cache first                     *)
(*   "forget"       a deletion forgets the key in the cache (no tombstone) *)
(*   "cachefirst"   a set writes to the cache first                        *)
(*   "overwrite"    caching a key replaces what the cache knows            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Callers, Subjects, Keys, Calls, Bug, Warm

VARIABLES
    first, second,      \* what a layer knows: subject -> "none", "gone" or a key
    used1, used2,       \* keys a layer has seen
    pc, arg, val,       \* per caller: step, subject and key of its call, key in hand
    left,               \* calls still to be made
    deleting,           \* subjects whose deletion was invoked
    deleted,            \* subjects whose deletion returned
    owner,              \* subject -> the key some set returned success for, or "none"
    seen                \* subject -> keys given out

vars == <<first, second, used1, used2, pc, arg, val, left, deleting, deleted, owner, seen>>

NoKey == {"none", "gone"}
Idle(c) == pc[c] = "idle"

Init ==
    /\ pc = [c \in Callers |-> "idle"]
    /\ arg = [c \in Callers |-> [s |-> "", k |-> "", late |-> FALSE, had |-> FALSE]]
    /\ val = [c \in Callers |-> ""]
    /\ left = Calls
    /\ \E w \in IF Warm THEN {"none"} \cup Keys ELSE {"none"} :
       \E s \in Subjects :
         /\ second = [x \in Subjects |-> IF x = s THEN w ELSE "none"]
         /\ used2 = {w} \ {"none"}
         /\ owner = second
    /\ first = [x \in Subjects |-> "none"]
    /\ used1 = {}
    /\ deleting = {} /\ deleted = {}
    /\ seen = [s \in Subjects |-> {}]

Unch == UNCHANGED <<first, second, used1, used2, deleting, deleted, owner, seen>>
Goto(c, p) == pc' = [pc EXCEPT ![c] = p]

Start(c, p, s, k) ==
    /\ Idle(c) /\ left > 0
    /\ left' = left - 1
    /\ Goto(c, p)
    /\ arg' = [arg EXCEPT ![c] = [s |-> s, k |-> k, late |-> s \in deleted, had |-> owner[s] # "none"]]
    /\ val' = [val EXCEPT ![c] = ""]
    /\ deleting' = IF p \in {"d1", "d2"} THEN deleting \cup {s} ELSE deleting
    /\ UNCHANGED <<first, second, used1, used2, deleted, owner, seen>>

StartAny(c) ==
    \E s \in Subjects :
        \/ Start(c, "g1", s, "")
        \/ \E k \in Keys : Start(c, "s2", s, k)
        \/ Start(c, IF Bug = "firstdelete" THEN "d1" ELSE "d2", s, "")

S(c) == arg[c].s
K(c) == arg[c].k

\* a call returns
Give(c, r, k) ==
    /\ Goto(c, IF r = "ok" \/ r = "done" THEN "idle" ELSE r)
    /\ seen' = IF r = "ok" THEN [seen EXCEPT ![S(c)] = @ \cup {k}] ELSE seen
    \* P18: what a get may answer
    /\ Assert(r = "ok" => k \notin NoKey, "a get gives something that is no key")
    /\ Assert(r = "ok" => ~arg[c].late, "a key is given after its deletion returned")
    /\ Assert(r \in {"nf"} => ~arg[c].had, "a key that was set is not found")
    /\ Assert(r \in {"err"} => FALSE, "a call fails for no reason")
    /\ Assert(r \in {"del"} => S(c) \in deleting, "removed, though nobody deleted it")

Answer(c, r, k) == Give(c, r, k)

Get1(c) ==
    /\ pc[c] = "g1"
    /\ IF first[S(c)] \notin NoKey
       THEN Answer(c, "ok", first[S(c)]) /\ UNCHANGED <<first, second, used1, used2, arg, val, left, deleting, deleted, owner>>
       ELSE Goto(c, "g2") /\ Unch /\ UNCHANGED <<arg, val, left>>

Get2(c) ==
    /\ pc[c] = "g2"
    /\ IF second[S(c)] \in NoKey
       THEN Answer(c, IF second[S(c)] = "gone" THEN "del" ELSE "nf", "") /\ UNCHANGED <<val, first, second, used1, used2, arg, left, deleting, deleted, owner>>
       ELSE val' = [val EXCEPT ![c] = second[S(c)]] /\ Goto(c, "c1") /\ Unch /\ UNCHANGED <<arg, left>>

\* the key is put into the cache, by a get or a set (arg.k is the key of a set)
Finish(c) ==
    IF K(c) = "" THEN Answer(c, "ok", val[c]) /\ UNCHANGED owner
    ELSE /\ Goto(c, "idle") /\ UNCHANGED seen
         /\ owner' = [owner EXCEPT ![S(c)] = IF @ = "none" THEN K(c) ELSE @]

Cache1(c) ==
    /\ pc[c] = "c1"
    /\ IF (val[c] \notin used1 /\ first[S(c)] = "none") \/ Bug = "overwrite"
       THEN /\ first' = [first EXCEPT ![S(c)] = val[c]]
            /\ used1' = used1 \cup {val[c]}
            /\ Finish(c)
            /\ UNCHANGED <<second, used2, arg, val, left, deleting, deleted>>
       ELSE IF Bug = "strictcache"
       THEN Answer(c, "err", "") /\ UNCHANGED <<first, second, used1, used2, arg, val, left, deleting, deleted, owner>>
       ELSE Goto(c, "c2") /\ Unch /\ UNCHANGED <<arg, val, left>>

Cache2(c) ==
    /\ pc[c] = "c2"
    /\ IF first[S(c)] = val[c]
       THEN Finish(c) /\ UNCHANGED <<first, second, used1, used2, arg, val, left, deleting, deleted>>
       ELSE IF first[S(c)] = "gone"
       THEN Answer(c, "del", "") /\ UNCHANGED <<first, second, used1, used2, arg, val, left, deleting, deleted, owner>>
       ELSE Answer(c, "err", "") /\ UNCHANGED <<first, second, used1, used2, arg, val, left, deleting, deleted, owner>>

Set2(c) ==
    /\ pc[c] = "s2"
    /\ IF Bug = "cachefirst" /\ val[c] = ""
       THEN \* to the cache, whatever the store will say
            /\ val' = [val EXCEPT ![c] = K(c)]
            /\ IF first[S(c)] = "none" /\ K(c) \notin used1
               THEN first' = [first EXCEPT ![S(c)] = K(c)] /\ used1' = used1 \cup {K(c)}
               ELSE UNCHANGED <<first, used1>>
            /\ UNCHANGED <<second, used2, pc, arg, left, deleting, deleted, owner, seen>>
       ELSE IF second[S(c)] # "none" \/ K(c) \in used2
       THEN Goto(c, "idle") /\ Unch /\ UNCHANGED <<arg, val, left>>   \* refused
       ELSE /\ second' = [second EXCEPT ![S(c)] = K(c)]
            /\ used2' = used2 \cup {K(c)}
            /\ val' = [val EXCEPT ![c] = K(c)]
            /\ Goto(c, "c1")
            /\ UNCHANGED <<first, used1, arg, left, deleting, deleted, owner, seen>>

Del2(c) ==
    /\ pc[c] = "d2"
    /\ second' = [second EXCEPT ![S(c)] = "gone"]
    /\ IF Bug = "firstdelete"
       THEN Goto(c, "idle") /\ deleted' = deleted \cup {S(c)}
       ELSE Goto(c, "d1") /\ UNCHANGED deleted
    /\ UNCHANGED <<first, used1, used2, arg, val, left, deleting, owner, seen>>

Del1(c) ==
    /\ pc[c] = "d1"
    /\ first' = [first EXCEPT ![S(c)] = IF Bug \in {"forget", "firstdelete"} THEN "none" ELSE "gone"]
    /\ used1' = IF Bug \in {"forget", "firstdelete"} THEN used1 \ {first[S(c)]} ELSE used1
    /\ IF Bug = "firstdelete"
       THEN Goto(c, "d2") /\ UNCHANGED deleted
       ELSE Goto(c, "idle") /\ deleted' = deleted \cup {S(c)}
    /\ UNCHANGED <<second, used2, arg, val, left, deleting, owner, seen>>

\* the answers nf and del are given
Return(c) == pc[c] \in {"nf", "del", "err"} /\ Goto(c, "idle") /\ UNCHANGED <<first, second, used1, used2, arg, val, left, deleting, deleted, owner, seen>>

\* the process starts again with an empty cache
Restart ==
    /\ \A c \in Callers : Idle(c)
    /\ \E s \in Subjects : first[s] # "none"
    /\ left > 0
    /\ first' = [s \in Subjects |-> "none"] /\ used1' = {}
    /\ left' = left - 1
    /\ UNCHANGED <<second, used2, pc, arg, val, deleting, deleted, owner, seen>>

Next == Restart \/ \E c \in Callers :
    StartAny(c) \/ Get1(c) \/ Get2(c) \/ Cache1(c) \/ Cache2(c) \/ Set2(c) \/ Del2(c) \/ Del1(c) \/ Return(c)

Spec == Init /\ [][Next]_vars

\* one key per subject, and the cache never knows more than the store
OneKey   == \A s \in Subjects : Cardinality(seen[s]) <= 1
Honest   == \A s \in Subjects : first[s] \notin NoKey => second[s] \in {first[s], "gone"}
Shredded == \A s \in deleted : first[s] \in NoKey /\ second[s] = "gone"
Private  == \A s, t \in Subjects : s # t => seen[s] \cap seen[t] = {}
Inv == OneKey /\ Honest /\ Shredded /\ Private

Perms == Permutations(Callers) \cup Permutations(Keys) \cup Permutations(Subjects)
=============================================================================
