------------------------------- MODULE Shred -------------------------------
(***************************************************************************)
(* Design model of crypto-shredding, one step per call of the key store or *)
(* of the store: savers look for the subject's key, create it if there is  *)
(* none, encrypt every event of a batch and save them; readers take a view,*)
(* then decrypt record by record, each with a look at the key; a subject   *)
(* may be forgotten at any moment. Checked exhaustively.                   *)
(* Bug selects a design that was or would be wrong:                        *)
(*   "lostrace"   a saver that finds the key created by another one fails  *)
(*   "ownkey"     ... or goes on with the key it generated itself          *)
(*   "overwrite"  setting a key replaces the one there is                  *)
(*   "notomb"     a deleted key leaves no trace                            *)
(*   "plainold"   without a key an event is saved as it is                 *)
(*   "onelook"    a reader looks at the key once and keeps it              *)
(*   "memo"       what was decrypted is remembered and given out again     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Savers, Readers, Subjects, Calls, Batch, Bug

VARIABLES
    keys,     \* subject -> 0 none, -1 deleted, or the key
    fresh,    \* the next key to be generated
    log,      \* sequence of [s, key] (key 0: plain text)
    memo,     \* positions remembered in plain text
    pc, subj, key, did, late, \* savers: step, subject, key in hand, keys used so far, begun after the subject was gone
    rpc, view, at, rkey, rlate, \* readers
    gone,     \* subjects whose deletion was acknowledged
    touched,  \* subjects whose deletion began
    shown,    \* <<position, what, begun after the subject was gone>>
    told,     \* results of saves: <<"ok" | "gone" | "fail", late, touched>>
    left

vars == <<keys, fresh, log, memo, pc, subj, key, did, late, rpc, view, at, rkey, rlate, gone, touched, shown, told, left>>
sv == <<pc, subj, key, did, late, told>>
rd == <<rpc, view, at, rkey, rlate, shown, memo>>

Init ==
    /\ keys = [s \in Subjects |-> 0] /\ fresh = 1 /\ log = <<>> /\ memo = {}
    /\ pc = [c \in Savers |-> "idle"] /\ subj \in [Savers -> Subjects] /\ key = [c \in Savers |-> 0]
    /\ did = [c \in Savers |-> <<>>] /\ late = [c \in Savers |-> FALSE]
    /\ rpc = [r \in Readers |-> "idle"] /\ view = [r \in Readers |-> 0] /\ at = [r \in Readers |-> 1]
    /\ rkey = [r \in Readers |-> [s \in Subjects |-> 0]] /\ rlate = [r \in Readers |-> {}]
    /\ gone = {} /\ touched = {} /\ shown = {} /\ told = {} /\ left = Calls

To(c, p) == pc' = [pc EXCEPT ![c] = p]

Begin(c) ==
    /\ pc[c] = "idle" /\ left > 0 /\ left' = left - 1
    /\ \E s \in Subjects : subj' = [subj EXCEPT ![c] = s] /\ late' = [late EXCEPT ![c] = s \in gone]
    /\ did' = [did EXCEPT ![c] = <<>>] /\ key' = [key EXCEPT ![c] = 0]
    /\ To(c, "get")
    /\ UNCHANGED <<keys, fresh, log, gone, touched, told, rd>>

Done(c, what) ==
    /\ To(c, "idle")
    /\ told' = told \cup {<<what, late[c], subj[c] \in touched>>}

Encrypt(c, k) ==
    /\ did' = [did EXCEPT ![c] = Append(@, k)]
    /\ To(c, IF Len(did[c]) + 1 = Batch THEN "save" ELSE "get")

\* the engine looks for the key, once per field
Get(c) ==
    /\ pc[c] = "get"
    /\ LET k == keys[subj[c]] IN
       CASE k > 0  -> Encrypt(c, k) /\ UNCHANGED <<fresh, key, told>>
         [] k = -1 -> IF Bug = "plainold" THEN Encrypt(c, 0) /\ UNCHANGED <<fresh, key, told>>
                      ELSE Done(c, "gone") /\ UNCHANGED <<did, fresh, key>>
         [] k = 0  -> /\ key' = [key EXCEPT ![c] = fresh] /\ fresh' = fresh + 1
                      /\ To(c, "set") /\ UNCHANGED <<did, told>>
    /\ UNCHANGED <<keys, log, gone, touched, left, subj, late, rd>>

Set(c) ==
    /\ pc[c] = "set"
    /\ IF keys[subj[c]] = 0 \/ (Bug = "overwrite" /\ keys[subj[c]] > 0)
       THEN keys' = [keys EXCEPT ![subj[c]] = key[c]] /\ Encrypt(c, key[c]) /\ UNCHANGED told
       ELSE /\ UNCHANGED keys
            /\ IF keys[subj[c]] = -1 THEN Done(c, "gone") /\ UNCHANGED did
               ELSE IF Bug = "lostrace" THEN Done(c, "fail") /\ UNCHANGED did
               ELSE IF Bug = "ownkey" THEN Encrypt(c, key[c]) /\ UNCHANGED told
               ELSE To(c, "get") /\ UNCHANGED <<did, told>>
    /\ UNCHANGED <<fresh, key, log, gone, touched, left, subj, late, rd>>

Save(c) ==
    /\ pc[c] = "save"
    /\ log' = log \o [i \in 1..Batch |-> [s |-> subj[c], key |-> did[c][i]]]
    /\ Done(c, "ok")
    /\ UNCHANGED <<keys, fresh, key, did, gone, touched, left, subj, late, rd>>

\* deletion begins and takes effect, and is acknowledged later
Forget(s) ==
    /\ s \notin touched /\ touched' = touched \cup {s}
    /\ keys' = [keys EXCEPT ![s] = IF Bug = "notomb" THEN 0 ELSE -1]
    /\ UNCHANGED <<fresh, log, gone, left, sv, rd>>
Ack(s) ==
    /\ s \in touched \ gone /\ gone' = gone \cup {s}
    /\ UNCHANGED <<keys, fresh, log, touched, left, sv, rd>>

Open(r) ==
    /\ rpc[r] = "idle" /\ Len(log) > 0 /\ left > 0 /\ left' = left - 1
    /\ rpc' = [rpc EXCEPT ![r] = "read"]
    /\ view' = [view EXCEPT ![r] = Len(log)]
    /\ at' = [at EXCEPT ![r] = 1]
    /\ rkey' = [rkey EXCEPT ![r] = keys]
    /\ rlate' = [rlate EXCEPT ![r] = gone]
    /\ UNCHANGED <<keys, fresh, log, memo, gone, touched, shown, sv>>

\* the next record is handed out; late: this happens after the subject was gone
Look(r) ==
    /\ rpc[r] = "read"
    /\ LET x == log[at[r]]
           k == IF Bug = "onelook" THEN rkey[r][x.s] ELSE keys[x.s]
           plain == x.key = 0 \/ (k > 0 /\ k = x.key) \/ at[r] \in memo
           what == IF plain THEN "plain" ELSE IF k = -1 THEN "redacted" ELSE "garbage"
       IN /\ shown' = shown \cup {<<what, x.s \in gone, x.s \in touched>>}
          /\ memo' = IF plain /\ Bug = "memo" THEN memo \cup {at[r]} ELSE memo
    /\ IF at[r] = view[r] THEN rpc' = [rpc EXCEPT ![r] = "idle"] /\ UNCHANGED at
       ELSE at' = [at EXCEPT ![r] = @ + 1] /\ UNCHANGED rpc
    /\ UNCHANGED <<keys, fresh, log, view, rkey, rlate, gone, touched, left, sv>>

Next == \/ \E c \in Savers : Begin(c) \/ Get(c) \/ Set(c) \/ Save(c)
        \/ \E s \in Subjects : Forget(s) \/ Ack(s)
        \/ \E r \in Readers : Open(r) \/ Look(r)
Spec == Init /\ [][Next]_vars

\* nothing is ever stored readable without a key
Sealed == \A i \in 1..Len(log) : log[i].key > 0
\* who was not forgotten is readable with the key there is
Readable == \A i \in 1..Len(log) : log[i].s \notin touched => log[i].key = keys[log[i].s]
\* who was forgotten is not, by anyone, from the acknowledgement on
Shredded == \A x \in shown : ~(x[1] = "plain" /\ x[2]) /\ (x[1] # "plain" => x[1] = "redacted" /\ x[3])
\* no save that begins after that succeeds; others fail for no other reason
Honest == \A x \in told : (x[2] => x[1] = "gone") /\ (x[1] = "gone" => x[3]) /\ x[1] # "fail"
=============================================================================
