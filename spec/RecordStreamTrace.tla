------------------------- MODULE RecordStreamTrace -------------------------
(***************************************************************************)
(* Validates exports and imports by the real record streams and            *)
(* serializers.  Facts:                                                    *)
(*   write  fmt, ks, src (records given before the source failed, -1: it   *)
(*          did not), sink (the writer failed), r; len, ends as written    *)
(*   read   how: "cut" (ends after n bytes) | "broken"; n, r, out          *)
(*   ser    one record k serialized in len bytes and read back from the    *)
(*          first n of them: r, out                                        *)
(***************************************************************************)
EXTENDS RecordStream, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
vars == <<file, l>>

Init == StreamInit /\ l = 1

Reset(t) == t.e = "reset" /\ file' = NoFile

Write(t) ==
    /\ t.e = "write"
    /\ (t.r = "ok") = (t.src < 0 /\ ~t.sink)
    /\ t.r \in {"ok", "err"}
    /\ file' = [fmt |-> t.fmt, ks |-> t.ks, ends |-> t.ends, len |-> t.len, closed |-> t.r = "ok"]

Read(t) ==
    /\ t.e = "read"
    /\ t.how = "cut" => ReadsCut(t.n, t.r, t.out)
    /\ t.how = "broken" => ReadsBroken(t.n, t.r, t.out)
    /\ UNCHANGED file

\* a serialized record: whole, or an error (a last byte may be dispensable)
Ser(t) ==
    /\ t.e = "ser"
    /\ \/ t.r = "ok" /\ t.out = t.k /\ t.n >= t.len - 1
       \/ t.r = "err" /\ t.n < t.len
    /\ UNCHANGED file

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET t == Trace[l] IN Reset(t) \/ Write(t) \/ Read(t) \/ Ser(t)

Spec == Init /\ [][Next]_vars

Progress ==
    /\ (IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE)
    /\ (IF l = Len(Trace) + 1 THEN PrintT("TRACE-ACCEPTED") /\ TLCSet("exit", TRUE) ELSE TRUE)
ASSUME TLCSet(1, 0)
Report == PrintT(<<"MAXLINE", TLCGet(1)>>)
=============================================================================
