---------------------------- MODULE RecordStream ----------------------------
(***************************************************************************)
(* A list of records exported as a stream of bytes, and what importing     *)
(* (a part of) the stream must give.  Records are opaque; ends[i] is the   *)
(* number of bytes after which record i is complete.                       *)
(*   json     a list: closed, so every cut is noticed                      *)
(*   ndjson   records separated by newlines                                *)
(*   msgpack  records one after the other                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

VARIABLE file   \* [fmt, ks, ends, len, closed]

NoFile == [fmt |-> "none", ks |-> <<>>, ends |-> <<>>, len |-> 0, closed |-> FALSE]
StreamInit == file = NoFile

\* records that are complete within the first n bytes
Within(n) == Cardinality({i \in 1..Len(file.ends) : file.ends[i] <= n})

\* may a stream that ends after n bytes be taken for complete?
Boundary(n) ==
    \/ n = file.len /\ file.closed
    \/ n = 0
    \/ file.fmt # "json" /\ \E i \in 1..Len(file.ends) : n = file.ends[i]
    \/ file.fmt = "ndjson" /\ \E i \in 1..Len(file.ends) : n = file.ends[i] + 1

\* The stream ends after n bytes.
ReadsCut(n, r, out) ==
    IF Boundary(n) THEN r = "ok" /\ out = SubSeq(file.ks, 1, Within(n))
                   ELSE r = "err" /\ IsPrefix(out, SubSeq(file.ks, 1, Within(n)))

\* The stream breaks after n bytes, or holds nonsense from byte n on.
ReadsBroken(n, r, out) ==
    \/ r = "err" /\ IsPrefix(out, SubSeq(file.ks, 1, Within(n)))
    \/ file.fmt = "json" /\ file.closed /\ n >= file.len /\ r = "ok" /\ out = file.ks
=============================================================================
