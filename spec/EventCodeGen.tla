---------------------------- MODULE EventCodeGen ----------------------------
(* Generates declarations of events and what is done with them.            *)
EXTENDS EventCode, Json

CONSTANTS NS, NT, Depth, Mode

VARIABLES script, nd
genVars == <<codeVars, script, nd>>

Pick(S) == RandomElement(S)
Weighted(seq) == seq[Pick(1..Len(seq))]

F(n, ty, mark, to) == [n |-> n, ty |-> ty, mark |-> mark, to |-> to]
Op(o) == [op |-> o, s |-> 0, t |-> 0, n |-> 0, fail |-> "", pos |-> 0, key |-> "", fields |-> <<>>]

Kinds == IF Mode = "gbad" THEN <<"personal", "personal", "personal", "number", "number", "number", "string", "int", "nostring", "notarget", "inttarget", "same">>
                          ELSE <<"personal", "personal", "personal", "number", "number", "string", "int">>

\* the fields of kind k at position i (j: position of an earlier target)
Of(k, i) ==
    LET n == "F" \o ToString(i) IN
    CASE k = "personal"  -> <<F(n, "string", "personal", "")>>
      [] k = "number"    -> IF Pick({TRUE, FALSE}) THEN <<F(n, "int", "number", n \o "T"), F(n \o "T", "string", "", "")>>
                                                   ELSE <<F(n \o "T", "string", "", ""), F(n, "int", "number", n \o "T")>>
      [] k = "string"    -> <<F(n, "string", "", "")>>
      [] k = "int"       -> <<F(n, "int", "", "")>>
      [] k = "nostring"  -> <<F(n, "int", "personal", "")>>
      [] k = "notarget"  -> <<F(n, "int", "number", "F9T")>>
      [] k = "inttarget" -> <<F(n, "int", "number", n \o "T"), F(n \o "T", "int", "", "")>>
      [] k = "same"      -> <<F(n, "int", "number", n \o "T"), F(n \o "T", "string", "", ""), F(n \o "U", "int", "number", n \o "T")>>

RECURSIVE Some(_, _)
Some(i, k) == IF i > k THEN <<>> ELSE Of(Weighted(Kinds), i) \o Some(i + 1, k)

\* the subject is the id of the event, or another field before or after the others, or missing
Struct(i) ==
    LET more == Some(1, Pick(0..5))
        id   == F("ID", "string", "", "")
        how  == Weighted(IF Mode = "gbad" THEN <<"id", "id", "first", "last", "none">> ELSE <<"id", "id", "id", "first", "last">>)
        fs   == CASE how = "id"    -> <<[id EXCEPT !.mark = "subject"]>> \o more
                  [] how = "first" -> <<F("Who", "string", "subject", ""), id>> \o more
                  [] how = "last"  -> <<id>> \o more \o <<F("Who", "string", "subject", "")>>
                  [] OTHER         -> <<id>> \o more
    IN [name |-> "E" \o ToString(i), fields |-> fs]

GenInit == CodeInit /\ script = <<>> /\ nd = 0

Values(d, n) == [x \in {f.n : f \in Fields(d)} |-> "v"]

Structs == 1 + Pick(1..3)

Step ==
    IF Len(decls) = 0 THEN
        \E ds \in {[i \in 1..Structs |-> Struct(i)]} :
            /\ Declare(ds)
            /\ script' = [i \in 1..Len(ds) |-> [Op("struct") EXCEPT !.s = i, !.n = Pick(0..999), !.fields = ds[i].fields]]
            /\ UNCHANGED nd
    ELSE \E k \in {Weighted(IF at = 0 \/ st = "redacted" THEN <<"new">>
                            ELSE <<"new", "enc", "enc", "dec", "dec", "encF", "decF", "forget", "load", "handle", "id">>)} :
         /\ nd' = nd + 1
         /\ UNCHANGED <<decls, works, val, plain, gone>>
         /\ \E i \in {Pick(1..Len(decls))} : \E n \in {Pick(0..99)} :
            /\ script' = Append(script, CASE k \in {"encF", "decF"} -> [Op(IF k = "encF" THEN "enc" ELSE "dec") EXCEPT !.pos = 1 + (n % 4), !.fail = IF n % 3 = 0 THEN "del" ELSE "oth"]
                                          [] OTHER -> [Op(k) EXCEPT !.s = i, !.n = n])
            /\ at' = i
            /\ st' = IF k \in {"encF", "decF", "forget"} /\ n % 3 = 0 THEN "redacted" ELSE "plain"

GenNext == Len(script) < Depth /\ Step
GenSpec == GenInit /\ [][GenNext]_genVars

Emit == (Len(script) = Depth) => PrintT("SCRIPT " \o ToJson(script))
GenInv == TRUE
=============================================================================
