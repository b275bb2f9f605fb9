----------------------------- MODULE EventCode -----------------------------
(***************************************************************************)
(* What code generated from the declarations of events, commands and an    *)
(* aggregate does.  An event is a struct whose fields may be marked as     *)
(* personal data of the subject named by another field: a text is replaced *)
(* by its cipher text, a number is stored as cipher text in its target.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES
    decls,  \* the declared events, in order: [name, fields]; a field: [n, ty, mark, to]
    works,  \* is there code for them?
    at,     \* the event at hand is one of decls[at]
    val,    \* its fields: name -> text of the value
    plain,  \* what they were when the event was made
    st,     \* "plain" | "enc" | "redacted"
    gone    \* subjects whose key was removed

codeVars == <<decls, works, at, val, plain, st, gone>>

ToSet(s)   == {s[i] : i \in 1..Len(s)}
Fields(d)  == ToSet(d.fields)
Personal(d) == {f \in Fields(d) : f.mark \in {"personal", "number"}}
Subjects(d) == {f \in Fields(d) : f.mark = "subject"}
Targets(d)  == {f.to : f \in {g \in Fields(d) : g.mark = "number"}}

\* can everything marked be protected?
Supported(d) ==
    Personal(d) # {} =>
        /\ Cardinality(Subjects(d)) = 1
        /\ \A f \in Subjects(d) : f.ty = "string"
        /\ \A f \in Personal(d) :
              IF f.mark = "personal" THEN f.ty = "string"
              ELSE /\ f.ty = "int"
                   /\ \E g \in Fields(d) : g.n = f.to /\ g.ty = "string" /\ g.mark = ""
                   /\ \A g \in Personal(d) : g # f => g.to # f.to

SubjectOf(d) == val[(CHOOSE f \in Subjects(d) : TRUE).n]
Cipher(s, x) == "{" \o s \o ":" \o x \o "}"

\* exactly what is marked is replaced
Encrypted(d, v) ==
    [n \in DOMAIN v |->
        LET f == CHOOSE g \in Fields(d) : g.n = n IN
        CASE f.mark = "personal" -> Cipher(SubjectOf(d), v[n])
          [] f.mark = "number"   -> "0"
          [] n \in Targets(d)    -> Cipher(SubjectOf(d), v[(CHOOSE g \in Fields(d) : g.mark = "number" /\ g.to = n).n])
          [] OTHER               -> v[n]]

\* nothing personal is left (of a number that was encrypted, the cipher text may remain)
IsRedacted(d, v, w) ==
    \A f \in Fields(d) :
        CASE f.mark = "personal" -> w[f.n] = ""
          [] f.mark = "number"   -> w[f.n] = "0"
          [] f.n \in Targets(d)  -> w[f.n] \in {v[f.n], ""}
          [] OTHER               -> w[f.n] = v[f.n]

\* the outcome of a call while the n-th use of a key (0: none) fails in this way
Outcome(d, n, how, needs) ==
    CASE Personal(d) = {} -> "ok"
      [] SubjectOf(d) \in gone -> IF n = 1 THEN how ELSE "del"
      [] st # needs -> IF n = 1 THEN how ELSE "oth"
      [] n >= 1 /\ n <= Cardinality(Personal(d)) -> how
      [] OTHER -> "ok"

CodeInit == decls = <<>> /\ works = FALSE /\ at = 0 /\ val = <<>> /\ plain = <<>> /\ st = "plain" /\ gone = {}

Declare(ds) ==
    /\ decls' = ds
    /\ works' = \A i \in 1..Len(ds) : Supported(ds[i])
    /\ UNCHANGED <<at, val, plain, st, gone>>

Make(i, v) ==
    /\ works /\ i \in 1..Len(decls)
    /\ DOMAIN v = {f.n : f \in Fields(decls[i])}
    /\ at' = i /\ val' = v /\ plain' = v /\ st' = "plain"
    /\ UNCHANGED <<decls, works, gone>>

\* r is the outcome, w the fields afterwards
Encrypt(n, how, r, w) ==
    LET d == decls[at] IN
    /\ at # 0 /\ st = "plain"
    /\ r = Outcome(d, n, how, "plain")
    /\ CASE r = "ok"  -> w = Encrypted(d, val) /\ st' = (IF Personal(d) = {} THEN "plain" ELSE "enc")
         [] r = "del" -> IsRedacted(d, val, w) /\ st' = "redacted"
         [] OTHER     -> w = val /\ st' = st
    /\ val' = w /\ UNCHANGED <<decls, works, at, plain, gone>>

Decrypt(n, how, r, w) ==
    LET d == decls[at] IN
    /\ at # 0
    /\ r = Outcome(d, n, how, "enc")
    /\ CASE r = "ok"  -> w = plain /\ st' = "plain"
         [] r = "del" -> IsRedacted(d, val, w) /\ st' = "redacted"
         [] OTHER     -> w = val /\ st' = st
    /\ val' = w /\ UNCHANGED <<decls, works, at, plain, gone>>

Forget(s) == gone' = gone \cup {s} /\ UNCHANGED <<decls, works, at, val, plain, st>>

\* what an aggregate does with what it loads: everything it knows, until an error
RECURSIVE Applied(_)
Applied(in) ==
    IF in = <<>> \/ in[1].k = "!" THEN <<>>
    ELSE (IF in[1].k = "" THEN <<>> ELSE <<in[1].k \o ":" \o in[1].v>>) \o Applied(Tail(in))

\* encrypting and decrypting gives back what there was, and a removed subject is not found in it
CodeInv ==
    /\ at # 0 /\ st = "plain" => val = plain
    /\ at # 0 /\ st = "redacted" => \A f \in Fields(decls[at]) : f.mark = "personal" => val[f.n] = ""
=============================================================================
