--------------------------- MODULE EventCodeTrace ---------------------------
(***************************************************************************)
(* Validates what generated code does.  Facts:                             *)
(*   decl   structs declared, r: ok | refused (by the generator) |         *)
(*          nocompile                                                      *)
(*   new    i, vals: an event is made          forget  s: its key is gone  *)
(*   enc, dec   pos, fail: which use of a key fails, and how; r; vals      *)
(*   id     aid, kind, et of the event; ag: aggregate type                 *)
(*   bind   what is bound         cmds  declared commands and their types  *)
(*   load   in: what is loaded, out: what the aggregate applied            *)
(*   handle c, v: a command, out: what the aggregate did, back: its events *)
(***************************************************************************)
EXTENDS EventCode, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
vars == <<codeVars, l>>

Init == CodeInit /\ l = 1

ValsOf(t) == [n \in {x.n : x \in ToSet(t.vals)} |-> (CHOOSE x \in ToSet(t.vals) : x.n = n).v]

Reset(t) ==
    /\ t.e = "reset"
    /\ decls' = <<>> /\ works' = FALSE /\ at' = 0 /\ val' = <<>> /\ plain' = <<>> /\ st' = "plain" /\ gone' = {}

Decl(t) ==
    /\ t.e = "decl"
    /\ Declare(t.structs)
    /\ works' = (t.r = "ok")
    /\ t.r \in {"ok", "refused", "nocompile"}

Still(t) ==
    /\ UNCHANGED codeVars
    /\ works
    /\ CASE t.e = "id"     -> t.aid = val["ID"] /\ t.ag = "thing" /\ t.et = decls[at].name
         [] t.e = "bind"   -> t.out = [i \in 1..Len(decls) |-> decls[i].name]
         [] t.e = "cmds"   -> t.types = t.declared /\ \A x \in ToSet(t.ids) : x = "thing"
         [] t.e = "load"   -> t.out = Applied(t.in)
         [] t.e = "handle" -> t.out = <<t.c \o ":" \o t.v>> /\ t.back = <<decls[1].name \o ":" \o t.v>>
         [] OTHER -> FALSE

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET t == Trace[l] IN
       \/ Reset(t)
       \/ Decl(t)
       \/ t.e = "new" /\ Make(t.i, ValsOf(t))
       \/ t.e = "forget" /\ Forget(t.s)
       \/ t.e = "enc" /\ Encrypt(t.pos, t.fail, t.r, ValsOf(t))
       \/ t.e = "dec" /\ Decrypt(t.pos, t.fail, t.r, ValsOf(t))
       \/ Still(t)

Spec == Init /\ [][Next]_vars

Progress ==
    /\ (IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE)
    /\ (IF l = Len(Trace) + 1 THEN PrintT("TRACE-ACCEPTED") /\ TLCSet("exit", TRUE) ELSE TRUE)
ASSUME TLCSet(1, 0)
Report == PrintT(<<"MAXLINE", TLCGet(1)>>)
=============================================================================
