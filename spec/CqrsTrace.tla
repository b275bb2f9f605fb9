----------------------------- MODULE CqrsTrace -----------------------------
(***************************************************************************)
(* Validates commands dispatched by the real dispatcher.  Facts:           *)
(*   reg     types, agg, fresh        ext   st, ids (saved by others)      *)
(*   del     st                       look  st, out (the stream now)       *)
(*   begin   p, c, ct, st             ret   p, out                         *)
(*   sread   st, from, out, whole     what the dispatcher read             *)
(*   load    agg, inst, out, whole, stopped                                *)
(*   handle  inst, c, emits           ssave st, ids, exp, r                *)
(***************************************************************************)
EXTENDS Cqrs, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
vars == <<cqrsVars, l>>

Init == CqrsInit /\ l = 1

Step(t) ==
    \/ /\ t.e = "reset"
       /\ logs' = <<>> /\ registry' = <<>> /\ run' = <<>> /\ insts' = {}
    \/ /\ t.e = "reg"
       /\ Register(ToSet(t.types), t.agg, t.fresh) /\ UNCHANGED <<logs, run, insts>>
    \/ /\ t.e = "ext"
       /\ SaveTo(t.st, t.ids) /\ UNCHANGED <<registry, run, insts>>
    \/ /\ t.e = "del"
       /\ DeleteLog(t.st) /\ UNCHANGED <<registry, run, insts>>
    \/ /\ t.e = "look"
       /\ t.out = Stream(t.st) /\ UNCHANGED cqrsVars
    \/ /\ t.e = "begin"
       /\ Begin(t.p, t.c, t.ct, t.st) /\ UNCHANGED <<logs, registry, insts>>
    \/ \E p \in DOMAIN run :
       \/ /\ t.e = "sread"
          /\ ReadStream(p, t.st, t.from, t.out, t.whole) /\ UNCHANGED <<logs, registry, insts>>
       \/ /\ t.e = "load"
          /\ Load(p, t.agg, t.inst, t.out, t.whole, t.stopped) /\ UNCHANGED <<logs, registry>>
       \/ /\ t.e = "handle"
          /\ Handle(p, t.inst, t.c, t.emits) /\ UNCHANGED <<logs, registry, insts>>
       \/ /\ t.e = "ssave"
          /\ Len(t.ids) = 1
          /\ SaveNext(p, t.st, t.ids[1], t.r = "ok") /\ UNCHANGED <<registry, insts>>
       \/ /\ t.e = "ret"
          /\ p = t.p
          /\ t.same
          /\ Return(p, t.out) /\ UNCHANGED <<logs, registry, insts>>

Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])

Spec == Init /\ [][Next]_vars

Progress ==
    /\ (IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE)
    /\ (IF l = Len(Trace) + 1 THEN PrintT("TRACE-ACCEPTED") /\ TLCSet("exit", TRUE) ELSE TRUE)
ASSUME TLCSet(1, 0)
Report == PrintT(<<"MAXLINE", TLCGet(1)>>)
=============================================================================
