----------------------------- MODULE ChatTrace -----------------------------
(***************************************************************************)
(* Validates runs of the real chat application.  Facts:                    *)
(*   ext    ev  (an event saved by others)    del   st                     *)
(*   ready  the application was constructed: its projection has taken in   *)
(*          everything, its processor is given what comes from now on      *)
(*   begin  p, c          ret  p, out         (commands of users)          *)
(*   sread  st, n         ssave  ev           (what dispatches do)         *)
(*   acc    who (1 projection, 2 processor), g, ph ("begin" | "end")       *)
(*   calm   everything was delivered and handled                           *)
(***************************************************************************)
EXTENDS Chat, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
vars == <<chatVars, l>>

Init == ChatInit /\ l = 1

Ev(e) == [t |-> e.t, room |-> e.room, user |-> e.user, x |-> e.x, bad |-> e.bad, st |-> e.st]
Live == (1..Len(log)) \ gone

Reset(t) ==
    /\ t.e = "reset"
    /\ log' = <<>> /\ gone' = {} /\ view' = [done |-> {}, cur |-> 0] /\ proc' = NoProc /\ run' = <<>>

Ext(t) == t.e = "ext" /\ log' = Append(log, Ev(t.ev)) /\ UNCHANGED <<gone, view, proc, run>>
Del(t) == t.e = "del" /\ gone' = gone \cup InStream(t.st) /\ UNCHANGED <<log, view, proc, run>>

Ready(t) ==
    /\ t.e = "ready"
    /\ view.cur = 0 /\ Live \subseteq view.done
    /\ proc' = [NoProc EXCEPT !.pos = Len(log)]
    /\ UNCHANGED <<log, gone, view, run>>

BeginCmd(t) ==
    /\ t.e = "begin"
    /\ run' = Put(run, t.p, Begun(t.c))
    /\ UNCHANGED <<log, gone, view, proc>>

Ret(t) ==
    /\ t.e = "ret"
    /\ Over(run[t.p])
    /\ Len(t.out) = Len(run[t.p].saved)
    /\ \A i \in 1..Len(t.out) : Ev(t.out[i]) = run[t.p].saved[i]
    /\ run' = [p \in DOMAIN run \ {t.p} |-> run[p]]
    /\ UNCHANGED <<log, gone, view, proc>>

SRead(t) ==
    /\ t.e = "sread"
    /\ t.n = Cardinality(InStream(t.st))
    /\ UNCHANGED <<log, gone, view>>
    /\ \/ \E p \in DOMAIN run : Reads(run[p], t.st) /\ run' = [run EXCEPT ![p] = Decided(@)] /\ UNCHANGED proc
       \/ /\ proc.busy /\ Over(proc.d) /\ UNCHANGED run
          /\ \E cs \in (IF proc.open THEN Verdicts(proc.pos) ELSE {proc.todo} \ {<<>>}) :
                LET n == ProcNext(cs) IN Reads(n.d, t.st) /\ proc' = [n EXCEPT !.d = Decided(@)]

SSave(t) ==
    /\ t.e = "ssave"
    /\ log' = Append(log, Ev(t.ev))
    /\ UNCHANGED <<gone, view>>
    /\ \/ \E p \in DOMAIN run : Saves(run[p], Ev(t.ev)) /\ run' = [run EXCEPT ![p] = Saved(@)] /\ UNCHANGED proc
       \/ Saves(proc.d, Ev(t.ev)) /\ proc' = [proc EXCEPT !.d = Saved(@)] /\ UNCHANGED run

Acc(t) ==
    /\ t.e = "acc"
    /\ UNCHANGED <<log, gone, run>>
    /\ CASE t.who = 1 /\ t.ph = "begin" -> ViewBegin(t.g) /\ UNCHANGED proc
         [] t.who = 1 /\ t.ph = "end"   -> ViewEnd(t.g) /\ UNCHANGED proc
         [] t.who = 2 /\ t.ph = "begin" -> ProcBegin(t.g) /\ UNCHANGED view
         [] OTHER                       -> ProcEnd(t.g) /\ UNCHANGED view

Calm(t) ==
    /\ t.e = "calm"
    /\ proc.pos = Len(log) /\ ~proc.busy
    /\ view.cur = 0 /\ Live \subseteq view.done
    /\ UNCHANGED chatVars

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET t == Trace[l] IN Reset(t) \/ Ext(t) \/ Del(t) \/ Ready(t) \/ BeginCmd(t) \/ Ret(t) \/ SRead(t) \/ SSave(t) \/ Acc(t) \/ Calm(t)

Spec == Init /\ [][Next]_vars

Progress ==
    /\ (IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE)
    /\ (IF l = Len(Trace) + 1 THEN PrintT("TRACE-ACCEPTED") /\ TLCSet("exit", TRUE) ELSE TRUE)
ASSUME TLCSet(1, 0)
Report == PrintT(<<"MAXLINE", TLCGet(1)>>)
=============================================================================
