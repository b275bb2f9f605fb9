-------------------------------- MODULE Chat --------------------------------
(***************************************************************************)
(* The chat application of examples/chat: rooms and users as event sourced *)
(* aggregates, a projection that counts warnings, and a processor that     *)
(* reacts to messages with restricted words: the first two earn a private  *)
(* message and a warning each, any further one removal and a ban.          *)
(*   log    all events in order; event i has global number i               *)
(*   gone   those that were deleted                                        *)
(*   view   warnings projection: done (events it has taken in), cur (the   *)
(*          one it is taking in, or 0)                                     *)
(*   proc   the processor: pos (last event it was given), busy, low (what  *)
(*          the projection held when it was given), todo (commands to      *)
(*          dispatch; "?" before it has decided), and its dispatch d       *)
(*   run    commands of users under way                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

VARIABLES log, gone, view, proc, run
chatVars == <<log, gone, view, proc, run>>

Idle == [pc |-> "idle"]
NoProc == [pos |-> 0, busy |-> FALSE, low |-> {}, todo |-> <<>>, open |-> FALSE, d |-> Idle]
ChatInit == log = <<>> /\ gone = {} /\ view = [done |-> {}, cur |-> 0] /\ proc = NoProc /\ run = <<>>

InStream(st) == {i \in 1..Len(log) : log[i].st = st /\ i \notin gone}
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

RoomStream(r) == "room!" \o r
UserStream(u) == "user!" \o u
StreamOf(c) == IF c.t \in {"OnBoardUser", "WarnUser"} THEN UserStream(c.user) ELSE RoomStream(c.room)

Event(t, c) == [t |-> t, room |-> c.room, user |-> c.user, x |-> c.x, bad |-> c.bad, st |-> StreamOf(c)]

\* What a command results in, given the events of its stream.
Decide(c, S) ==
    LET has(t) == \E i \in S : log[i].t = t
        banned == \E i \in S : log[i].t = "UserWasBannedFromRoom" /\ log[i].user = c.user
    IN CASE c.t = "OnBoardUser"              -> IF has("UserWasOnBoarded") THEN <<>> ELSE <<Event("UserWasOnBoarded", c)>>
         [] c.t = "WarnUser"                 -> <<Event("UserWasWarned", c)>>
         [] c.t = "OnBoardRoom"              -> <<Event("RoomWasOnBoarded", c)>>
         [] c.t = "JoinRoom"                 -> IF has("RoomWasOnBoarded") /\ ~banned THEN <<Event("RoomWasJoined", c)>> ELSE <<>>
         [] c.t = "SendMessageToRoom"        -> IF has("RoomWasOnBoarded") THEN <<Event("MessageWasSentToRoom", c)>> ELSE <<>>
         [] c.t = "SendPrivateMessageToRoom" -> IF has("RoomWasOnBoarded") THEN <<Event("PrivateMessageWasSentToRoom", c)>> ELSE <<>>
         [] c.t = "BanUserFromRoom"          -> <<Event("UserWasBannedFromRoom", c)>>
         [] c.t = "RemoveUserFromRoom"       -> <<Event("UserWasRemovedFromRoom", c)>>

-----------------------------------------------------------------------------
(* A dispatch: begun -> decided -> its events are saved -> over *)
Begun(c) == [pc |-> "begun", cmd |-> c, todo |-> <<>>, saved |-> <<>>]
Reads(d, st) == d.pc = "begun" /\ st = StreamOf(d.cmd)
Decided(d) == [d EXCEPT !.pc = "decided", !.todo = Decide(d.cmd, InStream(StreamOf(d.cmd)))]
Saves(d, ev) == d.pc = "decided" /\ d.todo # <<>> /\ Head(d.todo) = ev
Saved(d) == [d EXCEPT !.todo = Tail(@), !.saved = Append(@, Head(d.todo))]
Over(d) == d.pc = "idle" \/ (d.pc = "decided" /\ d.todo = <<>>)

-----------------------------------------------------------------------------
(* The processor *)
Command(t, g, x) == [t |-> t, room |-> IF t = "WarnUser" THEN "" ELSE log[g].room, user |-> log[g].user, x |-> x, bad |-> FALSE]
Warn(g) == <<Command("SendPrivateMessageToRoom", g, "you have been warned"), Command("WarnUser", g, "language")>>
Ban(g) == <<Command("RemoveUserFromRoom", g, "language"), Command("BanUserFromRoom", g, "language/3600")>>
Restricted(g) == log[g].t = "MessageWasSentToRoom" /\ log[g].bad
Warnings(u, S) == Cardinality({i \in S : log[i].t = "UserWasWarned" /\ log[i].user = u})
Threshold == 2

ProcBegin(g) ==
    /\ ~proc.busy /\ g = proc.pos + 1 /\ g <= Len(log)
    /\ proc' = [proc EXCEPT !.pos = g, !.busy = TRUE, !.low = view.done, !.open = Restricted(g), !.todo = <<>>, !.d = Idle]

\* it looks at the projection at some time since it was given the message
Verdicts(g) ==
    LET most == view.done \cup (IF view.cur = 0 THEN {} ELSE {view.cur})
        u == log[g].user
    IN (IF Warnings(u, most) >= Threshold THEN {Ban(g)} ELSE {}) \cup
       (IF Warnings(u, proc.low) < Threshold THEN {Warn(g)} ELSE {})

\* its next dispatch
ProcNext(cs) == [proc EXCEPT !.open = FALSE, !.todo = Tail(cs), !.d = Begun(Head(cs))]

ProcEnd(g) ==
    /\ proc.busy /\ g = proc.pos /\ ~proc.open /\ proc.todo = <<>> /\ Over(proc.d)
    /\ proc' = [proc EXCEPT !.busy = FALSE]

(* The projection *)
ViewBegin(g) == view.cur = 0 /\ g \notin view.done /\ (\A i \in view.done : i < g) /\ g <= Len(log) /\ view' = [view EXCEPT !.cur = g]
ViewEnd(g) == view.cur = g /\ view' = [done |-> view.done \cup {g}, cur |-> 0]
=============================================================================
