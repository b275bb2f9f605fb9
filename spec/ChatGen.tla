------------------------------ MODULE ChatGen ------------------------------
(***************************************************************************)
(* Generates conversations to be held in the real chat application.  On    *)
(* the way it is a model of the design: commands handled one after the     *)
(* other, the processor following at once; see GenInv.                     *)
(***************************************************************************)
EXTENDS Chat, Json, TLC

CONSTANTS NS, NT, Depth, Mode

VARIABLE script
genVars == <<chatVars, script>>

Pick(S) == RandomElement(S)
Weighted(seq) == seq[Pick(1..Len(seq))]

GenInit == ChatInit /\ script = <<>>

Cmd(kind, r, u) ==
    [t |-> IF kind = "BadMessage" THEN "SendMessageToRoom" ELSE kind, room |-> ToString(r), user |-> ToString(u), x |-> "", bad |-> kind = "BadMessage"]

At(lg, st) == {i \in 1..Len(lg) : lg[i].st = st /\ i \notin gone}
WarnedIn(lg, u) == Cardinality({i \in 1..Len(lg) : lg[i].t = "UserWasWarned" /\ lg[i].user = u})

\* what the processor adds to the log after message m
Reaction(m) ==
    LET e(t, st) == [t |-> t, room |-> m.room, user |-> m.user, x |-> "", bad |-> FALSE, st |-> st]
    IN IF WarnedIn(log, m.user) >= Threshold
       THEN <<e("UserWasRemovedFromRoom", m.st), e("UserWasBannedFromRoom", m.st)>>
       ELSE <<e("PrivateMessageWasSentToRoom", m.st), e("UserWasWarned", UserStream(m.user))>>

Do(c) ==
    LET out == Decide(c, InStream(StreamOf(c)))
    IN log' = log \o out \o (IF out # <<>> /\ out[1].t = "MessageWasSentToRoom" /\ out[1].bad THEN Reaction(out[1]) ELSE <<>>)

Kinds == <<"OnBoardUser", "OnBoardUser", "WarnUser", "OnBoardRoom", "OnBoardRoom", "OnBoardRoom", "JoinRoom", "JoinRoom", "JoinRoom",
           "SendMessageToRoom", "BadMessage", "BadMessage", "BadMessage", "BadMessage", "SendPrivateMessageToRoom", "BanUserFromRoom",
           "RemoveUserFromRoom">>
More == IF Mode = "chatrush" THEN <<"rush", "rush", "rush", "rush">> ELSE <<"delroom", "deluser", "rush">>

GenNext ==
    /\ Len(script) < Depth
    /\ \E kind \in {Weighted(Kinds \o More)} : \E r \in {Pick(1..NS)} : \E u \in {Pick(1..NT)} : \E n \in {Pick(1..12)} :
         /\ script' = Append(script, [op |-> kind, s |-> r, t |-> u, n |-> n, exp |-> 0, fail |-> "none", pos |-> Pick(1..4)])
         /\ CASE kind = "delroom" -> gone' = gone \cup InStream(RoomStream(ToString(r))) /\ UNCHANGED log
              [] kind = "deluser" -> gone' = gone \cup InStream(UserStream(ToString(u))) /\ UNCHANGED log
              [] kind = "rush"    -> UNCHANGED <<log, gone>>
              [] OTHER            -> Do(Cmd(kind, r, u)) /\ UNCHANGED gone
    /\ UNCHANGED <<view, proc, run>>

GenSpec == GenInit /\ [][GenNext]_genVars

Emit == (Len(script) = Depth) => PrintT("SCRIPT " \o ToJson(script))

IsIn(lg, i, t) == lg[i].t = t /\ i \notin gone
GenInv ==
    \* nobody joins a room that bans them, or one that does not exist; a user is on-boarded once
    /\ \A j \in 1..Len(log) : IsIn(log, j, "RoomWasJoined") =>
         /\ \E i \in 1..(j - 1) : IsIn(log, i, "RoomWasOnBoarded") /\ log[i].st = log[j].st
         /\ ~\E i \in 1..(j - 1) : IsIn(log, i, "UserWasBannedFromRoom") /\ log[i].st = log[j].st /\ log[i].user = log[j].user
    /\ \A i, j \in 1..Len(log) : i # j /\ IsIn(log, i, "UserWasOnBoarded") /\ IsIn(log, j, "UserWasOnBoarded") => log[i].st # log[j].st
=============================================================================
