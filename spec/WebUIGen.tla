------------------------------ MODULE WebUIGen ------------------------------
(***************************************************************************)
(* Generates visits of the web interface while events are saved and        *)
(* streams deleted between the pages. On the way it is a model of the      *)
(* design: see GenInv.                                                     *)
(***************************************************************************)
EXTENDS WebUI, Json, TLC

CONSTANTS NS, NT, Depth, Mode

VARIABLE script,
         showed     \* per walk: indices shown since it began (going back forgets)
genVars == <<logVars, uiVars, script, showed>>

Pick(S) == RandomElement(S)
Weighted(seq) == seq[Pick(1..Len(seq))]
TypeOf(s) == ((s - 1) % NT) + 1

Line(op, s, t, n, p) == [op |-> op, s |-> s, t |-> t, n |-> n, exp |-> 0, fail |-> "none", pos |-> p]
Kinds == IF Mode = "ui" THEN <<"save", "save", "save", "del", "opena", "opens", "next", "next", "next", "next", "next", "prev", "again", "types">>
         ELSE <<"save", "save", "savec", "opena", "opens", "next", "next", "next", "next", "prev", "again", "fail", "fail">>
Pers == <<-1, 0, 1, 1, 1, 2, 2, 3, 3, 5, 9, 10, 999, 1000, 1001, 5000>>
W == 1..3

GenInit == LogInit /\ UIInit /\ script = <<>> /\ showed = NoFun

SaveN(s, n) ==
    /\ AppendBatch(s, [i \in 1..n |-> [k |-> gmax + i, g |-> gmax + i, st |-> s, at |-> TypeOf(s), q |-> LastSeq(s) + i]])
    /\ UNCHANGED <<uiVars, showed>>
Do(op, s, t, n, p) == script' = Append(script, Line(op, s, t, n, p))

Open(w, kind, name, per) ==
    LET x == NewWalk(kind, name, per)
        R == Sel(kind, name, 0)
    IN /\ walks' = Put(walks, w, [x EXCEPT !.next = NextOf(x, R, Len(R))])
       /\ showed' = Put(showed, w, {Index(kind, r) : r \in ToSet(Shown(x, R, Len(R)))})
       /\ UNCHANGED <<logVars, feeds>>
Go(w, how) ==
    LET x == Along(walks[w], how)
        R == Sel(x.kind, x.name, x.from)
        ix == {Index(x.kind, r) : r \in ToSet(Shown(x, R, Len(R)))}
    IN /\ walks' = Put(walks, w, [x EXCEPT !.next = NextOf(x, R, Len(R))])
       /\ showed' = Put(showed, w, {i \in showed[w] : i < x.from} \cup ix)
       /\ UNCHANGED <<logVars, feeds>>

Step(kind, s, t, n, w, per) ==
    CASE kind = "del" /\ Exists(s) -> DeleteStream(s) /\ UNCHANGED <<uiVars, showed>> /\ Do("del", s, t, 0, w)
      [] kind = "opena" -> Open(w, "a", t, per) /\ Do("opena", s, t, per, w)
      [] kind = "opens" -> Open(w, "s", s, per) /\ Do("opens", s, t, per, w)
      [] kind \in {"next", "prev", "again"} /\ w \in DOMAIN walks /\ MayGo(walks[w], kind) -> Go(w, kind) /\ Do(kind, s, t, 0, w)
      [] kind = "fail" /\ w \in DOMAIN walks -> UNCHANGED <<logVars, uiVars, showed>> /\ Do("fail", s, t, n, w)
      [] kind = "types" -> UNCHANGED <<logVars, uiVars, showed>> /\ Do("types", s, t, 0, w)
      [] OTHER -> SaveN(s, n) /\ Do(IF kind = "savec" THEN kind ELSE "save", s, t, n, w)

GenNext ==
    /\ Len(script) < Depth
    /\ \E kind \in {Weighted(Kinds)} : \E s \in {Pick(1..NS)} : \E t \in {Pick(1..NT)} : \E n \in {Pick(1..4)} :
       \E w \in {Pick(W)} : \E per \in {Weighted(Pers)} : Step(kind, s, t, n, w, per)

GenSpec == GenInit /\ [][GenNext]_genVars

Emit == (Len(script) = Depth) => PrintT("SCRIPT " \o ToJson(script))
\* walking along the links shows every event up to there, and the next page begins behind them
GenInv ==
    \A w \in DOMAIN walks : LET x == walks[w] IN
        \A r \in ToSet(Sel(x.kind, x.name, 0)) : LET i == Index(x.kind, r) IN
            /\ x.next > 0 => ((i < x.next) => \/ i \in showed[w]
                                              \/ x.kind = "s" /\ dead # {})
            /\ \A j \in showed[w] : (i < j) => \/ i \in showed[w]
                                               \/ x.kind = "s" /\ dead # {}
=============================================================================
