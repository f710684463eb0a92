--------------------------- MODULE RecordSession ---------------------------
(***************************************************************************)
(* L03.  Sessions are recorded until the page is closed: each is announced *)
(* once, the page's cookies are kept for the next time, and the browser is *)
(* closed in the end whatever happened.                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Faults,   \* "none", "launch", "context", "page", "cookies", "bootstrap"
          Incognitos, Ports, Dirs, \* BOOLEAN: incognito asked for, a debugging port given, a place for cookies given
          Stores,   \* what is in the place for cookies: "nothing", "kept", "broken", "empty"
          Sessions, \* sessions the page may be in; "" for none
          MaxTicks, MaxMoves

VARIABLES incognito, port, dir, store, main, result,
          now,      \* the page's session
          told,     \* the sessions announced
          restored, \* whether cookies were restored
          jar,      \* the cookies: how often they have changed
          ticks, moves, launched, private, act
vars == <<incognito, port, dir, store, main, result, now, told, restored, jar, ticks, moves, launched, private, act>>
View == <<incognito, port, dir, store, main, result, now, told, restored, jar, ticks, moves, launched, private>>
Rec == [incognito |-> incognito, port |-> port, dir |-> dir, store |-> store, main |-> main, result |-> result, now |-> now, told |-> told, restored |-> restored, jar |-> jar, ticks |-> ticks, moves |-> moves, launched |-> launched, private |-> private]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))
Fixed == UNCHANGED <<incognito, port, dir>>

Init == /\ incognito \in Incognitos /\ port \in Ports /\ dir \in Dirs /\ store \in Stores /\ (~dir => store = "nothing")
        /\ main = "off" /\ result = "none" /\ now = "" /\ told = <<>> /\ restored = FALSE /\ jar = 0 /\ ticks = 0 /\ moves = 0 /\ launched = FALSE /\ private = FALSE /\ act = [n |-> "init"]
\* an agent can only connect to a window that is not private
Private == incognito /\ ~port
Start(f) ==
  /\ main = "off" /\ act' = [n |-> "start", f |-> f] /\ launched' = (f # "launch") /\ Fixed /\ UNCHANGED <<store, now, told, jar, ticks, moves>>
  /\ private' = (Private /\ f \notin {"launch", "context"}) /\ (f = "cookies" => store = "kept" /\ ~Private) /\ (f = "context" => Private)
  /\ restored' = (store = "kept" /\ ~Private /\ f \in {"none", "bootstrap"})
  /\ IF f = "none" THEN main' = "opening" /\ UNCHANGED result ELSE main' = "ended" /\ result' = "failed"
Loaded(r) ==
  /\ main = "opening" /\ act' = [n |-> "loaded", r |-> r] /\ Fixed /\ UNCHANGED <<store, now, told, restored, jar, ticks, moves, launched, private>>
  /\ IF r = "ok" THEN main' = "recording" /\ UNCHANGED result ELSE main' = "ended" /\ result' = "failed"
\* the page moves on to another session, or none
Move(x) == /\ main \in {"opening", "recording"} /\ x # now /\ moves < MaxMoves /\ moves' = moves + 1 /\ now' = x /\ jar' = jar + 1 /\ act' = [n |-> "move", x |-> x] /\ Fixed /\ UNCHANGED <<store, main, result, told, restored, ticks, launched, private>>
\* once a second the page is asked for its session; k: how that goes
Tick(k) ==
  /\ main = "recording" /\ ticks < MaxTicks /\ ticks' = ticks + 1 /\ act' = [n |-> "tick", k |-> k] /\ Fixed /\ UNCHANGED <<main, result, now, restored, jar, moves, launched, private>>
  /\ IF k = "navigating" \/ k = "odd" THEN UNCHANGED <<told, store>>
     ELSE /\ told' = (IF now # "" /\ now \notin {told[i] : i \in 1..Len(told)} THEN Append(told, now) ELSE told)
          /\ store' = (IF dir /\ ~Private THEN "now" ELSE store)
Close ==
  /\ main \in {"opening", "recording"} /\ act' = [n |-> "close"] /\ Fixed /\ UNCHANGED <<store, now, told, restored, jar, ticks, moves, launched, private>>
  /\ main' = "ended" /\ result' = (IF main = "opening" THEN "failed" ELSE "ok")
\* afterwards the page is not asked any more
After == /\ main = "ended" /\ launched /\ ticks < MaxTicks /\ ticks' = ticks + 1 /\ act' = [n |-> "after"] /\ Fixed /\ UNCHANGED <<store, main, result, now, told, restored, jar, moves, launched, private>>

Next == (\E f \in Faults : Start(f)) \/ (\E r \in {"ok", "fails"} : Loaded(r)) \/ (\E x \in Sessions : Move(x)) \/ (\E k \in {"ok", "navigating", "odd"} : Tick(k)) \/ Close \/ After
Spec == Init /\ [][Next]_vars

Once == \A i, j \in 1..Len(told) : told[i] = told[j] => i = j
\* nothing of a private window is kept, or put there
PrivateStays == private => ~restored /\ store # "now"
Reported == (main = "ended") <=> (result # "none")
NoneLost == [][\A i \in 1..Len(told) : told'[i] = told[i]]_vars
=============================================================================
