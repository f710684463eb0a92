---------------------------- MODULE WaitForBase ----------------------------
(***************************************************************************)
(* U03.  Waiting for the run to compare with.  Time is in units of the     *)
(* polling interval (10 s); Window is the allowed time (5 min), to which   *)
(* the latest answer may add.                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Flows,   \* "assets", "chunks", "lookup" (chunks, without a fallback), "image", "imageNoWait"
          Lats,    \* how long a call may take
          Exts,    \* how much longer an answer may allow
          Msgs,    \* the messages that come with an answer (0: none)
          Bursts   \* whether gateway failures occur

VARIABLES flow, phase, \* "initial", "wait", "retry", "fallback", "ok", "failed"
          el, ext,     \* elapsed, and allowed in addition
          g,           \* exhausted attempts of the first call
          fb,          \* fallbacks so far
          res,         \* [run, msg, over] of the last answer
          act
vars == <<flow, phase, el, ext, g, fb, res, act>>
View == <<flow, phase, el, ext, g, fb, res>>
Window == 30
Rec == [flow |-> flow, phase |-> phase, el |-> el, ext |-> ext, g |-> g, fb |-> fb, res |-> res]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))
Nothing == [run |-> FALSE, msg |-> 0, over |-> FALSE]
Init == flow \in Flows /\ phase = "initial" /\ el = 0 /\ ext = 0 /\ g = 0 /\ fb = 0 /\ res = Nothing /\ act = [n |-> "init"]

Calling == phase \in {"initial", "retry", "fallback"}
(* the time after an answer: the clock starts with the first one *)
After(lat) == IF phase = "initial" THEN 0 ELSE el + lat

(* the base is missing, and the server allows e more *)
Missing(lat, e, m) ==
  /\ Calling /\ ext' = e /\ el' = After(lat) /\ UNCHANGED <<flow, g>>
  /\ act' = [n |-> "missing", lat |-> lat, ext |-> e, msg |-> m]
  /\ IF phase = "fallback" \/ flow = "imageNoWait"
     THEN phase' = "ok" /\ fb' = fb /\ res' = [run |-> FALSE, msg |-> m, over |-> FALSE]
     ELSE IF After(lat) > Window + e
          THEN IF flow = "lookup" THEN phase' = "ok" /\ fb' = fb /\ res' = [run |-> FALSE, msg |-> 9, over |-> FALSE] \* 9: timed out
               ELSE phase' = "fallback" /\ fb' = fb + 1 /\ res' = Nothing
          ELSE phase' = "wait" /\ fb' = fb /\ res' = Nothing
(* any other answer ends it, with a run or without *)
Other(lat, run, both, m, over) ==
  /\ Calling /\ (both => run) /\ (over => flow \in {"chunks", "lookup"}) /\ phase' = "ok" /\ el' = After(lat) /\ UNCHANGED <<flow, ext, g, fb>>
  /\ act' = [n |-> "answer", lat |-> lat, run |-> run, both |-> both, msg |-> m, over |-> over]
  /\ res' = [run |-> run, msg |-> m, over |-> over]
Fail(lat) == /\ Calling /\ phase' = "failed" /\ el' = After(lat) /\ act' = [n |-> "fail", lat |-> lat] /\ res' = Nothing /\ UNCHANGED <<flow, ext, g, fb>>
(* every attempt of a call ends in a failure of the gateway, or of the server itself *)
Burst(gateway) ==
  /\ Bursts /\ Calling /\ act' = [n |-> "burst", gateway |-> gateway] /\ UNCHANGED <<flow, el, ext, fb, res>>
  /\ IF flow = "assets" /\ phase = "initial" /\ gateway /\ g < 2 THEN g' = g + 1 /\ phase' = phase ELSE g' = g /\ phase' = "failed"
Wait == /\ phase = "wait" /\ phase' = "retry" /\ el' = el + 1 /\ act' = [n |-> "wait"] /\ UNCHANGED <<flow, ext, g, fb, res>>
Next == \/ \E l \in Lats : (\E e \in Exts, m \in Msgs : Missing(l, e, m)) \/ (\E r \in BOOLEAN, b \in BOOLEAN, o \in BOOLEAN, m \in Msgs : Other(l, r, b, m, o)) \/ Fail(l)
        \/ (\E b \in BOOLEAN : Burst(b)) \/ Wait
Spec == Init /\ [][Next]_vars

AtMostOneFallback == fb <= 1
FallbackOnlyAfterTheWindow == phase = "fallback" => el > Window
Bounded == phase \in {"wait"} => el <= Window + ext
NeverWithoutBase == flow \in {"lookup", "imageNoWait"} => fb = 0
EndIsFinal == [][~(phase \in {"ok", "failed"})]_phase
=============================================================================
