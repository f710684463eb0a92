-------------------------- MODULE RecorderLoader --------------------------
(***************************************************************************)
(* L01.  A page that loads the recorder, and perhaps before it an early    *)
(* network recorder, with time limits, while their scripts load, fail or   *)
(* stall.                                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Pages,     \* "plain", "test" (already runs as a test), "headless" (a document without a head)
          Options,   \* how the loader was configured; see the driver
          Limits,    \* time limits, in units; 0: none
          Inits,     \* what the recorder's initialisation does
          Intercepts,\* BOOLEAN: whether the page intercepts early
          MaxTicks, MaxStops

VARIABLES page, opt, limit, icept,
          lph,      \* the loader: "no", "loading", "done"
          lres,     \* its outcome: "none", "recorder", "noop"
          late,     \* whether its limit has passed first
          script,   \* its script: "none", "waiting", "loaded", "failed"
          inits,    \* how often the recorder was started
          iph, iscript, istop, active, disposes, since, lsince, ticks, stops, act
vars == <<page, opt, limit, icept, lph, lres, late, script, inits, iph, iscript, istop, active, disposes, since, lsince, ticks, stops, act>>
View == <<page, opt, limit, icept, lph, lres, late, script, inits, iph, iscript, istop, active, disposes, since, lsince, ticks, stops>>
Rec == [page |-> page, opt |-> opt, limit |-> limit, icept |-> icept, lph |-> lph, lres |-> lres, script |-> script, inits |-> inits, iph |-> iph, iscript |-> iscript, active |-> active, disposes |-> disposes, stops |-> stops, late |-> late, istop |-> istop, since |-> since, lsince |-> lsince, ticks |-> ticks]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Bad == {"unversioned", "badurl"} \* configurations that cannot be loaded from
Init == /\ page \in Pages /\ opt \in Options /\ limit \in Limits /\ icept \in Intercepts /\ (limit = 0 => page # "stall")
        /\ lph = "no" /\ lres = "none" /\ late = FALSE /\ script = "none" /\ inits = 0
        /\ iph = "no" /\ iscript = "none" /\ istop = FALSE /\ active = FALSE /\ disposes = 0 /\ since = 0 /\ lsince = 0 /\ ticks = 0 /\ stops = 0 /\ act = [n |-> "init"]
LUN == UNCHANGED <<lph, lres, late, script, inits, lsince>>
IUN == UNCHANGED <<iph, iscript, istop, active, disposes, since>>
Fixed == UNCHANGED <<page, opt, limit, icept>>

Intercept ==
  /\ icept /\ iph = "no" /\ lph = "no" /\ act' = [n |-> "intercept"] /\ Fixed /\ LUN /\ UNCHANGED <<ticks, stops, istop, active, disposes>> /\ since' = 0
  /\ IF page = "headless" THEN iph' = "done" /\ UNCHANGED iscript ELSE iph' = "loading" /\ iscript' = "waiting"
\* the early recorder has begun; if it is not wanted any more it is stopped right away
ILoads ==
  /\ iscript = "waiting" /\ iscript' = "loaded" /\ iph' = "done" /\ act' = [n |-> "iloads"] /\ Fixed /\ LUN /\ UNCHANGED <<ticks, stops, istop, since>>
  /\ IF istop THEN active' = FALSE /\ disposes' = 1 ELSE active' = TRUE /\ UNCHANGED disposes
IFails == /\ iscript = "waiting" /\ iscript' = "failed" /\ iph' = "done" /\ act' = [n |-> "ifails"] /\ Fixed /\ LUN /\ UNCHANGED <<ticks, stops, istop, active, disposes, since>>
\* asked to stop: once what runs is stopped, it is not stopped again
Stop ==
  /\ iph = "done" /\ stops < MaxStops /\ stops' = stops + 1 /\ istop' = TRUE /\ act' = [n |-> "stop"] /\ Fixed /\ LUN /\ UNCHANGED <<ticks, iph, iscript, since>>
  /\ active' = FALSE /\ disposes' = (IF active THEN disposes + 1 ELSE disposes)
Load ==
  /\ lph = "no" /\ (icept => iph = "done") /\ act' = [n |-> "load"] /\ Fixed /\ IUN /\ UNCHANGED <<late, inits, ticks, stops>> /\ lsince' = 0
  /\ IF page = "test" \/ opt \in Bad \/ page = "headless" THEN lph' = "done" /\ lres' = "noop" /\ UNCHANGED script
     ELSE lph' = "loading" /\ script' = "waiting" /\ UNCHANGED lres
Loads(k) ==
  /\ script = "waiting" /\ script' = "loaded" /\ act' = [n |-> "loads", k |-> k] /\ Fixed /\ IUN /\ UNCHANGED <<late, ticks, stops, lsince>> /\ lph' = "done"
  /\ IF late THEN UNCHANGED <<lres, inits>>
     ELSE CASE k = "ok" -> lres' = "recorder" /\ inits' = 1
            [] k = "throws" -> lres' = "noop" /\ inits' = 1
            [] k = "nothing" -> lres' = "noop" /\ UNCHANGED inits
Fails == /\ script = "waiting" /\ script' = "failed" /\ lph' = "done" /\ lres' = "noop" /\ act' = [n |-> "fails"] /\ Fixed /\ IUN /\ UNCHANGED <<late, inits, ticks, stops, lsince>>
Tick ==
  /\ ticks < MaxTicks /\ ticks' = ticks + 1 /\ (iph = "loading" \/ lph = "loading") /\ act' = [n |-> "tick"] /\ Fixed /\ UNCHANGED <<stops, script, inits, iscript, istop, active, disposes>>
  /\ since' = (IF iph = "loading" THEN since + 1 ELSE since) /\ lsince' = (IF lph = "loading" THEN lsince + 1 ELSE lsince)
  /\ iph' = (IF iph = "loading" /\ limit > 0 /\ since + 1 >= limit THEN "done" ELSE iph)
  /\ IF lph = "loading" /\ limit > 0 /\ lsince + 1 >= limit THEN lph' = "done" /\ lres' = "noop" /\ late' = TRUE ELSE UNCHANGED <<lph, lres, late>>
StopRecording == /\ lph = "done" /\ stops < MaxStops /\ stops' = stops + 1 /\ act' = [n |-> "stop-recording"] /\ Fixed /\ LUN /\ IUN /\ UNCHANGED ticks
Next == Intercept \/ ILoads \/ IFails \/ Stop \/ Load \/ Fails \/ Tick \/ StopRecording \/ (\E k \in Inits : Loads(k))
Spec == Init /\ [][Next]_vars
Bounded == /\ (limit > 0 /\ lsince >= limit => lph = "done") /\ (limit > 0 /\ since >= limit => iph = "done")
NeverLate == [][late => inits' = inits]_vars
Once == disposes <= 1 /\ inits <= 1
Stopped == istop => ~active
Settled == [][lres # "none" => lres' = lres \/ (late' /\ lres' = "noop")]_vars
TestsAlone == page = "test" => script = "none" /\ inits = 0
=============================================================================
