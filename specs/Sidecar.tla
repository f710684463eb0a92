------------------------------ MODULE Sidecar ------------------------------
(***************************************************************************)
(* K01.  The local recorder's process: started, asked for its health until *)
(* it is well or 15 s have passed, restarted once when it exits, flushed   *)
(* and terminated when asked.  A tick is 5.5 s: 15 s are over within the   *)
(* third, 10 s within the second, and 5 s or 2 s within one.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Healths, \* how a process answers at first: "refused", "bad", "hang", "ok", "error" (cannot be spawned)
          Deaths,  \* how it reacts to being terminated: "obeys", "ignores", "stays" (even when killed)
          Flushes, \* how sending what is buffered goes: "ok", "fails", "hang"
          MaxTicks, MaxFlushes

VARIABLES ph,      \* "off", "starting", "up", "restarting", "gone", "failed"
          health, age, \* the process': how it answers, ticks since it was spawned
          proc,    \* "none", "running", "ended"
          death, spawns, told, \* processes spawned; ends announced
          stp,     \* "no", "flush", "term", "kill", "done"
          fl, sage, sent, \* how flushing goes; ticks in this phase; what the process was sent
          flushes, again, cli, ticks, act
vars == <<ph, health, age, proc, death, spawns, told, stp, fl, sage, sent, flushes, again, cli, ticks, act>>
View == <<ph, health, age, proc, death, spawns, told, stp, fl, sage, sent, flushes, again, cli, ticks>>
Rec == [ph |-> ph, health |-> health, age |-> age, proc |-> proc, death |-> death, spawns |-> spawns, told |-> told, stp |-> stp, fl |-> fl, sage |-> sage, sent |-> sent, flushes |-> flushes, again |-> again, cli |-> cli, ticks |-> ticks]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Init == ph = "off" /\ health = "" /\ age = 0 /\ proc = "none" /\ death = "" /\ spawns = 0 /\ told = 0 /\ stp = "no" /\ fl = "" /\ sage = 0 /\ sent = <<>> /\ flushes = 0 /\ again = 0 /\ cli = "runs" /\ ticks = 0 /\ act = [n |-> "init"]
Live == cli = "runs"
Waiting == ph \in {"starting", "restarting"}
Sent(x) == IF proc = "running" THEN Append(sent, x) ELSE sent

\* a process is spawned, and answers h for now; e: whether spawning failed
Spawned(h) == /\ spawns' = spawns + 1 /\ age' = 0 /\ sent' = <<>> /\ health' = h /\ proc' = (IF h = "error" THEN "ended" ELSE "running")
\* it will not become well any more
Lost == IF ph = "starting" THEN "failed" ELSE "gone"
Start(h, d) ==
  /\ ph = "off" /\ Live /\ death' = d /\ Spawned(h) /\ act' = [n |-> "start", h |-> h, d |-> d] /\ UNCHANGED <<told, stp, fl, sage, flushes, again, cli>>
  /\ IF h = "error" THEN ph' = "failed" /\ ticks' = ticks + 1 ELSE ph' = (IF h = "ok" THEN "up" ELSE "starting") /\ UNCHANGED ticks
Answer(h) == /\ Waiting /\ Live /\ proc = "running" /\ health # h /\ health' = h /\ act' = [n |-> "answer", h |-> h] /\ UNCHANGED <<ph, age, proc, death, spawns, told, stp, fl, sage, sent, flushes, again, cli, ticks>>

\* time passes for one that is being started ...
TickStart ==
  IF ~Waiting THEN UNCHANGED <<ph, age, told>> /\ proc' = proc /\ sent' = sent
  ELSE IF proc = "running" /\ health = "ok" THEN ph' = "up" /\ UNCHANGED <<age, told, proc, sent>>
  ELSE IF proc = "ended" \/ age = 2 THEN
    /\ ph' = Lost /\ told' = (IF ph = "restarting" THEN told + 1 ELSE told) /\ UNCHANGED age
    /\ proc' = (IF death = "stays" THEN proc ELSE "ended") /\ sent' = Sent("SIGKILL")
  ELSE age' = age + 1 /\ UNCHANGED <<ph, told, proc, sent>>
\* ... and for one that is being stopped: what happens then to its health is of no interest
TickStop ==
  /\ UNCHANGED <<told>> /\ age' = (IF Waiting /\ age < 2 THEN age + 1 ELSE age) /\ ph' = (IF Waiting THEN (IF health = "ok" /\ proc = "running" THEN "up" ELSE IF age = 2 \/ proc = "ended" THEN "gone" ELSE ph) ELSE ph)
  /\ CASE stp = "flush" ->
            IF sage = 0 THEN sage' = 1 /\ UNCHANGED <<stp, proc, sent>>
            ELSE /\ sage' = 0 /\ sent' = Sent("SIGTERM") /\ IF proc = "running" /\ death # "obeys" THEN stp' = "term" /\ UNCHANGED proc ELSE stp' = "done" /\ proc' = "ended"
       [] stp = "term" -> /\ sent' = Sent("SIGKILL") /\ sage' = 0 /\ IF death = "stays" THEN stp' = "kill" /\ UNCHANGED proc ELSE stp' = "done" /\ proc' = "ended"
       [] stp = "kill" -> stp' = "done" /\ UNCHANGED <<proc, sent, sage>>
       [] OTHER -> UNCHANGED <<stp, proc, sent, sage>>
Tick ==
  /\ ticks < MaxTicks /\ ticks' = ticks + 1 /\ Live /\ (Waiting \/ stp \in {"flush", "term", "kill"}) /\ act' = [n |-> "tick"] /\ UNCHANGED <<health, death, spawns, fl, flushes, again, cli>>
  /\ IF stp = "no" THEN TickStart /\ UNCHANGED <<stp, sage>> ELSE TickStop

\* the process exits: well, it is restarted, but once only; and how the next one answers
Exit(h) ==
  /\ proc = "running" /\ ph = "up" /\ stp = "no" /\ Live /\ act' = [n |-> "exit", h |-> h] /\ UNCHANGED <<death, stp, fl, sage, flushes, again, cli>>
  /\ IF spawns = 1 THEN /\ Spawned(h) /\ IF h = "error" THEN ph' = "gone" /\ told' = told + 1 /\ ticks' = ticks + 1 ELSE ph' = (IF h = "ok" THEN "up" ELSE "restarting") /\ UNCHANGED <<told, ticks>>
     ELSE h = "ok" /\ ph' = "gone" /\ told' = told + 1 /\ proc' = "ended" /\ UNCHANGED <<health, age, spawns, sent, ticks>>
\* it exits before it is well - even if a question for its health is still answered
ExitEarly(late) ==
  /\ proc = "running" /\ Waiting /\ stp = "no" /\ Live /\ ticks < MaxTicks /\ ticks' = ticks + 1 /\ act' = [n |-> "exitearly", late |-> late]
  /\ (late => health = "hang" /\ age <= 1) /\ proc' = "ended" /\ ph' = Lost /\ told' = (IF ph = "restarting" THEN told + 1 ELSE told) /\ UNCHANGED <<health, age, death, spawns, stp, fl, sage, sent, flushes, again, cli>>
ExitStopping == /\ proc = "running" /\ stp \in {"flush", "term", "kill"} /\ Live /\ proc' = "ended" /\ act' = [n |-> "exitstopping"]
                /\ IF stp \in {"term", "kill"} THEN stp' = "done" ELSE UNCHANGED stp
                /\ UNCHANGED <<ph, health, age, death, spawns, told, fl, sage, sent, flushes, again, cli, ticks>>

Flush(f) == /\ ph \in {"up", "gone", "restarting"} /\ stp = "no" /\ Live /\ flushes < MaxFlushes /\ f # "hang" /\ flushes' = flushes + 1 /\ act' = [n |-> "flush", f |-> f] /\ UNCHANGED <<ph, health, age, proc, death, spawns, told, stp, fl, sage, sent, again, cli, ticks>>
Stop(f) ==
  /\ ph \in {"up", "gone", "restarting"} /\ stp = "no" /\ Live /\ fl' = f /\ flushes' = flushes + 1 /\ act' = [n |-> "stop", f |-> f] /\ UNCHANGED <<ph, health, age, death, spawns, told, again, cli, ticks>> /\ sage' = 0
  /\ IF f = "hang" THEN stp' = "flush" /\ UNCHANGED <<proc, sent>>
     ELSE /\ sent' = Sent("SIGTERM") /\ IF proc = "running" /\ death # "obeys" THEN stp' = "term" /\ UNCHANGED proc ELSE stp' = "done" /\ proc' = "ended"
StopAgain == /\ stp # "no" /\ Live /\ again < 1 /\ again' = again + 1 /\ act' = [n |-> "stopagain"] /\ UNCHANGED <<ph, health, age, proc, death, spawns, told, stp, fl, sage, sent, flushes, cli, ticks>>
\* the command line tool ends before it has stopped the process: as it wants, or by a signal that nobody handles
CliEnds(k) == /\ Live /\ ph # "off" /\ stp = "no" /\ (k = "signal" => ph = "starting") /\ cli' = k /\ act' = [n |-> "cli", k |-> k] /\ sent' = Sent("SIGTERM") /\ proc' = (IF death = "obeys" THEN "ended" ELSE proc)
              /\ UNCHANGED <<ph, health, age, death, spawns, told, stp, fl, sage, flushes, again, ticks>>

Next == (\E h \in Healths, d \in Deaths : Start(h, d)) \/ (\E h \in {"ok", "refused"} : Answer(h)) \/ Tick \/ (\E h \in Healths : Exit(h)) \/ (\E l \in BOOLEAN : ExitEarly(l)) \/ ExitStopping
        \/ (\E f \in Flushes : Flush(f) \/ Stop(f)) \/ StopAgain \/ (\E k \in {"exit", "signal"} : CliEnds(k))
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* at most one restart, and the end is announced once, unless it was asked for
RestartedOnce == spawns <= 2
ToldOnce == told <= 1
NotToldWhenStopped == [][(stp # "no") => told' = told]_vars
Announced == (ph = "gone" /\ stp = "no") => told = 1
\* it is up only after it was well
UpIfWell == [][(ph' = "up" /\ ph # "up" /\ stp' = "no") => health' = "ok" /\ proc' = "running"]_vars
\* nothing is left behind
NoOrphan == (ph = "failed" \/ stp = "done" \/ cli # "runs" \/ (ph = "gone" /\ stp = "no")) => (proc # "running" \/ sent # <<>>)
\* it is not killed before it was terminated and had its time
TermFirst == [][(stp # "no" /\ Len(sent') > Len(sent) /\ sent'[Len(sent')] = "SIGKILL") => (\E j \in 1..Len(sent) : sent[j] = "SIGTERM")]_vars
FlushedOnce == [][stp # "no" => flushes' = flushes]_vars
=============================================================================
