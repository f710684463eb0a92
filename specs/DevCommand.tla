----------------------------- MODULE DevCommand -----------------------------
(***************************************************************************)
(* K01.  `meticulous record backend`: the recorder is brought up, and the  *)
(* dev command runs alongside it - or without it, for a recorder that does *)
(* not start is no reason not to run the dev command.  Signals are the dev *)
(* command's; its end is the recorder's end, and its exit code is passed   *)
(* on.  On its own, a recorder that does not start is an error.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Modes,   \* "wrapped", "only", "noseparator"
          Kinds,   \* of dev command: "dev", "pages", "other"
          Tokens,  \* where the recording token is from: "given", "project", "none" (no such project), "blank" (it has none)
          Signals, Codes, MaxSignals, MaxTicks

VARIABLES ph,      \* "off", "fetching", "starting", "running", "draining", "ended"
          mode, kind, inj, tok, port, obeys,
          rec,     \* "no", "up": whether it came up
          sc, scs, \* the recorder's process: "none", "running", "ended"; how many there were
          dev, fresh, \* the dev command: "none", "running", "ended"; just spawned
          got,     \* the signals it was sent
          due,     \* ticks until it is killed, 0: not at all
          code, ended, reported, sigs, ticks, act
vars == <<ph, mode, kind, inj, tok, port, obeys, rec, sc, scs, dev, fresh, got, due, code, ended, reported, sigs, ticks, act>>
View == <<ph, mode, kind, inj, tok, port, obeys, rec, sc, scs, dev, fresh, got, due, code, ended, reported, sigs, ticks>>
Rec == [ph |-> ph, mode |-> mode, kind |-> kind, inj |-> inj, tok |-> tok, port |-> port, obeys |-> obeys, rec |-> rec, sc |-> sc, scs |-> scs, dev |-> dev, fresh |-> fresh, got |-> got, due |-> due, code |-> code, ended |-> ended, reported |-> reported, sigs |-> sigs, ticks |-> ticks]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Init == ph = "off" /\ mode = "" /\ kind = "" /\ inj = TRUE /\ tok = "" /\ port = "" /\ obeys = TRUE /\ rec = "no" /\ sc = "none" /\ scs = 0 /\ dev = "none" /\ fresh = FALSE /\ got = <<>> /\ due = 0 /\ code = 0 /\ ended = "" /\ reported = 0 /\ sigs = 0 /\ ticks = 0 /\ act = [n |-> "init"]

End(e) == ph' = "ended" /\ ended' = e
\* the recorder does not come up; unexpected: that is a bug, and reported as one
NoRecorder(unexpected) ==
  /\ reported' = reported + (IF unexpected THEN 1 ELSE 0)
  /\ IF mode' = "wrapped" THEN ph' = "running" /\ dev' = "running" /\ fresh' = TRUE /\ UNCHANGED ended ELSE End("exit 1") /\ UNCHANGED <<dev, fresh>>

Start(m, k, i, t, o) ==
  /\ (t # "given" => k = "dev" /\ i) /\ (~i => k # "other") /\ (m # "wrapped" => k = "dev" /\ o) \* combined only where that tells something
  /\ ph = "off" /\ mode' = m /\ kind' = k /\ inj' = i /\ tok' = t /\ obeys' = o /\ act' = [n |-> "start"] /\ UNCHANGED <<port, rec, sc, scs, got, due, code, sigs, ticks>>
  /\ IF m = "noseparator" THEN End("exit 1") /\ UNCHANGED <<dev, fresh, reported>>
     ELSE IF t \in {"none", "blank"} THEN NoRecorder(FALSE)
     ELSE ph' = "fetching" /\ UNCHANGED <<dev, fresh, ended, reported>>
\* the recorder is downloaded, and its port is free or taken
Fetched(p) ==
  /\ ph = "fetching" /\ port' = p /\ act' = [n |-> "fetched", p |-> p] /\ UNCHANGED <<mode, kind, inj, tok, obeys, rec, got, due, code, sigs, ticks>>
  /\ IF p = "busy" /\ mode = "only" THEN NoRecorder(FALSE) /\ UNCHANGED <<sc, scs>>
     ELSE ph' = "starting" /\ sc' = "running" /\ scs' = 1 /\ UNCHANGED <<dev, fresh, ended, reported>>
NotFetched == ph = "fetching" /\ UNCHANGED <<mode, kind, inj, tok, port, obeys, rec, sc, scs, got, due, code, sigs, ticks>> /\ NoRecorder(TRUE) /\ act' = [n |-> "notfetched"]
Healthy ==
  /\ ph = "starting" /\ ph' = "running" /\ rec' = "up" /\ (IF mode = "wrapped" THEN dev' = "running" /\ fresh' = TRUE ELSE UNCHANGED <<dev, fresh>>) /\ act' = [n |-> "healthy"]
  /\ UNCHANGED <<mode, kind, inj, tok, port, obeys, sc, scs, got, due, code, ended, reported, sigs, ticks>>
Unhealthy == /\ ph = "starting" /\ sc' = "ended" /\ UNCHANGED <<mode, kind, inj, tok, port, obeys, rec, scs, got, due, code, sigs, ticks>> /\ NoRecorder(FALSE) /\ act' = [n |-> "unhealthy"]

\* the dev command has ended: what the recorder holds is sent, and it is stopped
Drain(c) == code' = c /\ IF rec = "up" /\ sc = "running" THEN ph' = "draining" /\ UNCHANGED <<ended, sc>> ELSE End(IF c = 0 THEN "exit 0" ELSE "exit " \o ToString(c)) /\ UNCHANGED sc
Signal(s) ==
  /\ ph \notin {"off", "ended"} /\ sigs < MaxSignals /\ sigs' = sigs + 1 /\ act' = [n |-> "signal", s |-> s] /\ UNCHANGED <<mode, kind, inj, tok, port, obeys, rec, scs, reported, ticks>> /\ fresh' = FALSE
  /\ CASE ph \in {"fetching", "starting"} -> End("signal " \o s) /\ sc' = (IF sc = "running" THEN "ended" ELSE sc) /\ UNCHANGED <<dev, got, due, code>>
       [] ph = "running" /\ mode = "only" -> Drain(0) /\ UNCHANGED <<dev, got, due>>
       [] ph = "running" /\ mode = "wrapped" -> got' = Append(got, s) /\ (IF obeys THEN dev' = "ended" /\ Drain(1) /\ UNCHANGED due ELSE due' = (IF due = 0 THEN 2 ELSE due) /\ UNCHANGED <<dev, ph, ended, sc, code>>)
       [] OTHER -> UNCHANGED <<dev, got, due, code, ph, ended, sc>>
Tick ==
  /\ ph = "running" /\ dev = "running" /\ ticks < MaxTicks /\ ticks' = ticks + 1 /\ fresh' = FALSE /\ act' = [n |-> "tick"] /\ UNCHANGED <<mode, kind, inj, tok, port, obeys, rec, scs, reported, sigs>>
  /\ IF due = 1 THEN due' = 0 /\ got' = Append(got, "SIGKILL") /\ dev' = "ended" /\ Drain(1)
     ELSE due' = (IF due = 0 THEN 0 ELSE due - 1) /\ UNCHANGED <<got, dev, ph, ended, sc, code>>
DevExits(c) == /\ ph = "running" /\ dev = "running" /\ dev' = "ended" /\ fresh' = FALSE /\ Drain(c) /\ act' = [n |-> "exit", c |-> c] /\ UNCHANGED <<mode, kind, inj, tok, port, obeys, rec, scs, got, due, reported, sigs, ticks>>
DevKilled == /\ ph = "running" /\ dev = "running" /\ dev' = "ended" /\ fresh' = FALSE /\ Drain(1) /\ act' = [n |-> "killed"] /\ UNCHANGED <<mode, kind, inj, tok, port, obeys, rec, scs, got, due, reported, sigs, ticks>>
DevMissing == /\ ph = "running" /\ fresh /\ dev' = "ended" /\ fresh' = FALSE /\ Drain(1) /\ act' = [n |-> "missing"] /\ UNCHANGED <<mode, kind, inj, tok, port, obeys, rec, scs, got, due, reported, sigs, ticks>>
\* the recorder exits: it is restarted once, and that is nothing to the dev command
Crash == /\ ph = "running" /\ rec = "up" /\ sc = "running" /\ (IF scs = 1 THEN scs' = 2 /\ UNCHANGED sc ELSE sc' = "ended" /\ UNCHANGED scs) /\ fresh' = FALSE /\ act' = [n |-> "crash"] /\ UNCHANGED <<ph, mode, kind, inj, tok, port, obeys, rec, dev, got, due, code, ended, reported, sigs, ticks>>
Flushed == /\ ph = "draining" /\ End("exit " \o ToString(code)) /\ sc' = "ended" /\ act' = [n |-> "flushed"] /\ UNCHANGED <<mode, kind, inj, tok, port, obeys, rec, scs, dev, fresh, got, due, code, reported, sigs, ticks>>

Next == (\E m \in Modes, k \in Kinds, i \in BOOLEAN, t \in Tokens, o \in BOOLEAN : Start(m, k, i, t, o)) \/ (\E p \in {"free", "busy"} : Fetched(p)) \/ NotFetched \/ Healthy \/ Unhealthy \/ (\E s \in Signals : Signal(s))
        \/ Tick \/ (\E c \in Codes : DevExits(c)) \/ DevKilled \/ DevMissing \/ Crash \/ Flushed
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* the dev command runs whatever becomes of the recorder
DevRuns == (mode = "wrapped" /\ ph \in {"running", "draining", "ended"} /\ ended \notin {"signal SIGINT", "signal SIGTERM", "signal SIGHUP"}) => dev # "none"
\* its end comes first, and it is not ended by the recorder's
RecorderLast == [][(sc = "running" /\ sc' = "ended" /\ ph = "draining") => dev # "running"]_vars
NotForTheRecorder == [][(act'.n = "crash") => dev' = dev /\ ended' = ended]_vars
NothingLeft == ended # "" => (sc # "running" /\ dev # "running")
CodePassedOn == [][(act'.n = "exit" /\ ended' # "") => ended' = "exit " \o ToString(act'.c)]_vars
KilledLast == [][(Len(got') > Len(got) /\ got'[Len(got')] = "SIGKILL") => got # <<>>]_vars
=============================================================================
